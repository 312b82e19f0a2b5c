#include "tls.h"
__thread struct sim_tls tls;
struct sim_tls *sim_tls_ptr(void) { return &tls; }
void sim_preempt(void);
void __sanitizer_cov_trace_pc(void) {
    if (__builtin_expect(tls.on, 0)) {
        if (__builtin_expect(++tls.cnt >= tls.next, 0)) {
            tls.on = 0; /* the scheduler is instrumented as well */
            sim_preempt();
            tls.on = 1;
        }
    }
}
