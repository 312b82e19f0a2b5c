#include <stdint.h>
/* Per-thread simulator state. The layout is mirrored by hooks.rs (TaskTls). */
struct sim_tls {
    uint8_t on;     /* instrumented code counts basic blocks */
    uint8_t track;  /* allocations belong to the code under test */
    uint8_t active; /* inside a call of the code under test */
    uint8_t task;   /* simulated task running on this thread */
    uint8_t fired;
    uint8_t fault_kind;
    uint8_t alloc_reported;
    uint8_t parked; /* the simulator itself waits */
    uint64_t cnt;   /* points passed by this task */
    uint64_t next;  /* point at which sim_preempt is called */
    uint64_t hang_at;
    uint64_t fault_mask;
    uint32_t fault_nth;
    uint32_t fault_seen;
    uint64_t failed_size;
    uint64_t failed_align;
    uint64_t cur_site;
    uint64_t sut_bbs;
};
extern __thread struct sim_tls tls;
