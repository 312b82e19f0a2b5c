#!/bin/bash
# build.sh [PROPERTY]: builds the simulator together with /repo's current
# working tree, offline. Prints the path of the program. C11 is decided with a
# build whose memory accesses are instrumented as well; without an argument
# both are built.
cd "$(dirname "$0")/sim" || exit 3
OUT="x86_64-unknown-linux-gnu/release/rtree-sim"
COV="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
ACC="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
one() { # dir
  local i log="$PWD/target.$1.log"
  for i in 1 2; do
    if [ "$1" = race ]; then
      SIM_RACE=1 RUSTFLAGS="$COV $ACC" cargo build --release --offline --quiet --target-dir target/race >"$log" 2>&1
    else
      RUSTFLAGS="$COV" cargo build --release --offline --quiet --target-dir target >"$log" 2>&1
    fi
    if [ $? = 0 ]; then
      rm -f "$log"
      return 0
    fi
  done
  grep -E "^error" -A12 "$log" | head -60 >&2
  rm -f "$log"
  echo "HARNESS ERROR: the simulator did not build" >&2
  exit 3
}
case "$1" in
  C11) one race; echo "$PWD/target/race/$OUT" ;;
  "") one plain; one race; echo "$PWD/target/$OUT" ;;
  *) one plain; echo "$PWD/target/$OUT" ;;
esac
