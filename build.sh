#!/bin/bash
# Builds the simulator and the instrumented program from /repo's working tree.
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${AMSIM_REPO:-/repo}"
B="${AMSIM_BUILD:-$HERE/build}"
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
gcc -O2 -c "$HERE/sim/tsan_stub.c" -o "$B/tsan_stub.o"
( cd "$HERE/sim" && CARGO_TARGET_DIR="$B/sim" cargo build --release --offline -q )
# any difference in the sources forces the crates of the repository to be rebuilt,
# whatever the file times say
SUM=$( (cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; cat "$HERE/sim/tsan_stub.c"; rustc -V) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$B/am.stamp" 2>/dev/null)" != "$SUM" ] || [ ! -x "$B/am/x86_64-unknown-linux-gnu/release/basjoofan" ]; then
  export CARGO_TARGET_DIR="$B/am" RUSTC_BOOTSTRAP=1
  export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_PANIC=unwind CARGO_PROFILE_RELEASE_OPT_LEVEL=2 CARGO_PROFILE_RELEASE_STRIP=none CARGO_PROFILE_RELEASE_LTO=off
  export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Clink-arg=$B/tsan_stub.o"
  rm -f "$B/am.stamp"
  ( cd "$REPO" && cargo clean --release --offline -q -p lib -p cmd --target x86_64-unknown-linux-gnu 2>/dev/null || true
    cargo build --release --offline -q -p cmd --bin basjoofan --target x86_64-unknown-linux-gnu )
  echo "$SUM" > "$B/am.stamp"
fi
