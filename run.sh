#!/bin/bash
# Build the simulator against /repo's working tree and run one of its commands.
#   run.sh check C01 | run.sh replay FILE | run.sh selftest C01 50 | run.sh build
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT="$PWD"
REPO=${VERIF_REPO:-/repo}
mkdir -p target evidence replays
build() {
    export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
    # cargo trusts modification times; a changed tree with old ones must be rebuilt all the same
    local sum
    sum=$(cd "$REPO" && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ "$sum" != "$(cat target/repo.sum 2>/dev/null)" ]; then
        find target/sim target/simcov target/cli -type d -path '*/.fingerprint/henriks*' -prune -exec rm -rf {} + 2>/dev/null
        rm -f "$VERIF_ROOT/target/repo.sum"
    fi
    cargo build --offline --release --quiet --manifest-path sim/Cargo.toml --target-dir target/sim >target/build.log 2>&1 || { cat target/build.log; return 1; }
    # the build for C10 and C20: every basic block and memory access of library code is a scheduling point
    local pts="$VERIF_ROOT/target/points-$(sha256sum <sim/shim/points.c | cut -c1-16).o"
    if [ ! -e "$pts" ]; then
        gcc -O2 -fno-builtin -fPIC -x c -c -o "$pts.new" sim/shim/points.c && mv "$pts.new" "$pts" || return 1
    fi
    RUSTFLAGS="--cfg sim_cov -Clink-arg=$pts -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores" \
        cargo build --offline --release --quiet --manifest-path sim/Cargo.toml --target-dir target/simcov >target/build-cov.log 2>&1 || { cat target/build-cov.log; return 1; }
    cargo build --offline --quiet --manifest-path "$REPO/Cargo.toml" --bins --target-dir target/cli >target/build-cli.log 2>&1 || { cat target/build-cli.log; return 1; }
    if [ ! -e target/shim.so ] || [ sim/shim/shim.c -nt target/shim.so ]; then
        gcc -O1 -fno-delete-null-pointer-checks -shared -fPIC -o target/shim.so.new sim/shim/shim.c -ldl && mv target/shim.so.new target/shim.so || return 1
    fi
    echo "$sum" >target/repo.sum
}
exec 9>target/build.lock
flock 9
build || { echo "BUILD FAILED"; exit 2; }
flock -u 9
exec 9>&-
[ "${1:-build}" = build ] && exit 0
case "$*" in
    *C10* | *C20*) exec target/simcov/release/sim "$@" ;;
esac
exec target/sim/release/sim "$@"
