#!/bin/bash
# Usage: check.sh ID [quick|thorough]     decide one property of /repo's current tree
#        check.sh --build                 only build
#        check.sh --replay FILE           re-run a recorded counterexample step by step
# Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
# Anything else: the check itself could not run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
mc=$here/mc
export CARGO_TARGET_DIR=$mc/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER

# cargo_build DIR ARGS...: Cargo decides by modification times whether /repo changed; a
# change laid down with an old time stamp must be seen too, so the crate is always rebuilt.
cargo_build() {
    local out=$mc/target/$1
    shift
    find "$out/.fingerprint" -maxdepth 1 -name 'safecurves-rust-*' -exec rm -rf {} + 2>/dev/null
    (cd "$mc" && cargo build --offline "$@")
}

build() {
    local log=$mc/target/build.log
    mkdir -p "$mc/target"
    # the toy instances implement the crate's PrimeField trait and instantiate its
    # generic curve code; without them the real curves are still checked
    if cargo_build release --release --features toy >"$log" 2>&1; then return 0; fi
    if cargo_build release --release >"$log.2" 2>&1; then
        echo "note: the toy instances do not compile against this tree; checking the real fields and curves only"
        return 0
    fi
    tail -40 "$log.2"
    echo "check.sh: the harness does not build against /repo"
    return 2
}

# C21, C23, C24: the crate with a callback at every basic block and memory access of its optimized code
build_ct() {
    local log=$mc/target/build-ct.log
    mkdir -p "$mc/target"
    if RUSTC_WRAPPER=$mc/wrap.sh cargo_build ct --profile ct --features ct >"$log" 2>&1; then return 0; fi
    tail -40 "$log"
    echo "check.sh: the instrumented harness does not build against /repo"
    return 2
}

case "${1:-}" in
    --build) build && build_ct; exit $? ;;
    --replay)
        if grep -q '^kind trace' "$2"; then
            build_ct || exit 2
            exec "$mc/target/ct/mc" replay "$2"
        fi
        if grep -q '^kind crash' "$2"; then
            # found again by running the check
            exec "$0" "$(sed -n 's/^property //p' "$2")" "$(sed -n 's/^tier //p' "$2")"
        fi
        if grep -q '^property C2[134]' "$2"; then
            build_ct || exit 2
            exec "$mc/target/ct/mc" replay "$2"
        fi
        build || exit 2
        exec "$mc/target/release/mc" replay "$2" ;;
    "") sed -n 2,6p "$0"; exit 2 ;;
esac
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case $id in C21 | C23 | C24) ct=1 ;; *) ct= ;; esac
if [ $ct ]; then
    build_ct || exit 2
    bin=$mc/target/ct/mc
else
    build || exit 2
    bin=$mc/target/release/mc
fi
mkdir -p "$here/evidence"
ulimit -v 28000000 2>/dev/null
err=$mc/target/stderr.$id
"$bin" check "$id" --tier "$tier" \
    --evidence "$here/evidence/$id.json" --replay "$here/evidence/$id.replay.txt" 2>"$err"
rc=$?
cat "$err" >&2
# The code under test killed the process: a stack overflow, an abort, a bad access.
# (Killed from outside, or out of memory, is no answer.)
case $rc in
    132|134|135|136|139)
        if ! grep -q 'memory allocation of' "$err"; then
            { echo "property $id"; echo "kind crash"; echo "tier $tier"; echo "# exit status $rc"; sed 's/^/# /' "$err" | tail -20; } >"$here/evidence/$id.replay.txt"
            echo "the code under test brought the process down (exit status $rc): $(tail -1 "$err")"
            echo "VIOLATION property=$id replay=$here/evidence/$id.replay.txt"
            rc=1
        fi ;;
esac
exit $rc
