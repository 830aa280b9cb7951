#!/bin/bash
# RUSTC_WRAPPER of the C21, C23 and C24 build: the crate under test (and the harness, into which
# its generic code is instantiated) get a callback at every basic block, memory access and
# indexed address of the optimized code (sancov), and calls in place of copies, fills and
# atomic operations (tsan).
rustc=$1; shift
case " $* " in
*" --crate-name safecurves_rust "* | *" --crate-name mc "*)
    exec "$rustc" "$@" -C "passes=forceattrs function(tsan) sancov-module" \
        -C llvm-args=-force-attribute=sanitize_thread -C llvm-args=-tsan-instrument-memory-accesses=0 \
        -C llvm-args=-tsan-instrument-func-entry-exit=0 \
        -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
        -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores \
        -C llvm-args=-sanitizer-coverage-trace-geps ;;
*) exec "$rustc" "$@" ;;
esac
