#!/bin/sh
# RUSTC_WRAPPER for the guided build: edge counters in the library under test, nowhere else.
rustc=$1
shift
case " $* " in
*" --crate-name ferrous_chloride "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-pc-table ;;
esac
exec "$rustc" "$@"
