#!/bin/bash
# RUSTC_WRAPPER: adds SanitizerCoverage callbacks (the simulator's yield points) to the code
# under test (crate pgdatetime) and to the adapter that instantiates its generics.
case " $* " in
*" --crate-name pgdatetime "*|*" --crate-name adapter "*)
  exec "$@" -Ccodegen-units=4 -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
    -Cllvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$@" ;;
esac
