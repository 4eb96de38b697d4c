#!/bin/bash
# RUSTC_WRAPPER: compiles toon-rs, and nothing else, with edge counters.
case " $* " in
  *" --crate-name toon_rs "*) exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=1 ;;
  *) exec "$@" ;;
esac
