#!/bin/bash
# coverage counters for the crate under test only (used by the concrete search)
r="$1"; shift
case " $* " in
  *" --crate-name bq2cst "*) exec "$r" "$@" --cfg bq2cst_verif -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
  *) exec "$r" "$@" ;;
esac
