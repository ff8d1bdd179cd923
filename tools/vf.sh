#!/bin/bash
# vf FILE FN
f=$1; fn=$2; shift 2
( time timeout 300 verus --crate-type=lib --verify-root --verify-function "$fn" --time-expanded --smt-option smt.case_split=0 "$@" $f ) > /tmp/vt/out.$$ 2>&1
grep -E "^error|verified|rlimit|total smt|smt-run|^real|total-time|total verify" /tmp/vt/out.$$ | sort | uniq -c | head -30
