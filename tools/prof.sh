cd /tmp/vt; rm -rf log; mod=$(python3 -c "
import json;J=json.load(open('/tmp/vt/b.json'))
print([f['module'] for f in J['fns'] if f['key']=='$1'][0])")
timeout 300 verus --crate-type=lib --verify-only-module $mod --verify-function $1 --smt-option smt.case_split=0 --log smt --log-dir /tmp/vt/log b.rs 2>&1 | grep -E "^error|verified"
Z=/opt/veriftools/verus/z3
f=$(ls log/*.smt2)
timeout 120 $Z smt.qi.profile=true $f > q.txt 2>&1; grep "quantifier_instances" q.txt | sed 's/.*\] *//' | sort -t: -k2 -n -r | head -${2:-25}
grep -E "^ *:|^ :" q.txt | grep -E "conflicts|decisions|restarts|quant-inst|time|rlimit" | tail -12
