cd /tmp/vt; /verif/extract/target/release/bqx ${LENS:-tot} ${SRC:-/repo/src} /verif/specs b.rs b.json || exit 1
(time timeout 1500 verus --crate-type=lib --num-threads 8 --smt-option smt.case_split=0 --multiple-errors ${ME:-3} --time-expanded "$@" b.rs) > full.txt 2>&1; grep -E "^error" full.txt | sort | uniq -c; grep -E "verified|^real|total smt-run|total verify" full.txt
python3 - <<'P'
import re,json
L=open('/tmp/vt/b.rs').read().split('\n'); J=json.load(open('/tmp/vt/b.json'))
t=open('/tmp/vt/full.txt').read()
K=0
for blk in re.split(r'\n(?=error)',t):
    K+=1
    if not blk.startswith('error'): continue
    m=re.search(r'b.rs:(\d+):',blk)
    if not m: continue
    n=int(m.group(1))
    fn=[f['key'] for f in J['fns'] if f['out'][0]<=n<=f['out'][1]]
    tg=J['tags'].get(str(n))
    allm=[int(q) for q in re.findall(r'^\s*(\d+) \|',blk,re.M)]
    src=J['src'].get(str(n)) or [J['src'].get(str(q)) for q in allm if J['src'].get(str(q))][:1]
    if K<25: print(blk.split('\n')[0][:60],'|',n,'src',src,fn,'|',L[n-1].strip()[:110])
P
