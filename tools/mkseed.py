#!/usr/bin/env python3
"""mkseed.py ID PROP FILE < spec : makes and confirms a planted bug (scratch copy in /tmp/seedwork).
spec is a python dict literal: edits=[(file, old, new)], demo=rust body, needs, breaks"""
import sys,os,subprocess,json,shutil,ast
ID,PROP=sys.argv[1:3]
spec=eval(sys.stdin.read())
W='/tmp/seedwork/repo'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
if not os.path.exists(W):
    os.makedirs('/tmp/seedwork',exist_ok=True); sh('cp -a /repo /tmp/seedwork/repo')
sh('git -C %s fetch -q /repo && git -C %s checkout -q -f FETCH_HEAD'%(W,W)); sh('git -C %s checkout -- .'%W)
for f,o,n in spec['edits']:
    p=W+'/'+f; s=open(p).read()
    if s.count(o)!=1: print('EDIT matches',s.count(o),'times:',o[:80]); sys.exit(1)
    open(p,'w').write(s.replace(o,n))
D=f'/verif/seeded/{ID}'; os.makedirs(D,exist_ok=True)
open(D+'/patch.diff','w').write(sh(f'git -C {W} diff').stdout)
open(D+'/main.rs','w').write(open('/verif/tools/demo_lib.rs').read()+'\nfn main() {\n'+spec['demo']+'\n}\n')
open(D+'/demo.sh','w').write('''#!/bin/bash
# cwd: the repository. Builds a scratch program against it and runs it.
H="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$H/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bq2cst = { path = "$R" }
[profile.dev]
debug = false
EOF
cd "$T" || exit 9
export RUSTFLAGS="--cfg bq2cst_verif" CARGO_TARGET_DIR="$T/target"
cargo build --offline --quiet 2>"$T/log" || { tail -20 "$T/log"; exit 9; }
timeout 60 "$T/target/debug/demo"
''')
json.dump({"property":PROP,"needs":spec['needs'],"what_it_breaks":spec['breaks']},open(D+'/meta.json','w'),indent=1)
r=sh(f'. /opt/vp/env.sh; cd {W}; rm -rf target/debug/.fingerprint/bq2cst-* target/wasm32-unknown-unknown/debug/.fingerprint/bq2cst-*; cargo test --workspace --offline 2>&1 | grep -E "^test |test result|error" ')
fails=[l for l in r.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
rw=sh(f'. /opt/vp/env.sh; cd {W}; rm -rf target/debug/.fingerprint/bq2cst-* target/wasm32-unknown-unknown/debug/.fingerprint/bq2cst-*; cargo test --workspace --offline $WASM --tests 2>&1 | grep -E "^test |FAIL|error|test result" ')
failsw=[l for l in rw.stdout.split('\n') if 'FAIL' in l or l.startswith('error')]
d1=subprocess.run(['bash',D+'/demo.sh'],cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
sh('git -C %s checkout -- .'%W)
d0=subprocess.run(['bash',D+'/demo.sh'],cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
ok=not fails and not failsw and d1.returncode not in(0,9) and d0.returncode==0
print(ID,'OK' if ok else 'BAD','tests',fails[:3],failsw[:3],'demo bug rc',d1.returncode,d1.stdout[-150:],'clean rc',d0.returncode,d0.stdout[-200:])
if not ok: shutil.rmtree(D)
