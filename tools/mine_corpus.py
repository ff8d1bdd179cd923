#!/usr/bin/env python3
"""Mines SQL snippets out of the repository's own test files (one-off, result committed in corpus/seed.jsonl)."""
import re,json,glob
out=[];seen=set()
for f in sorted(glob.glob('/repo/src/parser/tests/*.rs')+['/repo/src/parser/tests.rs','/repo/src/lexer/tests.rs']):
    s=open(f).read()
    for m in re.finditer(r'(?<![\w\'])r?(#*)"((?:[^"\\]|\\.|\\\n)*)"',s,re.S):
        t=m.group(2)
        t=re.sub(r'\\\n\s*','',t)
        t=t.replace('\\n','\n').replace('\\t','\t').replace('\\"','"').replace("\\'","'").replace('\\\\','\\')
        if t.startswith('self:') or '\nself:' in t or not t.strip(): continue
        if t in seen or len(t)<2 or len(t)>3000: continue
        seen.add(t); out.append(t)
open('/verif/corpus/seed.jsonl','w').write(''.join(json.dumps(t)+'\n' for t in out))
print(len(out), sum(map(len,out)))
