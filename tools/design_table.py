#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,collections,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=V+'/DESIGN.md';s=open(p).read()
t=collections.defaultdict(list)
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    t[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)))
rows='\n'.join(f'| {k} | {", ".join(sorted(v))} |' for k,v in sorted(t.items()))
s=re.sub(r'(\| property \| seeded bugs \|\n\|---\|---\|\n)(\|.*\n)+',lambda m:m.group(1)+rows+'\n',s)
open(p,'w').write(s)
