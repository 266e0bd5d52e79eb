#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed={'A02-bit-reversal':'large-sizes','A03-garner-precision':'geometric boundary corners','A04-scalar-word':'shapes',
'A07-strong-pseudoprime':'published pseudoprimes','B04-plain-basis':'plaintext-sizes','B08-modulus-sizes':'shapes',
'B08-extended-basis-slack':'headroom','B16-joint-error':'joint suites','B13-secret-bound':'(engine error: preparation panics are violations now)'}
try: missed.update(json.load(open(root+'/tools/missed.json')))
except FileNotFoundError: pass
rows=[]
for d in sorted(os.listdir(root+'/seeded')):
    p=f'{root}/seeded/{d}/meta.json'
    if os.path.exists(p):
        m=json.load(open(p))
        rows.append(f"| {d} | {m['needs']} | {m['property']} | {'* '+missed[d] if d in missed else ''} |")
t='<!-- planted -->\n| bug | needs | caught by | missed at first; what was added |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /planted -->'
f=root+'/DESIGN.md'; s=open(f).read()
s=s.replace('PLANTED_TABLE',t) if 'PLANTED_TABLE' in s else re.sub(r'<!-- planted -->.*?<!-- /planted -->',lambda _:t,s,flags=re.S)
open(f,'w').write(s); print(len(rows))
