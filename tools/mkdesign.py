#!/usr/bin/env python3
"""Writes DESIGN.md from the fixed text here, properties.jsonl and tools/detections.json."""
import json, os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
P=[json.loads(l) for l in open(f'{root}/properties.jsonl')]
D={}
try: D=json.load(open(f'{here}/detections.json'))
except FileNotFoundError: pass
S=open(f'{here}/design-head.md').read()
parts={}
cur=None
for l in open(f'{here}/design-props.md'):
    if l.startswith('## '): cur=l[3:].strip(); parts[cur]=''
    elif cur: parts[cur]+=l
out=[S]
out.append('\n## Properties, one by one\n')
for p in P:
    out.append(f"### {p['id']} — {p['title']}\n\n{parts[p['id']].strip()}\n")
out.append(open(f'{here}/design-tail.md').read())
if D:
    out.append('\n## Planted bugs and what catches them\n\nEach was written from the property and the code, confirmed (builds, stable tests pass, demonstration fails with it and passes without), and then run against the quick checks with seed 1. "own" is the check of the property it breaks.\n\n| bug | property | what it breaks | own check | also caught by |\n|---|---|---|---|---|\n')
    for n in sorted(D):
        d=D[n]
        out.append(f"| {n} | {d['property']} | {d['what']} | {'caught' if d['own'] else 'missed'} | {', '.join(d.get('also',[])) or '–'} |\n")
open(f'{root}/DESIGN.md','w').write(''.join(out))
