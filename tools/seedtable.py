#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED={'hash-count-by-one':'missed at first: C15 now writes far beyond the end of hash files and then appends',
'vout-two-bytes':'missed at first: C04 now spends outputs numbered above 65535 of giant transactions',
'mem-lost-wakeup':'missed at first: C24 now frees memory in the window between measuring and waiting, many times',
'append-stale-offset':'missed at first: C16 now mixes appends with writes at places where earlier appends ended'}
MISSED.update(json.load(open(H+'/tools/missed.json')) if os.path.exists(H+'/tools/missed.json') else {})
rows=[]
for d in sorted(os.listdir(H+'/seeded')):
    m=json.load(open(f'{H}/seeded/{d}/meta.json'))
    rows.append((m['property'],d,m['needs'].replace('|','/'),MISSED.get(d,'')))
rows.sort()
t='Each is caught by the quick check of its property (and often by others).\n\n| property | planted bug | needs | remarks |\n|---|---|---|---|\n'
t+=''.join('| %s | %s | %s | %s |\n'%r for r in rows)
p=H+'/DESIGN.md'; s=open(p).read(); k='## Planted bugs\n\n'
open(p,'w').write(s[:s.index(k)+len(k)]+t)
