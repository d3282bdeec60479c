#!/usr/bin/env python3
"""Group the violations of the last run of a property: viol.py ID [regex-with-group] [examples] [groups]"""
import sys,json,re
pid=sys.argv[1]; rx=re.compile(sys.argv[2]) if len(sys.argv)>2 and sys.argv[2] else None
n=int(sys.argv[3]) if len(sys.argv)>3 else 1
g=int(sys.argv[4]) if len(sys.argv)>4 else 25
c={}
for l in open(f'/verif/target/run/{pid}/violations.jsonl'):
    d=json.loads(l)
    k=d['family']
    if rx:
        m=rx.search(d['detail']); k+=' '+(m.group(1) if m else '-')[:80]
    c.setdefault(k,[]).append(d)
for k,v in sorted(c.items(),key=lambda e:-len(e[1]))[:g]:
    v.sort(key=lambda d:len(d['detail']))
    print(f"{k!r} x{len(v)}")
    for d in v[:n]: print("    ",d['detail'][:420])
