#!/usr/bin/env python3
"""DESIGN.md = head + families and bounds from the evidence of a full quick run + tail + planted bugs."""
import json,glob,os
out=[open('/verif/tools/design_head.md').read().rstrip('\n'),'']
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    d=json.load(open(f)); c=d['coverage']
    assert d['tier']=='quick',f
    out.append(f"### {d['property']} - {c['executions']:,} executions, {c['states']:,} states, {c['traces_validated_against_impl']:,} comparisons")
    for x in c['families']:
        out.append(f"- *{x['family']}*: {x['bound']} ({x['executions']:,})")
    out.append('')
out.append(open('/verif/tools/design_tail.md').read().strip('\n'))
out.append('\n| id | needs | breaks |\n|----|-------|--------|')
strengthened=json.load(open('/verif/tools/strengthened.json'))
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=f.split('/')[3]; d=json.load(open(f))
    n=d['needs']; b=d['what_it_breaks']
    if i in strengthened: b+=f" (first missed; now: {strengthened[i]})"
    out.append('| '+' | '.join(s.replace('|','\\|').replace('\n',' ') for s in (i,n,b))+' |')
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
