#!/usr/bin/env python3
"""Fills an empty `need` list of a check from its last quick evidence (two thirds of what was seen)."""
import json,re,sys
p='/verif/harness/src/checks/mod.rs'
for id in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{id}.json'))
    assert e['tier']=='quick'
    ev={k:v*2//3 for k,v in e['coverage']['events'].items() if v>=30}
    s=open(p).read()
    i=s.index(f'id: "{id}"'); j=s.index('need: &[',i); k=s.index('],\n',j) if not s[j:].startswith('need: &[],') else j+len('need: &[')
    body=''.join(f'            ("{a}", {b}),\n' for a,b in ev.items())
    s=s[:j]+'need: &[\n'+body+'        '+s[k:]
    open(p,'w').write(s)
