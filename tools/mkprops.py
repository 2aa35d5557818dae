#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for the property texts)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
exec(open(os.path.join(os.path.dirname(__file__),'props_data.py')).read())
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
