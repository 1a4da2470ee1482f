#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)"""
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,statement,over,text,why,files,mech,claimed=None,reason=None,state=None,level_note=None,technique=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'state':state} if state else {})),
        _c=claimed,_r=reason,_l=level_note,_t=technique))
TECH='symbolic execution of the compiled code (LLVM IR of /repo) + SMT (z3)'
TPY='symbolic execution of the real Python code with SMT proxy values (z3)'
exec(open(os.path.join(H,'tools','table.py')).read())
with open(os.path.join(H,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps({k:v for k,v in p.items() if k[0]!='_'})+'\n')
checks=[];na=[]
for p in P:
    if p['_c']:
        checks.append(dict(property=p['id'],quick_cmd='/opt/venv/bin/python check.py %s quick'%p['id'],
            thorough_cmd='/opt/venv/bin/python check.py %s thorough'%p['id'],evidence_file='evidence/%s.json'%p['id'],
            technique=p['_t'] or TECH,level='model_checking',level_note=p['_l']))
    else: na.append(dict(property=p['id'],reason=p['_r']))
M=dict(version=1,setup_cmd='/opt/venv/bin/python setup_check.py',checks=checks,not_applicable=na,
    notes='Every check compiles / imports /repo\'s current tree on each run, executes it symbolically and lets z3 decide; no hooks are needed in /repo.')
json.dump(M,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
print(len(P),'properties',len(checks),'claimed')
