#!/usr/bin/env python3
"""Writes MANIFEST.json and known-findings.json from tools/manifest_data.py."""
import json,os,subprocess
D=os.path.dirname(os.path.abspath(__file__)); R=os.path.join(D,'..')
ns={}; exec(open(os.path.join(D,'manifest_data.py')).read(),ns)
ids=[json.loads(l)['id'] for l in open(os.path.join(R,'properties.jsonl'))]
checks=[]
for p in ids:
    if p in ns['CHECKS']:
        tech,note=ns['CHECKS'][p]
        checks.append(dict(property=p,quick_cmd=f'bash /verif/run.sh check {p} quick',thorough_cmd=f'bash /verif/run.sh check {p} thorough',
            evidence_file=f'evidence/{p}.json',technique=tech,level='model_checking',level_note=note))
m=dict(version=1,setup_cmd='bash /verif/run.sh setup',checks=checks,
  not_applicable=[dict(property=p,reason=ns['NA'].get(p,'check under construction')) for p in ids if p not in ns['CHECKS']],
  notes=ns['NOTES'])
if ns.get('HOOKS'): m['hooks']=ns['HOOKS']
json.dump(m,open(os.path.join(R,'MANIFEST.json'),'w'),indent=1); open(os.path.join(R,'MANIFEST.json'),'a').write('\n')
log={}
for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix: '): log[s[5:]]=h
fixed=[]
for s,h in reversed(list(log.items())):
    ps=ns['FIXED'].get(s)
    if not ps: raise SystemExit('no property for fix: '+s)
    for p in ps.split(): fixed.append(f'fixed: property={p} {h} {s}')
json.dump(dict(findings=ns['FINDINGS'],fixed=fixed),open(os.path.join(R,'known-findings.json'),'w'),indent=1); open(os.path.join(R,'known-findings.json'),'a').write('\n')
print(len(checks),'checks',len(fixed),'fixed')
