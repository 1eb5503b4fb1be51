#!/usr/bin/env python3
"""writes MANIFEST.json from checks/*.py (module constants LEVEL, TECHNIQUE, NOTE) and properties.jsonl"""
import json, os, sys, importlib
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode=True
sys.path[:0]=[HERE+'/lib',HERE+'/checks']
NA={}   # property -> reason, for properties this family cannot decide
checks=[];na=[]
for l in open(HERE+'/properties.jsonl'):
    p=json.loads(l)['id']
    if p in NA: na.append(dict(property=p,reason=NA[p])); continue
    if not os.path.exists(f'{HERE}/checks/{p.lower()}.py'):
        na.append(dict(property=p,reason='check not built yet')); continue
    m=importlib.import_module(p.lower())
    checks.append(dict(property=p,quick_cmd=f'python3 run.py {p} quick',thorough_cmd=f'python3 run.py {p} thorough',
        evidence_file=f'evidence/{p}.json',technique=m.TECHNIQUE,level=getattr(m,'LEVEL','exploration'),level_note=m.NOTE))
d=dict(version=1,setup_cmd='python3 tools/setup_check.py',checks=checks,not_applicable=na,
  notes='No hooks in /repo: everything is observed through the public headers, an own OpenMP runtime (src/minigomp.cpp), compiler instrumentation and files. Genuine defects: known_findings.txt.')
json.dump(d,open(HERE+'/MANIFEST.json','w'),indent=1); print(len(checks),'checks',len(na),'na')
