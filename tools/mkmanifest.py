#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the harnesses present.
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=set()
for f in glob.glob(root+'/harness/h/*.go'):
    have|=set(re.findall(r'^func (C\d\d)_\w+\(\)',open(f).read(),re.M))
NA={}
checks=[];na=[]
for l in open(root+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i in have and i not in NA:
        checks.append(dict(property=i,quick_cmd='./check.sh %s quick'%i,thorough_cmd='./check.sh %s thorough'%i,
          evidence_file='evidence/%s.json'%i,
          technique='symbolic execution of the Go SSA of /repo with an SMT solver (z3) deciding every branch and assertion; counterexamples replayed natively',
          level='model_checking',
          level_note='exhaustive over all values within the bounds stated in the evidence file and DESIGN.md; the YAML/JSON text layer of the dependencies is modelled at tree level and validated by native replay'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'no harness yet')))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
 notes='No hooks are needed in /repo. Known findings and repaired defects: known_findings.txt.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); print(len(checks),len(na))
