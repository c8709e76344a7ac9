#!/usr/bin/env python3
# writes MANIFEST.json: one check per contracts/Cxx.gov
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
ids=[p['id'] for p in props]
NA={}
notes=json.load(open(V+'/tools/notes.json')) if os.path.exists(V+'/tools/notes.json') else {}
checks=[]
for i in ids:
    if i in NA: continue
    if not os.path.exists(f'{V}/contracts/{i}.gov'):
        NA[i]='no check yet: contracts for this property are still being written'
        continue
    n=notes.get(i,{})
    checks.append({'property':i,'quick_cmd':f'bash /verif/check.sh {i} quick','thorough_cmd':f'bash /verif/check.sh {i} thorough',
      'technique':'contracts on the real functions (contracts/%s.gov), verification conditions generated from /repo\'s go/ssa form on every run, every obligation discharged by Z3/cvc5; bounded replay driver on the real code'%i,
      'level':'proof','level_note':n.get('note','integers mathematical, floats as reals; library functions through models or uninterpreted (listed in the evidence trusted_base); one goroutine; termination not proved'),
      'evidence_file':f'/verif/evidence/{i}.json'})
m={'version':1,'setup_cmd':'true','checks':checks,'not_applicable':[{'property':k,'reason':v} for k,v in sorted(NA.items())],'notes':'every check rebuilds the verifier (/verif/gov) and re-derives all obligations from /repo\'s current tree; no hooks in /repo'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks')
