#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: claims every property that has a workload; the rest is not_applicable."""
import json,sys,os
sys.path.insert(0,'/verif/bin'); from workloads import WORK
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH={'C15':'ThreadSanitizer plus thread-count differential monitor on the OpenMP build','C21':'AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer over all workloads, valgrind memcheck (uninitialised reads) over a sample of each'}
NA={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in WORK:
        checks.append(dict(property=i,quick_cmd='python3 bin/check.py %s'%i,thorough_cmd='python3 bin/check.py %s --thorough'%i,evidence_file='evidence/%s.json'%i,
          technique=TECH.get(i,'runtime monitor: reference oracle judging seeded random executions of the real code'),level='exploration',
          level_note='Sampled executions under an oracle: holds on every execution explored (counts in the evidence), no claim beyond. Trusts the G+Smo core, Eigen, compiler and sanitizer runtimes and the reference in /verif/harness.'))
    else: na.append(dict(property=i,reason=NA.get(i,'not yet built')))
m=dict(version=1,setup_cmd='python3 bin/check.py --setup',checks=checks,not_applicable=na,
  notes='No hooks in /repo are needed: the monitors observe the public interface of the library built from /repo/src, with and without sanitizers.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(checks),'claimed',len(na),'not')
