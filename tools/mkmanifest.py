#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness files."""
import json, re, glob, os
root='/verif'
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have=set()
for f in glob.glob(root+'/harness/*/*.go'):
    for m in re.finditer(r'^//sym:.*?prop=(\S+)', open(f).read(), re.M):
        have.update(m.group(1).split(','))
na={
 'C25':'the election is implemented in the third-party module go-narb, not in this repository; it runs on random vote ids, real timers and its own net/rpc connections, so there is no repository code to encode that decides it',
 'C27':'an unbounded liveness statement about convergence over time; a bounded symbolic exploration cannot decide it in either direction',
}
notes=json.load(open(root+'/tools/levels.json')) if os.path.exists(root+'/tools/levels.json') else {}
checks=[]; nap=[]
for p in props:
    i=p['id']
    if i in na: nap.append({'property':i,'reason':na[i]}); continue
    if i not in have:
        nap.append({'property':i,'reason':'no check registered yet'}); continue
    checks.append({'property':i,'quick_cmd':f'./check.sh {i} quick','thorough_cmd':f'./check.sh {i} thorough',
      'technique':'symbolic execution of the Go SSA of the real code with an SMT solver (z3), counterexamples replayed on the compiled code',
      'level':'model_checking',
      'level_note':notes.get(i,'')+' Holds for every value within the bounds listed per harness in the evidence (sizes, numbers of operations, goroutines and preemptions); nothing is claimed outside them. Float arithmetic is treated as real arithmetic unless the harness is in fp mode. Trusted: the SSA interpreter (spot-checked against the compiled code on every run), z3, the models of network, clock, locks, random numbers and HTTP in harness/shim.'.strip()})
m={'version':1,'setup_cmd':'./build.sh','checks':checks,'not_applicable':nap,
   'notes':'No hooks in /repo: harnesses are laid over the source tree at build time (go build -overlay / packages.Config.Overlay).'}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(nap),'not applicable')
