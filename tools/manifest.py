#!/usr/bin/env python3
# Regenerates MANIFEST.json from the specs that exist and the list below.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
NA={
 "C26":"Termination and freedom from deadlock of five kinds of goroutines over channels, a ticker and callbacks is a liveness property of all schedules; a contract verifier for sequential Go with events has no rely/guarantee or fairness reasoning, so no contract within reach expresses it. The sequential obligations of the same code (what is sent, encoded and delivered, per function) are C20.",
 "C27":"Device.State returns the live message that the next tick mutates, so consistency of a picture read later depends on the interleaving of a reader outside the repository's control with the ticking goroutine; a sequential contract cannot express what a caller reads after the call returned.",
}
NOTE={}
def note(i,s): NOTE[i]=s
exec(open(V+'/tools/notes.py').read()) if os.path.exists(V+'/tools/notes.py') else None
checks=[];na=[]
for i in ids:
    if os.path.exists(f'{V}/specs/{i}.gvc') and i not in NA:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
          technique="contract-based deductive verification (contracts on the Go functions, weakest-precondition style obligations from SSA, SMT)",
          level="proof",
          level_note=NOTE.get(i,"")+" Every obligation generated from /repo's current source is discharged by an SMT solver for all inputs and all loop iterations. Assumes: int/int64 do not overflow, float64 values are finite and rounding is abstracted as stated in DESIGN.md, callbacks do not modify this package's memory, contracts on functions outside the repository (listed in the evidence file) are as documented; trusts the translator gvc, go/ssa and the solvers."))
    else:
        na.append(dict(property=i,reason=NA.get(i,"No check has been built for it yet.")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="All checks run /verif/check.sh, which builds the checker gvc from /verif/gvc when it is absent and runs it on /repo's working tree. No hooks in /repo.")
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),'checks',len(na),'not applicable')
