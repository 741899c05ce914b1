import json, os, sys
D=os.path.dirname(os.path.abspath(__file__))
ids=[json.loads(l)['id'] for l in open(D+'/properties.jsonl')]
NA={
 'P21':'a pure function of the program text; no schedule, clock, fault or I/O takes part (the behaviour on damaged input and under faults is P02, P07 and P12)',
'P22':'a pure function of the source text; the parts with a clock, stored files or faults are P10, P11 and P12',
'P23':'a static relation between compilers; nothing in it depends on schedule, time, faults or history',
'P24':'a pure function of the expression; nothing in it depends on schedule, time, faults or history',
'P25':'a static relation between source and emitted DWARF; nothing in it depends on schedule, time, faults or history (its reproducibility under memory layouts is part of P06)',
}
CLAIM=[p for p in ids if p not in NA]
PN='Seeded sampling of fault sequences, schedules and environments over the real driver, cpp and cc1 sources run in one process on a simulated kernel; trusts the kernel/libc model and the as/ld/sh stubs (checked by demonstrations on the real system). A clean batch is evidence, not proof.'
RN=''
T={
'P01':'deterministic simulation: I/O and process fault injection, undisturbed run as reference',
'P02':'deterministic simulation: fault injection, output state checked after failing runs',
'P03':'deterministic simulation: fault injection, temporary-file ledger invariant',
'P04':'deterministic simulation: fault injection, whole-file-system diff against a permission model',
'P05':'deterministic simulation: seeded process deaths, failing fork/exec, foreign children',
'P06':'deterministic simulation: randomised memory layout, contents, clock, pids and read splits against a canonical run',
'P07':'deterministic simulation: allocation-failure injection with guarded heap',
'P08':'deterministic simulation: seeded interleaving of concurrent invocations at system-call level with faults',
'P09':'deterministic simulation: seeded histories of invocations against single-step reference runs',
'P10':'deterministic simulation: edit/rebuild histories against a make model and the simulated open() log',
'P11':'deterministic simulation: simulated clock with jumps against a calendar reference model',
'P12':'deterministic simulation: stored-byte damage and read faults under hostile memory layouts',
}
try:
    sys.path.insert(0,D+'/run'); import runinfo; T.update(runinfo.TECH); RN=runinfo.NOTE
except ImportError: pass
checks=[{'property':p,'quick_cmd':'python3 check.py '+p,'thorough_cmd':'python3 check.py %s --thorough'%p,'technique':T[p],'level':'exploration','level_note':PN if p<='P12' else RN} for p in CLAIM]
json.dump({'version':1,'setup_cmd':'python3 build.py','checks':checks,'not_applicable':[{'property':p,'reason':NA[p]} for p in ids if p in NA],
 'notes':'No guarded hooks are needed in /repo: every seam is made at link time by redirecting libc entry points when /repo/src is recompiled into the simulator.'},open(D+'/MANIFEST.json','w'),indent=1)
