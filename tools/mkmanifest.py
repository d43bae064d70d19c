#!/usr/bin/env python3
# Writes MANIFEST.json: one check per property that has a workload; the rest is listed with the reason.
import json,glob,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have=set()
for f in glob.glob(V+'/sim/wl/*.cpp'): have|=set(re.findall(r'SIM_WORKLOAD \((C\d\d)\)',open(f).read()))
extra={}
m={"version":1,"setup_cmd":"python3 check.py --setup","hooks":{"guard":"DEX_SIM","enable":"sim/Makefile compiles /repo/src/*.c with -DDEX_SIM=1; no hook was needed in /repo so far: every seam is taken at the libc/liburing symbol level and by compiler instrumentation","source_commits":[]},"checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in have:
        m['checks'].append({"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"VERIF_TIER=thorough python3 check.py {i}","technique":"deterministic simulation with fault injection (seeded schedule and fault search, replayable minimised counterexamples)","level":"exploration","level_note":"Seeded search over programs, thread schedules, clock behaviour and faults on the real libdex sources, both AIO backends; assurance grows with the number of runs, nothing is exhaustive. Trusted: the simulated futex, clock, poll, io_uring and disk models, memory that is sequentially consistent except that atomic stores of weaker order may be delayed (one thread runs at a time)."+extra.get(i,"")})
    else: m['not_applicable'].append({"property":i,"reason":"the workload of this property is not built yet"})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')
