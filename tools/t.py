#!/usr/bin/env python3
# Development helper: t.py [-s SECS] [-S SEED0] PROP... : quick parallel search with both backends, prints a summary.
import json,sys,os,subprocess,concurrent.futures as cf
a=sys.argv[1:]; secs='5'; seed='1'; par=8; jobs=1
while a and a[0].startswith('-'):
    o=a.pop(0)
    if o=='-s': secs=a.pop(0)
    if o=='-S': seed=a.pop(0)
    if o=='-j': jobs=int(a.pop(0))
exe=os.environ.get('DEXSIM','/verif/build/dexsim')
def one(p,u,k):
    try: r=subprocess.run([exe,'--search',p,'--secs',secs,'--seed0',str(int(seed)+k),'--stride',str(jobs),'--replay-out','/tmp'],env=dict(os.environ,DEXSIM_URING=str(u)),capture_output=True,text=True,timeout=float(secs)+120,errors='replace')
    except subprocess.TimeoutExpired: return f'{p} {u} TIMEOUT'
    try: d=json.loads(r.stdout[r.stdout.rindex('{"property"'):])
    except Exception as e: return f'{p} {u} no JSON: {e} {r.stdout[-400:]} {r.stderr[-400:]}'
    v=d['violation']; o=f"{d['property']} {d['backend']} runs {d['runs']} dist {d['distinct']} maxsteps {d['max_steps']} {d['internal_msg']} {d['probes']} { {k:x['fired'] for k,x in d['faults'].items() if x['fired']} }"
    if v: o+=f"\n   VIOL seed {v['seed']} {v['class']} | {v['message']} | {v['program']} | sw {v['switches']} f {v['faults']} ch {v['choices']} {v['replay']}"
    return o
with cf.ThreadPoolExecutor(par) as ex:
    for r in [ex.submit(one,p,u,k) for p in a for u in (0,1) for k in range(jobs)]: print(r.result(),flush=True)
