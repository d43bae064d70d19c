#!/usr/bin/env python3
# Development: cov.py EXE COVFILE : the source lines of basic blocks no run executed.
import sys,subprocess,re,collections
exe,cov=sys.argv[1:3]; hit=open(cov,'rb').read(); sites=[]; prev=False
for l in subprocess.Popen(['objdump','-d','--no-show-raw-insn',exe],stdout=subprocess.PIPE,text=True).stdout:
    m=re.match(r'\s+([0-9a-f]+):\s',l)
    if not m: continue
    if prev: sites.append(int(m[1],16)); prev=False
    if 'call' in l and '__sanitizer_cov_trace_pc>' in l: prev=True
r=subprocess.run(['addr2line','-f','-e',exe]+[hex(a-1) for a in sites],capture_output=True,text=True).stdout.split('\n')
d=collections.OrderedDict(); tot=collections.Counter(); got=collections.Counter()
for i,a in enumerate(sites):
    fn,loc=r[2*i],r[2*i+1].split(' ')[0]; f,_,ln=loc.rpartition(':'); f=f.rsplit('/',1)[-1]
    h=hit[a-0x400000]; tot[f]+=1; got[f]+=h
    d.setdefault((f,int(ln) if ln.isdigit() else 0,fn),[]).append(h)
for f in sorted(tot): print(f'{f}: {got[f]}/{tot[f]}')
print()
for (f,ln,fn),h in sorted(d.items()):
    if not any(h): print(f'{f}:{ln} {fn}')
