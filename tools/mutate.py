#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool, no check uses it).
mutate.py list                      : number of mutants per file
mutate.py run DIR SHARD NSHARDS [FILE..] : tests every NSHARDS-th mutant in scratch copies below DIR
Mutants that break the build or fail the repository's tests are dropped; the rest is searched with the workloads
of the properties of the file, and what is not noticed is written to DIR/survivors-SHARD."""
import json,os,random,re,shutil,subprocess,sys,glob
PROPS={'dex-aio':'C17 C24 C15','dex-aio-backend':'C17 C24','dex-uring-aio-backend':'C17 C24 C15 C11','dex-uring-future':'C17 C15','dex-posix-aio-backend':'C17 C11 C24','dex-posix-aio-future':'C17',
'dex-async-pair':'C18 C23','dex-async-result':'C19','dex-block':'C03 C04 C06 C22 C23','dex-cancellable':'C20 C06 C23','dex-channel':'C12 C13 C14 C23','dex-delayed':'C21 C06 C23','dex-fd':'C18 C01',
'dex-fiber':'C08 C09 C11 C23','dex-future-set':'C05 C06 C23','dex-future':'C01 C02 C03 C06 C08 C22 C23','dex-gio':'C18','dex-infinite':'C22 C23','dex-main-scheduler':'C10 C04 C08','dex-object':'C07 C23 C02',
'dex-promise':'C01 C06 C23','dex-scheduler':'C10 C09 C04','dex-semaphore':'C15','dex-stack':'C08 C09','dex-static-future':'C01 C23','dex-thread-pool-scheduler':'C10 C11 C24 C04 C09','dex-thread-pool-worker':'C10 C11 C24 C09',
'dex-timeout':'C16 C23','dex-unix-signal':'C25','dex-work-queue':'C10 C11','dex-work-stealing-queue':'C10 C11','dex-thread-storage':'C10 C08','dex-ucontext':'C08','dex-platform':'C24'}
def mutants(text):
    lines=text.split('\n'); out=[]; skip=False; depth=0
    for i,l in enumerate(lines):
        s=l.strip()
        if skip:
            if '*/' in s: skip=False
            continue
        if s.startswith('/*'):
            if '*/' not in s: skip=True
            continue
        if not l.startswith(' ') or s.startswith(('*','#','//')): continue
        if re.match(r'g_(assert|return|critical|warn)',s) or 'SYSPROF' in s or 'PROFILER' in s: continue
        def rep(new,why,j=i,n=1): out.append((j,n,new,why))
        decl=re.match(r'(static |const |g_auto\w*|[A-Z]\w+|int|guint|gint|gint64|guint64|gboolean|gsize|gpointer|struct)[ *]+[\w]+ *(=|;|,)',s)
        # a statement of one line
        if s.endswith(';') and not decl and not re.match(r'(return|break|continue|goto|case|default)',s) and re.match(r'[\w*(&\[\]>.-]+',s) and s.count('(')==s.count(')') and (i==0 or lines[i-1].strip().endswith((';','{','}',')','*/','')) ):
            prev=lines[i-1].strip()
            if not (prev.startswith(('if','else','while','for')) and not prev.endswith(';')) : rep(None,'delete')
            else: rep(re.sub(r'\S.*',';',l),'empty')
            nxt=lines[i+1].strip() if i+1<len(lines) else ''
            if nxt.endswith(';') and not re.match(r'(return|break|continue|goto|case|default)',nxt) and nxt.count('(')==nxt.count(')') and len(l)-len(l.lstrip())==len(lines[i+1])-len(lines[i+1].lstrip()) and '(' in s and '(' in nxt: rep([lines[i+1],l],'swap',i,2)
        m=re.match(r'((?:else )?if (?:G_\w+ )?\(|while \()(.*)\)$',s)
        if m and m.group(2).count('(')==m.group(2).count(')'):
            ind=l[:len(l)-len(l.lstrip())]
            rep(f'{ind}{m.group(1)}!({m.group(2)}))','negate')
            if 'while' not in m.group(1): rep(f'{ind}{m.group(1)}TRUE || ({m.group(2)}))','always')
            rep(f'{ind}{m.group(1)}FALSE && ({m.group(2)}))','never')
        for a,b in (('push_tail','push_head'),('push_head','push_tail'),('pop_head','pop_tail'),('pop_tail','pop_head'),('peek_head','peek_tail'),(' && ',' || '),(' || ',' && '),(' > 0',' > 1'),(' >= ',' > '),(' < ',' <= '),(' <= ',' < '),(' == ',' != '),(' != ',' == '),('TRUE','FALSE'),('FALSE','TRUE'),(' + 1',''),(' - 1',''),('dex_ref (','('),('RESOLVED','REJECTED'),('_steal_pointer (&','_identity_ (&')):
            if a in l and not (a in('TRUE','FALSE') and s.startswith('while')):
                n=l.replace(a,b,1)
                if '_identity_' in n: n=re.sub(r'g_identity_ \(&',r'(',n)
                rep(n,f'{a}>{b}')
        if s=='return;' or s=='break;' or s=='continue;': rep(None,'delete')
    # lock pairs of a function: removed, or the unlock before the last statement
    fn=None; locks=[]
    for i,l in enumerate(lines):
        if l=='{': locks=[]
        if re.search(r'\b(dex_object_lock|g_mutex_lock|g_rw_lock_\w+_lock) \(',l) and l.startswith(' '): locks.append(i)
        if l=='}' and locks:
            for k in locks:
                a=re.search(r'(dex_object|g_mutex|g_rw_lock_\w+?)_lock \((.*)\)',lines[k])
                if not a: continue
                end=next((j for j in range(k+1,i) if re.search(re.escape(a.group(1))+r'_lock \('+re.escape(a.group(2)),lines[j])),i)
                un=[j for j in range(k+1,end) if (a.group(1)+'_unlock ('+a.group(2)) in lines[j]]
                if un: out.append((k,un[-1]-k+1,[x for j,x in enumerate(lines[k:un[-1]+1]) if j!=0 and k+j not in un],'nolock'))
            locks=[]
    return lines,out
def load(repo,files):
    res=[]
    for f in sorted(glob.glob(repo+'/src/*.c')):
        b=os.path.basename(f)[:-2]
        if b not in PROPS or (files and b not in files): continue
        lines,ms=mutants(open(f).read())
        for m in ms: res.append((b,)+m)
    return res
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
def main():
    if sys.argv[1]=='list':
        d={}
        for m in load('/repo',[]): d[m[0]]=d.get(m[0],0)+1
        print(d,sum(d.values())); return
    D,shard,n=sys.argv[2],int(sys.argv[3]),int(sys.argv[4]); files=sys.argv[5:]
    secs=os.environ.get('MUT_SECS','8'); W=f'{D}/w{shard}'; R=W+'/repo'; B=W+'/b'; S=W+'/sim'
    os.makedirs(W,exist_ok=True)
    if not os.path.exists(R):
        sh(f'git clone -q /repo {R}'); sh(f'cp -a /verif/sim {S}')
        r=sh(f'cd {R} && meson setup _build --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Dtests=true -Dexamples=false -Dintrospection=disabled -Dvapi=false -Dliburing=enabled -Deventfd=enabled -Dsysprof=false -Ddocs=false && ninja -C _build'); assert r.returncode==0,r.stdout[-800:]+r.stderr[-800:]
    sh(f'cd {R} && git fetch -q && git reset -q --hard origin/HEAD'); sh(f'rsync -a --delete /verif/sim/ {S}/')
    base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    os.makedirs(B,exist_ok=True); mk=f'make -s -C {S} OUT={B} REPO={R} -j4'; r=sh(mk); assert r.returncode==0,r.stderr[-800:]
    ms=load('/repo',files); rng=random.Random(7); rng.shuffle(ms); ms=ms[shard::n]
    done=f'{D}/done-{shard}'; seen=set(open(done).read().split('\n')) if os.path.exists(done) else set()
    st=dict(build=0,test=0,caught=0,survived=0)
    for b,i,k,new,why in ms:
        key=f'{b}:{i+1}:{why}'
        if key in seen: continue
        f=f'{R}/src/{b}.c'; orig=open(f'/repo/src/{b}.c').read(); lines=orig.split('\n')
        lines[i:i+k]=[] if new is None else ([new] if isinstance(new,str) else new)
        open(f,'w').write('\n'.join(lines)); res=None
        try:
            if sh(f'ninja -C {R}/_build').returncode: res='build'
            else:
                try: p=set(); sh(f'ulimit -v 6000000; timeout 60 python3 /opt/vp/run_gtests.py {R}/_build {W}/lines',timeout=70)
                except subprocess.TimeoutExpired: pass
                try: sh(f'python3 /opt/vp/results.py {W}/out.json lines:{W}/lines'); p=set(json.load(open(f'{W}/out.json'))['passed'])
                except Exception: p=set()
                if base-p: res='test'
                elif sh(mk).returncode: res='build'
                else:
                    bad=[]
                    for prop in PROPS[b].split():
                        r=sh(f'python3 /verif/tools/t.py -s {secs} -j 2 '+prop,env=dict(os.environ,DEXSIM=B+'/dexsim'))
                        bad=[prop+l for l in r.stdout.split('\n') if 'VIOL' in l and 'eventfd: wait' not in l or 'no JSON' in l or 'TIMEOUT' in l]
                        if bad: break
                    if bad: res='caught'; 
                    else: res='survived'
                    with open(f'{D}/log-{shard}','a') as o: o.write(f'{key} {res} {bad[0][:200] if bad else ""}\n')
                    if res=='survived':
                        with open(f'{D}/survivors-{shard}','a') as o: o.write(f'=== {key}\n'+sh(f'git -C {R} diff -U4').stdout)
        finally: open(f,'w').write(orig)
        st[res]+=1; open(done,'a').write(key+'\n'); open(f'{D}/stat-{shard}','w').write(json.dumps(st))
main()
