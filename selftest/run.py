#!/usr/bin/env python3
"""Mutation and refactoring self-test of the rules (not part of any check).

usage: run.py [FILE...] [-k SUBSTR]
Each FILE is a Python file defining M, a list of (expect, props, edits) with
expect 'bad' (some listed property must alarm) or 'ok' (none of all rules listed, or all
rules when props is '*', may alarm); edits is [(file, old, new), ...].
Works on copies of /repo under /tmp."""
import sys,os,time,subprocess,shutil,concurrent.futures as cf,threading,glob
here=os.path.dirname(os.path.abspath(__file__))
args=[a for a in sys.argv[1:]]
k=None
if '-k' in args:
    i=args.index('-k'); k=args[i+1]; del args[i:i+2]
only=None
if '-i' in args:
    i=args.index('-i'); only=set(map(int,args[i+1].split(','))); del args[i:i+2]
files=args or sorted(glob.glob(here+'/m_*.py'))
M=[]
for f in files:
    ns={}; exec(open(f).read(),ns); M+= [(os.path.basename(f),i)+tuple(m) for i,m in enumerate(ns['M'])]
B='/tmp/selftest-rdapcheck-%d'%os.getpid()
env=dict(os.environ)
subprocess.run(['/bin/bash','-c','. /opt/vp/env.sh; cd %s/../tool && go build -o %s ./cmd/rdapcheck'%(here,B)],check=True)
ALL=sorted(__import__('json').loads(subprocess.run([B,'-list'],capture_output=True,text=True,errors='replace').stdout))
SKIP=set(os.environ.get('SKIP','').split(','))
loc=threading.local(); cnt=[0]; lk=threading.Lock()
def work(m):
    f,i,exp,props,edits=m[:5]
    name='%s#%d'%(f,i)
    if not hasattr(loc,'d'):
        with lk: cnt[0]+=1; loc.d='/tmp/selftest-%d-%d'%(os.getpid(),cnt[0])
        shutil.rmtree(loc.d,ignore_errors=True); shutil.copytree('/repo',loc.d,symlinks=True,ignore=shutil.ignore_patterns('.git'))
    d=loc.d; saved={}
    try:
        for fn,o,n in edits:
            p=os.path.join(d,fn); s=open(p).read() if os.path.exists(p) else None
            if p not in saved: saved[p]=s
            if o=='' : s=(s or '')+n
            elif o not in s: return name,'NOTFOUND',o[:60]
            else: s=s.replace(o,n,1)
            open(p,'w').write(s)
        b=subprocess.run(['/bin/bash','-c','. /opt/vp/env.sh; cd %s && go build ./...'%d],capture_output=True,text=True,errors='replace')
        if b.returncode: return name,'NOBUILD',b.stderr[:300]
        ps=[p for p in ALL if p not in SKIP] if props=='*' else props.split(',')
        if props=='*' and not os.environ.get('FULL'):
            # rules which only look at other files
            fs={e[0] for e in edits}
            far=lambda *near: not any(any(f.startswith(n) for n in near) for f in fs)
            if far('print.go','decode_data.go','vcard.go','common.go'): ps=[p for p in ps if p not in ('C18','C21','C23','C24')]
            if far('print.go','decode_data.go','vcard.go','common.go','cli.go','response.go'): ps=[p for p in ps if p!='C22']
            if far('cli.go','request.go'): ps=[p for p in ps if p!='C25']
        got=[];txt='';und=[]
        for p in ps:
            if p not in ALL: continue
            t0=time.time()
            r=subprocess.run([B,'-n','-repo',d,'-property',p],capture_output=True,text=True,errors='replace')
            if time.time()-t0>90: und.append(p+':SLOW %ds'%(time.time()-t0))
            if r.returncode==1: got.append(p); txt=txt or r.stdout.splitlines()[0][:220]
            elif r.returncode: got.append(p+'?rc%d'%r.returncode); txt=(r.stdout+r.stderr)[:300]
            u=[l for l in r.stdout.splitlines() if l.startswith('undecided')]
            if u: und.append(p+':'+str(len(u))+' '+u[0][:120])
        if exp=='bad': return name,('caught' if got else 'MISSED'),(','.join(got)+' '+txt if got else str([(e[0],e[2][:100]) for e in edits])+' '+str(und))
        return name,('FALSE-ALARM' if got else 'quiet'),(','.join(got)+' '+txt if got else str(und) if und else '')
    finally:
        for p,s in saved.items():
            if s is None: os.remove(p)
            else: open(p,'w').write(s)
todo=[m for m in M if (not k or k in str(m)) and (not only or m[1] in only)]
with cf.ThreadPoolExecutor(7) as ex:
    for r in ex.map(work,todo):
        print(*r,flush=True)
for i in range(1,cnt[0]+1): shutil.rmtree('/tmp/selftest-%d-%d'%(os.getpid(),i),ignore_errors=True)
