#!/usr/bin/env python3
"""developer helper: mut.py corpus.py [id-prefix...]: applies each small edit to a scratch copy of /repo and compares the checks' verdicts
with what is expected: 'fire' (behaviour changed) or 'quiet' (behaviour kept)."""
import sys,os,subprocess,shutil,concurrent.futures as cf
corpus=sys.argv[1]; pre=sys.argv[2:]
ns={}; exec(open(corpus).read(),ns); muts=ns['M']
env=dict(os.environ); 
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition('='); env[k]=v
def one(m):
    w=f"/tmp/rv/m-{m['id']}"; shutil.rmtree(w,ignore_errors=True); os.makedirs(w+'/v/evidence')
    r=w+'/r'; shutil.copytree('/repo',r,symlinks=True,ignore=shutil.ignore_patterns('.git'))
    try:
        for f,a,b in m['edits']:
            s=open(f'{r}/{f}').read()
            if a not in s: return m,'NOMATCH '+a[:60]
            s=s.replace(a,b,1) if m.get('once',True) else s.replace(a,b)
            open(f'{r}/{f}','w').write(s)
        p=subprocess.run(['go','build','./...'],cwd=r,env=env,capture_output=True,text=True)
        if p.returncode: return m,'NOBUILD '+p.stderr[:300]
        out=[]
        for c in m['checks']:
            p=subprocess.run(['/verif/bin/wrcheck',c,'-repo',r,'-verif',w+'/v'],env=env,capture_output=True,text=True)
            fired=p.returncode==1 and 'VIOLATION' in p.stdout
            if p.returncode not in(0,1): return m,'CRASH '+p.stderr[-300:]
            want=m['expect']=='fire'
            lines=[x for x in p.stdout.splitlines() if x.startswith('  ')]
            out.append((c,fired==want,lines[0].strip()[:200] if lines else ''))
        return m,out
    finally: shutil.rmtree(w,ignore_errors=True)
sel=[m for m in muts if not pre or any(m['id'].startswith(p) for p in pre)]
good=bad=0
with cf.ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
    for m,o in ex.map(one,sel):
        if isinstance(o,str): print('??',m['id'],o); bad+=1; continue
        for c,ok,msg in o:
            if ok: good+=1
            else: bad+=1
            if not ok or os.environ.get('V'): print('ok ' if ok else 'BAD',m['id'],c,m['expect'],msg)
print(good,'as expected,',bad,'not')
