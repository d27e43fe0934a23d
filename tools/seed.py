#!/usr/bin/env python3
"""Developer helper: turns tools/seeds/*.py descriptions into /verif/seeded/<id>/ after confirming them on a scratch copy.
usage: seed.py FILE [id...]   where FILE defines seeds=[dict(id,prop,edits=[(file,old,new)],demo,needs,breaks,pe=bool)]"""
import sys,os,subprocess,shutil,json,runpy
W='/tmp/seedwork'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
    seeds=runpy.run_path(sys.argv[1])['seeds']; only=sys.argv[2:]
    for s in seeds:
        if only and s['id'] not in only: continue
        shutil.rmtree(W,ignore_errors=True); os.makedirs(W+'/v/evidence'); sh('cp /verif/known_findings.txt '+W+'/v/')
        sh('cp -a /repo %s/repo'%W); r=W+'/repo'
        ok=True
        for f,a,b in s['edits']:
            t=open(r+'/'+f).read()
            if t.count(a)!=1: print(s['id'],'EDIT matches',t.count(a),f,a[:60]); ok=False; break
            open(r+'/'+f,'w').write(t.replace(a,b))
        if not ok: continue
        sh('cd %s && . /opt/vp/env.sh && gofmt -l . '%r)
        diff=sh('cd %s && git diff'%r).stdout
        d=W+'/demo'; os.makedirs(d)
        open(d+'/main.go','w').write(s['demo'])
        if s.get('pe',True): shutil.copy('/verif/tools/seedlib/pe.go',d)
        shutil.copy('/verif/tools/seedlib/demo.sh',d); os.chmod(d+'/demo.sh',0o755)
        # builds, stable tests
        x=sh('cd %s && . /opt/vp/env.sh && go build ./...'%r)
        if x.returncode: print(s['id'],'BUILD',x.stderr[:500]); continue
        x=sh('cd %s && . /opt/vp/env.sh && export GIT_ALLOW_PROTOCOL=none GIT_TERMINAL_PROMPT=0 GIT_CEILING_DIRECTORIES=%s; go test -json -vet=off -count=1 ./... > %s/t.json; python3 /opt/vp/results.py %s/o.json gojson:%s/t.json'%(r,r,W,W,W))
        b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(W+'/o.json'))
        miss=[t for t in b['stable'] if t not in set(o['passed'])]
        if miss: print(s['id'],'TESTS FAIL',miss[:5]); continue
        x=sh('cd /repo && bash %s/demo.sh'%d)
        if x.returncode: print(s['id'],'DEMO FAILS UNPATCHED',x.stdout[-400:],x.stderr[-600:]); continue
        x=sh('cd %s && bash %s/demo.sh'%(r,d))
        if x.returncode in (0,2): print(s['id'],'DEMO with patch gives',x.returncode,x.stdout[-400:],x.stderr[-400:]); continue
        msg=x.stdout.strip().split('\n')[-1][:150]
        t='/verif/seeded/'+s['id']; shutil.rmtree(t,ignore_errors=True); os.makedirs('/verif/seeded',exist_ok=True); shutil.copytree(d,t)
        open(t+'/patch.diff','w').write(diff)
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(t+'/meta.json','w'),indent=1)
        c=sh('/verif/bin/wrcheck %s -repo %s -verif /tmp/seedwork/v'%(s['prop'],r)) if not os.environ.get('NOCHECK') else None
        print(s['id'],'kept;',msg,'| check:', ('CAUGHT' if 'VIOLATION' in c.stdout else 'MISSED') if c else '-')
    shutil.rmtree(W,ignore_errors=True)
main()
