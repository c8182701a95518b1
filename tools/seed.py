#!/usr/bin/env python3
"""seed.py SPEC.py...: makes and validates planted bugs.  A spec sets
ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (go test source without the package clause).
seed.py --recheck [ID...]: runs the property checks against the kept bugs (in scratch copies)."""
import json, os, subprocess, sys, shutil, tempfile
V='/verif'; ENV=dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', TZ='UTC', GOFLAGS='-mod=mod', GOSUMDB='off')
STABLE={'TestBoolFormats','TestDateFormats','TestFractions','TestAllFiles','TestBasic','TestSliceReader'}
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def scratch():
    d=tempfile.mkdtemp(prefix='grate-seed.', dir='/tmp')
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    return d
def tests(repo):
    r=sh(['go','test','-json','-vet=off','-count=1','./...'],repo)
    ok=set(); bad=[]
    for l in r.stdout.splitlines():
        try: j=json.loads(l)
        except Exception: continue
        if j.get('Action')=='pass' and 'Test' in j: ok.add((j['Package'],j['Test']))
        if j.get('Action')=='fail' and j.get('Test') in STABLE: bad.append((j['Package'],j['Test']))
    n=sum(1 for p,t in ok if t in STABLE)
    return n==8 and not bad, (n,bad,r.stderr[-500:])
def check(d, prop, tier='quick'):
    if not os.path.isdir(d+'/v'):
        os.mkdir(d+'/v'); subprocess.run(['cp','-a',V+'/mc',d+'/v/mc'],check=True)
        for f in ('run.sh','known_findings.json'):
            if os.path.exists(V+'/'+f): shutil.copy(V+'/'+f,d+'/v/'+f)
        m=open(d+'/v/mc/go.mod').read().replace('=> /repo','=> '+d+'/repo'); open(d+'/v/mc/go.mod','w').write(m)
        f=d+'/v/mc/props/sched.go'; m=open(f).read().replace('"/repo"','"'+d+'/repo"'); open(f,'w').write(m)
    env=dict(ENV, GRATE_REPO=d+'/repo')
    r=subprocess.run(['bash',d+'/v/run.sh',prop,tier],cwd=d+'/v',env=env,capture_output=True,text=True)
    return r
def demo(d, repo):
    return sh(['bash',d+'/demo.sh'],repo)
def verdict(r, prop):
    hit = r.returncode==1 and ('VIOLATION property=%s '%prop) in r.stdout
    return 'CAUGHT' if hit else 'MISSED rc=%d'%r.returncode
def make(spec):
    S={}; exec(open(spec).read(),S)
    out=V+'/seeded/'+S['ID']; d=scratch()
    try:
        for f,old,new in S['EDITS']:
            p=d+'/repo/'+f; t=open(p).read()
            if t.count(old)!=1: print(S['ID'],'EDIT matches',t.count(old),'times in',f); return
            open(p,'w').write(t.replace(old,new))
        sh(['gofmt','-w']+[d+'/repo/'+f for f,_,_ in S['EDITS'] if f.split('/')[-1] not in('sheet.go','simple.go','structs.go','types.go')],d)
        diff=sh(['git','diff'],d+'/repo').stdout
        b=sh(['go','build','./...'],d+'/repo')
        if b.returncode: print(S['ID'],'BUILD',b.stderr); return
        ok,info=tests(d+'/repo')
        if not ok: print(S['ID'],'TESTS',info); return
        os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        shutil.copy(V+'/tools/seedlib/demo.sh',out+'/demo.sh')
        if S.get('RACE'):
            m=open(out+'/demo.sh').read().replace('go test -c','go test -race -c'); open(out+'/demo.sh','w').write(m)
        shutil.copy(V+'/tools/seedlib/help_test.go',out+'/help_test.go')
        open(out+'/demo_test.go','w').write('package zzdemo\n'+S['DEMO'])
        sh(['gofmt','-w',out+'/demo_test.go'],d)
        json.dump({'property':S['PROP'],'needs':S['NEEDS'],'what_it_breaks':S['BREAKS']},open(out+'/meta.json','w'),indent=1)
        r0=demo(out,'/repo'); r1=demo(out,d+'/repo')
        if r0.returncode!=0: print(S['ID'],'DEMO FAILS ON CLEAN',r0.stdout[-1500:],r0.stderr[-800:]); return
        if r1.returncode==0: print(S['ID'],'DEMO PASSES ON PATCHED'); return
        if r1.returncode==3: print(S['ID'],'DEMO BUILD',r1.stdout[-800:]); return
        r=check(d,S['PROP'])
        print(S['ID'],S['PROP'],verdict(r,S['PROP']),(r.stdout+r.stderr)[-300:].replace('\n',' | '))
    finally:
        subprocess.run(['find',d,'-delete'])
def recheck(ids):
    from concurrent.futures import ThreadPoolExecutor
    for i in ids:
        d=scratch(); out=V+'/seeded/'+i
        try:
            p=json.load(open(out+'/meta.json'))['property']
            a=sh(['git','apply',out+'/patch.diff'],d+'/repo')
            if a.returncode: print(i,'PATCH DOES NOT APPLY',a.stderr.strip()); continue
            r0=demo(out,'/repo'); r1=demo(out,d+'/repo')
            r=check(d,p)
            print(i,p,verdict(r,p),'demo %d/%d'%(r0.returncode,r1.returncode),(r.stdout+r.stderr)[-120:].replace('\n',' | '),flush=True)
        finally:
            subprocess.run(['find',d,'-delete'])
if sys.argv[1]=='--recheck':
    recheck(sys.argv[2:] or sorted(os.listdir(V+'/seeded')))
else:
    for s in sys.argv[1:]: make(s)
