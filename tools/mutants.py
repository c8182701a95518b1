#!/usr/bin/env python3
"""Runs the checks against random small changes of the code, to find what they do not see.
python3 tools/mutants.py N SEED OUT.jsonl [file substring...]   (works on copies below /tmp)"""
import json,os,random,shutil,subprocess,sys,time
n,seed,out=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
only=sys.argv[4:]
W='/tmp/mutwork'
V='/verif'
MAP=[('xls/cfb','C07 C08 C21 C20'),('xls/crypto','C09 C20'),('xls/hyper','C12 C20'),('xls/strings','C03 C10 C20'),('xls/structs','C02'),
 ('xls/sheets','C02 C03 C11 C12 C10 C20 C21'),('xls/xls.go','C10 C03 C09 C14 C23 C24 C22 C21 C01 C20'),('xlsx/','C04 C05 C10 C11 C12 C22 C23 C20 C21 C01 C14'),
 ('simple/','C06 C19 C18 C01 C22'),('commonxl/cell','C26 C19 C15 C02 C18 C04'),('commonxl/dates','C14 C17'),('commonxl/fmt','C13 C14 C16 C15 C17'),('commonxl/formats','C15 C17 C13 C14 C20'),
 ('commonxl/numbers','C16'),('commonxl/sheet','C18 C19 C11 C12 C15 C27 C20'),('grate.go','C01 C24'),('errs.go','C01'),('cmd/grate2tsv','C25'),('cmd/grater','C27')]
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOWORK='off',VERIF_BUDGET_S='70')
def sh(cmd,cwd=None,timeout=1500):
    try: return subprocess.run(cmd,cwd=cwd,env=env,capture_output=True,text=True,timeout=timeout,shell=isinstance(cmd,str))
    except subprocess.TimeoutExpired: return None
if os.path.exists(W): shutil.rmtree(W)
os.makedirs(W)
shutil.copytree('/repo',W+'/repo',symlinks=True)
shutil.copytree(V,W+'/verif',ignore=shutil.ignore_patterns('.git','evidence','replay','seeded'))
g=W+'/verif/mc/go.mod'; s=open(g).read().replace('=> /repo','=> '+W+'/repo'); open(g,'w').write(s)
g=W+'/verif/mc/props/sched.go'; s=open(g).read().replace('"/repo"','"'+W+'/repo"'); open(g,'w').write(s)
files=sh("git ls-files '*.go' | grep -v _test.go | grep -v records.go",cwd='/repo').stdout.split()
r=sh(['go','run','./mutate']+['/repo/'+f for f in files],cwd=V+'/mc')
all_=[json.loads(l) for l in r.stdout.splitlines()]
src={f:open('/repo/'+f,'rb').read() for f in files}
ms=[]
for m in all_:
    m['File']=m['File'][len('/repo/'):]
    line=src[m['File']].split(b'\n')[m['Line']-1].decode().strip()
    if 'log.' in line or 'Debug' in line: continue
    if only and not any(o in m['File'] for o in only): continue
    m['Text']=line; m['Old']=src[m['File']][m['Off']:m['End']].decode(); ms.append(m)
print(len(ms),'mutants')
random.seed(seed); random.shuffle(ms)
done=0
with open(out,'a') as o:
  for m in ms:
    if done>=n: break
    p=W+'/repo/'+m['File']; b=src[m['File']]
    open(p,'wb').write(b[:m['Off']]+m['New'].encode()+b[m['End']:])
    try:
        if sh(['go','build','./...'],cwd=W+'/repo').returncode: continue
        t=W+'/t.json'
        r=sh("ulimit -v 12000000; go test -json -vet=off -timeout 60s ./... > %s 2>/dev/null"%t,cwd=W+'/repo',timeout=200)
        if r is None: continue
        passed=set()
        for l in open(t):
            try: e=json.loads(l)
            except ValueError: continue
            if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Package'].split('/')[-1]+'.'+e['Test'])
        m['tests']=len(passed)
        if len(passed)<8: continue   # the tests see it
        done+=1
        ids=next(x for k,x in MAP if k in m['File']).split()
        m['caught']=None; t0=time.time()
        for i in ids:
            r=sh(['bash','run.sh',i],cwd=W+'/verif')
            if r is None or r.returncode not in (0,1): m.setdefault('odd',[]).append([i,None if r is None else (r.returncode,r.stderr[-300:])]); continue
            if r.returncode==1: m['caught']=i; break
        m['s']=round(time.time()-t0)
        o.write(json.dumps(m)+'\n'); o.flush()
        print(done,'CAUGHT '+m['caught'] if m['caught'] else 'SURVIVED',m['File'],m['Line'],m['Kind'],repr(m['Old']),'->',repr(m['New']),'|',m['Text'],m.get('odd',''),flush=True)
    finally:
        open(p,'wb').write(b)
