#!/usr/bin/env python3
"""runseeds.py [ids...]: run the owning property's check against each planted change, in a scratch copy."""
import sys,os,subprocess,json,shutil,tempfile,time
d='/verif/seeded'
ids=sys.argv[1:] or sorted(os.listdir(d))
res={}
for i in ids:
    m=json.load(open(f'{d}/{i}/meta.json'))
    tmp=tempfile.mkdtemp(prefix='rs-'); wt=tmp+'/repo'
    shutil.copytree('/repo',wt,symlinks=True)
    r=subprocess.run(['git','-C',wt,'apply',f'{d}/{i}/patch.diff'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: print(i,'patch does not apply',r.stdout); shutil.rmtree(tmp); continue
    t0=time.time()
    r=subprocess.run(['bash','/verif/check.sh',m['property'],'quick'],env=dict(os.environ,VERIF_REPO=wt,VERIF_SEED='1'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i,m['property'],'rc',r.returncode,'CAUGHT' if r.returncode==1 and v else 'MISSED', 'concrete' if v and not v[0].endswith('found') else '', f'{time.time()-t0:.0f}s')
    if os.environ.get('V'): print(r.stdout[-3000:])
    shutil.rmtree(tmp)
