#!/usr/bin/env python3
"""seed.py ID PROPERTY: takes the change now in the scratch copy /tmp/w/s (git diff against its HEAD, which must equal
/repo's tree) and the demonstration in /tmp/w/d (demo_test.go, optionally flags, needs.txt, breaks.txt), confirms that the change
builds, passes the stable tests, that the demonstration passes without it and fails with it, and stores it
as /verif/seeded/ID.  Then runs the checks named after PROPERTY (or those given as further arguments)."""
import json,os,shutil,subprocess,sys
sid,prop=sys.argv[1:3]; checks=sys.argv[3:] or [prop]
S='/tmp/w/s'; D='/tmp/w/d'; L='/verif/tools/seedlib'
env=dict(os.environ,GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
def run(cmd,cwd=None,**k): return subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
diff=run(['git','diff','HEAD'],S).stdout
assert diff.strip(),'no change'
dst='/verif/seeded/'+sid
os.makedirs(dst,exist_ok=True)
open(dst+'/patch.diff','w').write(diff)
for f in ('demo.sh','common_test.go'): shutil.copy(L+'/'+f,dst+'/'+f)
os.chmod(dst+'/demo.sh',0o755)
shutil.copy(D+'/demo_test.go',dst+'/demo_test.go')
if os.path.exists(D+'/flags'): shutil.copy(D+'/flags',dst+'/flags')
json.dump({'property':prop,'needs':open(D+'/needs.txt').read().strip(),'what_it_breaks':open(D+'/breaks.txt').read().strip()},open(dst+'/meta.json','w'),indent=1)
base=json.load(open('/opt/vp/BASELINE.json'))
r=run(['go','build','./...'],S); print('build',r.returncode,r.stdout[-500:])
r=run(['go','test','-vet=off','-count=1','-timeout','60s','./...'],S); print('tests',r.returncode, '' if r.returncode==0 else r.stdout[-1500:])
ok=r.returncode==0
r=run([dst+'/demo.sh'],S); print('demo with change',r.returncode,'|',r.stdout.strip()[-400:]); ok&= r.returncode!=0
r=run([dst+'/demo.sh'],'/repo'); print('demo without',r.returncode,'' if r.returncode==0 else r.stdout[-1500:]); ok&= r.returncode==0
for c in checks:
    r=subprocess.run(['/verif/run.sh',c],env=dict(os.environ,VERIF_REPO=S,VERIF_OUT='/tmp/w/vo'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print('check',c,r.returncode,'|',r.stdout.strip()[-600:])
print('SEED',sid,'CONFIRMED' if ok else 'REJECTED')
