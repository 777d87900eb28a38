#!/usr/bin/env python3
"""stage1.py MUTANTS.json OUT.jsonl DIR K N: which mutants (k mod n) build and pass the existing tests, in a copy DIR of /repo"""
import json,os,subprocess,sys,shutil
ms=json.load(open(sys.argv[1])); out,d,k,n=sys.argv[2],sys.argv[3],int(sys.argv[4]),int(sys.argv[5])
if not os.path.isdir(d): subprocess.check_call(['cp','-a','/repo',d])
for a in('build','test'):
  open(f'{d}-{a}.sh','w').write(open(f'/opt/vp/{a}.sh').read().replace('/repo',d).replace('cargo check','true'))
base=json.load(open('/opt/vp/BASELINE.json'))
done=set()
if os.path.exists(out): done={json.loads(l)['id'] for l in open(out)}
def sh(c,t):
  try: return subprocess.run(c,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=t,start_new_session=True).returncode
  except subprocess.TimeoutExpired: return 99
for j,m in enumerate(ms):
  if j%n!=k or m['id'] in done: continue
  p=f"{d}/{m['file']}"; s=open(p).read(); L=s.split('\n'); assert L[m['line']-1]==m['old']
  L[m['line']-1]=m['new']; open(p,'w').write('\n'.join(L))
  r='nobuild'
  if sh(['bash',f'{d}-build.sh'],200)==0:
    r='pass' if sh(['timeout','-k','1','100','bash',f'{d}-test.sh',f'{d}-out.json'],130)==0 else 'killed'
  open(p,'w').write(s)
  open(out,'a').write(json.dumps({'id':m['id'],'r':r})+'\n')
