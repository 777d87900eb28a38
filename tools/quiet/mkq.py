#!/usr/bin/env python3
"""mkq.py [ids]: checks the edits of src/*.py in /tmp/q (a clone of /repo) and writes <id>.diff"""
import sys,os,subprocess,glob
b='/verif/tools/quiet'; q='/tmp/q'
for i in sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(b+'/src/*.py')):
  d={}; exec(open(f'{b}/src/{i}.py').read(),d)
  subprocess.run(['git','-C',q,'checkout','-q','--','.'],check=True)
  for f,o,n in d['EDITS']:
    s=open(f'{q}/{f}').read()
    if s.count(o)!=1: sys.exit(f'{i} {f}: {s.count(o)} matches of {o!r}')
    open(f'{q}/{f}','w').write(s.replace(o,n))
  diff=subprocess.run(['git','-C',q,'diff'],check=True,capture_output=True,text=True).stdout
  r=subprocess.run('cargo build --offline --target-dir /tmp/q-target 2>&1 && cargo build --offline --manifest-path keychain-c/Cargo.toml --target-dir /tmp/q-target 2>&1',shell=True,cwd=q,capture_output=True,text=True)
  subprocess.run(['git','-C',q,'checkout','-q','--','.'],check=True)
  print(i,'ok' if r.returncode==0 else 'FAIL '+'\n'.join(l for l in r.stdout.splitlines() if 'error' in l or '-->' in l)[:1500])
  open(f'{b}/{i}.diff','w').write(diff)
