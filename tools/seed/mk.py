#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from the definitions in bugs/*.py:
   P property, NEEDS, BREAKS, EDITS [(file, old, new)], MAIN (body of main.rs)"""
import sys,os,subprocess,json,glob
base='/verif/tools/seed'; scratch='/tmp/kc'
ids=sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(base+'/bugs/*.py'))
for i in ids:
  d={}
  exec(open(f'{base}/bugs/{i}.py').read(),d)
  subprocess.run(['git','-C',scratch,'checkout','-q','--','.'],check=True)
  for f,old,new in d['EDITS']:
    p=f'{scratch}/{f}'; s=open(p).read()
    if s.count(old)!=1: sys.exit(f'{i}: {f}: {s.count(old)} matches of {old!r}')
    open(p,'w').write(s.replace(old,new))
  diff=subprocess.run(['git','-C',scratch,'diff'],check=True,capture_output=True,text=True).stdout
  subprocess.run(['git','-C',scratch,'checkout','-q','--','.'],check=True)
  o=f'/verif/seeded/{i}'; os.makedirs(o,exist_ok=True)
  open(o+'/patch.diff','w').write(diff)
  open(o+'/demo.sh','w').write(open(base+'/demo.sh').read().replace('@ID@',i)); os.chmod(o+'/demo.sh',0o755)
  open(o+'/common.rs','w').write(open(base+'/common.rs').read())
  open(o+'/main.rs','w').write('mod common;\n#[allow(unused_imports)]\nuse common::*;\n#[allow(unused_imports)]\nuse keychain::*;\nextern crate rust_keychain;\n'+d['MAIN'].lstrip('\n'))
  json.dump({'property':d['P'],'needs':d['NEEDS'],'what_it_breaks':d['BREAKS']},open(o+'/meta.json','w'),indent=1)
