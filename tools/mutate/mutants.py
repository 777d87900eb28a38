#!/usr/bin/env python3
"""mutants.py OUT.json [N] [SEED]: small mechanical changes to the library (one token or one statement each)."""
import json,random,re,subprocess,sys
R='/repo'
files=[f for f in subprocess.check_output(['git','-C',R,'ls-files'],text=True).split() if f.endswith('.rs') and not f.endswith('build.rs') and '/hex.rs' not in f]
OPS=[(r' < ',[' <= ',' > ']),(r' <= ',[' < ']),(r' > ',[' >= ',' < ']),(r' >= ',[' > ']),(r' == ',[' != ']),(r' != ',[' == ']),
 (r' && ',[' || ']),(r' \|\| ',[' && ']),(r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' + ']),(r' / ',[' * ']),(r' % ',[' / ']),
 (r' << ',[' >> ']),(r' >> ',[' << ']),(r' & ',[' | ']),(r' \| ',[' & ']),(r' \+= ',[' -= ']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),
 (r'\.is_null\(\)',['.is_null() == false']),(r'\.is_empty\(\)',['.is_empty() == false']),(r'\.is_ok\(\)',['.is_err()']),(r'\.is_some\(\)',['.is_none()']),
 (r'\.len\(\)',['.len() + 1','.len() - 1','.len().min(64)']),(r'\bmin\b',['max']),(r'\bmax\b',['min']),
 (r'\.change\(\)',['.address()','.account()']),(r'\.address\(\)',['.change()']),(r'\.account\(\)',['.change()']),(r'\.purpose\(\)',['.coin()']),(r'\.coin\(\)',['.purpose()']),
 (r'BITCOIN\b',['ETHEREUM']),(r'ETHEREUM\b',['CARDANO']),(r'CARDANO\b',['BITCOIN']),
 (r'\bSome\(([a-z_]+)\)(?= *[,;)])',['None']),(r'\.skip\(1\)',['']),(r'\.rev\(\)',['']),(r'\.iter\(\)',['.iter().skip(1)','.iter().take(2)']),
 (r'\bmnemonic\b',['password']),(r'\bpassword\b',['new_password']),(r'\bnew_password\b',['password']),(r'_be_bytes',['_le_bytes']),
 (r'BigEndian',['LittleEndian']),(r'LittleEndian',['BigEndian'])]
out=[]
for f in files:
  src=open(f'{R}/{f}').read().split('\n')
  end=next((i for i,l in enumerate(src) if '#[cfg(test)]' in l),len(src))
  for i,l in enumerate(src[:end]):
    s=l.strip()
    if not s or s.startswith(('//','#','use ','pub use','extern crate','mod ','pub mod','*','/*')): continue
    seen=set()
    def add(n,kind):
      if n!=l and n not in seen:
        seen.add(n); out.append({'file':f,'line':i+1,'old':l,'new':n,'kind':kind})
    code=l.split('//')[0]
    strs=[m.span() for m in re.finditer(r'"(\\.|[^"\\])*"',code)]
    instr=lambda a:any(x<=a<y for x,y in strs)
    for pat,reps in OPS:
      for m in re.finditer(pat,code):
        if instr(m.start()): continue
        for r in reps: add(l[:m.start()]+r+l[m.end():],pat)
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.]*[xX\'])(u8|u32|u64|usize|i32)?\b',code):
      if instr(m.start()): continue
      t=m.group(1).replace('_','')
      v=int(t,16) if t.startswith('0x') else int(t)
      for n in ({v+1,max(v-1,0)}-{v}): add(l[:m.start()]+(hex(n) if t.startswith('0x') else str(n))+(m.group(2) or '')+l[m.end():],'int')
    for m in re.finditer(r'\bif (?!let)([^{]+) \{',code):
      add(l[:m.start(1)]+'false && ('+m.group(1)+')'+l[m.end(1):],'if false'); add(l[:m.start(1)]+'true || ('+m.group(1)+')'+l[m.end(1):],'if true')
    if s.endswith(';') and not s.startswith(('let ','return','pub ','const ','static ','}','type ','fn ')): add(re.sub(r'\S.*',';',l),'delete statement')
    for m in re.finditer(r'\b(Error|ErrorType|MnemonicError|KeyError|KeyPathError|Self)::([A-Z]\w+)\b(?!\s*[({])',code):
      for alt in ('NotEnoughData','InvalidPassword','SeedIsNotSaved'): 
        if alt!=m.group(2) and m.group(1)=='Error': add(l[:m.start(2)]+alt+l[m.end(2):],'other error')
    if '?' in code and s.endswith(';') and not s.startswith('let'): add(l.replace('?;',';'),'error ignored')
random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 1).shuffle(out)
n=int(sys.argv[2]) if len(sys.argv)>2 else len(out)
for k,m in enumerate(out): m['id']='m%04d'%k
print(len(out)); json.dump(out[:n],open(sys.argv[1],'w'),indent=0)
