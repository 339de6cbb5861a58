#!/usr/bin/env python3
"""plant.py DIR : DIR has bug.py defining ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], MAIN
validates in a scratch worktree and writes /verif/seeded/ID"""
import sys,os,subprocess,json,shutil,tempfile
g={}
exec(open(sys.argv[1]).read(),g)
W='/tmp/plant/w'
def sh(c,cwd=None,t=900):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return p.returncode,p.stdout
os.makedirs('/tmp/plant',exist_ok=True)
if not os.path.isdir(W):
    print(sh(f'cp -a /repo {W}')[1])
sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',W)
out=f"/verif/seeded/{g['ID']}"
os.makedirs(out,exist_ok=True)
for f in('common.rs','demo.sh'): shutil.copy(f'/verif/work/seedkit/{f}',out)
open(out+'/main.rs','w').write('mod common;\nuse common::*;\n'+g['MAIN'])
json.dump(dict(property=g['PROP'],needs=g['NEEDS'],what_it_breaks=g['BREAKS']),open(out+'/meta.json','w'),indent=1)
os.chmod(out+'/demo.sh',0o755)
def fail(m,o=''):
    print(g['ID'],'FAIL',m,o[-1500:]); shutil.rmtree(out); sys.exit(1)
rc,o=sh(f'bash {out}/demo.sh',W)
if rc!=0: fail('demo fails on clean',o)
for f,a,b in g['EDITS']:
    s=open(f'{W}/{f}').read()
    if s.count(a)!=1: fail(f'{f}: {s.count(a)} matches',a)
    open(f'{W}/{f}','w').write(s.replace(a,b))
rc,d=sh('git diff',W)
open(out+'/patch.diff','w').write(d)
rc,o=sh(f'bash {out}/demo.sh',W)
if rc==0: fail('demo passes with bug')
demo=o
for feat in('--all-features',''):
    rc,o=sh(f'cargo test --workspace --offline -q {feat} -- --test-threads 8',W)
    if rc!=0: fail('tests catch it '+feat,' '.join(sorted(set(__import__('re').findall(r'^    (\S+::\S+)$',o,8)))))
sh('git checkout -q -- .',W)
print(g['ID'],'OK')
