#!/usr/bin/env python3
"""mk.py SPEC.py...: each spec defines id, prop, edits=[(file, old, new)], needs, breaks, main, flags={'evmzero':1,'evmrs':'features'}.
Builds /verif/seeded/<id> and confirms it: the demo passes on a copy of the tree and fails with the patch, baseline tests pass with it.
Environment CHECKS=P03,P05 runs these checks against the patched tree too (in /repo, undone afterwards)."""
import sys, os, subprocess, json, shutil, runpy
V='/verif'; K=V+'/tools/seedkit'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
WT='/tmp/seedwt'
def fresh():
    if not os.path.exists(WT): sh(f'git clone -q /repo {WT}')
    sh(f'cd {WT} && git fetch -q && git reset -q --hard origin/HEAD && git clean -fdxq')
for spec in sys.argv[1:]:
    s=runpy.run_path(spec); i=s['id']; S=f'{V}/seeded/{i}'
    fresh()
    for f,o,n in s['edits']:
        p=f'{WT}/{f}'; t=open(p).read()
        assert t.count(o)==1, (i,f,t.count(o),o)
        open(p,'w').write(t.replace(o,n))
    os.makedirs(S,exist_ok=True)
    d=sh(f'cd {WT} && git diff').stdout
    open(S+'/patch.diff','w').write(d)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(S+'/meta.json','w'),indent=1)
    for k,v in s.get('flags',{}).items(): open(f'{S}/needs-{k}','w').write(str(v) if v!=1 else '')
    for k,v in s.get('files',{}).items(): open(f'{S}/{k}','w').write(v); os.chmod(f'{S}/{k}',0o755)
    if 'main' in s:
        open(S+'/main.go','w').write(s['main'])
        r=sh(f'{K}/pack.sh {i}'); assert r.returncode==0, r.stderr
    tmp='/tmp/seeddemo'; shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(S,tmp)
    for x in ('patch.diff','meta.json'): os.remove(f'{tmp}/{x}')
    bad=sh(f'cd {WT} && bash {tmp}/demo.sh')
    sh(f'cd {WT} && git checkout -q -- .')
    good=sh(f'cd {WT} && bash {tmp}/demo.sh')
    shutil.rmtree(tmp,ignore_errors=True)
    ok = good.returncode==0 and bad.returncode not in (0,2)
    print(i,'demo good',good.returncode,'bad',bad.returncode,'OK' if ok else 'PROBLEM', (bad.stdout+bad.stderr)[-300:].strip())
    if good.returncode: print(good.stdout[-500:],good.stderr[-1500:])
