#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: makes and verifies planted bugs from a spec."""
import json, os, subprocess, sys, re, shutil, importlib.util
OUT='/verif/seeded'; WT='/tmp/plant/wt'
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
def sh(cmd,cwd=None,**k): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,env=ENV,**k)
def tests(cwd):
    p=sh('go test -json -vet=off -count=1 -timeout 10m ./...',cwd)
    ok=set()
    for l in p.stdout.splitlines():
        try: d=json.loads(l)
        except ValueError: continue
        if d.get('Action')=='pass' and d.get('Test'): ok.add((d['Package'],d['Test']))
    return ok
LIB=open('/tmp/plant/lib.go.txt').read()
spec=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want=sys.argv[2:]
sh(f'rm -rf {WT}; git -C /repo worktree prune')
r=sh(f'git clone -q /repo {WT}'); assert r.returncode==0,r.stderr
base=tests(WT); print('baseline',len(base))
for b in m.BUGS:
    if want and b['id'] not in want: continue
    sh('git checkout -q -- . && git clean -fdq',WT)
    for f,old,new in b['edits']:
        p=os.path.join(WT,f); s=open(p).read()
        if s.count(old)!=1: print('!!',b['id'],'edit count',s.count(old),f,old[:60]); break
        open(p,'w').write(s.replace(old,new))
    else:
        sh('gofmt -w '+' '.join(e[0] for e in b['edits']),WT)
        d=os.path.join(OUT,b['id']); os.makedirs(d,exist_ok=True)
        diff=sh('git diff',WT).stdout
        open(d+'/patch.diff','w').write(diff)
        code=b['demo']
        if b.get('lib'):
            imps='\n'.join('\t"%s"'%i for i in b.get('imports',[]))
            code=LIB.replace('IMPORTS',imps)+'\n'+code
        open(d+'/demo_test.go','w').write(code)
        sh('gofmt -w '+d+'/demo_test.go')
        pkg=b.get('pkg','internal/server')
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Run with cwd = the repository: exit 0 when the property holds.
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp -d)
trap 'rm -rf "$O"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=${{GOPATH:-/root/go}} GOCACHE=${{GOCACHE:-/root/.cache/go-build}}
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$D" > "$O/overlay.json"
go test -vet=off -count=1 -timeout 120s {b.get("flags","")} -overlay "$O/overlay.json" -run '^TestDemo$' ./{pkg}
''')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['what']},open(d+'/meta.json','w'),indent=1,ensure_ascii=False); open(d+'/meta.json','a').write('\n')
        bb=sh('go build ./...',WT)
        if bb.returncode: print('!!',b['id'],'build',bb.stderr[:800]); continue
        bad=base-tests(WT)
        dm=sh('bash '+d+'/demo.sh',WT)
        sh('git stash -q',WT); dc=sh('bash '+d+'/demo.sh',WT); sh('git stash drop -q',WT)
        ok= not bad and dm.returncode!=0 and dc.returncode==0 and '[build failed]' not in dm.stdout
        print('OK' if ok else '!!',b['id'],b['prop'],'tests broken:',sorted(bad)[:3],'demo patched rc',dm.returncode,'clean rc',dc.returncode)
        if not ok: print(dc.stdout[-1500:],dc.stderr[-500:],'--- patched:',dm.stdout[-1500:])
shutil.rmtree(WT)
