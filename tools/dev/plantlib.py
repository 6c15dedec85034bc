import os, subprocess, json, shutil, tempfile
V='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0: the property held; nonzero: it was broken
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
export TMPDIR=$tmp
timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def plant(id, prop, needs, breaks, edits, pkg, demo, demosh=None):
    d=os.path.join(V,id); os.makedirs(d,exist_ok=True)
    tmp=tempfile.mkdtemp(dir='/tmp')
    repo=os.path.join(tmp,'r')
    subprocess.run(['git','clone','-q','--local','/repo',repo],check=True)
    for f,old,new in edits:
        p=os.path.join(repo,f); s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','diff'],cwd=repo,capture_output=True,text=True).stdout
    assert diff
    open(os.path.join(d,'patch.diff'),'w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(os.path.join(d,'meta.json'),'w'),indent=1)
    open(os.path.join(d,'demo.sh'),'w').write(demosh or DEMO%{'pkg':pkg})
    os.chmod(os.path.join(d,'demo.sh'),0o755)
    open(os.path.join(d,'demo_test.go'),'w').write(demo)
    shutil.rmtree(tmp)
