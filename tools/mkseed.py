#!/usr/bin/env python3
# mkseed.py: usage from python: mk(id, file, [(old,new[,nth])], demo_go, meta)
import subprocess,os,json,shutil,tempfile
DEMO='''#!/bin/bash
# exit 0: the property holds; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/o.json"
go test -overlay "$tmp/o.json" -vet=off -count=1 -run '^TestZZDemo$' .
'''
def mk(id, edits, demo, prop, needs, breaks):
    w=tempfile.mkdtemp(prefix='/tmp/mks.'); r=w+'/repo'
    subprocess.check_call(['cp','-a','/repo',r]); subprocess.check_call(['git','-C',r,'checkout','-q','--','.'])
    for e in edits:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else None
        s=open(r+'/'+f).read(); c=s.count(old)
        if n is None:
            assert c==1,(id,f,old,c); s=s.replace(old,new)
        else:
            i=-1
            for _ in range(n): i=s.index(old,i+1)
            s=s[:i]+new+s[i+len(old):]
        open(r+'/'+f,'w').write(s)
    d=subprocess.check_output(['git','-C',r,'diff']).decode()
    o='/verif/seeded/'+id; os.makedirs(o,exist_ok=True)
    open(o+'/patch.diff','w').write(d); open(o+'/demo.sh','w').write(DEMO); os.chmod(o+'/demo.sh',0o755)
    open(o+'/demo_test.go.txt','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(o+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
