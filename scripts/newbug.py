#!/usr/bin/env python3
"""Helper to write /verif/seeded/<id>/ from (file, old, new) edits and the text of an in-package demo test."""
import os,subprocess,json,shutil,tempfile
DEMO='''#!/bin/bash
# runs the in-package test beside this file, laid over the package; fails when the property is broken
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd -P); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on%s
echo "{\\"Replace\\":{\\"$r/%szz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s%s -run '^TestZZDemo' ./%s
'''
def bug(id,prop,edits,pkg,test,needs,breaks,race=False):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp()
    subprocess.check_call(['git','clone','-q','/repo',t+'/r'])
    for f,old,new in edits:
        p=t+'/r/'+f; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    df=subprocess.check_output(['git','-C',t+'/r','diff'],text=True)
    open(d+'/patch.diff','w').write(df)
    shutil.rmtree(t)
    pp=pkg.strip('/')
    open(d+'/demo.sh','w').write(DEMO%(' CGO_ENABLED=1' if race else '',pp+'/' if pp else '',' -race' if race else '',pp))
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(test)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
