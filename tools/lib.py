import os,subprocess,json,shutil,sys,tempfile
PRE='''package main

import nn "github.com/cubeflix/nn"

func die(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }
func ok(err error) { if err != nil { die("unexpected error: %v", err) } }
func mat(x [][]float64) nn.Matrix { m, err := nn.NewMatrixFromSlice(x); ok(err); return m }
func fill(rows, cols int, f func(i, j int) float64) nn.Matrix {
	m, err := nn.NewMatrix(rows, cols)
	ok(err)
	for i := range m.M { for j := range m.M[i] { m.M[i][j] = f(i, j) } }
	return m
}
func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol*(1+math.Abs(b)) }

'''
SH='''#!/bin/bash
# %s
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/run"
cp "$here/demo.go" "$d/main.go"
cp "$repo/go.sum" "$d/go.sum"
sed "s#^module .*#module demo#" "$repo/go.mod" > "$d/go.mod"
printf 'require github.com/cubeflix/nn v0.0.0\\nreplace github.com/cubeflix/nn => %%s\\n' "$repo" >> "$d/go.mod"
cd "$d" && go build -o "$d/demo" . || exit 2
cd "$d/run" && timeout 200 "$d/demo"
'''
def sh(c,cwd=None,t=600):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return p.returncode,p.stdout
OUT='/verif/seeded'
SEEDS=[]
def seed(id,prop,needs,breaks,edits,demo): SEEDS.append((id,prop,needs,breaks,edits,demo))
def run(only=None,test=True):
    base=json.load(open('/opt/vp/BASELINE.json'))
    for id,prop,needs,breaks,edits,demo in SEEDS:
        if only and id not in only: continue
        w='/tmp/seedgen/w-'+id; shutil.rmtree(w,ignore_errors=True)
        rc,o=sh(f'git clone -q /repo {w}'); assert rc==0,o
        for f,old,new in edits:
            p=f'{w}/{f}'; s=open(p).read()
            n=s.count(old)
            if n==0: print(id,'NOT FOUND',f,repr(old[:60])); break
            if n>1 and not isinstance(new,tuple): print(id,'AMBIGUOUS',n,repr(old[:60])); break
            if isinstance(new,tuple):
                k,new2=new; parts=s.split(old); s=old.join(parts[:k+1])+new2+old.join(parts[k+1:])
            else: s=s.replace(old,new)
            open(p,'w').write(s)
        else:
            d=f'{OUT}/{id}'; os.makedirs(d,exist_ok=True)
            rc,diff=sh('git diff',w); open(d+'/patch.diff','w').write(diff)
            open(d+'/demo.sh','w').write(SH%breaks.split('.')[0].replace('\n',' ')); os.chmod(d+'/demo.sh',0o755)
            open(d+'/demo.go','w').write(PRE+demo)
            rc,o=sh(f'goimports -w {d}/demo.go && gofmt -w {d}/demo.go')
            if rc: print(id,'GOIMPORTS',o)
            json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
            rc,o=sh('go build ./...',w)
            if rc: print(id,'BUILD',o); continue
            # removed original lines?
            rm=[l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
            r0,o0=sh(f'bash {d}/demo.sh','/repo'); r1,o1=sh(f'bash {d}/demo.sh',w)
            st='ok' if r0==0 and r1 not in(0,2) else 'BAD'
            t=''
            if test:
                rc,o=sh('go test . 2>&1 | tail -15',w)
                t='tests ok' if 'FAIL' not in o and 'ok' in o else 'TESTS FAIL '+o[-600:]
            print(id,prop,st,r0,r1,(o0[-300:] if r0 else '').strip(),'|',o1.strip()[-160:],'|',t,'| removed',len(rm),flush=True)
            continue
        
