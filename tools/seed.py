#!/usr/bin/env python3
"""seed.py [make|run|demo] [ID...]: builds /verif/seeded/<id>/ from tools/seeds/*.py
and tries the demonstrations and the checks against each planted change.
The changes are applied to /repo and undone straight afterwards."""
import sys, os, subprocess, json, glob, shutil, tarfile, io, tempfile, time
R='/repo'; V='/verif'
ENV=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off')
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, env=ENV, **k)
def specs():
    out=[]
    for f in sorted(glob.glob(V+'/tools/seeds/*.py')):
        g={}; exec(compile(open(f).read(), f, 'exec'), g); out+=g['SEEDS']
    ids=[s['id'] for s in out]; assert len(ids)==len(set(ids)), [i for i in ids if ids.count(i)>1]
    return out
DEMO_SH='''#!/bin/bash
# Exit 0 when the behaviour is right, 1 when it is not. Run with cwd at the repository.
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="$(pwd)"
D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
mkdir "$D/w" "$D/t"
tar -xzf "$HERE/lib.tgz" -C "$D/w" && cp "$HERE/demo.go" "$D/w/checks/demo_case.go" || exit 0
sed -i "s#=> .*#=> $REPO#" "$D/w/go.mod"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off TMPDIR="$D/t"
cd "$D/w" && go build -o "$D/demo" . && timeout 120 "$D/demo"
'''
MAIN='''package main

import (
	"fmt"
	"os"

	"verif/checks"
	"verif/mc"
)

func main() {
	if err := mc.Guard(checks.Demo); err != nil {
		fmt.Println("FAIL:", err)
		os.Exit(1)
	}
	fmt.Println("ok")
}
'''
UTIL='''package checks

import "fmt"

func hist(t *Tmpl, ops ...Op) error {
	w, err := Open(t)
	if err != nil {
		return err
	}
	if err := RunOps(w, ops); err != nil {
		return err
	}
	_, err = SaveVerify(w)
	return err
}

func all(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

var _ = fmt.Sprint
'''
def lib():
    b=io.BytesIO()
    with tarfile.open(fileobj=b, mode='w:gz') as t:
        def add(n, data):
            i=tarfile.TarInfo(n); i.size=len(data); i.mtime=0; t.addfile(i, io.BytesIO(data))
        for f in sorted(glob.glob(V+'/harness/*/*.go')): add(os.path.relpath(f, V+'/harness'), open(f,'rb').read())
        add('go.mod', open(V+'/harness/go.mod','rb').read()); add('main.go', MAIN.encode()); add('checks/demo_util.go', UTIL.encode())
    return b.getvalue()
def make(s, LIB):
    d=f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    wt='/tmp/seedwt'; shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['git','-C',R,'worktree','prune']); r=sh(f'git -C {R} worktree add --detach {wt} HEAD')
    try:
        for f,old,new in s['edits']:
            p=f'{wt}/{f}'; t=open(p).read()
            n=t.count(old)
            if n!=1 and not s.get('multi'): raise SystemExit(f"{s['id']}: {f}: {n} matches of {old!r}")
            open(p,'w').write(t.replace(old,new))
        fm=sh(f"gofmt -l {' '.join(wt+'/'+e[0] for e in s['edits'])}").stdout
        if fm.strip(): print(s['id'],'gofmt',fm)
        diff=sh(f'git -C {wt} diff').stdout
    finally:
        sh(f'git -C {R} worktree remove --force {wt}')
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.go','w').write(s['demo']); open(d+'/demo.sh','w').write(DEMO_SH); os.chmod(d+'/demo.sh',0o755)
    if not os.path.exists(d+'/lib.tgz') or s.get('fresh') or '--lib' in sys.argv: open(d+'/lib.tgz','wb').write(LIB)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(d+'/meta.json','w'), indent=1, ensure_ascii=False)
def demo(d):
    t=tempfile.mkdtemp()
    for f in ('demo.sh','demo.go','lib.tgz'): shutil.copy(f'{d}/{f}', t)
    r=sh(f'bash {t}/demo.sh', cwd=R); shutil.rmtree(t); return r.returncode, (r.stdout+r.stderr).strip()[-300:]
def run(s, checks=True):
    d=f"{V}/seeded/{s['id']}"; res={}
    assert not sh(f'git -C {R} status --porcelain').stdout.strip()
    r=sh(f'git -C {R} apply --check {d}/patch.diff')
    if r.returncode: print(s['id'],'DOES NOT APPLY',r.stderr); return
    c0=demo(d)
    sh(f'git -C {R} apply {d}/patch.diff')
    try:
        t=sh('bash /tmp/t.sh').stdout
        c1=demo(d)
        if checks:
            t0=time.time(); k=sh(f"bash {V}/run.sh {s['property']} quick")
            v=[l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
            res=(k.returncode, f"{time.time()-t0:.0f}s", v[:1], len(v))
    finally:
        sh(f'git -C {R} checkout -- .')
    okt='regressions []' in t
    bad = (not okt) or c0[0]!=0 or c1[0]==0
    caught = checks and res[0]==1 and res[3]>0
    print(f"{s['id']:26} {s['property']} tests={'ok' if okt else 'FAIL '+t} demo={c0[0]}/{c1[0]} {'' if not bad else 'INVALID'} {'CAUGHT' if caught else 'MISSED' if checks else ''} {res}", flush=True)
    if c0[0]!=0: print('   clean:',c0[1])
    print('   planted:',c1[1].replace('\n',' | ')[:300])
if __name__=='__main__':
    mode=sys.argv[1]; ids=[a for a in sys.argv[2:] if not a.startswith('-')]
    S=[s for s in specs() if not ids or s['id'] in ids]
    L=lib()
    if mode in('make','all'):
        for s in S: make(s,L)
    if mode in('run','all'):
        for s in S: run(s)
    if mode=='demo':
        for s in S: run(s,False)
