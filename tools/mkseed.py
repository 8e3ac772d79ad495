#!/usr/bin/env python3
"""mkseed.py ID PROP PKG 'needs' 'breaks' FILE <<< python edits [(old,new),...]; demo test body on /tmp/demo_test.go
Creates seeded/ID after confirming: builds, passes stable tests, demo passes clean and fails patched."""
import re, sys, os, subprocess, shutil, json, tempfile
def sh(c, cwd, t=300):
    e = dict(os.environ)
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + c], cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# run in the repository's root; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$T/zz_demo_test.go" > "$T/o.json"
export SCRATCH="$T"
go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s%s -run '^TestZZDemo' ./%s
'''
def main(sid, prop, pkg, needs, breaks, edits, demo, extra=''):
    d = f'/verif/seeded/{sid}'
    base = '/tmp/seedwt'
    subprocess.run(['rm', '-rf', base]); shutil.copytree('/repo', base, symlinks=True)
    for f, old, new in edits:
        s = open(f'{base}/{f}').read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(f'{base}/{f}', 'w').write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    rc, out = sh('git diff', base); assert out
    open(f'{d}/patch.diff', 'w').write(out)
    open(f'{d}/demo_test.go.txt', 'w').write(demo)
    open(f'{d}/demo.sh', 'w').write(DEMO % (pkg, extra, pkg)); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    ok = True
    rc, o = sh('gofmt -l $(git diff --name-only); go build ./... && go test -vet=off -count=1 $(go list ./... | grep -v avtool) 2>&1 | grep -v "no test files"', base)
    print('build+test patched', rc, o[-600:]); 
    fails = set(re.findall(r'^--- FAIL: (\w+)', o, re.M)); clean = set(re.findall(r'^--- FAIL: (\w+)', sh('go test -vet=off -count=1 $(go list ./... | grep -v avtool) 2>&1', '/repo')[1], re.M))
    print('tests newly failing', fails - clean); ok &= not (fails - clean)
    rc, o = sh(f'bash {d}/demo.sh', base); print('demo patched rc', rc, o[-500:]); ok &= rc != 0
    rc, o = sh(f'bash {d}/demo.sh', '/repo'); print('demo clean rc', rc, o[-800:] if rc else ''); ok &= rc == 0
    e = dict(os.environ, JC_REPO=base)
    p = subprocess.run(['bash', '/verif/run.sh', prop], cwd='/verif', env=e, capture_output=True, text=True)
    print('CHECK', prop, p.returncode, p.stdout[-900:])
    print('OK' if ok else 'NOT CONFIRMED')
