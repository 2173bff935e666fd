#!/usr/bin/env python3
"""plant.py FILE...: turn bug definitions into /verif/seeded/<id>/ after confirming them in a scratch copy.

A definition file is Python that calls bug(id, prop, edits, pkg, demo, needs, breaks):
edits is a list of (file, old, new); demo is the body of an in-package Go test file."""
import os, subprocess, sys, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off')
DEMO = '''#!/bin/bash
# Fails when the property is broken, passes otherwise. Run with cwd /repo.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
T="$(mktemp -d)" || exit 1
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s/zz_planted_demo_test.go":"%%s/demo_test.go"}}' "$R" "$D" > "$T/overlay.json"
timeout 250 go test -vet=off -count=1 -overlay "$T/overlay.json" -run '^TestPlantedDemo$' ./%s
'''
only = os.environ.get('ONLY')
res = []
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def bug(id, prop, edits, pkg, demo, needs, breaks):
    if only and only not in id: return
    d = f'{V}/seeded/{id}'
    S = tempfile.mkdtemp(prefix='plant')
    try:
        sh('git clone -q /repo r', S)
        r = S + '/r'
        for f, old, new in edits:
            p = f'{r}/{f}'; s = open(p).read()
            if s.count(old) != 1:
                print(f'{id}: text occurs {s.count(old)} times in {f}'); res.append((id, 'edit')); return
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', r).stdout
        os.makedirs(S + '/seed')
        open(S + '/seed/patch.diff', 'w').write(diff)
        name = {'.': 'gpsgen'}.get(pkg, os.path.basename(pkg))
        code = demo if demo.lstrip().startswith('package') else f'package {name}\n\n{demo.lstrip()}'
        open(S + '/seed/demo_test.go', 'w').write(code)
        sh('gofmt -w demo_test.go', S + '/seed')
        open(S + '/seed/demo.sh', 'w').write(DEMO % (pkg, pkg))
        os.chmod(S + '/seed/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(S + '/seed/meta.json', 'w'), indent=1)
        b = sh('go build ./...', r)
        if b.returncode: print(f'{id}: does not build\n{b.stdout[:800]}'); res.append((id, 'build')); return
        t = sh('go test -vet=off -count=1 ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | head', r)
        if t.stdout.strip(): print(f'{id}: existing tests notice\n{t.stdout}'); res.append((id, 'tests')); return
        w = sh(f'bash {S}/seed/demo.sh', r)
        if w.returncode == 0: print(f'{id}: the demo passes with the change'); res.append((id, 'demo')); return
        if 'build failed' in w.stdout: print(f'{id}: demo does not build\n{w.stdout[:800]}'); res.append((id, 'demo')); return
        sh('git checkout -q .', r)
        g = sh(f'bash {S}/seed/demo.sh', r)
        if g.returncode: print(f'{id}: the demo fails on the unchanged tree\n{g.stdout[:1500]}'); res.append((id, 'demo')); return
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(V + '/seeded', exist_ok=True)
        shutil.copytree(S + '/seed', d)
        print(f'{id}: planted')
        res.append((id, 'ok'))
    finally:
        shutil.rmtree(S)
for f in sys.argv[1:]:
    exec(compile(open(f).read(), f, 'exec'))
print([x for x in res if x[1] != 'ok'])
