#!/usr/bin/env python3
"""plant.py FILE...: turns bug descriptions (see the format below) into seeded/<id>/ after confirming in a scratch copy that
the patched tree builds, passes the stable tests, and that the demonstration fails with the patch and passes without.
Format: a python file with entries  bug(id, property, needs, breaks, [(file, old, new)...], demo C++ source)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/sb/repo'
DEMO = '''#!/bin/bash
# run in /repo: builds the library's sources together with the demonstration (address sanitizer on) and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -g -fsanitize=address -fno-omit-frame-pointer -w -Iinclude -I_build/include "$D/demo.cc" src/*.cc -licuuc -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo >/dev/null 2>&1
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
bugs = []
def bug(*a): bugs.append(a)
for f in sys.argv[1:]: exec(open(f).read())
base = json.load(open('/opt/vp/BASELINE.json'))
for id, prop, needs, breaks, edits, demo in bugs:
    if os.path.exists(V + '/seeded/' + id): continue
    shutil.rmtree('/tmp/sb', True); os.makedirs('/tmp/sb')
    sh('cp -a /repo /tmp/sb/repo && rm -rf /tmp/sb/repo/_build')
    ok = True
    for fn, old, new in edits:
        p = S + '/' + fn; t = open(p).read()
        if t.count(old) != 1: print(id, 'PATTERN', t.count(old), fn, old); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    diff = subprocess.run(['git', '-C', S, 'diff'], stdout=subprocess.PIPE).stdout
    d = '/tmp/sb/seed'; os.makedirs(d)
    open(d + '/demo.sh', 'w').write(DEMO); open(d + '/demo.cc', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode: print(id, 'DEMO FAILS ON CLEAN', r.stdout[-1500:]); continue
    # the build and the tests use fixed paths: apply to /repo, undo straight afterwards
    open('/tmp/sb/p.diff', 'wb').write(diff)
    if sh('git -C /repo apply /tmp/sb/p.diff').returncode: print(id, 'DOES NOT APPLY'); continue
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(id, 'BUILD', b.stdout[-800:]); continue
        t = sh('bash /opt/vp/test.sh /tmp/sb/out.json')
        res = json.load(open('/tmp/sb/out.json'))
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    js = json.dumps(res)
    failed = res.get('failed', [])
    if r.returncode == 0: print(id, 'DEMO PASSES WITH PATCH'); continue
    if r.returncode == 2: print(id, 'DEMO DOES NOT BUILD'); continue
    stable = base.get('stable') or base.get('passed') or base.get('tests') or []
    bad = [x for x in failed if x in stable] if isinstance(failed, list) else failed
    if bad: print(id, 'TESTS FAIL', bad); continue
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/patch.diff', 'wb').write(diff)
    shutil.copytree(d, V + '/seeded/' + id)
    print(id, 'OK')
shutil.rmtree('/tmp/sb', True)
