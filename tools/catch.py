#!/usr/bin/env python3
"""catch.py [id...]: for every planted bug, run the check of its property on a scratch copy of /repo with the bug applied."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, B = '/tmp/catchrepo', '/tmp/catchbuild'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for d in (S, B): shutil.rmtree(d, ignore_errors=True)
sh('cp', '-a', '/repo', S)
res = {}
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    sh('git', 'checkout', '-q', '--', '.', cwd=S)
    r = sh('git', 'apply', '%s/seeded/%s/patch.diff' % (V, i), cwd=S)
    if r.returncode: print(i, 'patch does not apply'); continue
    t = time.time()
    props = os.environ.get('VP_PROPS', m['property']).split(',')
    for p in props:
        ev = dict(os.environ, VP_REPO=S, VP_BUILD=B, VP_EVIDENCE='/tmp/catchev')
        r = sh('python3', 'check.py', p, cwd=V, env=ev)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print('%-24s %s rc=%d %s %.0fs' % (i, p, r.returncode, v[0] if v else 'MISSED', time.time() - t), flush=True)
for d in (S, B): shutil.rmtree(d, ignore_errors=True)
