#!/usr/bin/env python3
"""check.py ID [--thorough] | check.py ID --replay FILE | check.py --all
Decides one property by symbolic execution of the library's LLVM IR (see DESIGN.md)."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
import build

V = build.V
JOBS = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


class Harness:
    def __init__(self, pid, tier):
        self.src = '%s/harness/%s.cc' % (V, pid)
        text = open(self.src).read()
        self.text = text
        inc = text
        for m in re.findall(r'#include "(\w+\.h)"', text):
            p = '%s/harness/%s' % (V, m)
            if os.path.exists(p):
                inc += open(p).read()
        self.entries = [e for e in re.findall(r'^VP_ENTRY\((\w+)\)', text, re.M) if tier == 'thorough' or not e.endswith('_t')]
        self.times = {e: float(t) for e, t in re.findall(r'^//\s*@time\s+(\w+)\s+([\d.]+)', text, re.M)}
        self.bounds = re.findall(r'^//\s*@bound\s+(.*)$', text, re.M)
        self.assume = re.findall(r'^//\s*@assume\s+(.*)$', text, re.M)
        self.steps = {e: int(t) for e, t in re.findall(r'^//\s*@steps\s+(\w+)\s+(\d+)', text, re.M)}
        # labels each entry must reach: those in its body or in the functions of this file it may call
        self.labels = {}
        parts = re.split(r'^VP_ENTRY\((\w+)\)', text, flags=re.M)
        for i in range(1, len(parts), 2):
            body = parts[i + 1]
            self.labels[parts[i]] = sorted(set(re.findall(r'vp_reach\("([^"]+)"\)', self.body(body))))

    @staticmethod
    def body(t):
        d = 0
        for i, c in enumerate(t):
            if c == '{':
                d += 1
            elif c == '}':
                d -= 1
                if d == 0:
                    return t[:i + 1]
        return t


def case_line(entry, inputs):
    return entry + ''.join(' %s=%d' % (n.replace(' ', '~'), v) for n, v in inputs)


def native_run(exe, lines, limit=30, valgrind=False):
    """One result (status, code, [(name, value)], end) per line."""
    if not lines:
        return []
    d = tempfile.mkdtemp(prefix='vpcase')
    try:
        with open(d + '/cases', 'w') as f:
            f.write('\n'.join(lines) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_odr_violation=0',
                   LC_ALL='C.UTF-8', TMPDIR=d, COLUMBUS_DATADIR=build.REPO + '/share/')
        cmd = [exe, d + '/cases', str(limit)]
        if valgrind:
            cmd = ['valgrind', '-q', '--error-exitcode=98', '--trace-children=no', '--child-silent-after-fork=no', '--exit-on-first-error=yes'] + cmd
        r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=limit * (len(lines) + 1) + 60)
        out = {}
        for l in r.stdout.splitlines():
            w = l.split()
            if len(w) < 3 or not w[0].isdigit():
                continue
            obs = [tuple(x.rsplit('=', 1)) for x in w[3:] if '=' in x]
            end = [x for x in w[3:] if '=' not in x]
            out[int(w[0])] = (w[1], int(w[2]), [(n, int(v)) for n, v in obs], end[-1] if end else '')
        return [out.get(i, ('none', -1, [], '')) for i in range(len(lines))]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirmed(v, res):
    st, code, obs, end = res
    if st == 'signal' or (st == 'exit' and code not in (0, 76, 78, 79)):
        return True
    return False


def describe(res):
    st, code, obs, end = res
    if st == 'exit' and code == 99:
        return 'AddressSanitizer error'
    if st == 'exit' and code == 98:
        return 'valgrind error'
    if st == 'exit' and code == 77:
        return 'check failed (%s)' % end
    if st == 'signal':
        return 'killed by signal %d' % code
    return '%s %d %s' % (st, code, end)


def known_findings():
    out = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                out.append(json.loads(l))
    return out


def matches(f, pid, v):
    if f.get('status') != 'open' or f.get('property') != pid or f.get('entry') != v['entry'] or f.get('check') != v['check']:
        return False
    ins = {}
    for n, x in v['inputs']:
        ins[n] = x
    return all(ins.get(n) in vals for n, vals in f.get('inputs', {}).items())


def explore(symx, bc, entry, jobs, secs, seed, steps, sample, audit=128):
    d = tempfile.mkdtemp(prefix='vpsym')
    t = time.time()
    try:
        cmd = [symx, bc, '--entry', entry, '--out', d + '/o', '--repo', build.REPO + '/', '--jobs', str(jobs), '--time', str(secs), '--seed', str(seed), '--sample', str(sample), '--audit', str(audit)]
        if steps:
            cmd += ['--steps', str(steps)]
        err = ''
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=secs + 120)
            err = r.stdout[-2000:] if r.returncode else ''
            if r.returncode and not err:
                err = 'symx exited with %d' % r.returncode
        except subprocess.TimeoutExpired:
            err = 'symx did not stop'
        out = dict(entry=entry, viol=[], unsup=[], paths=[], reach={}, checks={}, funcs={}, stats={}, err=err, wall=0)
        for f in sorted(glob.glob(d + '/o.*')):
            for line in open(f, errors='replace'):
                try:
                    r = json.loads(line)
                except ValueError:
                    out['err'] = out['err'] or 'truncated output'
                    continue
                k = r.pop('t')
                if k == 'viol':
                    r['entry'] = entry
                    out['viol'].append(r)
                elif k == 'unsup':
                    out['unsup'].append(r)
                elif k == 'path':
                    out['paths'].append(r)
                elif k in ('reach', 'checks'):
                    for n, c in r['m'].items():
                        out[k][n] = out[k].get(n, 0) + c
                elif k == 'stats':
                    for n, c in r.items():
                        if n == 'incomplete':
                            out['stats'][n] = bool(out['stats'].get(n)) or c
                        elif n.startswith('max'):
                            out['stats'][n] = max(out['stats'].get(n, 0), c)
                        else:
                            out['stats'][n] = out['stats'].get(n, 0) + c
                elif k == 'funcs':
                    for n, c in r['m'].items():
                        o = out['funcs'].setdefault(n, {'file': c['file'], 'insts': c['insts'], 'bits': 0})
                        h = c['covered'][0]
                        bits = 0
                        for i, ch in enumerate(h):
                            bits |= int(ch, 16) << (4 * i)
                        o['bits'] |= bits
        out['wall'] = time.time() - t
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    h = Harness(pid, tier)
    only = [x for x in a[1:] if not x.startswith('--') and x in h.entries]
    if '--only' in a and only:
        h.entries = only
    try:
        with build.lock():
            build.prune()
            ex = cf.ThreadPoolExecutor(2)
            fe = ex.submit(build.engine)
            repo = build.Repo()
            fn = ex.submit(repo.native, h.src)
            bc = repo.harness_bc(h.src)
            symx, exe = fe.result(), fn.result()
    except build.BuildError as e:
        log('BUILD FAILED\n%s' % e)
        return 2
    tb = time.time() - t0
    if '--replay' in a:
        r = json.load(open(a[a.index('--replay') + 1]))
        log(case_line(r['entry'], r['inputs']))
        x = native_run(exe, [case_line(r['entry'], r['inputs'])])[0]
        log(describe(x))
        return 1 if confirmed(r, x) else 0
    evd = os.environ.get('VP_EVIDENCE', V + '/evidence')
    os.makedirs(evd, exist_ok=True)
    rpd = evd + '/replay'
    os.makedirs(rpd, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (rpd, pid)):
        os.unlink(f)
    dflt = 150 if tier == 'quick' else 1500
    total = 540 if tier == 'quick' else 4 * 3600
    deadline = t0 + total
    big = len(h.entries) <= 2
    conc, jobs = (1, JOBS) if big else (3, max(2, JOBS // 2))

    def go(e):
        left = max(10, deadline - time.time())
        secs = min(h.times.get(e, dflt) * (1 if tier == 'quick' else 4), left)
        return explore(symx, bc, e, jobs, secs, seed, h.steps.get(e), 4, 512 if tier == 'quick' else 64)
    with cf.ThreadPoolExecutor(conc) as pool:
        res = list(pool.map(go, h.entries))

    # ---- confirm counterexamples natively
    bad, known, unconf = [], [], []
    findings = known_findings()
    vexe = None
    for r in res:
        vs = r['viol']
        seen = {}
        pick = []
        for v in vs:
            k = (v['kind'], v['check'], v['where'] if v['kind'] != 'check' else '')
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 3:
                pick.append(v)
        rr = native_run(exe, [case_line(v['entry'], v['inputs']) for v in pick])
        for v, x in zip(pick, rr):
            ok = v['kind'] != 'uninit' and confirmed(v, x)
            if not ok and v['kind'] in ('uninit', 'memory', 'check', 'abort', 'assert', 'exception'):
                if vexe is None:
                    with build.lock():
                        vexe = repo.native(h.src, asan=False)
                y = native_run(vexe, [case_line(v['entry'], v['inputs'])], limit=120, valgrind=True)[0]
                if confirmed(v, y):
                    ok, x = True, y
            v['native'] = describe(x)
            if not ok:
                unconf.append(v)
            elif any(matches(f, pid, v) for f in findings):
                known.append((next(f for f in findings if matches(f, pid, v)), v))
            else:
                bad.append(v)
    # ---- validate the model: sampled paths must behave the same natively
    val = mism = 0
    mismatches = []
    for r in res:
        ps = r['paths'][:24]
        rr = native_run(exe, [case_line(r['entry'], p['inputs']) for p in ps])
        for p, x in zip(ps, rr):
            want = [(n, v) for n, v in p['obs']]
            got = [(n, v) for n, v in x[2]]
            if x[0] == 'exit' and x[1] == 0 and x[3] == 'DONE' and want == got:
                val += 1
            else:
                mism += 1
                mismatches.append(dict(entry=r['entry'], inputs=p['inputs'], model=want, native=got, end=describe(x)))
    errs = []
    for r in res:
        if r['err']:
            errs.append('%s: %s' % (r['entry'], r['err']))
        if r['unsup']:
            u = r['unsup'][0]
            errs.append('%s: cannot encode: %s at %s (%d paths)' % (r['entry'], u['what'], u['where'], len(r['unsup'])))
        st = r['stats']
        if not st.get('incomplete') and not r['viol']:
            for l in h.labels[r['entry']]:
                if not r['reach'].get(l):
                    errs.append('%s: label "%s" was never reached (vacuous harness)' % (r['entry'], l))
        if not st.get('paths') and not r['viol'] and not st.get('incomplete'):
            errs.append('%s: no path completed' % r['entry'])
    for v in unconf:
        if v['kind'] != 'uninit':
            errs.append('%s: counterexample not reproduced natively: %s %s at %s inputs %s (native: %s)' % (v['entry'], v['check'], v['msg'], v['where'], v['inputs'], v['native']))
    for m in mismatches[:3]:
        errs.append('model and implementation disagree: %s' % json.dumps(m))

    tot = {}
    for r in res:
        for k, v in r['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v
    funcs = {}
    for r in res:
        for n, f in r['funcs'].items():
            o = funcs.setdefault(n, dict(file=f['file'], insts=f['insts'], bits=0))
            o['bits'] |= f['bits']
    incomplete = [r['entry'] for r in res if r['stats'].get('incomplete')]
    samples = []
    for r in res:
        for p in r['paths'][:2]:
            samples.append(dict(entry=r['entry'], inputs=dict((n, v) for n, v in p['inputs'][:40]), observed=p['obs'][:20]))
    for v in bad[:5]:
        samples.append(dict(entry=v['entry'], inputs=dict((n, x) for n, x in v['inputs'][:40]), violation=v['msg']))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(bad),
              assumptions=h.assume,
              coverage=dict(
                  states=tot.get('paths', 0) + tot.get('killed', 0), transitions=tot.get('steps', 0), traces_validated_against_impl=val,
                  samples=samples[:12], exhaustive=not incomplete and not errs,
                  states_are='symbolic paths followed to their end (each stands for every input satisfying its path condition)',
                  transitions_are='LLVM IR instructions executed symbolically',
                  bounds=h.bounds,
                  entries={r['entry']: dict(paths=r['stats'].get('paths', 0), branches_forked=r['stats'].get('forks', 0), checks=r['checks'], reached=r['reach'],
                                            queries=r['stats'].get('queries', 0), solver_s=round(r['stats'].get('solver_s', 0), 2), wall_s=round(r['wall'], 2),
                                            complete=not r['stats'].get('incomplete')) for r in res},
                  assertions_evaluated=tot.get('checks', 0), assertions_decided_symbolically=tot.get('checks_sym', 0),
                  queries=dict(z3=tot.get('queries', 0), finite_domain=tot.get('domain', 0), finite_domain_confirmed_by_z3=tot.get('audits', 0), cached=tot.get('cache', 0), by_known_model=tot.get('modelhits', 0),
                               sat=tot.get('sat', 0), unsat=tot.get('unsat', 0), unknown=tot.get('unknown', 0)),
                  solver_s=round(tot.get('solver_s', 0), 2), max_query_s=tot.get('max_query_s', 0),
                  functions_encoded={n: dict(file=os.path.relpath(f['file'], build.REPO), ir_instructions=f['insts'], executed=bin(f['bits']).count('1')) for n, f in sorted(funcs.items())},
                  incomplete_entries=incomplete, unconfirmed=len(unconf), build_s=round(tb, 1)))
    tmp = '%s/%s.json.%d' % (evd, pid, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, '%s/%s.json' % (evd, pid))

    for f in {json.dumps(f, sort_keys=True): f for f, _ in known}.values():
        log('KNOWN-FINDING: property=%s %s' % (pid, f.get('what', '')))
    log('%s %s: %d entries, %d paths, %d instructions, %d assertions, %d+%d queries (%.1fs solver), %d traces validated, %.1fs (build %.1fs)%s' % (
        pid, tier, len(res), tot.get('paths', 0), tot.get('steps', 0), tot.get('checks', 0), tot.get('queries', 0), tot.get('domain', 0), tot.get('solver_s', 0), val, time.time() - t0, tb,
        ' INCOMPLETE: ' + ','.join(incomplete) if incomplete else ''))
    if '-v' in a:
        for r in res:
            s = r['stats']
            log('  %-28s paths %6d killed %5d forks %6d z3 %6d dom %6d solver %6.1fs wall %6.1fs reach %s' % (r['entry'], s.get('paths', 0), s.get('killed', 0), s.get('forks', 0), s.get('queries', 0), s.get('domain', 0), s.get('solver_s', 0), r['wall'], r['reach']))
    if bad:
        done = set()
        for i, v in enumerate(bad):
            p = '%s/%s-%d.json' % (rpd, pid, i)
            with open(p, 'w') as f:
                json.dump(dict(property=pid, entry=v['entry'], kind=v['kind'], check=v['check'], msg=v['msg'], where=v['where'], inputs=v['inputs'], native=v['native'],
                               rerun='python3 check.py %s --replay %s' % (pid, p)), f, indent=1)
            k = (v['entry'], v['check'])
            if k not in done:
                done.add(k)
                log('  %s %s: %s at %s; inputs %s; native replay: %s' % (v['entry'], v['check'], v['msg'], v['where'], ' '.join('%s=%d' % (n, x) for n, x in v['inputs'])[:600], v['native']))
                log('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if errs:
        for e in errs[:12]:
            log('ERROR ' + e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
