#!/usr/bin/env python3
"""Builds everything a check needs, from /repo's current working tree, under /verif/build (cached by content)."""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, contextlib, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
B = os.environ.get('VP_BUILD', os.path.join(V, 'build'))
CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'
LLVM = next((d for d in ('/usr/lib/llvm-18',) if os.path.isdir(d)), '/usr/lib/llvm-18')
NJ = os.cpu_count() or 4


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(map(str, cmd)), r.stdout[-6000:]))
    return r.stdout


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    t = '%s.%d.tmp' % (path, os.getpid())
    with open(t, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    os.replace(t, path)


def cached(path, make):
    """make(tmp) writes the file; nothing is done if it is already there (paths carry content hashes)."""
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        t = '%s.%d.tmp%s' % (path, os.getpid(), os.path.splitext(path)[1])
        make(t)
        os.replace(t, path)
    return path


def pmap(f, items):
    with cf.ThreadPoolExecutor(NJ) as ex:
        return list(ex.map(f, items))


@contextlib.contextmanager
def lock():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def engine():
    src = sorted(glob.glob(V + '/engine/*'))
    h = digest(*[rd(s) for s in src])
    d = '%s/engine-%s' % (B, h)

    def cc(name):
        flags = run([LLVM + '/bin/llvm-config', '--cxxflags']).split()
        flags = [f for f in flags if f != '-fno-exceptions' and not f.startswith('-std=')]
        return cached('%s/%s.o' % (d, name), lambda t: run(['g++', '-O2', '-std=c++17', '-w'] + flags + ['-c', '%s/engine/%s.cc' % (V, name), '-o', t]))
    if os.path.exists(d + '/symx'):
        return d + '/symx'
    objs = pmap(cc, ['symx', 'expr', 'solver', 'mem'])
    return cached(d + '/symx', lambda t: run(['g++', '-O2'] + objs + ['-o', t, '-L' + LLVM + '/lib', '-lLLVM-18', '-lz3']))


def lower_table():
    src = V + '/rt/gen_lower.cc'
    d = '%s/lower-%s' % (B, digest(rd(src)))

    def mk(t):
        g = '%s/gen%d' % (d, os.getpid())
        run(['g++', '-O1', src, '-o', g, '-licuuc'])
        o = run([g])
        with open(t, 'w') as f:
            f.write('#include <stdint.h>\n' + o)
        os.unlink(g)
    cached(d + '/lower_table.h', mk)
    return d


def repo_sources():
    cm = REPO + '/src/CMakeLists.txt'
    out = []
    try:
        m = re.search(r'add_library\s*\([^)\s]+\s+SHARED([^)]*)\)', rd(cm).decode())
        for n in (m.group(1).split() if m else []):
            if n.endswith('.cc') and os.path.exists(REPO + '/src/' + n):
                out.append(n)
    except OSError:
        pass
    return sorted(set(out)) or sorted(os.path.basename(p) for p in glob.glob(REPO + '/src/*.cc'))


def core_header():
    """What cmake's configure_file makes of ColumbusCore.hh.in (little endian, no full_unicode, sparse hash)."""
    cm = rd(REPO + '/CMakeLists.txt').decode()
    v = {}
    for k, x in re.findall(r'^\s*set\s*\(\s*(\w+)\s+"?([^")\s]*)"?\s*\)', cm, re.M):
        v[k] = re.sub(r'\$\{(\w+)\}', lambda m: v.get(m.group(1), ''), x)
    v.update(INTERNAL_ENCODING='UTF-16LE', LETTER_TYPE='uint16_t', CMAKE_INSTALL_PREFIX='vp_install')
    t = rd(REPO + '/include/ColumbusCore.hh.in').decode()
    t = re.sub(r'\$\{(\w+)\}', lambda m: v.get(m.group(1), ''), t)
    t = re.sub(r'@(\w+)@', lambda m: v.get(m.group(1), ''), t)
    on = os.path.exists('/usr/include/google/sparse_hash_map')
    t = re.sub(r'^#cmakedefine\s+(\w+)(.*)$', lambda m: ('#define %s%s' % m.groups()) if (on and m.group(1) == 'HAS_SPARSE_HASH') else '/* #undef %s */' % m.group(1), t, flags=re.M)
    return t


def share_files():
    out = ['#define VP_SHARE_DIR "%s/share/"' % REPO, 'static const struct { const char *path, *text; } vp_share[] = {']
    for p in sorted(glob.glob(REPO + '/share/*.txt')):
        lit = ''.join(chr(b) if 32 <= b < 127 and chr(b) not in '"\\?' else '\\%03o' % b for b in rd(p))
        out.append('{"%s","%s"},' % (p, lit))
    return '\n'.join(out) + '\n{"",""}};\n'


BCFLAGS = ('-std=c++11 -O1 -gline-tables-only -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fvisibility=hidden '
           '-DBUILDING_COLUMBUS -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -U_FORTIFY_SOURCE -fno-builtin-printf -w').split()
WRAP = 'tmpfile fclose ftruncate mmap munmap madvise mremap iconv_open'.split()


class Repo:
    """Bitcode and native objects of the library as it is now."""

    def __init__(self):
        self.srcs = repo_sources()
        core, share = core_header(), share_files()
        hdrs = sorted(glob.glob(REPO + '/include/*.h*') + glob.glob(REPO + '/src/*.h*') + glob.glob(REPO + '/include/**/*.h*', recursive=True))
        hh = [os.path.relpath(p, REPO).encode() + b':' + rd(p) for p in sorted(set(hdrs))]
        self.hdr = digest(core, *hh)
        self.gen = '%s/gen-%s' % (B, digest(core, share))
        if not os.path.exists(self.gen + '/ok'):
            put(self.gen + '/ColumbusCore.hh', core)
            put(self.gen + '/share_files.h', share)
            put(self.gen + '/ok', '')
        self.inc = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + self.gen, '-I' + V + '/rt', '-I' + V + '/harness']
        self.key = digest(self.hdr, *[s.encode() + rd(REPO + '/src/' + s) for s in self.srcs])

    # ---- bitcode
    def _bc(self, src, tag, flags):
        out = '%s/bc/%s-%s.bc' % (B, os.path.splitext(os.path.basename(src))[0], digest(tag, rd(src), *flags))
        return cached(out, lambda t: run([CLANG] + flags + ['-emit-llvm', '-c', src, '-o', t]))

    def bitcode(self):
        rt = [(V + '/rt/' + n) for n in ('libc.c', 'cxxrt.cc', 'env.cc')]
        low = lower_table()
        rth = digest(*[rd(p) for p in [V + '/rt/vp.h', V + '/rt/shim/fstream', low + '/lower_table.h', self.gen + '/share_files.h']])
        jobs = []
        for s in self.srcs:
            jobs.append((REPO + '/src/' + s, self.hdr + rth, BCFLAGS + ['-isystem', V + '/rt/shim'] + self.inc))
        for s in rt:
            f = [x for x in BCFLAGS if not (s.endswith('.c') and x.startswith('-std='))] + ['-fno-builtin', '-I' + V + '/rt', '-I' + low, '-I' + self.gen]
            if s.endswith('.c'):
                f = ['-x', 'c'] + f
            jobs.append((s, rth, f))
        bcs = pmap(lambda j: self._bc(*j), jobs)
        out = '%s/bc/lib-%s.bc' % (B, digest(*bcs))
        return cached(out, lambda t: run([LLVM + '/bin/llvm-link'] + bcs + ['-o', t]))

    def harness_bc(self, src):
        lib = self.bitcode()
        hh = digest(*[rd(p) for p in sorted(glob.glob(V + '/harness/*.h')) + [V + '/rt/vp.h', V + '/rt/shim/fstream']])
        bc = self._bc(src, self.hdr + hh, BCFLAGS + ['-isystem', V + '/rt/shim'] + self.inc)
        out = '%s/bc/linked-%s-%s.bc' % (B, os.path.basename(src)[:-3], digest(lib, bc))
        return cached(out, lambda t: run([LLVM + '/bin/llvm-link', lib, bc, '-o', t]))

    # ---- native
    NF = '-std=c++11 -O1 -g1 -DBUILDING_COLUMBUS -D_GLIBCXX_ASSERTIONS -w -fno-omit-frame-pointer'.split()

    def _o(self, src, tag, flags):
        out = '%s/o/%s-%s.o' % (B, os.path.splitext(os.path.basename(src))[0], digest(tag, rd(src), *flags))
        return cached(out, lambda t: run(['g++'] + flags + ['-c', src, '-o', t]))

    def native(self, src, asan=True):
        fl = self.NF + (['-fsanitize=address'] if asan else []) + self.inc
        hh = digest(*[rd(p) for p in sorted(glob.glob(V + '/harness/*.h')) + [V + '/rt/vp.h']])
        jobs = [(REPO + '/src/' + s, self.hdr, fl) for s in self.srcs]
        jobs += [(src, self.hdr + hh, fl), (V + '/rt/vp_native.cc', hh, fl)]
        objs = pmap(lambda j: self._o(*j), jobs)
        out = '%s/nat/%s-%s' % (B, os.path.basename(src)[:-3], digest(asan, *objs))
        return cached(out, lambda t: run(['g++'] + (['-fsanitize=address'] if asan else []) + objs + ['-o', t, '-rdynamic', '-Wl,' + ','.join('--wrap=' + w for w in WRAP), '-licuuc', '-ldl']))


def prune():
    """Drop cached files nobody has used for a day (the cache is only a cache)."""
    now = time.time()
    for sub in ('bc', 'o', 'nat'):
        for p in glob.glob('%s/%s/*' % (B, sub)):
            try:
                if now - os.stat(p).st_mtime > 86400:
                    os.unlink(p)
            except OSError:
                pass


if __name__ == '__main__':
    t = time.time()
    try:
        with lock():
            print(engine())
            r = Repo()
            print(r.bitcode())
            hs = sys.argv[1:] or sorted(glob.glob(V + '/harness/*.cc'))
            for h in hs:
                print(r.harness_bc(h))
                print(r.native(h))
    except BuildError as e:
        print(e)
        sys.exit(1)
    print('%.1fs' % (time.time() - t))
