"""Shared machinery of the checks: building hlc from /repo, running it, worker pool, shrinking, reporting."""
import os, re, sys, subprocess, hashlib, shutil, tempfile, json, time, struct, random, fcntl, traceback, signal, atexit
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SDK = '/opt/hlc/sdk'
LIBDIR = SDK + '/Lib/10.0.1.0'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
MAX_FAIL = int(os.environ.get('VERIF_MAX_FAIL', '3'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CLANG, LLD = 'clang-18', 'lld-link-18'


class CheckError(Exception):
    """The check itself could not be carried out (exit status 2)."""


def run(cmd, cwd=None, timeout=300, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


# ------------------------------------------------------------------ building
def _hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            h.update(open(f, 'rb').read())
            h.update(b'\0')
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_pex():
    src = [os.path.join(VERIF, 'harness', f) for f in sorted(os.listdir(os.path.join(VERIF, 'harness')))]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    out = os.path.join(BUILD, 'pex-' + h)
    with Lock('pex'):
        if not os.path.exists(out):
            r = run(['gcc', '-O2', '-g', '-w', '-no-pie', '-o', out + '.tmp', os.path.join(VERIF, 'harness', 'pex.c'), '-lpthread', '-lm'])
            if r.returncode:
                raise CheckError('pex does not build:\n' + r.stdout.decode())
            os.rename(out + '.tmp', out)
        lib = os.path.join(BUILD, 'harness6.lib')
        if not os.path.exists(lib):
            d = os.path.join(BUILD, 'harness.def')
            open(d, 'w').write('LIBRARY harness.dll\nEXPORTS\nh_log\nh_f64\nh_f32\nh_mem\nh_str\nh_unwind\nh_step\nh_export\n__C_specific_handler\nRaiseException\nVirtualAlloc\nCreateThread\nWaitForSingleObject\n')
            r = run([LLD, '/lib', '/def:' + d, '/out:' + lib, '/machine:x64'])
            if r.returncode:
                raise CheckError('harness.lib: ' + r.stdout.decode())
        for dll, p in (('alpha', 'al'), ('beta', 'be')):
            lib = os.path.join(BUILD, dll + '.lib')
            if not os.path.exists(lib):
                d = os.path.join(BUILD, dll + '.def')
                open(d, 'w').write('LIBRARY %s.dll\nEXPORTS\n' % dll + ''.join('%s_%d%s\n' % (p, i, ' @%d NONAME' % (100 + i) if 16 <= i < 24 else '') for i in range(32)) + ''.join('%sd_%d DATA\n' % (p, i) for i in range(8)))
                r = run([LLD, '/lib', '/def:' + d, '/out:' + lib, '/machine:x64'])
                if r.returncode:
                    raise CheckError(dll + '.lib: ' + r.stdout.decode())
    return out


def build_hlc():
    """Build hlc.exe out of REPO's working tree into BUILD/hlc-<content hash>/ and return that directory."""
    key = _hash_tree([os.path.join(REPO, 'src'), os.path.join(REPO, 'implicit')])
    out = os.path.join(BUILD, 'hlc-' + key)
    with Lock('hlc'):
        if os.path.exists(os.path.join(out, 'hlc.exe')):
            return out
        for old in os.listdir(BUILD):      # only the current tree's build is kept
            if old.startswith('hlc-') and old != 'hlc-' + key and time.time() - os.path.getmtime(os.path.join(BUILD, old)) > 4 * 3600:
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        r = run([CLANG, '--target=x86_64-pc-windows-msvc', '-O0', '-mcx16', '-g', '-gcodeview', '-w',
                 '-Wno-error=implicit-function-declaration', '-fms-extensions', '-fno-strict-aliasing', '-ffast-math',
                 '-D_Debug', '-c', 'src/main.c', '-o', tmp + '/hlc.obj'], cwd=REPO)
        if r.returncode:
            raise CheckError('hlc does not build:\n' + r.stdout.decode()[-3000:])
        r = run([LLD, '/heap:0,0', '/stack:0x100000,0x100000', '/opt:ref', '/nodefaultlib', '/entry:_start',
                 '/subsystem:console', '/debug', '/pdb:' + tmp + '/hlc.pdb', '/out:' + tmp + '/hlc.exe', tmp + '/hlc.obj',
                 LIBDIR + '/um/x64/advapi32.lib', LIBDIR + '/um/x64/kernel32.lib', LIBDIR + '/ucrt/x64/ucrt.lib'])
        if r.returncode:
            raise CheckError('hlc does not link:\n' + r.stdout.decode()[-3000:])
        shutil.copytree(os.path.join(REPO, 'implicit'), tmp + '/implicit')
        os.unlink(tmp + '/hlc.obj')
        os.rename(tmp, out)
    return out


# ------------------------------------------------------------------ running
def winpath(p):
    return 'Z:' + p.replace('/', '\\')


class Crash(Exception):
    pass


NOISE = re.compile(r"Warning: Could not find Windows 10 SDK\.\r?\n|Warning: Implicit system include path [^\n]*\n(?:  [^\n]*\n)*")


class Result:
    def __init__(self, status, cpu, out):
        self.status, self.cpu, self.out = status, cpu, out

    @property
    def text(self):
        t = self.out.decode('latin-1')
        return NOISE.sub('', t) if 'Windows 10 SDK' in t else t

    @property
    def abnormal(self):
        """a description when the run did not end by a normal exit of the compiler"""
        t = self.text
        if self.status >= 2000000:
            return 'hang'
        if self.status >= 1000000:
            return 'signal %d' % (self.status - 1000000)
        if self.status == 1337 or 'ASSERT FIRED' in t:
            return 'assert'
        if 'Internal Compiler Error' in t:
            return 'internal compiler error'
        if self.status not in (0, 1):
            return 'exit status %d' % self.status
        return None


class TestLog:
    """result of one exported test function"""
    __slots__ = ('idx', 'status', 'flags', 'n', 'total', 'hash', 'vals')

    def key(self):
        return (self.status, self.flags, self.n, self.total, self.hash, self.vals)

    def __repr__(self):
        s = 'status=%d flags=%d total=%d hash=%x log=[%s]' % (self.status, self.flags, self.total, self.hash,
                                                            ', '.join('%#x' % v for v in self.vals[:40]))
        return s


def parse_testlog(b):
    """-> (list of TestLog, complete?) or raises ValueError"""
    if b.startswith(b'LOADFAIL'):
        return None, b[8:].decode('latin-1')
    if not b.startswith(b'TESTLOG1'):
        return None, 'no log'
    p = 8
    res = []
    while True:
        if p + 32 > len(b):
            return res, 'log ends early'
        idx, status, flags, n, total, h = struct.unpack_from('<IIIIQQ', b, p)
        p += 32
        if idx == 0xffffffff:
            return res, None
        t = TestLog()
        t.idx, t.status, t.flags, t.n, t.total, t.hash = idx, status, flags, n, total, h
        t.vals = struct.unpack_from('<%dQ' % n, b, p)
        p += 8 * n
        res.append(t)


class Pex:
    """client of one pex fork server, with a scratch directory of its own"""

    def __init__(self, hlcdir, scratch=None, sdk=False):
        self.hlcdir = hlcdir
        self.exe = build_pex()
        self.sdk = sdk
        self.dir = scratch or tempfile.mkdtemp(prefix='vhlc')
        self.p = None
        self.start()

    def start(self):
        env = dict(os.environ, PEX_SDK=winpath(SDK) if self.sdk else '')
        self.p = subprocess.Popen([self.exe, 'server', self.hlcdir + '/hlc.exe', winpath(self.hlcdir + '/hlc.exe')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=self.dir)
        l = self.p.stdout.readline()
        if l != b'READY\n':
            raise CheckError('pex: ' + l.decode())

    def request(self, kind, args, timeout, cwd=None, out=None):
        out = out or os.path.join(self.dir, '.out')
        for a in args:
            assert '\n' not in a, a
        m = '%s %d %d %s\n%s\n' % (kind, int(timeout * 1000), len(args), out, cwd or self.dir) + ''.join(a + '\n' for a in args)
        self.p.stdin.write(m.encode('latin-1'))
        self.p.stdin.flush()
        l = self.p.stdout.readline().split()
        if len(l) != 2:
            raise CheckError('pex server died')
        with open(out, 'rb') as f:
            data = f.read()
        return Result(int(l[0]), int(l[1]), data)

    def hlc(self, args, timeout=60, cwd=None):
        return self.request('H', args, timeout, cwd)

    def tests(self, dll, opts=(), timeout=60, cwd=None):
        r = self.request('T', [dll] + list(opts), timeout, cwd)
        log, err = parse_testlog(r.out)
        return log, err, r

    def exe_run(self, exe, cmdline='', opts=(), timeout=60, cwd=None):
        return self.request('X', [exe, cmdline] + list(opts), timeout, cwd)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None

    # ---- conveniences
    def path(self, n):
        return os.path.join(self.dir, n)

    def write(self, n, s):
        if isinstance(s, str):
            s = s.encode('latin-1')
        p = self.path(n)
        with open(p, 'wb') as f:
            f.write(s)
        return p

    def hlc_dll(self, srcs, out='a.dll', extra=(), timeout=60):
        """compile sources (names in the scratch directory) to a DLL of tests"""
        p = self.path(out)
        if os.path.exists(p):
            os.unlink(p)
        return self.hlc(['/dll', '/no_stdlib', '/no_entry', '/no_debug', '/quiet'] + list(srcs) + [winpath(BUILD + '/harness6.lib'), '/out:' + out] + list(extra), timeout)

    def clang_obj(self, src, out, flags=(), opt='-O1'):
        r = run([CLANG, '--target=x86_64-pc-windows-msvc', opt, '-w', '-std=gnu11', '-fms-extensions', '-fms-compatibility-version=19.20', '-fwrapv', '-fno-strict-aliasing',
                 '-fno-delete-null-pointer-checks', '-ffp-contract=off', '-fno-builtin', '-mno-stack-arg-probe', '-msse4.2', '-ferror-limit=5'] + list(flags) + ['-c', src, '-o', out], cwd=self.dir)
        return r.returncode, r.stdout.decode('latin-1')

    def lld_dll(self, objs, out, extra=()):
        r = run([LLD, '/nologo', '/dll', '/noentry', '/nodefaultlib', '/out:' + out, BUILD + '/harness6.lib'] + list(extra) + list(objs), cwd=self.dir)
        return r.returncode, r.stdout.decode('latin-1')

    def clang_dll(self, src, out='ref.dll', flags=(), opt='-O1', extra=()):
        rc, t = self.clang_obj(src, out + '.obj', flags, opt)
        if rc:
            return rc, t
        return self.lld_dll([out + '.obj'] + list(extra), out)


# ------------------------------------------------------------------ choice sequences
class Choices:
    """Every random decision of a generator is a draw here. 0 is always the simplest alternative, so that a failure
    can be shrunk by shortening and lowering the recorded sequence."""
    __slots__ = ('rng', 'pre', 'rec', 'i', 'limit')

    def __init__(self, seed=None, pre=None, limit=20000):
        self.rng = random.Random(seed) if pre is None else None
        self.pre = pre
        self.rec = []
        self.i = 0
        self.limit = limit

    def n(self, k):
        """0 <= result < k"""
        if k <= 1:
            return 0
        if self.pre is not None:
            v = self.pre[self.i] if self.i < len(self.pre) else 0
            self.i += 1
            v = v if v < k else k - 1
        else:
            v = self.rng.randrange(k)
        self.rec.append(v)
        if len(self.rec) > self.limit:
            raise Overrun()
        return v

    def r(self, a, b):
        return a + self.n(b - a + 1)

    def of(self, seq):
        return seq[self.n(len(seq))]

    def chance(self, num, den):
        """true with probability num/den; false is the simple answer"""
        return self.n(den) >= den - num

    def weighted(self, pairs):
        t = sum(w for w, _ in pairs)
        v = self.n(t)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def shuffle(self, l):
        l = list(l)
        for i in range(len(l) - 1):
            j = i + self.n(len(l) - i)
            l[i], l[j] = l[j], l[i]
        return l

    def bits(self, nbits):
        v = 0
        while nbits > 0:
            k = min(nbits, 16)
            v = v << k | self.n(1 << k)
            nbits -= k
        return v


class Overrun(Exception):
    pass


def shrink(seq, fails, budget_s=60, max_tries=600):
    """Smallest choice sequence found for which fails(seq) holds. Deterministic given the outcomes."""
    t0 = time.time()
    tries = [0]
    best = list(seq)

    def ok(c):
        if time.time() - t0 > budget_s or tries[0] >= max_tries:
            return False
        tries[0] += 1
        try:
            return fails(c)
        except Overrun:
            return False

    changed = True
    while changed and time.time() - t0 < budget_s and tries[0] < max_tries:
        changed = False
        k = max(1, len(best) // 2)
        while k >= 1:                       # delete chunks
            i = 0
            while i < len(best):
                c = best[:i] + best[i + k:]
                if len(c) < len(best) and ok(c):
                    best = c
                    changed = True
                else:
                    i += k
                if time.time() - t0 > budget_s or tries[0] >= max_tries:
                    return best
            k //= 2
        k = max(1, len(best) // 4)
        while k >= 1:                       # zero chunks
            i = 0
            while i < len(best):
                if any(best[i:i + k]):
                    c = best[:i] + [0] * len(best[i:i + k]) + best[i + k:]
                    if ok(c):
                        best = c
                        changed = True
                i += k
                if time.time() - t0 > budget_s or tries[0] >= max_tries:
                    return best
            k //= 2
        for i in range(len(best)):          # lower single values
            if best[i] > 1:
                for v in (best[i] // 2, best[i] - 1):
                    c = best[:i] + [v] + best[i + 1:]
                    if ok(c):
                        best = c
                        changed = True
                        break
        while best and best[-1] == 0:
            best = best[:-1]
    return best


# ------------------------------------------------------------------ known findings
def load_known():
    """lines of known_findings.txt:  known: property=<id> key=<key> <what fails>"""
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                w = l.split(None, 3)
                pid = w[1].split('=', 1)[1]
                key = w[2].split('=', 1)[1]
                r.setdefault(pid, {})[key] = w[3] if len(w) > 3 else ''
    return r


# ------------------------------------------------------------------ the run of a check
class Check:
    """One property. Subclasses/users give a worker class; see run_check."""


def _worker_main(wcls, hlcdir, wid, q_in, q_out, args):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scratch = tempfile.mkdtemp(prefix='vhlc-w')
    try:
        w = wcls(hlcdir, scratch, wid, *args)
    except Exception:
        q_out.put(('error', None, traceback.format_exc()))
        shutil.rmtree(scratch, ignore_errors=True)
        return
    while True:
        job = q_in.get()
        if job is None:
            break
        try:
            q_out.put(('ok', job, w.do(job)))
        except Exception:
            q_out.put(('error', job, traceback.format_exc()))
    try:
        w.close()
    except Exception:
        pass
    shutil.rmtree(scratch, ignore_errors=True)


class Worker:
    def __init__(self, hlcdir, scratch, wid):
        self.hlcdir, self.scratch, self.wid = hlcdir, scratch, wid
        self.px = Pex(hlcdir, scratch, sdk=getattr(self, 'SDK', False))

    def close(self):
        self.px.close()


class Stats(dict):
    """mergeable counters"""

    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def merge(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


class Failure:
    def __init__(self, title, files, detail, key=None, replay=None):
        """files: name -> content of the minimal reproduction; key: identity for the known findings"""
        self.title, self.files, self.detail, self.key, self.replay = title, files, detail, key, replay


class Session:
    def __init__(self, pid, level='exploration', rule='', assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.known = load_known().get(pid, {})
        self.evaluations = 0
        self.nontrivial = 0
        self.hashes = set()
        self.stats = Stats()
        self.samples = []
        self.failures = []
        self.known_hits = {}
        self.errors = []
        self.extra = {}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)

    def count(self, text, nontrivial=True):
        """count one case identified by its text"""
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(text if isinstance(text, bytes) else text.encode('latin-1', 'replace'), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)

    def fail(self, f):
        if f.key is not None and f.key in self.known:
            self.known_hits[f.key] = self.known_hits.get(f.key, 0) + 1
            return
        if len(self.failures) < MAX_FAIL:
            self.failures.append(f)

    def write_replay(self, f, n):
        d = os.path.join(VERIF, 'replays', self.pid, '%03d' % n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for name, c in f.files.items():
            with open(os.path.join(d, name), 'wb') as h:
                h.write(c if isinstance(c, bytes) else c.encode('latin-1', 'replace'))
        with open(os.path.join(d, 'README'), 'w') as h:
            h.write('%s\n\n%s\n' % (f.title, f.detail))
        return d

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.hashes) + self.nontrivial, rule=self.rule, samples=self.samples[:6],
                   classes=dict(sorted(self.stats.items())))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.failures))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        for k, what in self.known.items():
            print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (self.pid, what, self.known_hits.get(k, 0)))
        shutil.rmtree(os.path.join(VERIF, 'replays', self.pid), ignore_errors=True)
        for n, f in enumerate(self.failures):
            d = self.write_replay(f, n)
            print('VIOLATION property=%s replay=%s' % (self.pid, d))
            print('  ' + f.title)
            for l in f.detail.splitlines()[:30]:
                print('    ' + l[:200])
        print('%s: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (self.pid, self.evaluations, cov['distinct_nontrivial'], len(self.failures), wall))
        for e in self.errors[:5]:
            print('CHECK-ERROR ' + e)
        sys.stdout.flush()
        if self.failures:
            return 1
        return 2 if self.errors else 0


def run_jobs(session, wcls, jobs, args=(), consume=None, time_budget=None, stop_on_fail=True, nproc=None):
    """Run jobs (an iterable) on worker processes; consume(job, result) in the parent. After time_budget seconds no
    more jobs are started (what was explored so far counts; the budget never decides a verdict)."""
    nproc = nproc or JOBS
    hlcdir = build_hlc()
    build_pex()
    q_out = mp.Queue()
    qs, ps = [], []
    q_in = mp.Queue()
    for i in range(nproc):
        p = mp.Process(target=_worker_main, args=(wcls, hlcdir, i, q_in, q_out, args), daemon=True)
        p.start()
        ps.append(p)
    it = iter(jobs)
    active = 0
    t0 = time.time()
    done = False

    def feed():
        nonlocal active, done
        if done or (time_budget and time.time() - t0 > time_budget) or (stop_on_fail and len(session.failures) >= MAX_FAIL) or len(session.errors) >= 5:
            done = True
            return
        try:
            j = next(it)
        except StopIteration:
            done = True
            return
        q_in.put(j)
        active += 1

    for _ in range(nproc * 2):
        feed()
    while active:
        try:
            kind, job, res = q_out.get(timeout=600)
        except Exception:
            session.errors.append('workers do not answer')
            break
        active -= 1
        if kind == 'error':
            session.errors.append('%r: %s' % (job if not isinstance(job, (bytes, str)) or len(job) < 200 else job[:200], res))
        else:
            consume(job, res)
        feed()
    for _ in ps:
        q_in.put(None)
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.terminate()
