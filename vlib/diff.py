"""Differential driver: batches of generated test functions compiled by hlc and by the reference compiler
(clang, x86_64-pc-windows-msvc), run in the same loader, logs compared."""
import os, re, hashlib
from .core import *

PRELUDE = '''typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64; typedef float f32; typedef double f64;
__declspec(dllimport) void h_log(u64); __declspec(dllimport) void h_f64(double); __declspec(dllimport) void h_f32(float); __declspec(dllimport) void h_mem(void *, u64); __declspec(dllimport) void h_str(char *); __declspec(dllimport) void h_unwind(void);
#ifdef __clang__
int _fltused;
void *memcpy(void *d, const void *s, u64 n){ char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, u64 n){ char *a = d; const char *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *memset(void *d, int c, u64 n){ char *a = d; while (n--) *a++ = (char)c; return d; }
#endif
'''


class Case:
    """what a generator produces: file-scope declarations and the body of one test function"""
    __slots__ = ('decls', 'body', 'nontrivial', 'tags', 'decls_hlc', 'body_hlc', 'seq', 'seed', 'max')

    def __init__(self, decls, body, nontrivial=True, tags=(), decls_hlc=None, body_hlc=None):
        self.decls, self.body, self.nontrivial, self.tags = decls, body, nontrivial, tags
        self.decls_hlc, self.body_hlc = decls_hlc, body_hlc      # variants for hlc only
        self.seq = None


def assemble(cases, prelude, hlc):
    o = [prelude]
    for i, c in enumerate(cases):
        d = c.decls if not hlc or c.decls_hlc is None else c.decls_hlc
        b = c.body if not hlc or c.body_hlc is None else c.body_hlc
        # generators write @ for the number of the test, so that names stay unique in a batch
        o.append(d.replace('@', str(i)))
        o.append('__declspec(dllexport) void t%d(void){\n%s\n}\n' % (i, b.replace('@', str(i))))
    return '\n'.join(o)


class DiffWorker(Worker):
    """do((seed, n)) generates n cases with self.gen(choices) and compares them."""
    prelude = PRELUDE
    prelude_hlc = None
    clang_flags = ()
    clang_opt = '-O1'
    hlc_flags = ()
    base = None
    max_log = 200
    max_shrink_s = 40

    def gen(self, ch):
        raise NotImplementedError

    def hlc_rejects(self, case, text):
        """description when hlc rejecting this case is a violation"""
        return 'hlc rejects a valid program'

    def compare(self, case, a, b):
        """None or a description; a is hlc's TestLog and b the reference's"""
        if a.key() == b.key():
            return None
        if a.flags and not b.flags:
            k = [n for bit, n in ((1, 'stack misaligned at a call'), (2, 'unwind failure'), (4, 'non-volatile register or stack pointer not restored'), (8, 'MXCSR/DF changed')) if a.flags & bit]
            return 'machine state: ' + ', '.join(k)
        if a.status != b.status:
            return 'hlc ends with signal %d, reference with %d' % (a.status, b.status)
        return 'different values'

    def classify(self, case, what, text):
        """key for known findings"""
        return None

    def files(self, cases):
        """what goes into a replay directory"""
        files = {'program.c': assemble(cases, self.prelude_hlc or self.prelude, True)}
        if any(c.decls_hlc is not None or c.body_hlc is not None for c in cases):
            files['reference.c'] = assemble(cases, self.prelude, False)
        return files

    def run_hlc(self, cases):
        """-> (logs or None, error text)"""
        self.px.write('a.c', assemble(cases, self.prelude_hlc or self.prelude, True))
        r = self.px.hlc_dll(['a.c'], 'a.dll', self.hlc_flags, timeout=60)
        if r.abnormal:
            return None, ('abnormal', r.abnormal + '\n' + r.text[-1500:])
        if r.status:
            return None, ('reject', r.text)
        logs, err, rr = self.px.tests('a.dll', ['max=%d' % self.max_log] + (['base=' + self.base] if self.base else []))
        if err or len(logs) != len(cases):
            return logs, ('load', 'loading or running the image: %s (status %d, %d of %d tests)' % (err, rr.status, len(logs or ()), len(cases)))
        return logs, None

    def run_ref(self, cases):
        self.px.write('r.c', assemble(cases, self.prelude, False))
        rc, t = self.px.clang_dll('r.c', 'ref.dll', self.clang_flags, self.clang_opt)
        if rc:
            return None, t
        logs, err, rr = self.px.tests('ref.dll', ['max=%d' % self.max_log])
        if err or len(logs) != len(cases):
            return None, 'reference run: %s' % err
        return logs, None

    def judge1(self, case):
        """('ok'|'bad'|'discard', description, detail)"""
        ref, e = self.run_ref([case])
        if ref is None or ref[0].status:
            return 'discard', 'reference: ' + (e or 'signal %d' % ref[0].status), ''
        logs, err = self.run_hlc([case])
        if err:
            kind, t = err
            if kind == 'reject':
                d = self.hlc_rejects(case, t)
                return ('bad', d, t[-1500:]) if d else ('discard', 'hlc rejects', t)
            return 'bad', {'abnormal': 'hlc fails: ' + t.split('\n')[0], 'load': t}[kind], t
        d = self.compare(case, logs[0], ref[0])
        if d:
            return 'bad', d, 'hlc:       %r\nreference: %r' % (logs[0], ref[0])
        return 'ok', '', ''

    def gen_case(self, ch):
        c = self.gen(ch)
        c.seq = list(ch.rec)
        return c

    def gen_seed(self, seed):
        return self.gen_case(Choices(seed))

    def minimise(self, case):
        st, what, detail = self.judge1(case)
        if st != 'bad':
            return None
        for _ in range(2):            # three times in all before it is believed
            st2, w2, d2 = self.judge1(case)
            if st2 != 'bad':
                return None
        key0 = self.classify(case, what, detail)
        kind0 = what.split(':')[0]

        def fails(seq):
            try:
                c = self.gen_case(Choices(pre=seq))
            except Overrun:
                return False
            s, w, d = self.judge1(c)
            return s == 'bad' and w.split(':')[0] == kind0 and self.classify(c, w, d) == key0
        seq = shrink(case.seq, fails, self.max_shrink_s)
        c = self.gen_case(Choices(pre=seq))
        st, what2, detail2 = self.judge1(c)
        if st != 'bad':
            c, what2, detail2 = case, what, detail
        files = dict(self.files([c]), **{'choices.json': json.dumps(c.seq)})
        return Failure(what2, files, c.decls.replace('@', '0')[-1500:] + '\n' + c.body.replace('@', '0')[-1500:] + '\n' + detail2, key=self.classify(c, what2, detail2))

    def do(self, job):
        seed, n = job
        st = Stats()
        cases = []
        for i in range(n):
            try:
                cases.append(self.gen_seed('%s/%d/%d' % (SEED, seed, i)))
            except Overrun:
                st.add('generator overrun')
        fails = []
        ok = []
        ref, e = self.run_ref(cases)
        if ref is None:
            good = []
            for c in cases:
                r1, e1 = self.run_ref([c])
                if r1 is None:
                    st.add('discarded: reference rejects')
                    if os.environ.get('VERIF_DEBUG'):
                        print('REF REJECTS', e1[:600], c.decls[-600:], c.body[:1500])
                else:
                    good.append(c)
            cases = good
            ref, e = self.run_ref(cases)
            if ref is None:
                raise CheckError('reference cannot run the batch: ' + e[:500])
        keep = [i for i in range(len(cases)) if not ref[i].status]
        if len(keep) < len(cases):
            st.add('discarded: reference traps', len(cases) - len(keep))
            if os.environ.get('VERIF_DEBUG'):
                for i in range(len(cases)):
                    if ref[i].status:
                        print('REF TRAPS', ref[i], cases[i].decls[-600:], cases[i].body[:1500])
        logs, err = self.run_hlc(cases)
        suspects = []
        if err:
            if err[0] == 'load' and logs and len(logs) < len(cases):
                suspects = [len(logs)]
            else:
                suspects = self.bisect(cases, [i for i in range(len(cases))])
            if not suspects:
                # only the batch as a whole fails: report it as it is, after repeating it
                again = [self.run_hlc(cases)[1] for _ in range(2)]
                if all(again) and not (err[0] == 'reject' and not self.hlc_rejects(None, err[1])):
                    fails.append(Failure('hlc fails on a batch of valid programs: ' + err[1][:200], self.files(cases), err[1][-1500:]))
        else:
            for i in keep:
                d = self.compare(cases[i], logs[i], ref[i])
                if d:
                    suspects.append(i)
        st.add('suspects', len(suspects))
        for i in suspects[:2]:
            f = self.minimise(cases[i])
            if f is None and not err:
                # not reproduced alone: does it in the batch, three times?
                rep = True
                for _ in range(2):
                    l2, e2 = self.run_hlc(cases)
                    r2, _ = self.run_ref(cases)
                    if e2 or not r2 or not self.compare(cases[i], l2[i], r2[i]):
                        rep = False
                if rep:
                    f = Failure('differs only in company of other tests: ' + self.compare(cases[i], logs[i], ref[i]),
                                self.files(cases), 'test t%d\nhlc: %r\nreference: %r' % (i, logs[i], ref[i]))
            if f:
                fails.append(f)
        out = []
        for i in keep:
            c = cases[i]
            for t in c.tags:
                st.add(t)
            out.append((hashlib.blake2b((c.decls + c.body).encode('latin-1', 'replace'), digest_size=8).digest(), c.nontrivial))
        sample = cases[keep[0]].decls.replace('@', '0')[-700:] + cases[keep[0]].body.replace('@', '0')[:1200] if keep else None
        return out, st, fails, sample

    def bisect(self, cases, idx):
        """indices of cases on which hlc fails by itself"""
        bad = []

        def rec(l):
            if len(bad) >= 2:
                return
            _, e = self.run_hlc([cases[i] for i in l])
            if not e:
                return
            if len(l) == 1:
                if e[0] != 'reject' or self.hlc_rejects(cases[l[0]], e[1]):
                    bad.append(l[0])
                return
            rec(l[:len(l) // 2])
            rec(l[len(l) // 2:])
        rec(idx)
        return bad


def run_diff(session, wcls, batches, n, args=(), time_budget=None, first=0):
    def consume(job, res):
        out, st, fails, sample = res
        for h, nt in out:
            session.evaluations += 1
            if nt:
                session.hashes.add(h)
        session.stats.merge(st)
        if sample and len(session.samples) < 4:
            session.samples.append(sample)
        for f in fails:
            session.fail(f)
    run_jobs(session, wcls, [(first + b, n) for b in range(batches)], args, consume, time_budget)
    total = session.evaluations + session.stats.get('discarded: reference rejects', 0) + session.stats.get('discarded: reference traps', 0)
    if not session.failures and not session.errors and session.evaluations < total * 0.5:
        session.errors.append('the generator discards too much: %r' % dict(session.stats))


class GenWorker(Worker):
    """do((seed, n)): n cases from self.gen(choices), each judged by self.judge(case) -> (kind, what, detail) with kind
    'ok', 'bad' or 'discard'; failures are shrunk. A case has text, nontrivial, tags and files()."""
    max_shrink_s = 40
    line_shrink = False     # also delete lines of the failing files (only for files any subset of whose lines is a case)

    def gen(self, ch):
        raise NotImplementedError

    def judge(self, case):
        raise NotImplementedError

    def classify(self, case, what, detail):
        return None

    def gen_case(self, ch):
        c = self.gen(ch)
        c.seq = list(ch.rec)
        return c

    def minimise(self, case):
        st, what, detail = self.judge(case)
        for _ in range(2):
            if st != 'bad':
                return None
            st, what, detail = self.judge(case)
        if st != 'bad':
            return None
        key0, kind0 = self.classify(case, what, detail), what.split(':')[0]

        def fails(seq):
            try:
                c = self.gen_case(Choices(pre=seq))
            except Overrun:
                return False
            s, w, d = self.judge(c)
            return s == 'bad' and w.split(':')[0] == kind0 and self.classify(c, w, d) == key0
        seq = shrink(case.seq, fails, self.max_shrink_s)
        c = self.gen_case(Choices(pre=seq))
        st, w2, d2 = self.judge(c)
        if st != 'bad':
            c, w2, d2 = case, what, detail
        if self.line_shrink:
            c, w2, d2 = self.shrink_lines(c, w2, d2, kind0, key0)
        return Failure(w2, dict(c.files(), **{'choices.json': json.dumps(c.seq)}), d2[-2500:], key=self.classify(c, w2, d2))

    def shrink_lines(self, c, what, detail, kind0, key0):
        import time
        end = time.time() + self.max_shrink_s
        fl = dict(c.fl)
        changed = True
        while changed and time.time() < end:
            changed = False
            for name in sorted(fl):
                lines = fl[name].split('\n')
                k = max(len(lines) // 2, 1)
                while k and time.time() < end:
                    i = 0
                    while i < len(lines) and time.time() < end:
                        t = lines[:i] + lines[i + k:]
                        f2 = dict(fl, **{name: '\n'.join(t)})
                        c2 = GCase(''.join(f2.values()), f2, True, c.tags, c.data)
                        s, w, d = self.judge(c2)
                        if s == 'bad' and w.split(':')[0] == kind0 and self.classify(c2, w, d) == key0:
                            lines, fl, what, detail, changed = t, f2, w, d, True
                        else:
                            i += k
                    k //= 2
        c2 = GCase(''.join(fl.values()), fl, True, c.tags, c.data)
        c2.seq = c.seq
        return c2, what, detail

    def do(self, job):
        seed, n = job
        st, out, fails, sample = Stats(), [], [], None
        for i in range(n):
            try:
                c = self.gen_case(Choices('%s/%s/%d' % (SEED, seed, i)))
            except Overrun:
                st.add('generator overrun')
                continue
            k, w, d = self.judge(c)
            if k == 'discard':
                st.add('discarded: ' + w)
                if os.environ.get('VERIF_DEBUG'):
                    print('DISCARD', w, d[:600])
                continue
            for t in c.tags:
                st.add(t)
            out.append((hashlib.blake2b(c.text.encode('latin-1', 'replace'), digest_size=8).digest(), c.nontrivial))
            sample = c.text[-1800:]
            if k == 'bad':
                st.add('suspects')
                if len(fails) < 2:
                    f = self.minimise(c)
                    if f:
                        fails.append(f)
        return out, st, fails, sample


class GCase:
    __slots__ = ('text', 'nontrivial', 'tags', 'data', 'seq', 'fl')

    def __init__(self, text, fl, nontrivial=True, tags=(), data=None):
        self.text, self.fl, self.nontrivial, self.tags, self.data = text, fl, nontrivial, tags, data

    def files(self):
        return self.fl
