"""C13 (and the naming part of C09): file names, paths and lines of text."""
import itertools
from spec import *
from specs.fs import FS, F, D, A, SG, NS, U64
UTIL = NS + 'UTF8::Util'
OTHER = 'x'
CLS = [(1, 31), (32, 33), (34, 34), (35, 41), (42, 42), (43, 46), (47, 47), (48, 59), (60, 60), (61, 61), (62, 62), (63, 63), (64, 91), (92, 92), (93, 123), (124, 124), (125, 126), (127, 127), (128, 255)]
BAD = set(range(1, 32)) | {127} | set(b'*?"<>|')
def text(S, name, pat, kind='input'):
    """a zero terminated string: numbers and (lo, hi) ranges"""
    r = S.new_region(kind, name, C(len(pat) + 1)); cs = []
    for i, p in enumerate(pat):
        v = C(p) if isinstance(p, int) else V(newvar('%s[%d]' % (name, i), p[0], p[1])); cs.append(v); r.cells[i] = (1, v)
    r.cells[len(pat)] = (1, ZERO); return PtrV(r.rid, ZERO), cs
def pat(s): return [(97, 122) if c == OTHER else ord(c) for c in s]
class H(FS):
    def __init__(self, sp, contracts=False):
        FS.__init__(self, sp, contracts); self.eng.unroll = {'': 60}; self.eng.CAP = 200; self.eng.stubs[UTIL + '::ConvertToUTF8'] = self.toutf8; self.eng.models['strcmp'] = self.strcmp; self.eng.models['memchr'] = self.memchr
    def chars(self, S, p, n):
        """the n bytes at p, if known"""
        out = []; R = S.mem[p.r]; o = S.st.norm(p.o)
        if not o.isconst(): return None
        for i in range(n):
            c = R.cells.get(o.c + i)
            if c is None or c[0] != 1: return None
            out.append(c[1])
        return out
    def zstr(self, S, p):
        """the bytes of a string up to and with its end, if known"""
        out = []; R = S.mem[p.r] if isinstance(p, PtrV) else None; o = S.st.norm(p.o) if R is not None else None
        if o is None or not o.isconst(): return None
        if R.bytes is not None: b = R.bytes[o.c:]; return [C(x) for x in b[:b.find(b'\0') + 1]]
        while len(out) < 100:
            c = R.cells.get(o.c + len(out))
            if c is None or c[0] != 1 or not isinstance(c[1], Lin): return None
            out.append(S.st.norm(c[1]))
            if out[-1] == ZERO: return out
            if not S.st.entails(out[-1] - 1): return None
    def strcmp(self, e, S, I, a):
        x, y = self.zstr(S, a[0]), self.zstr(S, a[1])
        if x is None or y is None: return models.m_strcmp(e, S, I, a)
        out = []
        for p, q in zip(x, y):
            if S.st.entails_eq(p - q): continue
            for X in e._assume(S.copy(), ('eq', p - q), False): v = X.s('cmp', 32); X.st.neq(v); out.append((X, v))
            r = list(e._assume(S, ('eq', p - q), True))
            if not r: return out
            S = r[0]
        return out + [(S, ZERO)]
    def memchr(self, e, S, I, a):
        n = S.st.norm(a[2]); c = S.st.norm(a[1]); cs = self.chars(S, a[0], n.c) if n.isconst() and c.isconst() and isinstance(a[0], PtrV) and S.st.norm(a[0].o).isconst() and 0 <= n.c < 100 else None
        if cs is None or not all(isinstance(x, Lin) for x in cs): return models.m_memchr(e, S, I, a)
        if not e.bounds(S, a[0], n, 'memchr'): return []
        out = []
        for i, x in enumerate(cs):
            d = x - c
            if S.st.entails_eq(d): return out + [(S, PtrV(a[0].r, a[0].o + i))]
            if S.st.entails(d - 1) or S.st.entails(C(-1) - d): continue
            for X in e._assume(S.copy(), ('eq', d), True): out.append((X, PtrV(a[0].r, a[0].o + i)))
            r = list(e._assume(S, ('eq', d), False))
            if not r: return out
            S = r[0]
        return out + [(S, NULL)]
    def toutf8(self, e, S, I, a):
        """bytes that are UTF-8 are copied; the others are left out (decided by C07 and C08)"""
        n = S.st.norm(a[1]); out = []
        for T, z in e.uval(S, self.load64(S, a[4]), 64):
            if not e.bounds(T, a[0], a[1], 'source') or not e.bounds(T, a[3], z, 'destination'): continue
            if n.isconst():
                cs = self.chars(T, a[0], n.c)
                if cs is None: raise AnalysisError('unknown source')
                hi = [c for c in cs if not T.st.entails(C(127) - c)]
                if hi:
                    X = T.copy(); X.mon['utf8'] = 'no'; e.havoc(X, a[3], z); R = X.w(a[3].r); o = X.st.norm(a[3].o).c; k = [c for c in cs if c not in hi]
                    for i, c in enumerate(k): R.cells[o + i] = (1, c)
                    X.w(a[4].r).cells[X.st.norm(a[4].o).c] = (8, C(len(k))); out.append((X, None))
                try: T.st.ge(z - n)
                except Infeasible: continue
                e.havoc(T, a[3], z); R = T.w(a[3].r); o = T.st.norm(a[3].o).c
                for i, c in enumerate(cs): R.cells[o + i] = (1, c)
                R2 = T.w(a[4].r); R2.cells[T.st.norm(a[4].o).c] = (8, n); T.mon['utf8'] = 'yes'; out.append((T, None))
            else:
                e.havoc(T, a[3], z); L = V(newvar('kept', 0, None))
                try: T.st.ge(z - L - 1); T.st.ge(a[1] - L - 1)
                except Infeasible: continue
                if T.st.entails_eq(a[3].o): T.w(a[3].r).nul = L
                R2 = T.w(a[4].r); R2.cells[T.st.norm(a[4].o).c] = (8, L + 1); out.append((T, None))
        return out
    def load64(self, S, p): return S.mem[p.r].cells[S.st.norm(p.o).c][1]
    def same(self, T, got, want): return got is not None and len(got) == len(want) and all(isinstance(g, Lin) and T.st.entails_eq(g - w) for g, w in zip(got, want))
    def show(self, T, got): return ''.join(chr(T.st.norm(g).c) if isinstance(g, Lin) and T.st.norm(g).isconst() and 32 <= T.st.norm(g).c < 127 else 'x' for g in (got or []))

# ------------------------------------------------------------------ GetPlatformFilename
def gpf_case(n, extra):
    """names of n characters, one of them from each class of characters, a target with `extra` bytes more than needed"""
    def run(sp):
        cnt = 0
        for pos, c in [(p, c) for p in range(max(n, 1)) for c in (CLS if n else [None])]:
            h = H(sp); S = h.S; nm = [(97, 122)] * n
            if n: nm[pos] = c
            p, cs = text(S, 'Filename', nm); size = n + 1 + extra; b = buf(S, 'Result', C(size), 'out')
            for T, r in h.call('%s::%s' % (F, SG['gpf']), [b, C(size), p, ZERO], S):
                cnt += 1; ok = h.truth(T, r); good = n > 0 and extra >= 0 and c[0] not in BAD and T.mon.get('utf8') == 'yes'
                h.ob(T, bool(ok) == good, 'name-check', 'a name is accepted exactly if it is not empty, fits, is UTF-8 and has no forbidden character')
                if ok and good: h.ob(T, h.same(T, h.chars(T, b, n + 1), [C(47) if c == (92, 92) and i == pos else x for i, x in enumerate(cs)] + [ZERO]), 'name-norm', 'the name is kept, with slashes for backslashes')
            h.done('GetPlatformFilename %d' % n, cnt)
    return run
def gpf_any(sp):
    h = H(sp); h.eng.unroll = {}; S = h.S; p = h.arg('Filename'); size = V(newvar('ResultSize', 0, 1 << 40)); b = buf(S, 'Result', size, 'out'); n = 0
    for T, r in h.call('%s::%s' % (F, SG['gpf']), [b, size, p, ZERO], S):
        n += 1; ok = h.truth(T, r)
        if ok: q = models.strlen_of(h.eng, T.copy(), b); h.ob(T, bool(q) and all(X.st.entails(z - 1) and X.st.entails(size - z - 1) for X, z in q), 'name-check', 'an accepted name is not empty and terminated')
    h.done('GetPlatformFilename', n)

# ------------------------------------------------------------------ GetPlatformFilenameInfo
def info_case(n):
    def run(sp):
        cnt = 0; cls = F + '::FilenameInfo'
        for s in itertools.product('/.x', repeat=n):
            s = ''.join(s); h = H(sp); S = h.S; p, cs = text(S, 'Filename', pat(s)); o = obj(h.eng, S, cls, 'Result')
            sf = s.rfind('/') + 1; d = s.find('.', sf); ld = s.rfind('.', sf); want = dict(Length=n, StartVolume=0, StartPath=0, StartFilename=sf, StartExtension=d if d >= 0 else n, StartLastExtension=ld if ld >= 0 else n)
            for T, r in h.call('%s::GetPlatformFilenameInfo(%s::FilenameInfo&, char const*)' % (F, F), [o, p], S):
                cnt += 1
                for f, w in want.items():
                    v = getf(h.eng, T, o, cls, f); h.ob(T, isinstance(v, Lin) and T.st.entails_eq(v - w), 'path-parts', 'the parts of a name are where they are (%s of "%s")' % (f, s))
            h.done('GetPlatformFilenameInfo %d' % n, cnt)
    return run
def info_any(sp):
    h = H(sp); h.eng.unroll = {}; S = h.S; p, z = cstr(S, 'Filename', hi=1 << 40); cls = F + '::FilenameInfo'; o = obj(h.eng, S, cls, 'Result'); n = 0; S.mon['z'] = z
    for T, r in h.call('%s::GetPlatformFilenameInfo(%s::FilenameInfo&, char const*)' % (F, F), [o, p], S):
        n += 1; g = lambda f: getf(h.eng, T, o, cls, f); v = [g(f) for f in ('StartVolume', 'StartPath', 'StartFilename', 'StartExtension', 'StartLastExtension', 'Length')]
        h.ob(T, all(isinstance(x, Lin) for x in v), 'path-parts', 'every part is set')
        if not all(isinstance(x, Lin) for x in v): continue
        h.ob(T, T.st.entails_eq(v[-1] - z), 'path-parts', 'the length is that of the name')
    h.done('GetPlatformFilenameInfo', n)

# ------------------------------------------------------------------ GetAbsoluteFilename
def norm(base, name, trail):
    p = name if name.startswith('/') else base + '/' + name; out = []
    for c in p.split('/'):
        if c in ('', '.'): continue
        if c == '..': out = out[:-1]
        else: out.append(c)
    r = '/' + '/'.join(out)
    return r + '/' if trail and not r.endswith('/') else r
def tok(s): return ''.join(chr(0x100 + i) if c == OTHER else c for i, c in enumerate(s))
def gaf_one(sp, base, name, trail, cwd, slack, cnt):
    h = H(sp); S = h.S; h.eng.stubs.pop('x', None); want = norm(tok(base), ''.join(chr(0x200 + i) if c == OTHER else c for i, c in enumerate(name)), trail)
    size = len(want) + 1 + slack
    if size < 0: return cnt
    pn, cn = text(S, 'Filename', pat(name)); pb, cb = text(S, 'BaseDir', pat(base)); b = buf(S, 'Result', C(size), 'out')
    def getcwd(e, S, I, a):
        out = []
        X = S.copy(); models.set_errno(e, X); X.mon['fail'] = 'cwd'; out.append((X, NULL))
        if not e.bounds(S, a[0], C(len(base) + 1), 'getcwd'): return out
        R = S.w(a[0].r); o = S.st.norm(a[0].o).c
        for i, c in enumerate(cb + [ZERO]): R.cells[o + i] = (1, c)
        return out + [(S, a[0])]
    h.eng.models['getcwd'] = getcwd
    exp = [C(ord(c)) if ord(c) < 0x100 else cb[ord(c) - 0x100] if ord(c) < 0x200 else cn[ord(c) - 0x200] for c in want]
    for T, r in h.call('%s::%s' % (F, SG['gaf']), [b, C(size), NULL if cwd else pb, pn, C(trail)], S):
        cnt += 1; ok = h.truth(T, r)
        why = '("%s" in "%s")' % (name, base)
        if ok: g = h.chars(T, b, len(exp) + 1); h.ob(T, slack >= 0 and h.same(T, g, exp + [ZERO]), 'path-abs', 'an absolute name has no ".", ".." or empty parts and means the same %s %s' % (why, h.show(T, g)))
        else: h.ob(T, slack < 0 or T.mon['fail'] == 'cwd' or not base.startswith('/') or name == '' or dots(name), 'path-abs', 'a valid name in an absolute directory has an absolute name %s' % why)
    h.done('GetAbsoluteFilename', cnt); return cnt
def dots(name): return False
def gaf_case(base, n, trail, cwd, slack=3):
    def run(sp):
        cnt = 0
        for s in itertools.product('/.x', repeat=n): cnt = gaf_one(sp, base, ''.join(s), trail, cwd, slack, cnt)
    return run
def gaf_any(trail, cwd):
    def run(sp):
        h = H(sp, True); h.eng.stubs.pop(F + '::GetAbsoluteFilename'); h.eng.unroll = {}; h.eng.CAP = 60; S = h.S; pn, pb = h.arg('Filename'), h.arg('BaseDir'); size = V(newvar('ResultSize', 0, 1 << 40)); b = buf(S, 'Result', size, 'out'); n = 0
        for T, r in h.call('%s::%s' % (F, SG['gaf']), [b, size, NULL if cwd else pb, pn, C(trail)], S): n += 1; h.truth(T, r)
        h.done('GetAbsoluteFilename', n)
    return run

def gaf_long(name, base, size=8192):
    """names that just fit or just do not fit into the internal buffers"""
    def run(sp):
        h = H(sp); S = h.S; h.eng.unroll = {'': 9000}; p, cs = text(S, 'Filename', list(name.encode())); pb, cb = text(S, 'BaseDir', list(base.encode())); cnt = 0
        b = buf(S, 'Result', C(size), 'out')
        def gpf(e, S, I, a):
            z = None
            for q, c in ((p, cs), (pb, cb)):
                if isinstance(a[2], PtrV) and a[2].r == q.r: z = c
            m = S.st.norm(a[1])
            if z is None or not e.bounds(S, a[0], m, 'file name'): return []
            if len(z) + 1 > m.c: return [(S, ZERO)]
            R = S.w(a[0].r); R.nul = C(len(z))
            for i, c in enumerate(z + [ZERO]): R.cells[i] = (1, c)
            return [(S, ONE)]
        h.eng.stubs[F + '::GetPlatformFilename'] = gpf; cls = F + '::FilenameInfo'; h.eng.LIMIT = 10 ** 8
        def info(e, S, I, a):
            out = []
            for T, z in models.strlen_of(e, S, a[1]):
                z = T.st.norm(z); k = -1
                if z.isconst():
                    for i in range(z.c):
                        c = T.mem[a[1].r].cells.get(i)
                        if c is not None and c[1] == C(47): k = i
                for f, v in (('Length', z), ('StartVolume', ZERO), ('StartPath', ZERO), ('StartFilename', C(k + 1)), ('StartExtension', z), ('StartLastExtension', z)): setf(e, T, a[0], cls, f, v)
                out.append((T, None))
            return out
        h.eng.stubs[F + '::GetPlatformFilenameInfo'] = info
        for T, r in h.call('%s::%s' % (F, SG['gaf']), [b, C(size), pb, p, ZERO], S): cnt += 1; h.truth(T, r)
        h.done('GetAbsoluteFilename', cnt)
    return run

# ------------------------------------------------------------------ lines
def line_ref(d):
    i = next((i for i, c in enumerate(d) if c in '\r\n'), len(d))
    if i == len(d): return d, i
    return d[:i], i + (2 if d[i:i + 2] == '\r\n' else 1)
def line_one(sp, data, start, hint, alt, cnt):
    h = H(sp); S, t = h.file(h.S, 0, C(start), C(len(data))); eng = h.eng; h.stable = True; S.mon['off0'] = C(start); S.mon['size0'] = C(len(data))
    byte = [V(newvar('c%d' % i, 32, 126)) if c == OTHER else C(ord(c)) for i, c in enumerate(data)]
    def read(e, S, I, a):
        k = h.fd(e, S, a[0], 'read'); out = []
        if k is None: return []
        for T, n in e.uval(S, a[2], 64):
            if not e.bounds(T, a[1], n, 'read() target'): continue
            n = T.st.norm(n); o = T.st.norm(T.mon['off0'])
            if not (n.isconst() and o.isconst() and T.st.norm(a[1].o).isconst()): raise AnalysisError('symbolic read')
            m = max(0, min(n.c, len(data) - o.c)); R = T.w(a[1].r); q = T.st.norm(a[1].o).c
            for i in range(m): R.cells[q + i] = (1, byte[o.c + i])
            T.mon['off0'] = C(o.c + m); out.append((T, C(m)))
        return out
    eng.models['read'] = read; ar = S.new_region('os', 'AltRealloc', 1).rid; mgr = S.new_region('os', 'Manager', 1)
    def ind(e, S, I, a, name, tgt):
        e.ob(isinstance(tgt, PtrV) and tgt.r == ar and isinstance(a[0], PtrV) and a[0].r == mgr.rid, 'line-alloc', 'the given allocator is used with its manager', S); out = []
        for T, z in e.uval(S, a[2], 64):
            r = T.new_region('heap', 'line', z); r.tags = {'by': 'alt'}
            if isinstance(a[1], PtrV):
                R = T.mem[a[1].r]; ok = R.tags.get('by') == 'alt' and not R.freed and T.st.entails_eq(a[1].o); e.ob(ok, 'line-alloc', 'the block that is enlarged is the current one', T)
                T.w(r.rid).cells = {k: v for k, v in R.cells.items() if T.st.entails(z - k - v[0])}; T.w(a[1].r).freed = True
            out.append((T, PtrV(r.rid, ZERO)))
        return out
    eng.models['$indirect'] = ind
    want, end = line_ref(data[start:]); exp = [C(32) if c == '\0' else byte[start + i] for i, c in enumerate(want)] + [ZERO]
    for T, r in h.call('%s::%s' % (F, SG['line']), [t, C(hint), PtrV(mgr.rid, ZERO) if alt else NULL, PtrV(ar, ZERO) if alt else NULL], S):
        cnt += 1; live = [x for x, R in T.mem.items() if R.kind == 'heap' and not R.freed]; ok = isinstance(r, PtrV) and live == [r.r] and T.st.entails_eq(r.o)
        h.ob(T, ok, 'line-alloc', 'the line is in one block of its own'); why = '(%r, %d at a time)' % (data[start:], hint)
        if not ok: continue
        h.ob(T, T.mem[r.r].tags.get('by') == ('alt' if alt else 'new[]'), 'line-alloc', 'the block comes from the allocator asked for')
        g = h.chars(T, r, len(exp)); h.ob(T, h.same(T, g, exp), 'line-text', 'the line is the text up to the end of line %s' % why)
        p = h.g(T, t, 'MxCurrPos')
        if not T.mon.get('seekfail'): h.ob(T, p is not None and T.st.entails_eq(p - start - end) and T.st.entails_eq(T.mon['off0'] - start - end), 'line-next', 'the next line starts right behind the end of line %s' % why)
    if sp.peel and any('::LineInput(' in x for x in eng.looped): h.ob(S, False, 'line-end', 'reading a line of a finite file ends (%r, %d at a time)' % (data[start:], hint))
    h.done('LineInput', cnt); return cnt
def line_case(n, start, hint, alt):
    def run(sp):
        cnt = 0
        for d in itertools.product('\n\r\0x', repeat=n): cnt = line_one(sp, 'x' * start + ''.join(d), start, hint, alt, cnt)
    return run
def line_closed(acc):
    def run(sp):
        h = H(sp); S, t = h.file(h.S, acc); n = 0
        for T, r in h.call('%s::%s' % (F, SG['line']), [t, C(4), NULL, NULL], S): n += 1; h.ob(T, isinstance(r, Lin) and T.st.entails_eq(r), 'line-text', 'nothing is read from a file that is not open for reading')
        h.done('LineInput', n)
    return run

# ------------------------------------------------------------------ paths from the operating system
def os_text(h, S, which, s):
    cs = [V(newvar('%s[%d]' % (which, i), 97, 122)) if c == OTHER else C(ord(c)) for i, c in enumerate(s)]; S.mon['t.' + which] = tuple(cs); return cs
def put(e, S, p, cs):
    R = S.w(p.r); o = S.st.norm(p.o).c
    for i, c in enumerate(cs): R.cells[o + i] = (1, c)
def m_real(h, s, check):
    def f(e, S, I, a):
        X = S.copy(); models.set_errno(e, X); X.mon['fail'] = 'real'; check(e, S, a[0]); cs = S.mon['t.real']
        e.ob(isinstance(a[1], Lin) and S.st.norm(a[1]) == NULL, 'out-size', 'the system allocates the resolved name', S)
        r = S.new_region('heap', 'realpath()', C(len(s) + 1)); r.tags = {'by': 'malloc'}; put(e, S, PtrV(r.rid, ZERO), list(cs) + [ZERO]); return [(X, NULL), (S, PtrV(r.rid, ZERO))]
    return f
def m_rlink(h, s, check):
    def f(e, S, I, a):
        X = S.copy(); models.set_errno(e, X); X.mon['fail'] = 'link'; out = [(X, C(-1))]
        for T, n in e.uval(S, a[2], 64):
            if not e.bounds(T, a[1], n, 'readlink() target') or not check(e, T, a[0]): continue
            n = T.st.norm(n)
            if not n.isconst(): raise AnalysisError('symbolic size')
            if n.c == 0: continue
            m = min(n.c, len(s)); put(e, T, a[1], T.mon['t.link'][:m]); T.mon['fail'] = ''; out.append((T, C(m)))
        return out
    return f
def m_cwd(h, s):
    def f(e, S, I, a):
        X = S.copy(); models.set_errno(e, X); X.mon['fail'] = 'cwd'; out = [(X, NULL)]
        for T, n in e.uval(S, a[1], 64):
            if not e.bounds(T, a[0], n, 'getcwd() target'): continue
            n = T.st.norm(n)
            if not n.isconst(): raise AnalysisError('symbolic size')
            if n.c > len(s): put(e, T, a[0], list(T.mon['t.cwd']) + [ZERO]); out.append((T, a[0]))
        return out
    return f
def out_case(op, s, slack):
    """Realpath, Readlink, Getcwd: a result of known text, a buffer with `slack` bytes to spare"""
    def run(sp):
        size = len(s) + 1 + slack
        if size < 0: return
        h = H(sp); S = h.S; nm = h.arg('Filename'); b = buf(S, 'Result', C(size), 'out'); n = 0; seen = set()
        def check(e, S, p): ok = isinstance(p, PtrV) and h.src(S, p)[1] == 'Filename' or isinstance(p, PtrV) and p.r == nm.r; e.ob(ok, 'name-target', 'the file examined is the one that was named', S); return True
        which = {'Realpath': 'real', 'Readlink': 'link', 'Getcwd': 'cwd'}[op]; cs = os_text(h, S, which, s)
        h.eng.models['realpath'] = m_real(h, s, check); h.eng.models['readlink'] = m_rlink(h, s, check); h.eng.models['getcwd'] = m_cwd(h, s); h.eng.stubs[F + '::GetPlatformFilename'] = h.gpf
        sg, a = ('%s::Getcwd(char*, unsigned long)' % D, [b, C(size)]) if op == 'Getcwd' else ('%s::%s(char*, unsigned long, char const*)' % (F, op), [b, C(size), nm])
        for T, r in h.call(sg, a, S):
            n += 1; ok = h.truth(T, r); seen.add(bool(ok)); h.ob(T, not [1 for R in T.mem.values() if R.kind == 'heap' and not R.freed], 'mem-leak', 'no memory is left allocated')
            if ok: h.ob(T, slack >= 0 and T.mon['fail'] == '' and h.same(T, h.chars(T, b, len(s) + 1), cs + [ZERO]), 'out-text', 'the result is the whole name, terminated')
            else: h.ob(T, T.mon['fail'] != '' or slack < 0, 'out-size', 'a name that fits is not refused')
        sp.exist(slack < 0 or True in seen, 'result', h.loc, h.fn, 'the operation can succeed'); h.done(op, n)
    return run
def app_case(op, link, real, size, argv0):
    """GetExecutableFilename, GetExecutablePath: the link has `link` characters (None: there is none), the resolved name is `real`"""
    def run(sp):
        h = H(sp); S = h.S; b = buf(S, 'Buffer', C(size), 'out'); bs = buf(S, 'BufferSize', C(8)); S.w(bs.r).cells[0] = (8, C(size)); n = 0; S.mon['via'] = ''
        cr = os_text(h, S, 'real', real); cl = os_text(h, S, 'link', 'x' * (link or 0)); av, ca = text(S, 'Argv0', pat('xx'))
        def chk_link(e, T, p): return link is not None and models.lit(e, T, p) == b'/proc/self/exe'
        def chk_real(e, T, p):
            z = h.zstr(T, p); ok = link is not None and h.same(T, z, cl + [ZERO]) or argv0 and h.same(T, z, ca + [ZERO]); e.ob(ok, 'name-target', 'the name that is resolved is that of the program', T); T.mon['via'] = 'link' if link is not None and h.same(T, z, cl + [ZERO]) else 'argv'
        m = h.eng.models; m['readlink'] = m_rlink(h, 'x' * (link or 0), chk_link); m['realpath'] = m_real(h, real, chk_real)
        want = real if op == 'GetExecutableFilename' else real[:real.rfind('/') + 1]; exp = (cr[:len(want)] if op != 'GetExecutableFilename' else cr) + [ZERO]
        for T, r in h.call('%s::%s(char*, unsigned long&, char const*)' % (A, op), [b, bs, av if argv0 else NULL], S):
            n += 1; ok = h.truth(T, r); v = T.mem[bs.r].cells.get(0); v = T.st.norm(v[1]) if v is not None and isinstance(v[1], Lin) else None
            h.ob(T, not [1 for R in T.mem.values() if R.kind == 'heap' and not R.freed], 'mem-leak', 'no memory is left allocated')
            if ok:
                h.ob(T, len(want) + 1 <= size and h.same(T, h.chars(T, b, len(exp)), exp), 'out-text', 'the result is the whole name, terminated')
                h.ob(T, v == C(len(exp)), 'out-size', 'the size reported is that of the name with its end')
            else:
                h.ob(T, v == ZERO, 'out-size', 'a failure reports no size')
                h.ob(T, T.mon['fail'] != '' or len(real) + 1 > size or link is None and not argv0 or link is not None and link >= size, 'out-size', 'a name that fits is not refused')
        h.done(op, n)
    return run
def dir_ref(op, home, app):
    base = {'GetSystemAppStorageDir': '/var/lib/', 'GetTempStorageDir': '/tmp/', 'GetCurrentUserAppStorageDir': home}[op]; base = base if base.endswith('/') else base + '/'
    if app is None or op == 'GetTempStorageDir': return base, None
    r = base + ('.' if op == 'GetCurrentUserAppStorageDir' else ''); return r, app
def store_case(op, home, app, slack, env):
    def run(sp):
        h = H(sp); S = h.S; pre, ap = dir_ref(op, home, app); n = 0; hp, ch = text(S, 'home', pat(home)); S.mon['h'] = tuple(ch); seen = set()
        pa, ca = text(S, 'AppDir', pat(app)) if app is not None else (NULL, [])
        m = h.eng.models
        def getenv(e, S, I, a): e.ob(models.lit(e, S, a[0]) == b'HOME', 'name-target', 'the home directory is asked for', S); return [(S, hp if env == 'HOME' else NULL)]
        def getpw(e, S, I, a):
            X = S.copy(); X.mon['fail'] = 'nouser'; r = S.new_region('os', 'passwd', 48); r.cells[32] = (8, hp); return [(X, NULL), (S, PtrV(r.rid, ZERO))]
        m['getenv'] = getenv; m['getpwuid'] = getpw; k = 0; exp = []
        for c in pre:
            if op == 'GetCurrentUserAppStorageDir' and k < len(home): exp.append(ch[k])
            else: exp.append(C(ord(c)))
            k += 1
        if ap is not None:
            exp += ca
            last = ap[-1] if ap else pre[-1]
            if last != '/': exp.append(C(47))
        exp.append(ZERO); size = len(exp) + slack
        if size < 0: return
        b = buf(S, 'Buffer', C(size), 'out'); bs = buf(S, 'BufferSize', C(8)); S.w(bs.r).cells[0] = (8, C(size))
        a = [b, bs] + ([] if op == 'GetTempStorageDir' else [pa]); sg = '%s::%s(char*, unsigned long&%s)' % (A, op, '' if op == 'GetTempStorageDir' else ', char const*')
        for T, r in h.call(sg, a, S):
            n += 1; ok = h.truth(T, r); seen.add(bool(ok)); v = T.mem[bs.r].cells.get(0); v = T.st.norm(v[1]) if v is not None and isinstance(v[1], Lin) else None
            if ok:
                h.ob(T, slack >= 0 and h.same(T, h.chars(T, b, len(exp)), exp), 'out-text', 'the result is the whole name, terminated'); h.ob(T, v == C(len(exp)), 'out-size', 'the size reported is that of the name with its end')
            else:
                h.ob(T, v == ZERO, 'out-size', 'a failure reports no size'); h.ob(T, T.mon['fail'] != '' or slack <= 0, 'out-size', 'a name that fits is not refused')
        h.done(op, n)
    return run
def any_case(op):
    """every size: nothing outside the buffer is touched, a reported size fits, failures report none"""
    def run(sp):
        h = FS(sp); S = h.S; size = V(newvar('BufferSize', 0, 1 << 40)); b = buf(S, 'Buffer', size, 'out'); n = 0; h.allow = {'raw': True}; m = h.eng.models; models.register(h.eng) if False else None
        S.mon['size'] = size
        if op in ('Realpath', 'Readlink', 'Getcwd'):
            nm = h.arg('Filename'); sg, a = ('%s::Getcwd(char*, unsigned long)' % D, [b, size]) if op == 'Getcwd' else ('%s::%s(char*, unsigned long, char const*)' % (F, op), [b, size, nm])
        else:
            bs = buf(S, 'Size', C(8)); S.w(bs.r).cells[0] = (8, size); nm = h.arg('Name'); sg = '%s::%s(char*, unsigned long&%s)' % (A, op, '' if op == 'GetTempStorageDir' else ', char const*'); a = [b, bs] + ([] if op == 'GetTempStorageDir' else [nm])
        for T, r in h.call(sg, a, S):
            n += 1; ok = h.truth(T, r); h.ob(T, not [1 for R in T.mem.values() if R.kind == 'heap' and not R.freed], 'mem-leak', 'no memory is left allocated')
            if op in ('Realpath', 'Readlink', 'Getcwd'): continue
            v = T.mem[bs.r].cells.get(0); v = T.st.norm(v[1]) if v is not None and isinstance(v[1], Lin) else None
            h.ob(T, v is not None and (T.st.entails(v - 1) and T.st.entails(size - v) if ok else T.st.entails_eq(v)), 'out-size', 'the size reported lies within the buffer')
        h.done(op, n)
    return run
PROPS = {}
APP = ('GetSystemAppStorageDir', 'GetCurrentUserAppStorageDir', 'GetTempStorageDir')
def gpf_cases(): return [Case('GetPlatformFilename any', gpf_any)] + [Case('GetPlatformFilename %d %+d' % (n, x), gpf_case(n, x)) for n in range(4) for x in (-1, 0, 2)]
def c13():
    out = gpf_cases()
    out += [Case('GetPlatformFilenameInfo any', info_any)] + [Case('GetPlatformFilenameInfo %d' % n, info_case(n)) for n in range(6)]
    out += [Case('GetAbsoluteFilename %s %d %d %d' % (b, n, t, c), gaf_case(b, n, t, c)) for b in ('/', '/x/x', '/x/', 'x') for n in range(1, 6) for t, c in ((0, 0), (1, 1))]
    out += [Case('GetAbsoluteFilename %s %d %d size %+d' % (b, n, t, k), gaf_case(b, n, t, 0, k)) for b in ('/x',) for n in range(1, 4) for t in (0, 1) for k in (-2, -1, 0, 1)]
    out += [Case('GetAbsoluteFilename any %d %d' % (t, c), gaf_any(t, c), 3, 8) for t in (0, 1) for c in (0, 1)]
    out += [Case('GetAbsoluteFilename long %d in %d' % (len(n), len(b)), gaf_long(n, b), 3, 120) for n, b in (('/' + 'a' * 8189, '/'), ('/' + 'a' * 8190, '/'), ('a' * 8190, '/'), ('a' * 8191, '/'), ('a', '/' + 'a' * 8190), ('a', '/' + 'a' * 8189), ('a' * 300, '/' + 'a' * 8000), ('/' + 'a' * 8187 + '/..', '/'))]
    out += [Case('LineInput %d from %d, %d at a time, alt %d' % (n, s, k, al), line_case(n, s, k, al)) for n, s, k, al in [(n, 0, k, 0) for n in range(5) for k in (1, 2, 3, 8)] + [(n, 0, k, 1) for n in range(4) for k in (1, 2)] + [(3, 2, 2, 0), (2, 1, 0, 0)]]
    out += [Case('LineInput access %s' % a, line_closed(a)) for a in (None, 1)]
    out += [Case('%s %r %+d' % (o, s, k), out_case(o, s, k)) for o in ('Realpath', 'Readlink', 'Getcwd') for s in ('/', '/x', '/xx') for k in (-3, -2, -1, 0, 1)]
    out += [Case('%s link %s real %s size %d argv %d' % (o, l, r, z, v), app_case(o, l, r, z, v)) for o in ('GetExecutableFilename', 'GetExecutablePath') for l in (None, 2, 4) for r in ('/x', '/x/x', '/xx/x') for z in (0, 1, 2, 3, 4, 5, 6, 9) for v in (0, 1)]
    out += [Case('%s home %s app %s %+d %s' % (o, hm, ap, k, env), store_case(o, hm, ap, k, env)) for o in APP for hm in (('', '/', '/x', '/x/') if o == APP[1] else ('',)) for ap in ((None, '', 'x', 'x/', 'xx') if o != APP[2] else (None,)) for k in (-99, -4, -3, -2, -1, 0, 1, 2) for env in (('HOME', 'passwd') if o == APP[1] else ('HOME',))]
    out += [Case('%s any size' % o, any_case(o)) for o in ('Realpath', 'Readlink', 'Getcwd', 'GetExecutableFilename', 'GetExecutablePath') + APP]
    return out
PROPS.update(C13=c13)
