"""C09 to C13: files, directories and file names."""
from spec import *
NS = 'CubicleSoft::'; U64 = (1 << 64) - 1; F = NS + 'UTF8::File'; D = NS + 'UTF8::Dir'; A = NS + 'UTF8::AppInfo'
SLASH = 47
O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_CLOEXEC, O_LARGE = 0o100, 0o200, 0o1000, 0o2000, 0o2000000, 0o100000
IFLNK, IFDIR, IFREG = 0o120000, 0o040000, 0o100000
SG = {'open': 'Open(char const*, int, %s::ShareType, int)' % F, 'seek': 'Seek(%s::SeekType, unsigned long)' % F, 'read': 'Read(unsigned char*, unsigned long, unsigned long&)', 'write': 'Write(unsigned char const*, unsigned long, unsigned long&)',
      'writes': 'Write(char const*, unsigned long&)', 'gpf': 'GetPlatformFilename(char*, unsigned long, char const*, bool)', 'gaf': 'GetAbsoluteFilename(char*, unsigned long, char const*, char const*, bool)',
      'line': 'LineInput(unsigned long, void*, void* (*)(void*, void*, unsigned long))', 'load': 'LoadEntireFile(char const*, char*&, unsigned long&, void*, void* (*)(void*, unsigned long), void (*)(void*, void*))'}
class FS:
    """the operating system: descriptors, directory handles, and the names it is given"""
    def __init__(self, sp, contracts=True):
        self.sp = sp; eng = self.eng = sp.engine(); S = self.S = State(); self.mod = sp.mod; eng.track_cut = True; eng.CAP = 300
        m = eng.models; S.mon['open'] = (); S.mon['dirs'] = (); S.mon['nfd'] = 0; S.mon['fail'] = ''
        self.allow = {}; self.stable = False; self.watch = None; self.flags = None; self.kinds = {}
        for n in ('open', 'open64'): m[n] = self.open
        for n in ('read', 'write', 'close', 'flock', 'fstat', 'ftruncate', 'opendir', 'readdir', 'closedir', 'rename', 'fsync'): m[n] = getattr(self, n)
        m['lseek64'] = m['lseek'] = self.lseek; m['fstat64'] = self.fstat; m['fdatasync'] = self.fsync; m['ftruncate64'] = self.ftruncate; m['readdir64'] = self.readdir
        m['sync'] = lambda e, S, I, a: (S.mon.__setitem__('synced', True), [(S, None)])[1]
        for n, i in (('unlink', 0), ('rmdir', 0), ('mkdir', 0), ('chmod', 0), ('chown', 0), ('lchown', 0), ('utime', 0), ('utimes', 0), ('remove', 0)): m[n] = self.simple(n, i)
        m['stat'] = m['stat64'] = self.stat(False); m['lstat'] = m['lstat64'] = self.stat(True)
        if contracts:
            eng.stubs[F + '::GetPlatformFilename'] = self.gpf; eng.stubs[F + '::GetAbsoluteFilename'] = self.gaf
        eng.hooks_store.append(self.on_store); eng.hooks_copy.append(self.on_copy); eng.hooks_fill.append(lambda e, S, R, o, n, v: S.mon.pop(('name', R.rid), None))
    def failed(self, T, what):
        if not self.stable: T.mon['fail'] = what
    # ---- names
    def arg(self, nm, lo=0): p, n = cstr(self.S, nm, lo=lo, hi=1 << 40); return p
    def src(self, S, p):
        """which argument the string at p is: ('raw', name) or ('valid', name)"""
        if not isinstance(p, PtrV) or p.r not in S.mem: return (None, None)
        v = S.mon.get(('name', p.r))
        if v is not None: return ('valid', v) if S.st.entails_eq(p.o) else (None, None)
        return ('raw', S.mem[p.r].name) if S.mem[p.r].kind == 'input' and S.st.entails_eq(p.o) else (None, None)
    def on_store(self, e, S, r, off, sz, v):
        k = ('name', r.rid)
        if k in S.mon and not (sz == 1 and isinstance(v, Lin) and S.st.norm(v).isconst() and S.st.norm(v).c in (0, SLASH)): del S.mon[k]
        if ('kind', r.rid) in S.mon: del S.mon[('kind', r.rid)]
    def on_copy(self, e, S, rd, do, rs, so, n):
        if rs.name == 'dirent': S.mon['cp'] = (rd.rid, rs.rid) if S.st.entails_eq(do) and S.st.entails_eq(so - 19) else None
        S.mon.pop(('name', rd.rid), None); S.mon.pop(('kind', rd.rid), None)
    def path(self, e, S, p, op):
        k, nm = self.src(S, p)
        e.ob(k == 'valid' or self.allow.get('raw'), 'name-valid', 'a name reaches the operating system only after it was checked', S)
        if nm is not None or not self.allow.get('raw'): e.ob(nm in self.allow.get(op, ()), 'name-target', 'only the file or directory that was named is %s' % WHAT.get(op, 'used'), S)
        return [T for T, n in models.strlen_of(e, S, p, 'file name')]
    def gpf(self, e, S, I, a):
        out = []
        for T, n in models.strlen_of(e, S, a[2]):
            k, nm = self.src(T, a[2])
            for T2, rs in e.uval(T, a[1], 64):
                if not e.bounds(T2, a[0], rs, 'file name'): continue
                X = T2.copy(); e.havoc(X, a[0], rs); X.mon.pop(('name', a[0].r), None); self.failed(X, 'name')
                if not self.sp.light: out.append((X, ZERO))
                try: T2.st.ge(rs - n - 1); T2.st.ge(n - 1)
                except Infeasible: continue
                e.havoc(T2, a[0], rs); R = T2.w(a[0].r)
                if T2.st.entails_eq(a[0].o): R.nul = n; T2.mon[('name', a[0].r)] = nm; T2.mon.pop(('kind', a[0].r), None)
                out.append((T2, ONE))
        return out
    def gaf(self, e, S, I, a):
        out = []; b = isinstance(a[2], Lin) and S.st.norm(a[2]) == NULL
        for T, n in models.strlen_of(e, S, a[3]):
            k, nm = self.src(T, a[3])
            for T2, rs in e.uval(T, a[1], 64):
                if not e.bounds(T2, a[0], rs, 'file name'): continue
                X = T2.copy(); e.havoc(X, a[0], rs); X.mon.pop(('name', a[0].r), None); self.failed(X, 'name'); out.append((X, ZERO))
                L = V(newvar('abslen', 1, None))
                try: T2.st.ge(rs - L - 1)
                except Infeasible: continue
                e.havoc(T2, a[0], rs); R = T2.w(a[0].r)
                if T2.st.entails_eq(a[0].o): R.cells[0] = (1, C(SLASH)); R.nul = L; T2.mon[('name', a[0].r)] = nm if b else None; T2.mon.pop(('kind', a[0].r), None)
                out.append((T2, ONE))
        return out
    # ---- calls with a name
    def simple(self, op, i):
        def f(e, S, I, a):
            out = []
            for T in self.path(e, S, a[i], op):
                if self.watch: self.watch(e, T, op, a)
                X = T.copy(); models.set_errno(e, X); self.failed(X, op); X.mon[('did', op)] = 'no'; out += [] if self.sp.light else [(X, C(-1))]; T.mon[('did', op)] = 'yes'; out.append((T, ZERO))
            return out
        return f
    def rename(self, e, S, I, a):
        out = []
        for T in self.path(e, S, a[0], 'rename-from'):
            for T2 in self.path(e, T, a[1], 'rename-to'):
                X = T2.copy(); models.set_errno(e, X); X.mon['renamed'] = 'no'; out.append((X, C(-1))); T2.mon['renamed'] = 'yes'; out.append((T2, ZERO))
        return out
    def fillstat(self, e, T, p, key, kind=None, size=None):
        """contents of struct stat"""
        if not e.bounds(T, p, C(144), 'stat'): return False
        e.havoc(T, p, C(144)); o = T.st.norm(p.o)
        if not o.isconst(): return True
        R = T.w(p.r); o = o.c; g = lambda f, hi: V(newvar('st.%s' % f, 0, hi))
        perm = g('perm', 4095); md = C(kind) + perm if kind is not None else g('mode', 0o177777)
        for f, off, sz, v in (('dev', 0, 8, g('dev', U64)), ('ino', 8, 8, g('ino', U64)), ('mode', 24, 4, md), ('uid', 28, 4, g('uid', (1 << 32) - 1)), ('gid', 32, 4, g('gid', (1 << 32) - 1)), ('size', 48, 8, size if size is not None else g('size', (1 << 62))), ('atime', 72, 8, g('atime', 1 << 40)), ('mtime', 88, 8, g('mtime', 1 << 40))):
            R.cells[o + off] = (sz, v)
            if key is not None: T.mon[('st', key, f)] = v
        return True
    def stat(self, link):
        def f(e, S, I, a):
            out = []
            for T in self.path(e, S, a[0], 'stat'):
                nm = self.src(T, a[0])[1]; X = T.copy(); models.set_errno(e, X); X.mon[('st', nm)] = 'none'; X.mon[('kind', a[0].r)] = 'none' if link else None; out.append((X, C(-1)))
                for kn, kind in ((('link', IFLNK),) if link else ()) + (('dir', IFDIR), ('file', IFREG), ('other', 0o010000)):
                    if self.sp.light and kn != 'file': continue
                    if self.stable and nm == 'DestFilename' and kn != 'file': continue
                    Y = T.copy()
                    if not self.fillstat(e, Y, a[1], nm, kind): continue
                    Y.mon[('st', nm)] = kn
                    Y.mon['viaL'] = link
                    if link: Y.mon[('kind', a[0].r)] = kn
                    if nm == 'DestFilename' and ('st', 'SrcFilename') in Y.mon and kn == Y.mon[('st', 'SrcFilename')]:
                        Z = Y.copy(); R = Z.w(a[1].r); o = Z.st.norm(a[1].o).c
                        for fl, off in (('dev', 0), ('ino', 8)): R.cells[o + off] = (8, Z.mon[('st', 'SrcFilename', fl)])
                        Z.mon['same'] = True; out.append((Z, ZERO))
                    out.append((Y, ZERO))
            return out
        return f
    # ---- descriptors
    def open(self, e, S, I, a):
        fl = S.st.norm(a[1]) if isinstance(a[1], Lin) else None; fl = fl.c & 0xFFFFFFFF if fl is not None and fl.isconst() else None
        acc = None if fl is None else fl & 3; out = []
        for T in self.path(e, S, a[0], 'open-r' if acc == 0 else 'open-w'):
            nm = self.src(T, a[0])[1]
            e.ob(fl is not None and bool(fl & O_CLOEXEC), 'fd-cloexec', 'descriptors are not inherited by other programs', T)
            if self.flags is not None: e.ob(fl is not None and (fl ^ self.flags) & ~(O_CLOEXEC | O_LARGE) & 0xFFFFFFFF == 0, 'fd-flags', 'the file is opened as requested', T)
            if acc: e.ob(not T.mon.get('same'), 'data-same', 'a file is never opened as its own copy', T)
            if self.watch: self.watch(e, T, 'open', a)
            X = T.copy(); models.set_errno(e, X); self.failed(X, 'open'); out += [] if self.sp.light else [(X, C(-1))]
            k = T.mon['nfd']; T.mon['nfd'] = k + 1; v = V(newvar('fd', 0, (1 << 31) - 1)); T.mon['fd%d' % k] = v; T.mon['acc%d' % k] = (nm, acc); T.mon['off%d' % k] = ZERO
            if fl is not None and fl & O_TRUNC: T.mon['cutopen'] = nm
            T.mon['size%d' % k] = ZERO if fl is not None and fl & O_TRUNC else V(newvar('filesize', 0, 1 << 62)); T.mon['open'] = T.mon['open'] + (k,); out.append((T, v))
        return out
    def fd(self, e, S, v, what):
        k = [k for k in S.mon['open'] if isinstance(v, Lin) and S.st.entails_eq(S.mon['fd%d' % k] - v)]
        e.ob(len(k) >= 1, 'fd-open', 'only an open descriptor is %s' % what, S)
        return k[-1] if k else None
    def close(self, e, S, I, a):
        k = self.fd(e, S, a[0], 'closed')
        if k is not None: S.mon['open'] = tuple(x for x in S.mon['open'] if x != k)
        X = S.copy(); models.set_errno(e, X); return [(S, ZERO)] + ([] if self.sp.light else [(X, C(-1))])
    def flock(self, e, S, I, a):
        k = self.fd(e, S, a[0], 'locked'); op = S.st.norm(a[1]); op = op.c if op.isconst() else None
        e.ob(op is not None and op & 4, 'fd-lock', 'locking a file does not wait', S); X = S.copy(); models.set_errno(e, X); self.failed(X, 'lock'); X.mon['lockfail'] = True
        if k is not None: S.mon['lock%d' % k] = {1: 'shared', 2: 'exclusive', 8: 'none'}.get((op or 0) & 11)
        return ([] if self.sp.light == 'plain' else [(X, C(-1))]) + [(S, ZERO)]
    def fstat(self, e, S, I, a):
        k = self.fd(e, S, a[0], 'examined'); X = S.copy(); models.set_errno(e, X); self.failed(X, 'fstat')
        if k is not None and not self.stable: S.mon['size%d' % k] = V(newvar('filesize', 0, 1 << 62))
        if not self.fillstat(e, S, a[1], None, IFREG, S.mon['size%d' % k] if k is not None else None): return []
        return ([] if self.stable else [(X, C(-1))]) + [(S, ZERO)]
    def lseek(self, e, S, I, a):
        k = self.fd(e, S, a[0], 'positioned'); wh = S.st.norm(a[2]); X = S.copy(); models.set_errno(e, X); self.failed(X, 'seek'); X.mon['seekfail'] = True; out = [] if self.sp.light else [(X, C(-1))]
        if k is None or not wh.isconst(): return out + [(S, V(newvar('pos', 0, 1 << 62)))]
        for T, o in e.sval(S, a[1], 64):
            p = T.st.norm(o + (ZERO if wh.c == 0 else T.mon['off%d' % k] if wh.c == 1 else T.mon['size%d' % k]))
            try: T.st.ge(p)
            except Infeasible: continue
            T.mon['off%d' % k] = p; out.append((T, p))
        return out
    def fsync(self, e, S, I, a):
        k = self.fd(e, S, a[0], 'flushed'); S.mon['synced'] = True; X = S.copy(); models.set_errno(e, X); return [(X, C(-1)), (S, ZERO)]
    def ftruncate(self, e, S, I, a):
        k = self.fd(e, S, a[0], 'truncated'); out = []
        if k is not None: e.ob(S.mon['acc%d' % k][0] in self.allow.get('truncate', ()), 'data-truncate', 'only the target is cut', S)
        for T, n in e.uval(S, a[1], 64):
            X = T.copy(); models.set_errno(e, X); self.failed(X, 'truncate'); out += [] if self.sp.light else [(X, C(-1))]
            if k is not None: T.mon['size%d' % k] = n; T.mon['trunc%d' % k] = n
            out.append((T, ZERO))
        return out
    def read(self, e, S, I, a):
        k = self.fd(e, S, a[0], 'read'); out = []
        if k is None: return []
        e.ob(S.mon['acc%d' % k][1] in (0, 2), 'fd-access', 'only a file that is open for reading is read', S)
        for T, n in e.uval(S, a[2], 64):
            if T.st.norm(n) == ZERO: out.append((T, ZERO)); continue
            if not e.bounds(T, a[1], n, 'read() target'): continue
            if self.watch: self.watch(e, T, 'read', [k, a[1], n])
            X = T.copy(); models.set_errno(e, X, C(4)); X.mon['last'] = 'eintr'; out += [] if self.sp.light else [(X, C(-1))]
            X = T.copy(); models.set_errno(e, X, V(newvar('errno', 5, 200))); X.mon['last'] = 'fail'; out += [] if self.sp.light == 'plain' else [(X, C(-1))]
            off, size = T.mon['off%d' % k], T.mon['size%d' % k]
            X = T.copy()
            try: X.st.ge(off - size); X.mon['last'] = 'eof'; out.append((X, ZERO))
            except Infeasible: pass
            L = V(newvar('xfer', 1, None))
            try: T.st.ge(n - L); T.st.ge(size - off - L)
            except Infeasible: continue
            if self.fillread: self.fillread(e, T, a[1], n, L, k)
            else: e.havoc(T, a[1], n)
            T.mon['off%d' % k] = T.st.norm(off + L); T.mon['last'] = 'ok'
            if self.watch: self.watch(e, T, 'got', [k, a[1], L])
            out.append((T, L))
        return out
    fillread = None
    def write(self, e, S, I, a):
        k = self.fd(e, S, a[0], 'written'); out = []
        if k is None: return []
        e.ob(S.mon['acc%d' % k][1] in (1, 2), 'fd-access', 'only a file that is open for writing is written', S)
        for T, n in e.uval(S, a[2], 64):
            if T.st.norm(n) == ZERO: out.append((T, ZERO)); continue
            if not e.bounds(T, a[1], n, 'write() source'): continue
            if self.watch: self.watch(e, T, 'write', [k, a[1], n])
            X = T.copy(); models.set_errno(e, X, C(4)); X.mon['last'] = 'eintr'; out += [] if self.sp.light else [(X, C(-1))]
            X = T.copy(); models.set_errno(e, X, V(newvar('errno', 5, 200))); X.mon['last'] = 'fail'; out += [] if self.sp.light == 'plain' else [(X, C(-1))]
            L = V(newvar('xfer', 1, None))
            try:
                T.st.ge(n - L)
                if self.sp.light: T.st.ge(L - n)
            except Infeasible: continue
            off = T.st.norm(T.mon['off%d' % k] + L); T.mon['off%d' % k] = off; T.mon['last'] = 'ok'
            if T.st.entails(off - T.mon['size%d' % k]): T.mon['size%d' % k] = off
            if self.watch: self.watch(e, T, 'put', [k, a[1], L])
            out.append((T, L))
        return out
    # ---- directories
    def opendir(self, e, S, I, a):
        out = []
        for T in self.path(e, S, a[0], 'opendir'):
            if self.watch: self.watch(e, T, 'opendir', a)
            X = T.copy(); models.set_errno(e, X); self.failed(X, 'opendir'); out.append((X, NULL))
            r = T.new_region('os', 'DIR', 1); T.mon['dirs'] = T.mon['dirs'] + (r.rid,); out.append((T, PtrV(r.rid, ZERO)))
        return out
    def isdir(self, e, S, p, what):
        ok = isinstance(p, PtrV) and p.r in S.mon['dirs']; e.ob(ok, 'dir-open', 'only an open directory is %s' % what, S); return ok
    def readdir(self, e, S, I, a):
        if not self.isdir(e, S, a[0], 'read'): return []
        X = S.copy(); X.mon['last'] = 'end'
        r = S.new_region('os', 'dirent', 280); L = V(newvar('namelen', 1, 255)); r.nul = L + 19; S.mon['dname'] = L; S.mon['last'] = 'entry'; S.mon['dent'] = r.rid
        return [(X, NULL), (S, PtrV(r.rid, ZERO))]
    def closedir(self, e, S, I, a):
        if self.isdir(e, S, a[0], 'closed'): S.mon['dirs'] = tuple(x for x in S.mon['dirs'] if x != a[0].r)
        return [(S, ZERO)]
    # ---- running
    def call(self, sg, a, S=None):
        fn = self.mod.find(sg); self.loc = self.mod.loc_fn(fn); self.fn = sg.split('(')[0]; out = []
        for T, r in self.eng.call(S if S is not None else self.S, fn, a): out += self.eng.toint(T, r) if isinstance(r, CondV) else [(T, r)]
        return out
    def ob(self, T, c, rule, msg): self.eng.ob(c, rule, msg, T, where=self.loc, fn=self.fn)
    def truth(self, T, r):
        t, f = isinstance(r, Lin) and T.st.entails(r - 1), isinstance(r, Lin) and T.st.entails_eq(r); self.ob(T, t or f, 'result', 'success and failure are told apart'); return t
    def file(self, S, acc=None, cur=None, mx=None):
        """a File object: closed, or open with the given access"""
        t = obj(self.eng, S, F, 'File'); r = self.call('%s::File()' % F, [t], S)
        assert len(r) == 1; S = r[0][0]
        if acc is not None:
            k = S.mon['nfd']; S.mon['nfd'] = k + 1; v = V(newvar('fd', 0, (1 << 31) - 1)); S.mon['fd%d' % k] = v; S.mon['acc%d' % k] = ('old', acc); S.mon['open'] = S.mon['open'] + (k,)
            cur = cur if cur is not None else V(newvar('pos', 0, 1 << 61)); mx = mx if mx is not None else V(newvar('max', 0, 1 << 61))
            S.mon['off%d' % k] = cur; S.mon['size%d' % k] = V(newvar('filesize', 0, 1 << 62))
            for f, x in (('MxFile', v), ('MxRead', C(acc != 1)), ('MxWrite', C(acc != 0)), ('MxCurrPos', cur), ('MxMaxPos', mx)): setf(self.eng, S, t, F, f, x)
        return S, t
    def g(self, T, t, f):
        v = getf(self.eng, T, t, F, f); return T.st.norm(v) if isinstance(v, Lin) else None
    def done(self, entry, n):
        self.sp.exist(n, 'returns', self.loc, self.fn, 'returns'); self.sp.absorb(self.eng, entry, n)
WHAT = {'open-r': 'opened for reading', 'open-w': 'opened for writing', 'unlink': 'deleted', 'rmdir': 'removed', 'mkdir': 'created', 'chmod': 'changed', 'chown': 'changed', 'utime': 'changed', 'utimes': 'changed', 'rename-from': 'renamed', 'rename-to': 'replaced', 'opendir': 'listed', 'stat': 'examined'}

# ------------------------------------------------------------------ open, close, access
def open_case(flags, share, old):
    def run(sp):
        h = FS(sp); eng = h.eng; S, t = h.file(h.S, 2 if old else None); h.S = S; h.flags = flags
        nm = h.arg('Filename'); acc = flags & 3; h.allow = {'open-r' if acc == 0 else 'open-w': ('Filename',)}; n = 0; seen = set()
        for T, r in h.call('%s::%s' % (F, SG['open']), [t, nm, C(flags), C(share), V(newvar('Mode', 0, 0o7777))], S):
            n += 1; ok = h.truth(T, r); seen.add(bool(ok)); op = T.mon['open']
            if ok:
                h.ob(T, acc != 3 and share in (0, 1, 2, 3), 'fd-flags', 'a request that makes no sense is refused')
                h.ob(T, len(op) == 1 and op[0] >= (1 if old else 0), 'fd-leak', 'after a successful open exactly the new file is open')
                if len(op) != 1: continue
                k = op[0]; v = h.g(T, t, 'MxCurrPos')
                h.ob(T, T.mon.get('lock%d' % k) == ('shared' if share == 0 else 'exclusive'), 'fd-lock', 'an open file is locked as its sharing demands')
                h.ob(T, v is not None and (T.st.entails_eq(v - T.mon['off%d' % k]) or T.mon['fail'] == 'seek'), 'io-pos', 'the position is that of the file')
                q = h.call('%s::IsOpen() const' % F, [t], T.copy())
                for X, b in q: h.ob(X, X.st.entails(b - 1), 'fd-open', 'an open file says so')
                b1 = buf(T, 'Data', C(16)); c1 = buf(T, 'Count', C(8), 'out'); T.mon['last'] = ''
                for m, need in (('read', 1), ('write', 0)):
                    for X, b in h.call('%s::%s' % (F, SG[m]), [t, b1, C(16), c1], T.copy()):
                        if acc == need: h.ob(X, X.st.entails_eq(b) and X.mon['last'] == '', 'fd-access', 'what the file was not opened for fails')
                h.loc = sp.mod.loc_fn(sp.mod.find('%s::%s' % (F, SG['open']))); h.fn = F + '::Open'
            else:
                h.ob(T, op == (), 'fd-leak', 'a failed open leaves no file open')
                h.ob(T, T.mon['fail'] in ('name', 'open', 'lock') or acc == 3 or share > 3, 'fd-flags', 'opening fails only for a bad name or request, or because the operating system refuses')
                for X, b in h.call('%s::IsOpen() const' % F, [t], T.copy()): h.ob(X, X.st.entails_eq(b), 'fd-open', 'a closed file says so')
            for X, _ in h.call('%s::~File()' % F, [t], T): h.ob(X, X.mon['open'] == (), 'fd-leak', 'destroying a file object closes the file')
            h.loc = sp.mod.loc_fn(sp.mod.find('%s::%s' % (F, SG['open']))); h.fn = F + '::Open'
        sp.exist(acc == 3 or share > 3 or True in seen, 'fd-flags', h.loc, h.fn, 'a file can be opened'); h.done('Open(%o,%d,%d)' % (flags, share, old), n)
    return run
def method_case(m, acc, zero=False):
    """one method on an open (or, acc None, closed) file"""
    def run(sp):
        h = FS(sp); eng = h.eng; S, t = h.file(h.S, acc); k = 0; n = 0
        cur0, mx0 = h.g(S, t, 'MxCurrPos'), h.g(S, t, 'MxMaxPos'); size = ZERO if zero else V(newvar('DataSize', 1, 1 << 40)); b = buf(S, 'Data', size, 'out' if m == 'read' else 'input'); cnt = buf(S, 'Count', C(8), 'out')
        S.mon['last'] = ''
        for i, x in enumerate((cur0, mx0, size)): S.mon['keep%d' % i] = x
        if m == 'writes': R = S.w(b.r); R.size = size + 1; R.nul = size
        def watch(e, T, ev, a):
            if ev in ('write', 'read'):
                e.ob(isinstance(a[1], PtrV) and a[1].r == b.r and T.st.entails_eq(a[1].o - (T.mon['off0'] - cur0)), 'io-order', 'data is transferred in order, without gaps or repetitions', T)
                e.ob(T.st.entails(size - (T.mon['off0'] - cur0) - a[2]), 'io-order', 'no more data is transferred than asked for', T)
        h.watch = watch
        sg, args = {'read': (SG['read'], [t, b, size, cnt]), 'write': (SG['write'], [t, b, size, cnt]), 'writes': (SG['writes'], [t, b, cnt]), 'flush': ('Flush()', [t]), 'max': ('UpdateMaxPos()', [t]), 'close': ('Close()', [t])}[m]
        for T, r in h.call('%s::%s' % (F, sg), args, S):
            n += 1; ok = h.truth(T, r); cur, mx = h.g(T, t, 'MxCurrPos'), h.g(T, t, 'MxMaxPos'); c = T.mem[cnt.r].cells.get(0); c = T.st.norm(c[1]) if c is not None and c[0] == 8 and isinstance(c[1], Lin) else None
            if acc is None:
                if m != 'close': h.ob(T, not ok, 'io-closed', 'using a file that is not open fails')
                h.ob(T, T.mon['open'] == (), 'fd-leak', 'nothing is opened'); continue
            if m == 'close': h.ob(T, T.mon['open'] == (), 'fd-leak', 'closing closes the file'); continue
            h.ob(T, T.mon['open'] == (0,), 'fd-leak', 'the file stays open')
            h.ob(T, cur is not None and T.st.entails_eq(cur - T.mon['off0']), 'io-pos', 'the position is that of the file')
            if m == 'max':
                if ok: h.ob(T, mx is not None and T.st.entails_eq(mx - T.mon['size0']), 'io-size', 'the size is that of the file')
                else: h.ob(T, mx is not None and T.st.entails_eq(mx - mx0), 'io-size', 'a size that cannot be found out is left as it was'); h.ob(T, T.mon['fail'] == 'fstat', 'io-fail', 'the size is found out if the system knows it')
            elif m == 'flush': h.ob(T, (ok and T.mon.get('synced')) if acc != 0 else not ok, 'io-flush', 'flushing writes out the data of a file open for writing')
            elif m == 'read' and acc == 1 or m != 'read' and acc == 0: h.ob(T, not ok and T.mon['last'] == '', 'fd-access', 'what the file was not opened for fails')
            else:
                d = T.mon['off0'] - cur0         # the system moved its position by what it transferred
                if ok or c is not None: h.ob(T, c is not None and T.st.entails_eq(c - d), 'io-count', 'the reported number of bytes is what was transferred')
                if ok and m != 'read': h.ob(T, T.st.entails_eq(d - size), 'io-all', 'a write that reports success wrote everything')
                if m != 'read': h.ob(T, mx is not None and T.st.entails(mx - cur) if T.mon['last'] == 'ok' else True, 'io-size', 'writing past the end extends the known size')
                if not ok: h.ob(T, T.mon['last'] == 'fail', 'io-fail', 'a transfer fails only because of an error, not because it was interrupted')
                if ok and m == 'read': h.ob(T, T.mon['last'] in ('', 'ok', 'eof'), 'io-fail', 'an error is not reported as success')
        h.done('%s %s%s' % (m, acc, ' 0' if zero else ''), n)
    return run
def seek_case(wh):
    def run(sp):
        h = FS(sp); S, t = h.file(h.S, 2); p = V(newvar('Pos', 0, U64)); cur0, mx0 = h.g(S, t, 'MxCurrPos'), h.g(S, t, 'MxMaxPos'); n = 0; off0 = S.mon['off0']
        for T, r in h.call('%s::%s' % (F, SG['seek']), [t, C(wh), p], S):
            n += 1; ok = h.truth(T, r); cur = h.g(T, t, 'MxCurrPos'); off = T.mon['off0']; h.ob(T, cur is not None and T.st.entails_eq(cur - off), 'io-pos', 'the position is that of the file')
            if cur is None: continue
            h.ob(T, h.g(T, t, 'MxMaxPos') is not None and T.st.entails_eq(h.g(T, t, 'MxMaxPos') - mx0), 'io-size', 'seeking does not change the size')
            if not ok: h.ob(T, T.st.entails_eq(cur - cur0), 'io-pos', 'a seek that failed leaves the position alone'); h.ob(T, T.mon['fail'] == 'seek', 'io-fail', 'seeking fails only if the system refuses'); continue
            # (condition, position) of every kind of seek; positions beyond the ends are the ends
            alt = {0: [([mx0 - p], p), ([p - mx0], mx0)], 1: [([mx0 - p], mx0 - p), ([p - mx0], ZERO)], 2: [([mx0 - cur0 - p], cur0 + p), ([cur0 + p - mx0], mx0)], 3: [([cur0 - p], cur0 - p), ([p - cur0], ZERO)]}.get(wh, [([], cur0)])
            for conds, e in alt:
                X = T.copy()
                try:
                    for q in conds: X.st.ge(q)
                    if not X.st.feasible(cur.vars() + p.vars() + mx0.vars() + cur0.vars()): continue
                except Infeasible: continue
                h.ob(X, X.st.entails_eq(cur - e), 'io-seek', 'seeking goes to the requested position, or the nearest one inside the file')
        h.done('Seek(%d)' % wh, n)
    return run


# ------------------------------------------------------------------ functions with names
def name_case(fn, sg, mk, allow, post=None, raw=False):
    """a static function: mk(h) gives the arguments, allow the effects on names, post(h, T, ok) further obligations"""
    def run(sp):
        h = FS(sp); a = mk(h); h.allow = dict(allow, raw=raw); n = 0; seen = set(); eng = h.eng; S = h.S
        for T, r in h.call(sg, a, S):
            n += 1; ok = h.truth(T, r) if isinstance(r, Lin) else None; seen.add(ok)
            h.ob(T, T.mon['open'] == (), 'fd-leak', 'no file is left open'); h.ob(T, T.mon['dirs'] == (), 'dir-leak', 'no directory is left open')
            h.ob(T, not [1 for x, R in T.mem.items() if R.kind == 'heap' and not R.freed], 'mem-leak', 'no memory is left allocated')
            if post: post(h, T, ok)
        sp.exist(True in seen or None in seen, 'result', h.loc, h.fn, 'the operation can succeed'); h.done(fn, n)
    return run
def did(*ops):
    """success means that the operation was carried out, failure that the system or the name check refused"""
    def f(h, T, ok):
        if ok: h.ob(T, any(T.mon.get(('did', o)) == 'yes' for o in ops), 'name-effect', 'success means that the operation was carried out')
        else: h.ob(T, T.mon['fail'] != '' or any(T.mon.get(('did', o)) == 'no' for o in ops) or 'none' in [v for k, v in T.mon.items() if isinstance(k, tuple) and k[0] == 'st' and len(k) == 2] or T.mon.get('nouser'), 'name-effect', 'failure is reported only when something failed')
        if not ok: h.ob(T, not any(T.mon.get(('did', o)) == 'yes' for o in ops), 'name-effect', 'what was carried out is not reported as failed')
    return f
FN = 'Filename'; STAT = 'stat&'
def owner(kind):
    def mk(h):
        nm = h.arg(FN); o = h.arg('Owner'); m = h.eng.models
        def look(e, S, I, a):
            A_ = S.copy(); A_.mon['nouser'] = True; e.ob(isinstance(a[0], PtrV) and a[0].r == o.r, 'name-owner', 'the owner looked up is the one named', S)
            r = S.new_region('os', 'account', 48); v = V(newvar('id', 0, (1 << 32) - 1)); r.cells[16] = (4, v); S.mon['id'] = v; S.mon['looked'] = a and I is not None
            return [(A_, NULL), (S, PtrV(r.rid, ZERO))]
        m['getpwnam' if kind == 'u' else 'getgrnam'] = look
        def watch(e, T, op, a):
            if op != 'chown': return
            me, other = (a[1], a[2]) if kind == 'u' else (a[2], a[1])
            def same(x, y): d = T.st.norm(x - y); return d.isconst() and d.c % (1 << 32) == 0 or T.st.entails_eq(d)
            e.ob('id' in T.mon and same(me, T.mon['id']), 'name-owner', 'the new owner or group is the one named', T); e.ob(same(other, C(-1)), 'name-owner', 'the other one stays as it is', T)
        h.watch = watch; return [nm, o]
    return mk
def times_mk(x, y):
    def mk(h):
        S = h.S; nm = h.arg(FN); p = []
        for i, w in enumerate((x, y)):
            if w: b = buf(S, 'Time%d' % i, C(8)); v = V(newvar('time%d' % i, 0, 1 << 60)); S.w(b.r).cells[0] = (8, v); p.append(b); S.mon['t%d' % i] = v
            else: p.append(NULL)
        def watch(e, T, op, a):
            if op != 'utimes': return
            for i, w in enumerate((x, y)):
                ld = lambda o: (lambda l: T.st.norm(l[0][1]) if l and isinstance(l[0][1], Lin) else None)(e.load(T.copy(), PtrV(a[1].r, a[1].o + o), ir.IntTy(64)))
                s, u = ld(16 * i), ld(16 * i + 8)
                if s is None or u is None: e.ob(False, 'name-times', 'both times are set', T); continue
                e.ob(T.st.entails(u) and T.st.entails(C(999999) - u), 'name-times', 'microseconds are in range', T)
                if w: e.ob(T.st.entails_eq(s.scale(1000000) + u - T.mon['t%d' % i]), 'name-times', 'the time set is the time given', T)
                else: e.ob(('st', FN, ('atime', 'mtime')[i]) in T.mon and T.st.entails_eq(s - T.mon[('st', FN, ('atime', 'mtime')[i])]), 'name-times', 'a time that is not given stays as it is', T)
        h.watch = watch; return [nm, NULL] + p
    return mk
def statics():
    one = lambda h: [h.arg(FN)]; st = lambda link: (lambda h: [buf(h.S, 'stat', C(144), 'out'), h.arg(FN), C(link)])
    L = [('Chmod', F + '::Chmod(char const*, int)', lambda h: [h.arg(FN), V(newvar('Mode', 0, 0o7777))], {'chmod': (FN,)}, did('chmod')),
         ('Delete', F + '::Delete(char const*)', one, {'unlink': (FN,)}, did('unlink')),
         ('Exists', F + '::Exists(char const*)', one, {'stat': (FN,)}, lambda h, T, ok: h.ob(T, bool(ok) == (T.mon.get(('st', FN), 'none') != 'none'), 'name-effect', 'a file exists exactly if it can be found')),
         ('Chown', F + '::Chown(char const*, char const*)', owner('u'), {'chown': (FN,)}, did('chown')), ('Chgrp', F + '::Chgrp(char const*, char const*)', owner('g'), {'chown': (FN,)}, did('chown')),
         ('IsValidFilenameFormat', F + '::IsValidFilenameFormat(char const*)', one, {}, lambda h, T, ok: h.ob(T, bool(ok) == (T.mon['fail'] != 'name'), 'name-effect', 'the name is judged by the same check'))]
    for l in (0, 1): L.append(('Stat%d' % l, F + '::Stat(stat&, char const*, bool)', st(l), {'stat': (FN,)}, lambda h, T, ok, l=l: (h.ob(T, bool(ok) == (T.mon.get(('st', FN), 'none') != 'none'), 'name-effect', 'success means that the file was examined'), h.ob(T, T.mon.get(('st', FN)) != 'link' or l == 1, 'name-effect', 'links are followed unless asked otherwise'), h.ob(T, not ok or (T.mon.get('viaL') == bool(l)), 'name-effect', 'links are examined themselves only if asked for'))))
    for x in (0, 1):
        for y in (0, 1): L.append(('SetFileTimes %d%d' % (x, y), F + '::SetFileTimes(char const*, unsigned long*, unsigned long*, unsigned long*)', times_mk(x, y), {'stat': (FN,), 'utimes': (FN,), 'utime': (FN,)}, did('utimes')))
    return L

# ------------------------------------------------------------------ copying and moving
def copy_case(link=False):
    def run(sp):
        h = FS(sp); eng, S = h.eng, h.S; h.stable = True; src, dst = h.arg('SrcFilename'), h.arg('DestFilename'); n = 0; seen = set()
        h.allow = {'stat': ('SrcFilename', 'DestFilename'), 'open-r': ('SrcFilename',), 'open-w': ('DestFilename',), 'truncate': ('DestFilename',), 'chown': ('DestFilename',), 'chmod': ('DestFilename',), 'utime': ('DestFilename',), 'utimes': ('DestFilename',)}
        S.mon['pend'] = ZERO; S.mon['pbuf'] = None; S.mon['pstart'] = ZERO; S.mon['last'] = ''; S.mon['dpos'] = ZERO
        def which(T, k): return T.mon['acc%d' % k][0]
        def watch(e, T, ev, a):
            if ev == 'read': e.ob(which(T, a[0]) == 'SrcFilename', 'data-copy', 'data comes from the source', T); e.ob(T.st.entails_eq(T.mon['pend']), 'data-copy', 'everything read is written before more is read', T)
            elif ev == 'got': T.mon['pend'] = a[2]; T.mon['pbuf'] = a[1].r; T.mon['pstart'] = a[1].o
            elif ev == 'write':
                e.ob(which(T, a[0]) == 'DestFilename', 'data-copy', 'data goes to the target', T)
                e.ob(a[1].r == T.mon['pbuf'] and T.st.entails_eq(a[1].o - T.mon['pstart']) and T.st.entails(T.mon['pend'] - a[2]), 'data-copy', 'what is written is what was read, in order', T)
                e.ob(T.st.entails_eq(T.mon['off%d' % a[0]] - T.mon['dpos']), 'data-copy', 'data is written right behind what was written before', T)
            elif ev == 'put': T.mon['pend'] = T.st.norm(T.mon['pend'] - a[2]); T.mon['pstart'] = T.st.norm(T.mon['pstart'] + a[2]); T.mon['dpos'] = T.st.norm(T.mon['dpos'] + a[2])
            elif ev == 'chmod':
                m = T.mon.get(('st', 'SrcFilename', 'mode')); d = T.st.norm(a[1] - m) if m is not None and isinstance(a[1], Lin) else None
                e.ob(d is not None and (T.st.entails_eq(d) or d.isconst() and d.c % (1 << 12) == 0 or all(c % (1 << 12) == 0 for _, c in d.t) and d.c % (1 << 12) == 0), 'data-mode', 'the copy gets the permissions of the source', T)
        h.watch = watch
        def loop(e, S, *r): pass
        for T, r in h.call(F + '::Copy(char const*, char const*)', [src, dst], S):
            n += 1; ok = h.truth(T, r); seen.add(ok); h.ob(T, T.mon['open'] == (), 'fd-leak', 'no file is left open')
            if not ok: h.ob(T, not (T.mon.get('lockfail') and (T.mon.get('cutopen') == 'DestFilename' or not T.st.entails_eq(T.mon['dpos']))), 'data-lock', 'a target that another program has locked is left alone')
            if ok:
                sk = [k for k in range(T.mon['nfd']) if which(T, k) == 'SrcFilename']; dk = [k for k in range(T.mon['nfd']) if which(T, k) == 'DestFilename']
                if not (len(sk) == 1 and len(dk) == 1): h.ob(T, False, 'data-copy', 'source and target are opened'); continue
                h.ob(T, T.st.entails_eq(T.mon['off%d' % sk[0]] - T.mon['size%d' % sk[0]]), 'data-copy', 'a copy that reports success has read all of the source')
                h.ob(T, T.st.entails_eq(T.mon['pend']) and T.st.entails_eq(T.mon['off%d' % dk[0]] - T.mon['off%d' % sk[0]]), 'data-copy', 'a copy that reports success has written all that was read')
                tr = T.mon.get('trunc%d' % dk[0]); h.ob(T, tr is not None and T.st.entails_eq(tr - T.mon['off%d' % dk[0]]) or T.st.entails_eq(T.mon['size%d' % dk[0]] - T.mon['off%d' % dk[0]]), 'data-truncate', 'the copy ends where the source ends')
                h.ob(T, T.mon.get(('st', 'SrcFilename')) == 'file', 'data-copy', 'only regular files are copied')
        sp.exist(True in seen, 'result', h.loc, h.fn, 'the operation can succeed'); h.done('Copy', n)
    return run
def move_case():
    def run(sp):
        h = FS(sp); eng, S = h.eng, h.S; src, dst = h.arg('SrcFilename'), h.arg('DestFilename'); n = 0; S.mon['copied'] = 'none'; S.mon['renamed'] = ''
        h.allow = {'rename-from': ('SrcFilename',), 'rename-to': ('DestFilename',), 'unlink': ('SrcFilename',)}
        def copy(e, S, I, a):
            e.ob(h.src(S, a[0])[1] == 'SrcFilename' and h.src(S, a[1])[1] == 'DestFilename', 'data-move', 'the file that is copied is the one to be moved', S)
            X = S.copy(); X.mon['copied'] = 'no'; S.mon['copied'] = 'yes'; return [(X, ZERO), (S, ONE)]
        eng.stubs[F + '::Copy'] = copy
        h.watch = lambda e, T, op, a: e.ob(T.mon['copied'] == 'yes', 'data-move', 'the source is deleted only after it was copied completely', T) if op == 'unlink' else None
        for T, r in h.call(F + '::Move(char const*, char const*)', [src, dst], S):
            n += 1; ok = h.truth(T, r)
            h.ob(T, bool(ok) == (T.mon['renamed'] == 'yes' or T.mon['copied'] == 'yes'), 'data-move', 'success means that the file is at its new place')
            if ok and T.mon['renamed'] != 'yes': h.ob(T, ('did', 'unlink') in T.mon, 'data-move', 'a file that was moved by copying is removed from its old place')
        h.done('Move', n)
    return run
def load_case(alt):
    def run(sp):
        h = FS(sp); eng, S = h.eng, h.S; nm = h.arg(FN); h.allow = {'open-r': (FN,)}; n = 0; res = buf(S, 'Result', C(8), 'out'); cnt = buf(S, 'BytesRead', C(8), 'out'); mgr = buf(S, 'Manager', C(1)); S.mon['alt'] = (); seen = set(); S.mon['last'] = ''
        am = S.new_region('os', 'AltMalloc', 1).rid; af = S.new_region('os', 'AltFree', 1).rid
        def ind(e, S, I, a, name, t):
            if isinstance(t, PtrV) and t.r == am:
                e.ob(isinstance(a[0], PtrV) and a[0].r == mgr.r, 'load-alloc', 'the given allocator is used with its manager', S); out = []
                for T, z in e.uval(S, a[1], 64): r = T.new_region('heap', 'block', z); r.tags = {'by': 'alt'}; out.append((T, PtrV(r.rid, ZERO)))
                return out
            if isinstance(t, PtrV) and t.r == af:
                ok = isinstance(a[1], PtrV) and a[1].r in S.mem and S.mem[a[1].r].tags.get('by') == 'alt' and not S.mem[a[1].r].freed and S.st.entails_eq(a[1].o); e.ob(ok, 'load-alloc', 'memory goes back to where it came from, once', S)
                if ok: S.w(a[1].r).freed = True
                return [(S, None)]
            e.ob(False, 'load-alloc', 'only the given functions are called', S); return []
        eng.models['$indirect'] = ind
        for T, r in h.call('%s::%s' % (F, SG['load']), [nm, res, cnt, mgr if alt else NULL, PtrV(am, ZERO) if alt else NULL, PtrV(af, ZERO) if alt else NULL], S):
            n += 1; ok = h.truth(T, r); seen.add(ok); h.ob(T, T.mon['open'] == (), 'fd-leak', 'no file is left open')
            live = [x for x, R in T.mem.items() if R.kind == 'heap' and not R.freed]
            g = lambda b: (T.mem[b.r].cells.get(0) or (0, None))[1]; p, c = g(res), g(cnt)
            if ok:
                ptr = isinstance(p, PtrV) and live == [p.r] and T.st.entails_eq(p.o); h.ob(T, ptr, 'load-alloc', 'the block returned is the only one in use')
                if ptr: h.ob(T, isinstance(c, Lin) and T.st.entails_eq(c - T.mem[p.r].size) and T.st.entails_eq(c - T.mon['off0']), 'load-all', 'success means that as many bytes as reported were read, from the start')
            else: h.ob(T, not live and isinstance(p, Lin) and T.st.norm(p) == NULL and isinstance(c, Lin) and T.st.entails_eq(c), 'load-alloc', 'failure leaves no memory behind and returns none')
        sp.exist(True in seen, 'result', h.loc, h.fn, 'the operation can succeed'); h.done('LoadEntireFile', n)
    return run

# ------------------------------------------------------------------ directories
def dir_case(op, opened):
    def run(sp):
        h = FS(sp); eng, S = h.eng, h.S; t = obj(eng, S, D, 'Dir'); n = 0; S = h.call('%s::Dir()' % D, [t], S)[0][0]; h.allow = {'opendir': ('Dirname',)}; seen = set()
        if opened: r = S.new_region('os', 'DIR', 1); S.mon['dirs'] = (r.rid,); setf(eng, S, t, D, 'MxDir', PtrV(r.rid, ZERO)); old = r.rid
        S.mon['last'] = ''; h.S = S; nm = h.arg('Dirname'); size = V(newvar('Size', 0, 1 << 40)); b = buf(S, 'Result', size, 'out')
        sg, a = {'open': ('Open(char const*)', [t, nm]), 'read': ('Read(char*, unsigned long)', [t, b, size]), 'close': ('Close()', [t])}[op]
        for T, r in h.call('%s::%s' % (D, sg), a, S):
            n += 1; ok = h.truth(T, r); seen.add(ok); d = T.mon['dirs']
            if op == 'open':
                h.ob(T, len(d) == (1 if ok else 0) and not (opened and old in d), 'dir-leak', 'after opening exactly the new directory is open, after a failure none')
                if not ok: h.ob(T, T.mon['fail'] in ('name', 'opendir'), 'dir-open', 'opening fails only for a bad name or because the system refuses')
            elif op == 'close': h.ob(T, d == () and bool(ok) == bool(opened), 'dir-leak', 'closing closes the directory')
            else:
                if not opened: h.ob(T, not ok and T.mon['last'] == '', 'dir-open', 'reading a directory that is not open fails'); continue
                if T.mon['last'] == 'end': h.ob(T, not ok, 'dir-end', 'at the end of the directory reading fails')
                elif ok:
                    R = T.mem[b.r]; L = T.mon['dname']; h.ob(T, T.st.entails(size - L - 1), 'out-size', 'a name that is returned fits')
                    q = models.strlen_of(eng, T.copy(), b); h.ob(T, all(X.st.entails(size - z - 1) for X, z in q), 'out-text', 'the name is terminated')
                    h.ob(T, R.tags.get('copied') == T.mon['dent'] or T.mon.get('cp') == (b.r, T.mon['dent']), 'out-text', 'the name is that of the entry')
                else: h.ob(T, T.st.entails(T.mon['dname'] + 1 - size - 1), 'out-size', 'a name is refused only if it does not fit')
            for X, _ in h.call('%s::~Dir()' % D, [t], T): h.ob(X, X.mon['dirs'] == (), 'dir-leak', 'destroying a directory object closes the directory')
            h.loc = sp.mod.loc_fn(sp.mod.find('%s::%s' % (D, sg))); h.fn = '%s::%s' % (D, sg.split('(')[0])
        h.done('Dir %s %s' % (op, opened), n)
    return run
def mkdir_case(rec):
    def run(sp):
        h = FS(sp); eng, S = h.eng, h.S; nm = h.arg('Dirname'); h.allow = {'mkdir': ('Dirname',)}; n = 0; mode = V(newvar('Mode', 0, 0o7777)); seen = set(); S.mon['mode'] = mode
        def watch(e, T, op, a):
            if op != 'mkdir': return
            e.ob(T.st.entails_eq(a[1] - T.mon['mode']), 'dir-mode', 'directories are created with the mode given', T)
            cut = T.mon.get(('cut', a[0].r)); R = T.mem[a[0].r]; T.mon['full'] = cut is None or T.st.entails_eq(cut - R.nul) if R.nul is not None else None
            if not rec: e.ob(T.mon['full'], 'dir-parents', 'parents are created only if asked for', T)
        h.watch = watch
        for T, r in h.call('%s::Mkdir(char const*, int, bool)' % D, [nm, mode, C(rec)], S):
            n += 1; ok = h.truth(T, r); seen.add(ok)
            if ok: h.ob(T, T.mon.get(('did', 'mkdir')) == 'yes' and T.mon.get('full'), 'dir-made', 'success means that the directory itself was created')
            else: h.ob(T, T.mon['fail'] != '', 'dir-made', 'failure is reported only when something failed')
        sp.exist(True in seen, 'result', h.loc, h.fn, 'the operation can succeed'); h.done('Mkdir %d' % rec, n)
    return run
def rmdir_case(rec):
    def run(sp):
        h = FS(sp); eng, S = h.eng, h.S; nm = h.arg('Dirname'); h.allow = {'rmdir': ('Dirname',), 'stat': ('Dirname',)}; n = 0; seen = set(); S.mon['rec'] = ''
        def sub(e, S, I, a):
            ok = isinstance(a[0], PtrV) and h.src(S, a[0])[1] == 'Dirname'; e.ob(rec, 'rm-recursive', 'contents are removed only if asked for', S)
            e.ob(ok, 'rm-target', 'only the contents of the named directory are removed', S)
            e.ob(isinstance(a[0], PtrV) and S.mon.get(('kind', a[0].r)) in ('dir', 'file', 'other'), 'rm-link', 'what a link points to is never emptied', S); out = []
            for T, z in models.strlen_of(e, S, a[0]):
                for T2, q in e.uval(T, a[1], 64): e.ob(T2.st.entails_eq(q - z), 'rm-target', 'the length passed is that of the name', T2); T2.mon['rec'] = 'yes'; out.append((T2, None))
            return out
        eng.stubs[D + '::Rmdir_RecurseInternal'] = sub
        for T, r in h.call('%s::Rmdir(char const*, bool)' % D, [nm, C(rec)], S):
            n += 1; ok = h.truth(T, r); seen.add(ok)
            h.ob(T, bool(ok) == (T.mon.get(('did', 'rmdir')) == 'yes'), 'rm-done', 'success means that the directory was removed')
            if rec and T.mon['fail'] != 'name' and [v for k, v in T.mon.items() if isinstance(k, tuple) and k[0] == 'kind'] == ['dir']: h.ob(T, T.mon['rec'] == 'yes', 'rm-recursive', 'the contents are removed if asked for')
        sp.exist(True in seen, 'result', h.loc, h.fn, 'the operation can succeed'); h.done('Rmdir %d' % rec, n)
    return run
def recurse_case(size):
    """contents of a directory: the entries are ".", ".." and others"""
    def run(sp):
        h = FS(sp); eng, S = h.eng, h.S; n = 0; r = S.new_region('obj', 'Dirname2', C(8192)); r.cells[0] = (1, C(SLASH)); z = C(size); r.nul = z; p = PtrV(r.rid, ZERO); S.mon[('name', r.rid)] = 'Dirname'; S.mon['ent'] = ''; S.mon['dirs2'] = 0; S.mon['opened'] = 0; S.mon['sub'] = 0
        def opn(e, S, I, a):
            e.ob(isinstance(a[1], PtrV) and a[1].r == p.r and S.st.entails_eq(a[1].o) and S.mon['ent'] == '', 'rm-target', 'the directory that is listed is the one to be emptied', S)
            X = S.copy(); S.mon['opened'] = 1; return [(X, ZERO), (S, ONE)]
        def rd(e, S, I, a):
            e.ob(S.mon['opened'] == 1, 'dir-open', 'the directory is open while it is read', S); out = []
            if not (isinstance(a[1], PtrV) and a[1].r == p.r): e.ob(False, 'rm-target', 'entries are appended to the name of the directory', S); return []
            e.ob(S.st.entails_eq(a[1].o - size - 1), 'rm-target', 'the name of an entry goes right behind that of its directory', S)
            for T0, m in e.uval(S, a[2], 64):
                if not e.bounds(T0, a[1], m, 'entry name'): continue
                X = T0.copy(); e.havoc(X, a[1], m); X.mon['ent'] = 'end'; X.mon.pop(('kind', p.r), None); X.w(p.r).nul = V(newvar('rest', size + 1, 8191)); out.append((X, ZERO))
                for k in ('dot', 'dotdot', 'one', 'long'):
                    T = T0.copy(); e.havoc(T, a[1], m); T.mon['ent'] = k; T.mon.pop(('kind', p.r), None); o = T.st.norm(a[1].o).c
                    try:
                        if k in ('dot', 'dotdot', 'one'):
                            s = {'dot': [C(46)], 'dotdot': [C(46), C(46)], 'one': [V(newvar('name', 97, 122))]}[k]; T.st.ge(m - len(s) - 1); R = T.w(p.r)
                            for i, c in enumerate(s + [ZERO]): R.cells[o + i] = (1, c)
                            nl = C(o + len(s))
                        else: L = V(newvar('entlen', 2, 255)); T.st.ge(m - L - 1); R = T.w(p.r); R.cells[o] = (1, V(newvar('name', 97, 122))); nl = L + o
                        c = R.cells.get(size); sl = c is not None and c[0] == 1 and T.st.norm(c[1]) == C(SLASH); e.ob(sl, 'rm-target', 'a separator is between the directory and the entry', T); R.nul = nl if sl else C(size)
                    except Infeasible: continue
                    out.append((T, ONE))
            return out
        def cl(e, S, I, a): S.mon['opened'] = 0; return [(S, ONE)]
        def isent(e, S, q, what):
            ok = isinstance(q, PtrV) and q.r == p.r and S.st.entails_eq(q.o); e.ob(ok, 'rm-target', 'only entries of the directory are %s' % what, S)
            e.ob(S.mon['ent'] in ('one', 'long'), 'rm-target', 'the directory itself and its parent are never %s' % what, S); return S.mon.get(('kind', p.r))
        def sub(e, S, I, a):
            k = isent(e, S, a[0], 'emptied'); e.ob(k == 'dir', 'rm-link', 'only directories are emptied, never what a link points to', S); S.mon['sub'] = 1; out = []
            for T, z in models.strlen_of(e, S, a[0]):
                for T2, q in e.uval(T, a[1], 64): e.ob(T2.st.entails_eq(q - z), 'rm-target', 'the length passed is that of the name', T2); kd = T2.mon.get(('kind', p.r)); (e.havoc(T2, PtrV(p.r, z + 1), T2.mem[p.r].size - z - 1)) if T2.st.entails(T2.mem[p.r].size - z - 2) else None; T2.mon[('kind', p.r)] = kd; out.append((T2, None))
            return out
        def prim(op):
            def f(e, S, I, a):
                k = isent(e, S, a[0], 'removed')
                if op == 'unlink': e.ob(k in ('link', 'file', 'other'), 'rm-kind', 'links and files are removed as such', S)
                else: e.ob(k == 'dir', 'rm-kind', 'directories are removed as such', S); e.ob(S.mon['sub'] == 1, 'rm-recursive', 'a directory is emptied before it is removed', S)
                S.mon['sub'] = 0; X = S.copy(); models.set_errno(e, X); return [(X, C(-1)), (S, ZERO)]
            return f
        def lst(link):
            def f(e, S, I, a):
                ok = isinstance(a[0], PtrV) and a[0].r == p.r and S.st.entails_eq(a[0].o); out = []; e.ob(ok, 'rm-target', 'the entry that is examined is the current one', S); X = S.copy(); models.set_errno(e, X); out.append((X, C(-1)))
                for kn, kind in (('link', IFLNK), ('dir', IFDIR), ('file', IFREG), ('other', 0o010000)):
                    Y = S.copy(); h.fillstat(e, Y, a[1], None, kind if link or kn != 'link' else IFDIR); Y.mon[('kind', p.r)] = kn; out.append((Y, ZERO))
                return out
            return f
        m = eng.models; m['unlink'] = prim('unlink'); m['remove'] = prim('unlink'); m['rmdir'] = prim('rmdir'); m['lstat'] = m['lstat64'] = lst(True); m['stat'] = m['stat64'] = lst(False)
        eng.stubs[D + '::Open'] = opn; eng.stubs[D + '::Read'] = rd; eng.stubs[D + '::Close'] = cl
        fn = sp.mod.find('%s::Rmdir_RecurseInternal(char*, unsigned long)' % D); first = [True]
        def rec(e, S, I, a): return sub(e, S, I, a)
        eng.stubs[D + '::Rmdir_RecurseInternal'] = rec
        h.loc = sp.mod.loc_fn(fn); h.fn = D + '::Rmdir_RecurseInternal'
        for T, _ in eng.call(S, fn, [p, z]):
            n += 1; h.ob(T, T.mon['opened'] == 0, 'dir-leak', 'the directory is closed')
            q = models.strlen_of(eng, T.copy(), p); h.ob(T, bool(q) and all(X.st.entails_eq(l - size) for X, l in q), 'rm-restore', 'the name is as before')
        h.done('Rmdir_RecurseInternal %s' % size, n)
    return run

PROPS = {}
def c10():
    out = []
    for fl in (0, 1, 2, 3, 1 | O_CREAT | O_TRUNC, 2 | O_CREAT | O_EXCL, 1 | O_APPEND | O_CREAT):
        for sh in (0, 1, 2, 3, 4):
            for old in (0, 1): out.append(Case('Open %o share %d %s' % (fl, sh, 'reopen' if old else ''), open_case(fl, sh, old), 3, 60))
    return out
def c11():
    out = [Case('%s %s%s' % (m, a, ' nothing' if z else ''), method_case(m, a, z), 3, 60) for m in ('read', 'write', 'writes', 'flush', 'max', 'close') for a in (None, 0, 1, 2) for z in (0, 1) if not z or m in ('read', 'write', 'writes')]
    return out + [Case('seek %d' % w, seek_case(w), 3, 60) for w in range(5)]
def c12():
    return [Case('Copy', copy_case(), 3, 120, light=('plain', 'io')), Case('Move', move_case(), 3, 60), Case('LoadEntireFile new', load_case(0)), Case('LoadEntireFile alt', load_case(1))] + [Case('Rmdir %d' % r, rmdir_case(r)) for r in (0, 1)] + [Case('Rmdir contents %d' % z, recurse_case(z), 3, 60) for z in (1, 2, 40, 4000, 8186, 8187, 8188, 8189, 8190, 8191)]
def c09():
    return [Case(x[0], name_case(*x)) for x in statics()] + [Case('Mkdir %d' % r, mkdir_case(r)) for r in (0, 1)] + [Case('Dir %s %d' % (o, w), dir_case(o, w)) for o in ('open', 'read', 'close') for w in (0, 1)]
def c09x():
    from specs import path
    return c09() + path.gpf_cases()
PROPS.update(C09=c09x, C10=c10, C11=c11, C12=c12)
