"""C20: shared libraries.  C28: random numbers and the clock."""
from spec import *
NS = 'CubicleSoft::'; SL = NS + 'SharedLib::'; U64 = (1 << 64) - 1

class Dl:
    """dlopen/dlsym/dlclose: handles and symbols are regions; mon: dl:open (handles, in order), dl:closed, calls"""
    def __init__(self, sp):
        self.sp = sp; eng = self.eng = sp.engine(); S = self.S = State(); eng.unroll = {'': 8}; self.mod = sp.mod
        m = eng.models; m['dlopen'] = self.dlopen; m['dlsym'] = self.dlsym; m['dlclose'] = self.dlclose; m['$indirect'] = self.target
        S.mon['handles'] = (); S.mon['open'] = (); S.mon['calls'] = 0
        self.file, _ = cstr(S, 'Filename', lo=1); self.names = [cstr(S, 'FuncName%d' % i, lo=1)[0] for i in range(2)]
        self.hfile = {}; self.sym = {}
    def ob(self, c, rule, msg, S): self.eng.ob(c, rule, msg, S)
    def same(self, S, a, b): return isinstance(a, PtrV) and a.r == b.r and S.st.entails_eq(a.o - b.o)
    def dlopen(self, e, S, I, a):
        self.ob(self.same(S, a[0], self.file), 'dl-name', 'the library that is opened is the one named', S)
        self.ob(isinstance(a[1], Lin) and a[1].isconst() and a[1].c & 3 in (1, 2), 'dl-flags', 'the library is opened with lazy or immediate binding', S)
        A = S.copy(); A.mon['failed'] = True
        r = S.new_region('os', 'library', 1); S.mon['handles'] += (r.rid,); S.mon['open'] += (r.rid,)
        return [(A, NULL), (S, PtrV(r.rid, ZERO))]
    def dlsym(self, e, S, I, a):
        self.ob(isinstance(a[0], PtrV) and a[0].r in S.mon['open'] and S.st.entails_eq(a[0].o), 'dl-handle', 'functions are looked up in an open library only', S)
        i = [k for k, n in enumerate(self.names) if self.same(S, a[1], n)]
        self.ob(bool(i), 'dl-name', 'the function that is looked up is the one named', S)
        A = S.copy(); A.mon['failed'] = True; r = S.new_region('os', 'function', 1); S.mon['sym:%d' % r.rid] = (i[0] if i else -1, a[0].r if isinstance(a[0], PtrV) else None)
        return [(A, NULL), (S, PtrV(r.rid, ZERO))]
    def dlclose(self, e, S, I, a):
        ok = isinstance(a[0], PtrV) and a[0].r in S.mon['open']; self.ob(ok, 'dl-close', 'only an open library is closed, once', S)
        if ok: l = list(S.mon['open']); l.remove(a[0].r); S.mon['open'] = tuple(l)
        return [(S, ZERO)]
    def target(self, e, S, I, a, name, t):
        ok = isinstance(t, PtrV) and S.st.entails_eq(t.o) and S.mon.get('sym:%d' % t.r, (-1, 0))[0] == S.mon['want']
        self.ob(ok, 'dl-call', 'what is called is the function that was looked up', S)
        if ok: self.ob(S.mon['sym:%d' % t.r][1] in S.mon['open'], 'dl-call', 'a function is called only while its library is open', S)
        self.ob(len(a) == 1 and isinstance(a[0], Lin) and S.st.entails_eq(a[0] - self.arg), 'dl-args', 'the arguments are passed through', S)
        S.mon['calls'] += 1; v = V(newvar('result%d' % S.mon['calls'], -(1 << 63), (1 << 63) - 1)); S.mon['result'] = v
        return [(S, v if I.res else None)]
    def run(self, S, sg, a):
        fn = self.mod.find(sg); self.loc = self.mod.loc_fn(fn); self.fn = sg.split('(')[0]
        inner = INNER.get(self.fn)
        if inner:
            for n, f in self.mod.fns.items():
                if (self.mod.dem.get(n) or '').startswith('bool %s%s<' % (SL, inner)): self.loc = self.mod.loc_fn(f); self.fn = SL + inner
        out = []
        for T, r in self.eng.call(S, fn, a): out += self.eng.toint(T, r) if isinstance(r, (CondV, Lin)) else [(T, r)]
        self.sp.exist(out, 'returns', self.loc, self.fn, 'returns'); return out
    def chk(self, T, c, rule, msg): self.eng.ob(c, rule, msg, T, where=self.loc, fn=self.fn)
WRAP = {'call': 'verif_sl_call(%sFunctionUtil&, long&, long)' % SL, 'callvoid': 'verif_sl_callvoid(%sFunctionUtil&, long)' % SL,
        'once': 'verif_sl_callonce(char const*, char const*, long&, long)', 'oncevoid': 'verif_sl_calloncevoid(char const*, char const*, long)'}
INNER = {'verif_sl_call': 'Call', 'verif_sl_callvoid': 'CallVoid', 'verif_sl_callonce': 'CallOnce', 'verif_sl_calloncevoid': 'CallOnceVoid'}
def docall(d, S, kind, k, f, R):
    """one call through the library: the states after it"""
    S.mon['want'] = k; S.mon['failed'] = False; n0 = S.mon['calls']; old = V(newvar('before', -(1 << 63), (1 << 63) - 1)); S.w(R.r).cells[0] = (8, old); d.arg = V(newvar('arg', -(1 << 63), (1 << 63) - 1))
    a = {'call': [f, R, d.arg], 'callvoid': [f, d.arg], 'once': [d.file, d.names[k], R, d.arg], 'oncevoid': [d.file, d.names[k], d.arg]}[kind]
    out = []; seen = set()
    for T, r in d.run(S, WRAP[kind], a):
        ok = T.st.entails(r - 1) if isinstance(r, Lin) else None; no = isinstance(r, Lin) and T.st.entails_eq(r)
        d.chk(T, ok or no, 'dl-result', 'success and failure are told apart')
        c = T.mem[R.r].cells.get(0); v = c[1] if c and c[0] == 8 else None
        if ok:
            d.chk(T, T.mon['calls'] == n0 + 1, 'dl-calls', 'a call that reports success ran the function exactly once'); seen.add(1)
            if kind in ('call', 'once'): d.chk(T, isinstance(v, Lin) and 'result' in T.mon and T.st.entails_eq(v - T.mon['result']), 'dl-result', 'the result of the function is returned')
            T.mon['done:%d' % k] = True
        else:
            d.chk(T, T.mon['calls'] == n0, 'dl-calls', 'a call that reports failure ran no function'); seen.add(0)
            d.chk(T, isinstance(v, Lin) and T.st.entails_eq(v - old), 'dl-result', 'a failed call leaves the result variable alone')
            d.chk(T, not T.mon.get('done:%d' % k), 'dl-calls', 'a function that was called before can be called again')
            d.chk(T, T.mon['failed'] or T.mon.get('bad:%d' % k) or T.mon.get('bad'), 'dl-calls', 'a call fails only because the library or the function cannot be found')
            T.mon['bad:%d' % k] = True
            if not T.mon['handles']: T.mon['bad'] = True
        if kind in ('once', 'oncevoid'): d.chk(T, len(T.mon['open']) == len(T.mon['handles']), 'dl-close', 'a one-time call leaves the library loaded')
        out.append(T)
    return out
def seq_case(ops):
    """a module, two functions of it, operations in the given order, destruction"""
    def run(sp):
        d = Dl(sp); eng, S = d.eng, d.S; m = obj(eng, S, SL + 'ModuleUtil', 'Module'); fs = [obj(eng, S, SL + 'FunctionUtil', 'Func%d' % i) for i in range(2)]; R = buf(S, 'ReturnVal', C(8), 'out')
        cur = [T for T, _ in d.run(S, SL + 'ModuleUtil::ModuleUtil(char const*)', [m, d.file])]
        for i in range(2): cur = [T for X in cur for T, _ in d.run(X, SL + 'FunctionUtil::FunctionUtil(%sModuleUtil&, char const*)' % SL, [fs[i], m, d.names[i]])]
        n = 0
        for T in cur: d.chk(T, not T.mon['handles'], 'dl-lazy', 'creating a module or function does not load anything')
        for op in ops:
            nx = []
            for X in cur:
                if op[0] == 'load':
                    for T, r in d.run(X, SL + 'ModuleUtil::Load()', [m]):
                        isn = isinstance(r, Lin) and T.st.norm(r) == NULL
                        d.chk(T, isn or isinstance(r, PtrV) and r.r in T.mon['open'], 'dl-handle', 'loading gives the handle of the open library or nothing')
                        d.chk(T, not (isn and T.mon['open']), 'dl-handle', 'an open library is not reported as missing')
                        if isn: T.mon['bad'] = True
                        nx.append(T)
                else: nx += docall(d, X, op[0], op[1], fs[op[1]], R)
            cur = nx
            for T in cur: d.chk(T, len(T.mon['handles']) <= 1, 'dl-once', 'a module opens its library at most once'); d.chk(T, T.mon['open'] == T.mon['handles'], 'dl-close', 'the library stays open while the module exists')
        fin = []
        for X in cur: fin += [T for T, _ in d.run(X, SL + 'ModuleUtil::~ModuleUtil()', [m])]
        for T in fin: d.chk(T, not T.mon['open'], 'dl-close', 'destroying the module closes the library it opened')
        sp.exist(any(T.mon['calls'] == sum(1 for o in ops if o[0] != 'load') for T in fin), 'dl-calls', d.loc, SL + 'Call', 'a call through a library can succeed')
        sp.absorb(eng, ' '.join('%s%s' % (o[0], o[1] if len(o) > 1 else '') for o in ops) or 'none', len(fin))
    return run
def once_case(kind):
    def run(sp):
        d = Dl(sp); R = buf(d.S, 'ReturnVal', C(8), 'out'); n = docall(d, d.S, kind, 0, None, R)
        sp.exist(any(T.mon['calls'] for T in n), 'dl-calls', d.loc, d.fn, 'a one-time call can succeed'); sp.absorb(d.eng, kind, len(n))
    return run
def c20():
    import itertools
    O = [('load',), ('call', 0), ('callvoid', 0), ('call', 1), ('callvoid', 1)]; out = []
    for n in range(4):
        for ops in itertools.product(O, repeat=n):
            out.append(Case('module ' + ' '.join(''.join(map(str, o)) for o in ops), seq_case(ops), 3, 30))
    return out + [Case(k, once_case(k), 3, 30) for k in ('once', 'oncevoid')]

# ------------------------------------------------------------------ C28
RNG = NS + 'Security::CSPRNG'
class Rng:
    def __init__(self, sp):
        self.sp = sp; self.eng = sp.engine(); self.S = State(); self.mod = sp.mod; m = self.eng.models
        m['open'] = self.open; m['close'] = self.close; m['read'] = self.read
        self.t = obj(self.eng, self.S, RNG, 'CSPRNG'); self.S.mon['fds'] = (); self.S.mon['dev'] = ''
    def open(self, e, S, I, a):
        ok = isinstance(a[0], PtrV) and a[0].r in S.mem; s = None
        if ok:
            s = b''
            for i in range(40):
                l = e.load(S.copy(), PtrV(a[0].r, a[0].o + i), ir.IntTy(8)); c = S.st.norm(l[0][1]) if l and isinstance(l[0][1], Lin) else None
                if c is None or not c.isconst(): s = None; break
                if c.c == 0: break
                s += bytes([c.c & 255])
        e.ob(s is not None and s.decode('latin1') in self.devs, 'rng-device', 'only a random device of the requested kind is opened', S)
        fl = S.st.norm(a[1]) if isinstance(a[1], Lin) else None
        e.ob(fl is not None and fl.isconst() and fl.c & 3 == 0 and not fl.c & 0o1100, 'rng-device', 'the device is opened for reading and not changed', S)
        A = S.copy(); models.set_errno(e, A); v = V(newvar('fd', 0, (1 << 31) - 1)); S.mon['fds'] = S.mon['fds'] + (v,); S.mon['opened'] = True
        return [(A, C(-1)), (S, v)]
    def close(self, e, S, I, a):
        l = [v for v in S.mon['fds'] if not S.st.entails_eq(v - a[0])]; e.ob(len(l) == len(S.mon['fds']) - 1, 'rng-close', 'only the open descriptor is closed, once', S); S.mon['fds'] = tuple(l); return [(S, ZERO)]
    def read(self, e, S, I, a):
        out = []; self.nread += 1
        e.ob(any(S.st.entails_eq(v - a[0]) for v in S.mon['fds']), 'rng-read', 'bytes are read from the open device', S)
        p = a[1]; ok = isinstance(p, PtrV) and p.r == self.dst.r and S.st.entails_eq(p.o - S.mon['got']); e.ob(ok, 'rng-fill', 'bytes are stored right behind those already read', S)
        for T, n in e.uval(S, a[2], 64):
            e.ob(T.st.entails(self.size - T.mon['got'] - n), 'rng-fill', 'no more bytes are read than are missing', T)
            e.ob(T.st.entails(n - 1), 'rng-fill', 'at least one byte is asked for', T)
            if not e.bounds(T, p, n, 'read() target'): continue
            A = T.copy(); models.set_errno(e, A, C(4)); A.mon['last'] = 'eintr'; out.append((A, C(-1)))
            A = T.copy(); ev = V(newvar('errno', 5, 200)); models.set_errno(e, A, ev); A.mon['last'] = 'fail'; out.append((A, C(-1)))
            A = T.copy(); A.mon['last'] = 'fail'; out.append((A, ZERO))
            e.havoc(T, p, n); L = V(newvar('xfer', 1, None))
            try: T.st.ge(n - L)
            except Infeasible: continue
            T.mon['got'] = T.st.norm(T.mon['got'] + L); T.mon['last'] = 'ok'; out.append((T, L))
        return out
def ctor_case(safe):
    def run(sp):
        h = Rng(sp); eng, S = h.eng, h.S; h.nread = 0; h.devs = ('/dev/random',) if safe else ('/dev/arandom', '/dev/urandom', '/dev/random')
        fn = sp.mod.find(RNG + '::CSPRNG(bool)'); dt = sp.mod.find(RNG + '::~CSPRNG()'); loc = sp.mod.loc_fn(fn); n = 0; S.mon['opened'] = False
        for T, _ in eng.call(S, fn, [h.t, C(safe)]):
            eng.ob(len(T.mon['fds']) <= 1, 'rng-close', 'at most one device is kept open', T, where=loc, fn=RNG)
            for X, _ in eng.call(T.copy(), dt, [h.t]): n += 1; eng.ob(not X.mon['fds'], 'rng-close', 'the device is closed with the generator', X, where=loc, fn=RNG + '::~CSPRNG')
            # bytes after construction: only an open device can deliver
            size = h.size = V(newvar('Size', 1, 1 << 40)); X = T; h.dst = buf(X, 'Result', size, 'out'); X.mon['got'] = ZERO; X.mon['last'] = ''
            gb = sp.mod.find(RNG + '::GetBytes(unsigned char*, unsigned long)'); has = len(X.mon['fds']) == 1
            for Y0, r0 in eng.call(X, gb, [h.t, h.dst, size]):
                for Y, r in eng.toint(Y0, r0):
                    n += 1; o = lambda c, rule, msg: eng.ob(c, rule, msg, Y, where=sp.mod.loc_fn(gb), fn=RNG + '::GetBytes')
                    t, f = Y.st.entails(r - 1), Y.st.entails_eq(r); o(t or f, 'rng-fill', 'success and failure are told apart')
                    if t: o(Y.st.entails_eq(Y.mon['got'] - size), 'rng-fill', 'success means that every byte was filled')
                    else: o(not has or Y.mon['last'] == 'fail', 'rng-retry', 'a working device, short reads and interruptions are no reason to fail')
                    if not has: o(f, 'rng-fill', 'without a device the call fails')
        sp.exist(n, 'returns', loc, RNG, 'returns'); sp.absorb(eng, 'CSPRNG(%d)' % safe, n)
    return run
def zero_case():
    def run(sp):
        h = Rng(sp); eng, S = h.eng, h.S; fd = V(newvar('fd', 0, 1 << 30)); S.mon['fds'] = (fd,); h.nread = 0; setf(eng, S, h.t, RNG, 'MxURandom', fd); h.size = ZERO; h.dst = buf(S, 'Result', ZERO, 'out'); S.mon['got'] = ZERO; S.mon['last'] = ''
        gb = sp.mod.find(RNG + '::GetBytes(unsigned char*, unsigned long)'); n = 0
        for Y0, r0 in eng.call(S, gb, [h.t, h.dst, ZERO]):
            for Y, r in eng.toint(Y0, r0): n += 1; eng.ob(Y.st.entails(r - 1), 'rng-fill', 'no bytes can always be delivered', Y, where=sp.mod.loc_fn(gb), fn=RNG + '::GetBytes')
        sp.absorb(eng, 'GetBytes(0)', n)
    return run
def uniform(T, n, X, W):
    """number of bits of the random value X that n consists of; None if it is no such choice of at least the bits of W"""
    d = T.st.norm(n - X); g = d.c
    for _, c in d.t: g |= c
    if g == 0: return 64                                               # all the bits
    j = (g & -g).bit_length() - 1
    if T.st.entails(C((1 << j) - 1) - W): return j                     # the low j bits
    for s in range(63, 0, -1):                                         # the high bits
        if T.st.entails(C((1 << (64 - s)) - 1) - W) and T.st.entails(X - n.scale(1 << s)) and T.st.entails(n.scale(1 << s) + ((1 << s) - 1) - X): return 64 - s
    return None
def int_case(k, swap, w=None):
    """range of a width that needs k bits, or of exactly the width w"""
    def run(sp):
        h = Rng(sp); eng, S = h.eng, h.S; eng.unroll = {'': 72}; eng.CAP = 200
        W = V(newvar('width', (1 << k >> 1) if k else 0, (1 << k) - 1)) if w is None else C(w); lo = V(newvar('low', 0, U64)); S.st.ge(C(U64) - lo - W)
        if swap: S.st.ge(W - 1)
        R = buf(S, 'Result', C(8), 'out'); S.w(R.r).cells[0] = (8, V(newvar('old', 0, U64))); S.mon['n'] = 0
        def gb(e, S, I, a):
            for_ = []
            e.ob(isinstance(a[1], PtrV), 'rng-range', 'random bytes are stored somewhere', S)
            for T, n in e.uval(S, a[2], 64):
                e.ob(n.isconst() and n.c == 8 or T.st.entails(n - ((k + 7) // 8)), 'rng-range', 'enough random bytes are asked for', T)
                if not e.bounds(T, a[1], n, 'random bytes'): continue
                A = T.copy(); A.mon['failed'] = True; e.havoc(A, a[1], n); for_.append((A, ZERO))
                e.havoc(T, a[1], n)
                if T.st.norm(n) == C(8): X = V(newvar('random', 0, U64)); T.mon['rnd'] = X; T = e.store(T, a[1], ir.IntTy(64), X)[0]
                T.mon['n'] = min(T.mon['n'] + 1, 2); for_.append((T, ONE))
            return for_
        eng.stubs[RNG + '::GetBytes'] = gb; S.mon['failed'] = False
        fn = sp.mod.find(RNG + '::GetInteger(unsigned long&, unsigned long, unsigned long)'); loc = sp.mod.loc_fn(fn); n = 0; seen = set()
        for T0, r0 in eng.call(S, fn, [h.t, R] + ([lo + W, lo] if swap else [lo, lo + W])):
            for T, r in eng.toint(T0, r0):
                n += 1; o = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=RNG + '::GetInteger')
                t, f = T.st.entails(r - 1), T.st.entails_eq(r); o(t or f, 'rng-range', 'success and failure are told apart')
                if not t: o(T.mon['failed'], 'rng-fail', 'the call fails only if there are no random bytes'); continue
                o(not T.mon['failed'], 'rng-fail', 'the call fails if there are no random bytes')
                l = eng.load(T.copy(), R, ir.IntTy(64)); v = T.st.norm(l[0][1]) if l and isinstance(l[0][1], Lin) else None
                o(v is not None and T.st.entails(v - lo) and T.st.entails(lo + W - v), 'rng-range', 'the number lies between the bounds, both included')
                if v is None: continue
                X = T.mon.get('rnd')
                if isinstance(X, Lin) and w is not None:
                    nb = uniform(T, T.st.norm(v - lo), T.st.norm(X), W)
                    o(nb is not None, 'rng-uniform', 'the number is a fixed number of bits of the random value, enough for the range, so that every number is equally likely')
                    o(nb is None or nb <= k + 4, 'rng-progress', 'few more bits are drawn than the range needs, so that values out of range are rare enough')
                for nm, x in (('lowest', lo), ('highest', lo + W)):
                    Y = T.copy()
                    try:
                        Y.st.eq(v - x)
                        if Y.st.feasible((v - x).vars()): seen.add(nm)
                    except Infeasible: pass
        for nm in ('lowest', 'highest'): sp.exist(nm in seen, 'rng-range', loc, RNG + '::GetInteger', 'the %s number of the range can occur' % nm)
        sp.absorb(eng, 'GetInteger(%d bits%s)' % (k, ', swapped' if swap else ''), n)
    return run
def clock_case():
    def run(sp):
        eng = sp.engine(); S = State(); sg = NS + 'Environment::AppInfo::GetUnixMicrosecondTime()'; fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn)
        s, u = V(newvar('sec', 0, 1 << 40)), V(newvar('usec', 0, 999999)); S.mon['t'] = 0
        def clk(arg, ns):
            def g(e, S, I, a):
                if not e.bounds(S, a[arg], C(16), 'clock'): return []
                A = S.copy(); models.set_errno(e, A); A.mon['t'] = 2; o = S.st.norm(a[arg].o).c; q = S.w(a[arg].r)
                f = u
                if ns: f = V(newvar('nsec', 0, 999999999)); S.st.ge(f - u.scale(1000)); S.st.ge(u.scale(1000) + 999 - f)
                q.cells[o] = (8, s); q.cells[o + 8] = (8, f); S.mon['t'] = 1
                return [(A, C(-1)), (S, ZERO)]
            return g
        eng.models['gettimeofday'] = clk(0, False); eng.models['clock_gettime'] = clk(1, True); n = 0
        for T, r in eng.call(S, fn, []):
            n += 1; v = T.st.norm(r) if isinstance(r, Lin) else None
            if T.mon['t'] == 1: eng.ob(v is not None and T.st.entails_eq(v - s.scale(1000000) - u), 'clock', 'the time is the seconds and microseconds of the clock', T, where=loc, fn=sg[:-2])
            else: eng.ob(v is not None and T.st.entails_eq(v), 'clock', 'without a clock the time is zero', T, where=loc, fn=sg[:-2])
        sp.exist(n, 'returns', loc, sg, 'returns'); sp.absorb(eng, 'GetUnixMicrosecondTime', n)
    return run
def c28():
    return [Case('CSPRNG safe', ctor_case(1)), Case('CSPRNG fast', ctor_case(0)), Case('GetBytes nothing', zero_case()), Case('clock', clock_case())] + \
        [Case('GetInteger %d %d' % (k, s), int_case(k, s), 3, 60) for k in range(65) for s in (0, 1) if k or not s] + \
        [Case('GetInteger width %d' % w, int_case(w.bit_length(), 0, w), 3, 60) for w in sorted(set(range(20)) | {x for k in range(1, 65) for x in ((1 << k) - 1, (1 << k) - 2, 1 << (k - 1), (1 << (k - 1)) + 1, 0xAAAAAAAAAAAAAAAA >> (64 - k), 0x9C3E5A71D2F08B46 >> (64 - k)) if 0 <= x <= U64})]
PROPS = {'C20': c20, 'C28': c28}
