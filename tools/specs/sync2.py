"""C21-C26 continued: named memory and the public synchronisation classes."""
from specs.sync import *
from specs import sync as base

class Env(Sync):
    """Sync plus shared memory, descriptors, umask and process-shared attributes"""
    def __init__(self, eng, S):
        Sync.__init__(self, eng, S)
        m = eng.models
        m['shm_open'] = self.shm_open; m['mmap'] = self.mmap; m['munmap'] = self.munmap; m['close'] = self.close
        m['umask'] = self.umask; m['usleep'] = self.usleep; m['ftruncate'] = self.ftruncate
        m['pthread_mutexattr_init'] = lambda e, S, I, a: self.attr(S, a[0], 0); m['pthread_condattr_init'] = lambda e, S, I, a: self.attr(S, a[0], 0)
        m['pthread_mutexattr_setpshared'] = self.pshared; m['pthread_condattr_setpshared'] = self.pshared
        m['pthread_cond_destroy'] = self.cdestroy
        self.self_id = V(newvar('self', 1, 1 << 62))
        m['pthread_self'] = lambda e, S, I, a: [(S, self.self_id)]
        S.mon['umask'] = ''; S.mon['fds'] = (); S.mon['maps'] = (); S.mon['unmaps'] = ()
        self.frozen = set(); eng.hooks_store.append(self.on_store2)
        self.hdr = None
    def cdestroy(self, eng, S, I, a):
        S.mon['gone'] = S.mon.get('gone', ()) + (pname(S, a[0]),)
        return [(S, ZERO)]
    def attr(self, S, p, v):
        if isinstance(p, PtrV): S.mon['attr:%d' % p.r] = v
        return [(S, ZERO)]
    def pshared(self, eng, S, I, a):
        if isinstance(a[0], PtrV) and isinstance(a[1], Lin) and a[1].isconst(): S.mon['attr:%d' % a[0].r] = a[1].c
        return [(S, ZERO)]
    def shr(self, S, p): return S.mon.get('attr:%d' % p.r, 0) if isinstance(p, PtrV) else 0
    def minit(self, eng, S, I, a):
        if not eng.bounds(S, a[0], C(40), 'mutex'): return []
        self.joined(eng, S, a[0]); n = pname(S, a[0])
        S.mon['minit:' + n] = self.shr(S, a[1])
        return [(S, ZERO)]
    def cinit(self, eng, S, I, a):
        if not eng.bounds(S, a[0], C(48), 'condition'): return []
        self.joined(eng, S, a[0]); n = pname(S, a[0])
        S.mon['cinit:' + n] = self.shr(S, a[1])
        return [(S, ZERO)]
    def joined(self, eng, S, p):
        if S.mon.get('joined') == p.r: self.ob(False, 'named-rejoin', 'joining an existing named object initialises part of it again', S)
    names = (); light = False
    def text_at(self, eng, S, p):
        if not isinstance(p, PtrV) or not S.st.norm(p.o).isconst(): return None
        R = S.mem[p.r]; o = S.st.norm(p.o).c; t = b''
        while 1:
            if S.st.entails(C(o + len(t)) - R.size): eng.ob(False, 'unterminated', 'the system-wide name is not terminated inside its buffer', S); return t
            c = eng.find_cell(S, R, C(o + len(t)), 1)
            c = S.st.norm(c) if isinstance(c, Lin) else None
            if c is None or not c.isconst(): return None
            if c.c % 256 == 0: return t
            t += bytes([c.c % 256])
            if len(t) > 4096: return None
    def shm_open(self, eng, S, I, a):
        A = S.copy(); models.set_errno(eng, A)
        fl = a[1].c if isinstance(a[1], Lin) and a[1].isconst() else None
        models.strlen_of(eng, S, a[0]); self.names.append(self.text_at(eng, S, a[0]))
        S.mon['fd'] = 'new' if fl is not None and fl & 0o100 and fl & 0o200 else 'old' if fl is not None and not fl & 0o100 else 'any'
        if fl is not None and fl & 0o100 and not fl & 0o200: self.ob(False, 'named-exclusive', 'the creator of a named object is determined exclusively', S)
        v = V(newvar('fd', 0, (1 << 31) - 1)); S.mon['fds'] = S.mon['fds'] + (v,)
        return [(A, C(-1)), (S, v)]
    def close(self, eng, S, I, a):
        l = [v for v in S.mon['fds'] if not S.st.entails_eq(v - a[0])]
        self.ob(len(l) == len(S.mon['fds']) - 1, 'named-fd', 'only an open descriptor is closed', S)
        S.mon['fds'] = tuple(l)
        return [(S, ZERO)]
    def ftruncate(self, eng, S, I, a):
        S.mon['trunc'] = a[1]
        if self.light: return [(S, ZERO)]
        A = S.copy(); models.set_errno(eng, A)
        return [(A, C(-1)), (S, ZERO)]
    def mmap(self, eng, S, I, a):
        A = S.copy(); models.set_errno(eng, A)
        r = S.new_region('map', 'map%d' % len(S.mon['maps']), a[1])
        kind = S.mon.get('fd')
        r.zero = kind == 'new'
        S.mon['maps'] = S.mon['maps'] + (r.rid,); S.mon['mapkind:%d' % r.rid] = kind
        if 'trunc' in S.mon: self.ob(S.st.entails(S.mon['trunc'] - a[1]), 'named-size', 'the shared memory object is as large as its mapping', S)
        else: self.ob(False, 'named-size', 'the shared memory object is given a size', S)
        self.header(S, r, kind)
        return [(A, C((1 << 64) - 1)), (S, PtrV(r.rid, ZERO))]
    def header(self, S, r, kind):
        mo, ro = self.layout()
        S.mon['hm:%d' % r.rid] = '%s+%d' % (r.name, mo)
        if kind != 'new': self.share_ref(S, r)
    def share_ref(self, S, r):
        mo, ro = self.layout()
        f = 'ref%d' % r.rid
        self.share(S, PtrV(r.rid, C(ro)), '%s+%d' % (r.name, mo), f, lambda T: V(newvar('ref', 0, 1 << 30)), 4)
    def layout(self): return 4, 44
    def munmap(self, eng, S, I, a):
        p = a[0]
        ok = isinstance(p, PtrV) and S.st.entails_eq(p.o)
        self.ob(ok, 'named-unmap', 'a mapping is removed from its start', S)
        if not ok: return [(S, ZERO)]
        R = S.w(p.r)
        self.ob(not R.freed, 'named-unmap', 'a mapping is removed once', S)
        self.ob(S.st.entails(a[1] - R.size), 'named-unmap', 'the whole mapping is removed', S)
        self.ob(not any(h.startswith(R.name + '+') for h in S.mon['held']), 'named-unmap', 'a mapping is not removed while its lock is held', S)
        R.freed = True
        S.mon['unmaps'] = S.mon['unmaps'] + (p.r,)
        return [(S, ZERO)]
    def umask(self, eng, S, I, a):
        st = S.mon['umask']
        if st == '':
            v = V(newvar('umask', 0, 511)); S.mon['umask'] = 'changed'; S.mon['umask0'] = v; return [(S, v)]
        if S.st.entails_eq(a[0] - S.mon['umask0']): S.mon['umask'] = ''
        return [(S, V(newvar('umask', 0, 511)))]
    def usleep(self, eng, S, I, a):
        for rid in S.mon['maps']:
            R = S.w(rid); R.cells.pop(0, None); R.epoch += 1000003
            if self.light: R.cells[0] = (1, C(1))
        return [(S, ZERO)]
    def on_store2(self, eng, S, r, off, sz, v):
        if S.mon.get('joined') == r.rid:
            d = S.st.norm(off)
            ok = d.isconst() and d.c < 48
            self.ob(ok, 'named-rejoin', 'joining an existing named object leaves its state unchanged', S)
        if r.kind == 'map' and sz == 1 and S.st.norm(off) == ZERO:
            n = S.mon.get('hm:%d' % r.rid)
            if not (isinstance(v, Lin) and v == ZERO):
                self.ob('minit:' + n in S.mon and n in S.mon['held'], 'named-publish', 'a named object is only announced once its lock exists and is held', S)
    def lock(self, eng, S, I, a):
        if isinstance(a[0], PtrV) and S.mem[a[0].r].kind == 'map':
            R = S.mem[a[0].r]; n = pname(S, a[0])
            if n == S.mon.get('hm:%d' % a[0].r) and 'minit:' + n not in S.mon and S.mon.get('mapkind:%d' % a[0].r) != 'known':
                c = eng.find_cell(S, R, ZERO, 1)
                self.ob(isinstance(c, Lin) and S.st.entails_ne(c), 'named-publish', 'the lock of a named object is only used once its creator has initialised it', S)
        return Sync.lock(self, eng, S, I, a)

HDR = 48
def zstr(S, nm, t):
    r = S.new_region('input', nm, C(len(t) + 1))
    for i, b in enumerate(t + b'\0'): r.cells[i] = (1, C(b))
    r.nul = C(len(t)); return PtrV(r.rid, ZERO)
def named_mem(sp, conc=None, names=None):
    eng = sp.engine(); S = State(); y = Env(eng, S); y.names = [] if names is None else names; y.light = bool(sp.light)
    if conc: eng.unroll = {'': 900}; eng.CAP = 2000
    sig = U + 'InitUnixNamedMem(char*&, unsigned long&, char const*, char const*, unsigned long)'
    fn = sp.mod.find(sig); loc = sp.mod.loc_fn(fn); nm = U + 'InitUnixNamedMem'
    rm = obj_at(S, 'ResultMem', 8, 'stackobj'); sp_ = obj_at(S, 'StartPos', 8, 'stackobj')
    pre, _ = cstr(S, 'Prefix', hi=1 << 20); name, _ = cstr(S, 'Name', hi=1 << 30)
    Z = V(newvar('Size', 0, 1 << 40))
    if conc: pre, name, Z = zstr(S, 'Prefix', conc[0]), zstr(S, 'Name', conc[1]), C(conc[2])
    S.mon['Size'] = Z
    rets = eng.call(S, fn, [rm, sp_, pre, name, Z])
    seen = set()
    for T, r in rets:
        if not isinstance(r, Lin): eng.ob(False, 'named-result', 'the result is one of -1, 0, 1', T, where=loc, fn=nm); continue
        def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
        ob(T.mon['umask'] == '', 'named-umask', 'the file mode mask of the process is restored')
        ob(T.mon['fds'] == (), 'named-fd', 'no descriptor is left open')
        m = (T.mem[rm.r].cells.get(0) or (0, None))[1]; p = (T.mem[sp_.r].cells.get(0) or (0, None))[1]
        if T.st.entails_eq(r + 1):
            seen.add(-1)
            ob(isinstance(m, Lin) and T.st.entails_eq(m), 'named-result', 'a failure reports no memory')
            ob(not T.mon['held'], 'lock-leak', 'a failure leaves nothing locked')
            ob(all(T.mem[x].freed for x in T.mon['maps'] if x in T.mem), 'named-unmap', 'a failure leaves no mapping')
            continue
        ok = isinstance(m, PtrV) and m.r in T.mon['maps'] and T.st.entails_eq(m.o)
        ob(ok, 'named-result', 'the mapping is returned')
        if not ok: continue
        R = T.mem[m.r]; kind = T.mon['mapkind:%d' % m.r]; n = T.mon['hm:%d' % m.r]; mo, ro = y.layout()
        ob(isinstance(p, Lin) and T.st.entails(p - ro - 4) and T.st.entails(R.size - p - Z), 'named-size', 'the data of the object lies inside the mapping and behind its header')
        ref = eng.find_cell(T, R, C(ro), 4)
        v = T.mon.get('first:ref%d' % m.r) if kind != 'new' else ZERO
        ob(isinstance(ref, Lin) and isinstance(v, Lin) and T.st.entails_eq(ref - v - 1), 'named-ref', 'a successful call adds one reference')
        if T.st.entails_eq(r):
            seen.add(0)
            ob(n in T.mon['held'], 'named-publish', 'a new object stays locked until it is ready')
            if kind != 'new' and isinstance(v, Lin): ob(T.st.entails_eq(v), 'named-init', 'an object in use is not initialised again')
            else:
                c = eng.find_cell(T, R, ZERO, 1)
                ob(isinstance(c, Lin) and T.st.entails_ne(c), 'named-publish', 'a new object is announced')
                ob(T.mon.get('minit:' + n) == 1, 'named-shared', 'the lock of a named object is shared between processes')
        elif T.st.entails_eq(r - 1):
            seen.add(1)
            ob(n not in T.mon['held'], 'lock-leak', 'an existing object is unlocked again')
            ob(kind != 'new' and isinstance(v, Lin) and T.st.entails(v - 1), 'named-init', 'an object without users is initialised')
        else: ob(False, 'named-result', 'the result is one of -1, 0, 1')
    for k in (-1, 0, 1): sp.exist(k in seen, 'named-result', loc, nm, 'result %d is possible' % k)
    sp.absorb(eng, nm, len(rets))
NAMES = [(b'/Sync_Mutex', b'a', 96), (b'/Sync_Mutex', b'b', 96), (b'/Sync_Sem', b'a', 96), (b'/Sync_Mutex', b'ab', 96), (b'/Sync_Mutex', b'ba', 96), (b'/Sync_Mutex', b'a', 100), (b'/Sync_Mutex', b'a/b', 96), (b'/Sync_Mutex', b'', 96)]
LONG = [(b'/Sync_Mutex', b'n' * i + c + b'n' * (k - 1 - i), 96) for k in (230, 300, 560) for i in (0, 100, k - 1) for c in (b'n', b'q') if c != b'n' or i == 0]
def named_text(l):
    def f(sp):
        got = {}; fn = sp.mod.find(U + 'InitUnixNamedMem(char*&, unsigned long&, char const*, char const*, unsigned long)'); loc = sp.mod.loc_fn(fn); nm = U + 'InitUnixNamedMem'
        for c in l:
            ns = []; named_mem(sp, c, ns)
            if None in ns or not ns: raise AnalysisError('the system-wide name is not known')
            if len(c[1]) <= 20: sp.fact(len(set(ns)) == 1, 'named-text', loc, nm, 'creating and joining use the same system-wide name')
            for t in set(ns): sp.fact(t[:1] == b'/' and b'/' not in t[1:] and 1 < len(t) <= 254, 'named-text', loc, nm, 'a system-wide name is a slash followed by 1 to 253 other characters')
            got[c] = ns[0]
        for c in l:
            for d in l: sp.fact(c == d or got[c] != got[d], 'named-text', loc, nm, 'objects of different kinds, names or sizes have different system-wide names')
    return f
def unmap(sp):
    eng = sp.engine(); S = State(); y = Env(eng, S)
    fn = sp.mod.find(U + 'UnmapUnixNamedMem(char*, unsigned long)'); loc = sp.mod.loc_fn(fn); nm = U + 'UnmapUnixNamedMem'
    Z = V(newvar('Size', 0, 1 << 40))
    r = S.new_region('map', 'map0', C(0)); S.mon['maps'] = (r.rid,); S.mon['mapkind:%d' % r.rid] = 'known'
    y.header(S, r, 'known')
    rets = []
    for A, ms in eng.call(S, sp.mod.find(U + 'AlignUnixSize(unsigned long)'), [Z + HDR]):
        A.w(r.rid).size = ms
        rets += eng.call(A, fn, [PtrV(r.rid, ZERO), Z])
    for T, _ in rets:
        def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
        f = 'ref%d' % r.rid; v = T.mon.get('first:' + f); d = T.mon['d:' + f]
        ob(not T.mon['held'], 'lock-leak', 'the lock of the object is released')
        ob(T.mon['unmaps'] == (r.rid,), 'named-unmap', 'the mapping is removed')
        if isinstance(v, Lin):
            for X in eng._assume(T.copy(), ('ge', v - 1), True): eng.ob(X.st.entails_eq(d + 1), 'named-ref', 'removing a mapping gives back its reference', X, where=loc, fn=nm)
            for X in eng._assume(T.copy(), ('ge', -v), True): eng.ob(X.st.entails_eq(d), 'named-ref', 'the number of references never wraps', X, where=loc, fn=nm)
    sp.exist(rets, 'named-unmap', loc, nm, 'returns')
    sp.absorb(eng, nm, len(rets))
GROUPS2 = {'C25': ('named-', 'lock-leak', 'bounds', 'null-deref', 'wrap', 'guarded-field', 'unlock-not-held', 'self-deadlock', 'use-after', 'double', 'leak', 'uninit', 'shared-')}


# ------------------------------------------------------------------ mutex
MX = NS + 'Mutex'; RW = NS + 'ReadWriteLock'
def neq_self(y, T, v):
    T.st.neq(v - y.self_id); return v
def mk_mutex(sp, eng, S, y, state):
    """state: owned (by this thread), free (not by this thread), none (not created)"""
    t = obj(eng, S, MX, 'this')
    crit = 'this+%d' % foff(eng.mod, MX, 'MxPthreadCritSection')[0]
    oo, os_ = foff(eng.mod, MX, 'MxOwnerID'); co, cs = foff(eng.mod, MX, 'MxCount')
    setf(eng, S, t, MX, 'MxNamed', C(0)); setf(eng, S, t, MX, 'MxMem', NULL if state == 'none' else obj_at(S, 'mem', 96, 'heap'))
    if state != 'none': sem = mk_sem(eng, S, y, t, foff(eng.mod, MX, 'MxPthreadMutex')[0], 'sem', 1)
    else:
        sem = None; S.mon['d:sem.count'] = ZERO
    S.mon['mine'] = state == 'owned'
    S.mon['d:sem.count'] = C(-1) if state == 'owned' else ZERO
    S.mon['cnt'] = V(newvar('count', 1, INF - 1)) if state == 'owned' else ZERO
    def fo(T):
        if T.mon['mine']: return y.self_id
        if state == 'none': return ZERO
        return neq_self(y, T, V(newvar('owner', 0, 1 << 62)))
    def fc(T):
        if T.mon['mine']: return T.mon['cnt']
        if state == 'none': return ZERO
        return V(newvar('cnt', 0, INF - 1))
    y.share(S, PtrV(t.r, C(oo)), crit, 'owner', fo, os_); y.share(S, PtrV(t.r, C(co)), crit, 'mcount', fc, cs)
    def dropped(T, n):
        if n != crit: return
        v = T.mon.get('last:owner'); c = T.mon.get('last:mcount')
        if isinstance(v, Lin) and T.st.entails_eq(v - y.self_id): T.mon['mine'] = True; T.mon['cnt'] = c
        elif isinstance(v, Lin) and T.st.entails_ne(v - y.self_id): T.mon['mine'] = False
        else: eng.ob(False, 'mutex-owner', 'the owner of a mutex is this thread or not', T)
    y.on_drop.append(dropped)
    return t, crit
def mutex_lock(state, wait):
    def f(sp):
        eng = sp.engine(); S = State(); y = Env(eng, S)
        fn = sp.mod.find(MX + '::Lock(unsigned int)'); loc = sp.mod.loc_fn(fn); nm = MX + '::Lock'
        t, crit = mk_mutex(sp, eng, S, y, state)
        W = C(0) if wait == 0 else C(INF) if wait == 'inf' else V(newvar('Wait', 1, INF - 1))
        S.mon['wait'] = W
        if wait == 0: S.mon['nowait'] = 'sem.mutex+0'
        c0 = S.mon['cnt']
        rets = eng.call(S, fn, [t, W]); ok = False; n = 0
        for T, r in final(eng, rets):
            n += 1
            def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
            leak(eng, T, loc, nm)
            d = T.mon['d:sem.count']
            if state == 'none': ob(not r, 'mutex-create', 'a mutex that was not created can not be locked'); continue
            if state == 'owned':
                ob(T.st.entails_eq(d + 1), 'mutex-token', 'the owner keeps the mutex')
                ob(T.mon['mine'], 'mutex-owner', 'the owner stays the owner')
                ob('wait' not in T.mon or not T.mon['waits'], 'mutex-recursion', 'locking a mutex again by its owner never waits')
                ob(T.mon.get('v:sem.count') is None, 'mutex-recursion', 'locking a mutex again by its owner does not take another unit')
                if r: ok = True
                ob(T.st.entails_eq(T.mon['cnt'] - c0 - (1 if r else 0)), 'mutex-recursion', 'every lock by the owner is counted once')
            elif r:
                ok = True
                ob(T.st.entails_eq(d + 1), 'mutex-token', 'a lock that succeeds has taken the mutex exactly once')
                ob(T.mon['mine'], 'mutex-owner', 'a lock that succeeds makes the thread the owner')
                if T.mon['mine']: ob(isinstance(T.mon['cnt'], Lin) and T.st.entails_eq(T.mon['cnt'] - 1), 'mutex-recursion', 'a new owner has locked the mutex once')
            else:
                ob(T.st.entails_eq(d), 'mutex-token', 'a lock that fails has not taken the mutex')
                ob(not T.mon['mine'], 'mutex-owner', 'a lock that fails does not change the owner')
        if state != 'none': sp.exist(ok, 'mutex-token', loc, nm, 'a lock can succeed')
        sp.absorb(eng, nm + ' %s wait=%s' % (state, wait), n)
    return f
def mutex_unlock(state, all_, dtor=False):
    def f(sp):
        eng = sp.engine(); S = State(); y = Env(eng, S)
        fn = sp.mod.find(MX + '::Unlock(bool)'); loc = sp.mod.loc_fn(fn); nm = MX + '::Unlock'
        t, crit = mk_mutex(sp, eng, S, y, state)
        c0 = S.mon['cnt']
        rets = eng.call(S, fn, [t, C(all_)]); ok = False; n = 0
        for T, r in final(eng, rets):
            n += 1
            def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
            leak(eng, T, loc, nm)
            d = T.mon['d:sem.count']
            if state != 'owned':
                ob(not r, 'mutex-owner', 'only the owner can unlock a mutex')
                ob(T.st.entails_eq(d), 'mutex-token', 'an unlock by another thread releases nothing')
                ob(not T.mon['mine'] and T.st.entails_eq(T.mon.get('d:owner', ZERO)) and T.st.entails_eq(T.mon.get('d:mcount', ZERO)), 'mutex-owner', 'an unlock by another thread changes nothing')
                continue
            if not r:
                ob(T.st.entails_eq(d + 1) and T.mon['mine'], 'mutex-token', 'an unlock that fails keeps the mutex'); continue
            ok = True
            for X in eng._assume(T.copy(), ('ge', c0 - 2), True):
                if all_: continue
                eng.ob(X.st.entails_eq(X.mon['d:sem.count'] + 1) and X.mon['mine'], 'mutex-recursion', 'a mutex stays locked until it was unlocked as often as it was locked', X, where=loc, fn=nm)
                if X.mon['mine']: eng.ob(X.st.entails_eq(X.mon['cnt'] - c0 + 1), 'mutex-recursion', 'every unlock is counted once', X, where=loc, fn=nm)
            for X in ([T] if all_ else eng._assume(T.copy(), ('ge', C(1) - c0), True)):
                if X.mon.get('v:sem.count') is None: continue      # the release itself failed
                eng.ob(X.st.entails_eq(X.mon['d:sem.count']), 'mutex-token', 'the last unlock releases the mutex exactly once', X, where=loc, fn=nm)
                eng.ob(not X.mon['mine'], 'mutex-owner', 'an unlocked mutex has no owner', X, where=loc, fn=nm)
                lo = X.mon.get('last:owner')
                eng.ob(isinstance(lo, Lin) and X.st.entails_eq(lo), 'mutex-owner', 'an unlocked mutex has no owner', X, where=loc, fn=nm)
        if state == 'owned':
            sp.exist(ok, 'mutex-token', loc, nm, 'an unlock can succeed')
            sp.exist(any(T.mon.get('v:sem.count') is not None for T, r in rets), 'mutex-token', loc, nm, 'the last unlock releases the mutex')
        sp.absorb(eng, nm + ' %s all=%d' % (state, all_), n)
    return f

# ------------------------------------------------------------------ reader-writer lock
def mk_rw(sp, eng, S, y, writer=False, made=True):
    t = obj(eng, S, RW, 'this')
    setf(eng, S, t, RW, 'MxNamed', C(0)); setf(eng, S, t, RW, 'MxMem', obj_at(S, 'mem', 400, 'heap') if made else NULL)
    rc = mk_sem(eng, S, y, t, foff(eng.mod, RW, 'MxPthreadRCountMutex')[0], 'RC', 1)
    ww = mk_sem(eng, S, y, t, foff(eng.mod, RW, 'MxPthreadWWaitMutex')[0], 'WW', 1)
    ev = mk_event(eng, S, y, t, foff(eng.mod, RW, 'MxPthreadRWaitEvent')[0], 'RE', 1)
    cell = obj_at(S, 'readers', 4); setf(eng, S, t, RW, 'MxRCount', cell)
    S.mon['d:WW.count'] = C(-1) if writer else ZERO; S.mon['d:readers'] = ZERO; S.mon['sig'] = None
    def holds(T, n):
        d = T.mon.get('d:%s.count' % n)
        return isinstance(d, Lin) and T.st.entails_eq(d + 1)
    def fs(T):
        # the event only changes under the reader count token: stable while this thread holds it
        if T.mon['sig'] is not None: return T.mon['sig']
        return V(newvar('RE.signaled', 0, 1))
    k = next(k for k, v in y.shared.items() if v[1] == 'RE.signaled')
    y.shared[k] = (y.shared[k][0], 'RE.signaled', fs, 1)
    def drop(T, n):
        if n == 'RC.mutex+0':
            if holds(T, 'RC') and not T.mon.get('rc'):
                v = V(newvar('readers', 0, INF - 1)); s = V(newvar('sig', 0, 1))
                # readers == 0 exactly when the event is signaled
                T.mon['rc'] = True; T.mon['readers0'] = v; T.mon['sig'] = s
                T.w(cell.r).cells[0] = (4, v)
            elif not holds(T, 'RC') and T.mon.get('rc'):
                c = T.mem[cell.r].cells.get(0); v = c[1] if c else None
                if isinstance(v, Lin):
                    T.mon['d:readers'] = T.st.norm(v - T.mon['readers0']); T.mon['readers1'] = v; T.mon['sig1'] = T.mon['sig']
                T.mon['rc'] = False; T.mon['sig'] = None
        if n == 'RE.mutex+0':
            if T.mon.get('rc'): T.mon['sig'] = T.mon.get('last:RE.signaled')
            else: T.mon['ww_at_re'] = holds(T, 'WW')
    y.on_drop.append(drop)
    def touch(eng_, T, r, off, sz, *v):
        if r.rid != cell.r: return
        eng.ob(bool(T.mon.get('rc')), 'rw-readers', 'the number of readers is only used by the thread that holds the reader count token', T)
        if v and isinstance(v[0], Lin) and T.mon.get('rc'):
            old = T.mem[cell.r].cells.get(0)
            if old and isinstance(old[1], Lin) and not T.st.entails(old[1] - v[0]):
                eng.ob(holds(T, 'WW'), 'rw-exclusion', 'a reader only enters while it keeps writers out', T)
    eng.hooks_store.append(touch); eng.hooks_load.append(touch)
    return t, cell
def rw_op(op, wait=None, made=True, only_fails=None):
    def f(sp):
        eng = sp.engine(); S = State(); y = Env(eng, S)
        eng.CAP = 120
        fn = sp.mod.find(RW + '::' + op + ('(unsigned int)' if wait is not None else '()')); loc = sp.mod.loc_fn(fn); nm = RW + '::' + op
        y.fails = sp.pid != 'C26'        # C26: locking a valid mutex does not fail
        if only_fails: y.fails = only_fails
        t, cell = mk_rw(sp, eng, S, y, op == 'WriteUnlock', made)
        W = None if wait is None else C(0) if wait == 0 else C(INF) if wait == 'inf' else V(newvar('Wait', 1, INF - 1))
        rets = eng.call(S, fn, [t] + ([W] if W is not None else [])); ok = False; n = 0
        for T, r in final(eng, rets):
            n += 1
            def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
            leak(eng, T, loc, nm)
            if only_fails and made:
                dw, dr = T.mon['d:WW.count'], T.mon['d:RC.count']
                if op != 'WriteUnlock' and not (r and op == 'WriteLock'): ob(T.st.entails_eq(dw), 'token-leak', 'the writer token is given back on every way out')
                ob(T.st.entails_eq(dr), 'token-leak', 'the reader count token is given back on every way out')
            dw, dr, dn = T.mon['d:WW.count'], T.mon['d:RC.count'], T.mon['d:readers']
            if not made: ob(not r, 'rw-create', 'a lock that was not created can not be used'); continue
            if r: ok = True
            ob(T.st.entails_eq(dr), 'rw-token', 'the reader count token is given back')
            e = T.st.entails_eq
            if op == 'ReadLock':
                ob(e(dw), 'rw-token', 'the writer token is given back by a reader')
                ob(e(dn - (1 if r else 0)), 'rw-readers', 'a reader is counted exactly when it got the lock')
                if r and not isinstance(T.mon.get('sig1'), Lin): ob(False, 'rw-exclusion', 'while there are readers, writers wait')
                elif r: ob(e(T.mon['sig1']), 'rw-exclusion', 'while there are readers, writers wait')
            elif op == 'WriteLock':
                ob(e(dn), 'rw-readers', 'a writer is not counted as a reader')
                ob(e(dw + (1 if r else 0)), 'rw-token', 'the writer token is held exactly when the write lock was obtained')
                if r:
                    s = T.mon.get('v:RE.signaled')
                    ob(bool(T.mon.get('ww_at_re')) and isinstance(s, Lin) and T.st.entails(s - 1), 'rw-exclusion', 'a writer enters only after it kept new readers out and saw that there are none')
            elif op == 'ReadUnlock':
                ob(e(dw), 'rw-token', 'a reader that leaves does not touch the writer token')
                if r:
                    ob(e(dn + 1), 'rw-readers', 'a reader that leaves is counted once')
                    n1, s1, n0 = T.mon.get('readers1'), T.mon.get('sig1'), T.mon.get('readers0')
                    if isinstance(n1, Lin):
                        for X in eng._assume(T.copy(), ('ge', -n1), True): eng.ob(isinstance(s1, Lin) and X.st.entails(s1 - 1), 'rw-wakeup', 'the last reader that leaves lets the writers in', X, where=loc, fn=nm)
                        for X in eng._assume(T.copy(), ('ge', n1 - 1), True):
                            # readers were there, so the event was not signaled
                            for Z in eng._assume(X, ('eq', T.mon['sig0']) if isinstance(T.mon.get('sig0'), Lin) else ('const', True), True): pass
                            eng.ob('wake:RE.cond+0' not in X.mon, 'rw-exclusion', 'a reader that leaves does not let the writers in while others are reading', X, where=loc, fn=nm)
                else:
                    n0 = T.mon.get('readers0')
                    if isinstance(n0, Lin):
                        ob(e(dn) or 'fire-failed' in T.mon or T.mon.get('v:RE.signaled') is None, 'rw-readers', 'a failed call leaves the number of readers')
            else:
                ob(e(dn), 'rw-readers', 'the number of readers does not change')
                if r and T.mon.get('v:WW.count') is not None: ob(e(dw), 'rw-token', 'the write lock gives back the writer token')
        if made:
            sp.exist(ok, 'rw-token', loc, nm, 'the call can succeed')
            if op == 'WriteUnlock': sp.exist(any(T.mon.get('v:WW.count') is not None for T, r in rets), 'rw-token', loc, nm, 'the writer token is released')
        sp.absorb(eng, nm + ' wait=%s made=%s' % (wait, made), n)
    return f
def rw_time(op, wait):
    def f(sp):
        eng = sp.engine(); S = State(); y = Env(eng, S)
        fn = sp.mod.find(RW + '::' + op + '(unsigned int)'); loc = sp.mod.loc_fn(fn); nm = RW + '::' + op
        t, cell = mk_rw(sp, eng, S, y); y.shared.clear(); eng.hooks_store.clear(); eng.hooks_load.clear()
        W = C(0) if wait == 0 else C(INF) if wait == 'inf' else V(newvar('Wait', 1, INF - 1))
        S.mon['tods'] = (); S.mon['args'] = 0
        def stub(e, T, I, a):
            w = a[1]; ts = T.mon['tods']
            if not isinstance(w, Lin): raise AnalysisError('waiting time')
            o = []
            for T, w in e.uval(T, w, 32):
                k = T.mon['args']; T.mon['args'] = k + 1
                if wait == 'inf': e.ob(T.st.entails_eq(w - INF), 'rw-time', 'an infinite wait stays infinite in every stage', T)
                else:
                    e.ob(T.st.entails(W - w) , 'rw-time', 'no stage waits longer than the whole wait', T)
                    if k == 0: e.ob(T.st.entails_eq(W - w), 'rw-time', 'the first stage may use the whole waiting time', T)
                    else:
                        ok = len(ts) >= 2
                        e.ob(ok, 'rw-time', 'a later stage takes the elapsed time into account', T)
                        if ok:
                            el = ts[-1] - ts[0]
                            e.ob(T.st.entails(W.scale(1000) + 999 - w.scale(1000) - el) and T.st.entails(w.scale(1000) + el + 999 - W.scale(1000)), 'rw-time', 'a later stage waits for what is left of the given number of milliseconds', T)
                o += [(T.copy(), C(0)), (T, C(1))]
            return o
        for s_ in ('WaitForUnixSemaphore', 'WaitForUnixEvent'): eng.stubs[U + s_] = stub
        for s_ in ('ReleaseUnixSemaphore', 'ResetUnixEvent'): eng.stubs[U + s_] = lambda e, T, I, a: [(T.copy(), C(0)), (T, C(1))]
        rets = eng.call(S, fn, [t, W]); mx = 0
        for T, r in final(eng, rets): mx = max(mx, T.mon['args'])
        sp.exist(mx >= 2, 'rw-time', loc, nm, 'both stages wait')
        sp.absorb(eng, nm + ' timing wait=%s' % wait, len(rets))
    return f

# ------------------------------------------------------------------ creation and destruction
CLS = {
 'Mutex': dict(create='(char const*)', prims=[('MxPthreadMutex', 'sem', (1, 1))], args=[], mem='MxMem'),
 'Semaphore': dict(create='(char const*, int)', prims=[('MxPthreadSemaphore', 'sem', ('a0', 'a0'))], args=['int'], mem='MxMem'),
 'Event': dict(create='(char const*, bool, bool)', prims=[('MxPthreadEvent', 'ev', ('a0', 'a1'))], args=['bool', 'bool'], mem='MxMem'),
 'ReadWriteLock': dict(create='(char const*)', prims=[('MxPthreadRCountMutex', 'sem', (1, 1)), ('MxPthreadRWaitEvent', 'ev', (1, 1)), ('MxPthreadWWaitMutex', 'sem', (1, 1))], args=[], mem='MxMem'),
 'SharedMem': dict(create='(char const*, unsigned long)', prims=[], args=['size'], mem='MxMemInternal'),
}
PARTS = {'sem': (('MxMutex', 40), ('MxCount', 4), ('MxMax', 4), ('MxCond', 48)), 'ev': (('MxMutex', 40), ('MxManual', 1), ('MxSignaled', 1), ('MxWaiting', 4), ('MxCond', 48))}
def aligned(sp, eng, S, n):
    out = []
    for T, v in eng.call(S, sp.mod.find(U + 'AlignUnixSize(unsigned long)'), [n]): out.append((T, v))
    return out
def sizes(sp, eng, cls, S):
    """bytes of the primitives of a class, from the library's own size functions"""
    n = C(0)
    for _, k, _ in CLS[cls]['prims']:
        (T, v), = eng.call(S, sp.mod.find(U + ('GetUnixSemaphoreSize()' if k == 'sem' else 'GetUnixEventSize()')), [])
        n = n + v
    return n + (4 if cls == 'ReadWriteLock' else 0)
def init_stub(sp, eng, y, prefixes=None):
    fn = sp.mod.find(U + 'InitUnixNamedMem(char*&, unsigned long&, char const*, char const*, unsigned long)')
    def stub(e, S, I, a):
        rm, st, pre, name, size = a
        if isinstance(name, Lin): return eng.call(S, fn, a)
        b = models.lit(eng, S, pre)
        if prefixes is not None: prefixes.append(b)
        def setp(T, p, v):
            T.w(p.r).cells[T.st.norm(p.o).c] = (8, v)
        out = []
        A = S.copy(); setp(A, rm, NULL); setp(A, st, C(HDR)); out.append((A, C(-1)))
        for T, ms in aligned(sp, eng, S, size + HDR):
            for k in (0, 1):
                X = T.copy()
                r = X.new_region('map', 'map%d' % k, ms)
                r.zero = k == 0
                X.mon['maps'] = X.mon['maps'] + (r.rid,); X.mon['made'] = (k, r.rid); X.mon['hm:%d' % r.rid] = '%s+%d' % (r.name, y.layout()[0]); X.mon['mapkind:%d' % r.rid] = 'known'
                if k == 0: X.mon['held'] = X.mon['held'] + (X.mon['hm:%d' % r.rid],)
                else: X.mon['joined'] = r.rid
                setp(X, rm, PtrV(r.rid, ZERO)); setp(X, st, C(HDR))
                out.append((X, C(k)))
        return out
    eng.stubs[U + 'InitUnixNamedMem'] = stub
def pre_state(sp, eng, S, y, cls, pre):
    """(state, object, region of the previous object)"""
    c = CLS[cls]; W = NS + cls
    if cls == 'Mutex':
        t, crit = mk_mutex(sp, eng, S, y, 'none' if pre == 'none' else 'owned' if 'owned' in pre else 'free')
        if pre != 'none': S.mem.pop(getf(eng, S, t, W, 'MxMem').r)
    else: t = obj(eng, S, W, 'this')
    named = 'named' == pre.split()[0]
    if cls != 'SharedMem': setf(eng, S, t, W, 'MxNamed', C(1 if named else 0))
    else:
        setf(eng, S, t, W, 'MxFirst', C(0)); setf(eng, S, t, W, 'MxSize', C(0)); setf(eng, S, t, W, 'MxMem', NULL)
    if pre == 'none': setf(eng, S, t, W, c['mem'], NULL); return [(S, t, None)]
    if named:
        n = V(newvar('OldSize', 0, 1 << 40)) if cls == 'SharedMem' else sizes(sp, eng, cls, S)
        out = []
        for T, ms in aligned(sp, eng, S, n + HDR):
            r = T.new_region('map', 'old', ms); T.mon['maps'] = (r.rid,); T.mon['mapkind:%d' % r.rid] = 'known'
            y.header(T, r, 'known')
            setf(eng, T, t, W, c['mem'], PtrV(r.rid, ZERO))
            if cls == 'SharedMem': setf(eng, T, t, W, 'MxSize', n); setf(eng, T, t, W, 'MxMem', PtrV(r.rid, C(HDR))); setf(eng, T, t, W, 'MxFirst', C(1))
            wire(eng, T, t, cls, y, None)
            out.append((T, t, r.rid))
        return out
    r = S.new_region('heap', 'old', sizes(sp, eng, cls, S)); r.tags = {'by': 'new[]'}
    setf(eng, S, t, W, c['mem'], PtrV(r.rid, ZERO))
    wire(eng, S, t, cls, y, r.rid)
    return [(S, t, r.rid)]
def wire(eng, S, t, cls, y, rid):
    if cls == 'Mutex': return
    for f, k, _ in CLS[cls]['prims']:
        (mk_sem if k == 'sem' else mk_event)(eng, S, y, t, foff(eng.mod, NS + cls, f)[0], 'old.' + f)
    if cls == 'ReadWriteLock': setf(eng, S, t, NS + cls, 'MxRCount', obj_at(S, 'oldreaders', 4))
def create(cls, pre, named):
    def f(sp):
        eng = sp.engine(); S = State(); y = Env(eng, S); y.fails = sp.pid == 'C21'
        c = CLS[cls]; W = NS + cls
        fn = sp.mod.find(W + '::Create' + c['create']); loc = sp.mod.loc_fn(fn); nm = W + '::Create'
        init_stub(sp, eng, y)
        if named: name, _ = cstr(S, 'Name', hi=1 << 30)
        else: name = NULL
        av = []
        for k in c['args']: av.append(V(newvar('arg', 0, {'int': (1 << 31) - 1, 'bool': 1, 'size': 1 << 40}[k])))
        total = 0; ok = set(); lay = {}
        for S0, t, old in pre_state(sp, eng, S, y, cls, pre):
          for vals in ([av] if 'bool' not in c['args'] else [[C(i), C(j)] for i in (0, 1) for j in (0, 1)]):
            S1 = S0.copy(); S1.mon['init'] = cls != 'Mutex'
            old_mem = getf(eng, S1, t, W, c['mem'])
            rets = eng.call(S1, fn, [t, name] + vals)
            total += len(rets)
            for T, r in final(eng, rets):
                def ob(cc, rule, msg): eng.ob(cc, rule, msg, T, where=loc, fn=nm)
                leak(eng, T, loc, nm)
                m = getf(eng, T, t, W, c['mem']); made = T.mon.get('made')
                unchanged = m == old_mem and (old is None or not T.mem[old].freed)
                if cls == 'SharedMem' and not named:
                    ob(not r, 'obj-create', 'shared memory needs a name'); continue
                if not r and cls == 'Mutex' and pre != 'none' and unchanged:
                    ob(not T.mon['mine'] or y.fails, 'mutex-owner', 'the owner of a mutex can replace it'); continue      # held by another thread
                if not r and unchanged and y.fails and old is not None: continue
                if old is not None:
                    ob(T.mem[old].freed, 'obj-leak', 'the previous object is released')
                    destroyed(cls, pre, old, T, ob)
                    if pre.startswith('named') and T.mon.get('v:ref%d' % old) is not None:
                        v = T.mon['first:ref%d' % old]
                        for X in eng._assume(T.copy(), ('ge', v - 1), True): eng.ob(X.st.entails_eq(X.mon['d:ref%d' % old] + 1), 'named-ref', 'the reference to the previous object is given back', X, where=loc, fn=nm)
                    if 'owned' in pre: ob(T.st.entails_eq(T.mon['d:sem.count']), 'mutex-token', 'a mutex that is replaced is unlocked first')
                if not r:
                    ob(isinstance(m, Lin) and T.st.entails_eq(m), 'obj-create', 'a failed creation leaves an object that was not created')
                    if cls == 'SharedMem': ob(getf(eng, T, t, W, 'MxMem') == NULL, 'obj-create', 'a failed creation offers no memory')
                    continue
                k = made[0] if made else 'heap'
                ok.add(k)
                good = isinstance(m, PtrV) and T.st.entails_eq(m.o) and (m.r == made[1] if made else T.mem[m.r].kind == 'heap' and m.r != old)
                ob(good, 'obj-create', 'a successful creation keeps the memory of the object')
                if not good: continue
                if cls == 'Mutex': ob(not T.mon['mine'], 'mutex-owner', 'a new mutex is not owned')
                R = T.mem[m.r]; ranges = []; base = C(HDR if made else 0)
                if cls == 'SharedMem':
                    d = getf(eng, T, t, W, 'MxMem'); z = getf(eng, T, t, W, 'MxSize'); fi = getf(eng, T, t, W, 'MxFirst')
                    ob(isinstance(d, PtrV) and d.r == m.r and T.st.entails(d.o - HDR) and T.st.entails(R.size - d.o - vals[0]), 'obj-layout', 'the offered memory lies inside the mapping and has the requested size')
                    ob(isinstance(z, Lin) and T.st.entails_eq(z - vals[0]), 'obj-create', 'the size of the shared memory is the requested size')
                    fi = T.st.norm(fi) if isinstance(fi, Lin) else None
                    ob(fi is not None and fi.isconst() and (fi.c != 0) == (k == 0), 'obj-first', 'exactly the creator of the memory is told that it is the first')
                    continue
                for fld, kind, ini in c['prims']:
                    wo = foff(eng.mod, W, fld)[0]; WR = SEMW if kind == 'sem' else EVW
                    off = {}
                    for part, sz in PARTS[kind]:
                        o, _ = foff(eng.mod, WR, part)
                        q = T.mem[t.r].cells.get(wo + o)
                        q = q[1] if q else None
                        inb = isinstance(q, PtrV) and q.r == m.r and T.st.entails(q.o - base) and T.st.entails(R.size - q.o - sz)
                        ob(inb, 'obj-layout', 'every part of the object lies inside its memory')
                        if inb: off[part] = q.o; ranges.append((T.st.norm(q.o), sz))
                    if len(off) < len(PARTS[kind]): continue
                    if k == 1: continue
                    g = lambda part: eng.find_cell(T, R, T.st.norm(off[part]), dict(PARTS[kind])[part])
                    for mark, part in (('minit', 'MxMutex'), ('cinit', 'MxCond')):
                        x = T.mon.get('%s:%s' % (mark, pname(T, PtrV(m.r, off[part]))))
                        ob(x is not None, 'obj-init', 'a new object is completely initialised')
                        if made: ob(x == 1, 'named-shared', 'the parts of a named object are shared between processes')
                    iv = [vals[int(i[1])] if isinstance(i, str) else C(i) for i in ini]
                    for part, v in zip(('MxCount', 'MxMax') if kind == 'sem' else ('MxManual', 'MxSignaled'), iv):
                        x = g(part)
                        ob(isinstance(x, Lin) and T.st.entails_eq(x - v), 'obj-init', 'a new object starts in the requested state')
                    if kind == 'ev':
                        x = g('MxWaiting'); ob(isinstance(x, Lin) and T.st.entails_eq(x), 'obj-init', 'a new event has no waiters')
                if cls == 'ReadWriteLock':
                    q = getf(eng, T, t, W, 'MxRCount')
                    inb = isinstance(q, PtrV) and q.r == m.r
                    ob(inb, 'obj-layout', 'every part of the object lies inside its memory')
                    if inb:
                        ranges.append((T.st.norm(q.o), 4))
                        if k != 1:
                            x = eng.find_cell(T, R, T.st.norm(q.o), 4); ob(isinstance(x, Lin) and T.st.entails_eq(x), 'obj-init', 'a new lock has no readers')
                for a in range(len(ranges)):
                    for b in range(a):
                        (o1, s1), (o2, s2) = ranges[a], ranges[b]
                        ob(T.st.entails(o1 - o2 - s2) or T.st.entails(o2 - o1 - s1), 'obj-layout', 'the parts of an object do not overlap')
                lay.setdefault(repr([repr(T.st.norm(o - base)) for o, s in ranges]), k)
        sp.fact(len(lay) <= 1, 'obj-layout', loc, nm, 'creator and joiner of an object agree on its layout')
        if not (cls == 'SharedMem' and not named):
            for k in ((0, 1) if named else ('heap',)): sp.exist(k in ok, 'obj-create', loc, nm, 'creation can succeed (%s)' % k)
        sp.absorb(eng, nm + ' before=%s named=%s' % (pre, named), total)
    return f
def destroyed(cls, pre, old, T, ob):
    """what was set up with the previous object, in memory of its own, is destroyed once; what others may use is not"""
    if old is None or cls == 'SharedMem' or not T.mem[old].freed: return
    gone = [n for n in T.mon.get('gone', ()) if n]
    want = [('sem' if cls == 'Mutex' else 'old.' + f) + x for f, k, _ in CLS[cls]['prims'] for x in ('.mutex+0', '.cond+0')]
    if pre.startswith('named'): ob(not set(gone) & set(want), 'obj-destroy', 'the parts of a shared object are not destroyed while others may use them')
    else: ob(all(gone.count(x) == 1 for x in want), 'obj-destroy', 'every mutex and condition of an object of its own is destroyed once')
def dtor(cls, pre):
    def f(sp):
        eng = sp.engine(); S = State(); y = Env(eng, S); y.fails = False
        W = NS + cls; fn = sp.mod.find('%s::~%s()' % (W, cls)); loc = sp.mod.loc_fn(fn); nm = '%s::~%s' % (W, cls); n = 0
        for S0, t, old in pre_state(sp, eng, S, y, cls, pre):
            S0.mon['init'] = cls != 'Mutex'
            for T, _ in eng.call(S0, fn, [t]):
                n += 1
                def ob(cc, rule, msg): eng.ob(cc, rule, msg, T, where=loc, fn=nm)
                leak(eng, T, loc, nm)
                if old is not None: ob(T.mem[old].freed, 'obj-leak', 'the memory of the object is released')
                destroyed(cls, pre, old, T, ob)
                if 'owned' in pre: ob(T.st.entails_eq(T.mon['d:sem.count']), 'mutex-token', 'a mutex that is destroyed by its owner is unlocked first')
        sp.exist(n, 'obj-leak', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + pre, n)
    return f
def prefixes(sp):
    got = {}
    for cls, c in CLS.items():
        eng = sp.engine(); S = State(); y = Env(eng, S); y.fails = False; l = []
        init_stub(sp, eng, y, l)
        fn = sp.mod.find(NS + cls + '::Create' + c['create'])
        name, _ = cstr(S, 'Name', hi=1 << 30)
        S, t, _ = pre_state(sp, eng, S, y, cls, 'none')[0]; S.mon['init'] = cls != 'Mutex'
        eng.call(S, fn, [t, name] + [C(1) for _ in c['args']])
        got[cls] = set(l)
        sp.fact(len(set(l)) == 1 and None not in l, 'named-prefix', sp.mod.loc_fn(fn), NS + cls + '::Create', 'the kind of an object is part of its system-wide name')
        for o in got:
            if o != cls: sp.fact(not (got[o] & got[cls]), 'named-prefix', sp.mod.loc_fn(fn), NS + cls + '::Create', 'objects of different kinds never share a system-wide name')
    sp.entries.append('system-wide names')
def ctor(cls):
    def f(sp):
        eng = sp.engine(); S = State(); y = Env(eng, S); W = NS + cls; c = CLS[cls]
        fn = sp.mod.find('%s::%s()' % (W, cls)); loc = sp.mod.loc_fn(fn); nm = '%s::%s' % (W, cls)
        t = obj(eng, S, W, 'this'); rets = eng.call(S, fn, [t])
        for T, _ in rets:
            m = getf(eng, T, t, W, c['mem'])
            eng.ob(m == NULL, 'obj-create', 'a new object is not created yet', T, where=loc, fn=nm)
            if cls == 'SharedMem':
                z = getf(eng, T, t, W, 'MxSize'); eng.ob(isinstance(z, Lin) and T.st.entails_eq(z) and getf(eng, T, t, W, 'MxMem') == NULL, 'obj-create', 'a new object has no memory', T, where=loc, fn=nm)
            if cls == 'Mutex':
                o = getf(eng, T, t, W, 'MxOwnerID'); k = getf(eng, T, t, W, 'MxCount')
                eng.ob(o == NULL and k == NULL, 'mutex-owner', 'a new mutex has no owner', T, where=loc, fn=nm)
        sp.exist(rets, 'obj-create', loc, nm, 'returns'); sp.absorb(eng, nm, len(rets))
    return f
GROUPS['C25'] = ('named-', 'bounds', 'null-deref', 'double-free', 'bad-free', 'use-after', 'obj-', 'unterminated')
GROUPS['C26'] = ('mutex-', 'rw-readers', 'rw-token', 'rw-exclusion', 'rw-wakeup', 'rw-create', 'not-created') + MEM
def class_cases(pid):
    o = GROUPS[pid]; out = []
    if pid in ('C21', 'C25', 'C26'):
        for c in CLS:
            if pid == 'C26' and c != 'Mutex': continue
            ps = ['none', 'named'] + ([] if c == 'SharedMem' else ['unnamed']) + (['named owned', 'unnamed owned'] if c == 'Mutex' else [])
            out += [Case('create %s before=%s named=%d' % (c, p, n), create(c, p, n), only=o) for p in ps for n in (0, 1)]
            out += [Case('destroy %s %s' % (c, p), dtor(c, p), only=o) for p in ps]
            out.append(Case('construct ' + c, ctor(c), only=o))
        if pid == 'C25': out.append(Case('prefixes', prefixes, only=o))
    if pid in ('C21', 'C22', 'C24', 'C26'):
        out += [Case('mutex lock %s wait=%s' % (s, w), mutex_lock(s, w), only=o) for s in ('owned', 'free', 'none') for w in (0, 'some', 'inf')]
        if pid != 'C24':
            out += [Case('mutex unlock %s all=%d' % (s, a), mutex_unlock(s, a), only=o) for s in ('owned', 'free', 'none') for a in (0, 1)]
            for m in (True, False):
                out += [Case('rw %s wait=%s made=%s' % (k, w, m), rw_op(k, w, m), only=o, budget=120) for k in ('ReadLock', 'WriteLock') for w in (0, 'some', 'inf')]
                out += [Case('rw %s made=%s' % (k, m), rw_op(k, None, m), only=o) for k in ('ReadUnlock', 'WriteUnlock')]
            if pid == 'C21':
                out += [Case('rw %s wait=%s, event fails' % (k, w), rw_op(k, w, True, 'RE.'), only=o, budget=120) for k in ('ReadLock', 'WriteLock') for w in (0, 'some', 'inf')]
                out += [Case('rw ReadUnlock, event fails', rw_op('ReadUnlock', None, True, 'RE.'), only=o)]
        else: out += [Case('rw timing %s wait=%s' % (k, w), rw_time(k, w), only=o) for k in ('ReadLock', 'WriteLock') for w in (0, 'some', 'inf')]
    return out
PROPS = {p: (lambda p=p: util_cases(p) + class_cases(p)) for p in GROUPS}
PROPS['C25'] = lambda: [Case('init named memory', named_mem)] + [Case('init named memory [%s %s %d]' % (p.decode(), n.decode()[:8], z), lambda sp, c=(p, n, z): named_mem(sp, c), light=(True,)) for p, n, z in NAMES[:3]] + [Case('short system-wide names', named_text(NAMES), light=(True,)), Case('long system-wide names', named_text(LONG), budget=200, light=(True,)), Case('unmap named memory', unmap)] + class_cases('C25')
PROPS['C26'] = lambda: class_cases('C26')
