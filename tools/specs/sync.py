"""C21-C26: synchronisation objects.  Typestate of every mutex plus a per-critical-section account of the shared fields."""
from spec import *
import models
U = 'CubicleSoft::Sync::Util::'
INF = 0xFFFFFFFF
SEMW = 'CubicleSoft::Sync::Util::UnixSemaphoreWrapper'
EVW = 'CubicleSoft::Sync::Util::UnixEventWrapper'

def pname(S, p):
    if not isinstance(p, PtrV): return None
    r = S.mem.get(p.r)
    if r is None: return None
    o = S.st.norm(p.o)
    return '%s+%s' % (r.name, o.c if o.isconst() else repr(o))

_tested = {}
def tested(I):
    """the result of this call is used: only then is the call taken to be able to fail"""
    if I is None or I.res is None: return False
    k = (I.fn.name, I.res)
    if k not in _tested: _tested[k] = any(repr(('r', I.res)) in repr(i.a) for b in I.fn.blocks.values() for i in b.ins)
    return _tested[k]

class Sync:
    """pthread typestate attached to an engine"""
    def __init__(self, eng, S, crits=()):
        self.eng = eng; self.S0 = S
        self.shared = {}        # region id -> (mutex name, field name, fresh)
        self.on_acq = []; self.on_drop = []
        self.edges = set()
        m = eng.models
        m['pthread_mutex_lock'] = self.lock; m['pthread_mutex_trylock'] = self.trylock; m['pthread_mutex_unlock'] = self.unlock
        m['pthread_cond_wait'] = lambda e, S, I, a: self.wait(e, S, a, None)
        m['pthread_cond_timedwait'] = lambda e, S, I, a: self.wait(e, S, a, a[2])
        m['pthread_cond_signal'] = lambda e, S, I, a: self.wake(e, S, a, 'signal'); m['pthread_cond_broadcast'] = lambda e, S, I, a: self.wake(e, S, a, 'broadcast')
        m['pthread_mutex_init'] = self.minit; m['pthread_cond_init'] = self.cinit
        m['pthread_mutex_destroy'] = self.mdestroy
        m['clock_gettime'] = self.clock; m['gettimeofday'] = self.gtod
        eng.hooks_store.append(self.on_store); eng.hooks_load.append(self.on_load)
        S.mon['held'] = (); S.mon['waits'] = ''
        self.fails = True
    def share(self, S, p, mutex, field, fresh, size):
        """the cell at p is guarded by mutex; fresh(S) gives the unknown value other threads may have left there"""
        key = (p.r, p.o.c)
        self.shared[key] = (mutex, field, fresh, size)
        S.mon['d:' + field] = ZERO
    def ob(self, ok, rule, msg, S): return self.eng.ob(ok, rule, msg, S)
    # --- guarded fields
    def find(self, r, off, S):
        for (rid, o), v in self.shared.items():
            if rid == r.rid:
                d = S.st.norm(off) - o
                if d.isconst() and 0 <= d.c < v[3]: return (rid, o), v
        return None
    def on_store(self, eng, S, r, off, sz, v):
        f = self.find(r, off, S)
        if f and not S.mon.get('init'):
            self.ob(f[1][0] in S.mon['held'], 'guarded-field', 'shared field %s is written without holding its mutex' % f[1][1], S)
    def on_load(self, eng, S, r, off, sz):
        f = self.find(r, off, S)
        if f and not S.mon.get('init'):
            self.ob(f[1][0] in S.mon['held'], 'guarded-field', 'shared field %s is read without holding its mutex' % f[1][1], S)
    # --- lock operations
    def acquire(self, S, n):
        for (rid, o), (m, field, fresh, size) in self.shared.items():
            if m == n and rid in S.mem:
                v = fresh(S)
                S.w(rid).cells[o] = (size, v)
                S.mon['v:' + field] = v
                if 'first:' + field not in S.mon: S.mon['first:' + field] = v
        for h in self.on_acq: h(S, n)
        S.mon['held'] = S.mon['held'] + (n,)
    def drop(self, S, n):
        h = list(S.mon['held']); h.remove(n); S.mon['held'] = tuple(h)
        for (rid, o), (m, field, fresh, size) in self.shared.items():
            if m == n and rid in S.mem and 'v:' + field in S.mon:
                c = S.mem[rid].cells.get(o)
                v = c[1] if c else None
                if isinstance(v, Lin) and isinstance(S.mon.get('d:' + field), Lin):
                    S.mon['d:' + field] = S.st.norm(S.mon['d:' + field] + v - S.mon['v:' + field])
                    S.mon['last:' + field] = v
        for h in self.on_drop: h(S, n)
    def lock(self, eng, S, I, a):
        n = pname(S, a[0])
        if n is None: raise AnalysisError('lock of an unknown mutex')
        self.ob(n not in S.mon['held'], 'self-deadlock', 'a mutex is locked again by the thread that holds it', S)
        if n in S.mon['held']: return []
        for h in S.mon['held']: self.edges.add((h.split('+')[0], n.split('+')[0], eng.where(), eng.fname()))
        if S.mon.get('nowait') == n: self.ob(False, 'zero-wait-blocks', 'a call with no waiting time blocks on the mutex of the object', S)
        if not self.fails or isinstance(self.fails, str) and not n.startswith(self.fails) or not tested(I):
            self.acquire(S, n); return [(S, ZERO)]
        A = S.copy()
        self.acquire(S, n)
        return [(A, C(22)), (S, ZERO)]
    def trylock(self, eng, S, I, a):
        n = pname(S, a[0])
        if n in S.mon['held']: return [(S, C(16))]
        A = S.copy()
        self.acquire(S, n)
        return [(A, C(16)), (S, ZERO)]
    def unlock(self, eng, S, I, a):
        n = pname(S, a[0])
        ok = n in S.mon['held']
        self.ob(ok, 'unlock-not-held', 'a mutex is unlocked by a thread that does not hold it', S)
        if ok: self.drop(S, n)
        return [(S, ZERO)]
    def wait(self, eng, S, a, ts):
        n = pname(S, a[1])
        ok = n in S.mon['held']
        self.ob(ok, 'wait-without-lock', 'a condition is waited for without holding its mutex', S)
        if not ok: return []
        self.ob(len(S.mon['held']) == 1, 'wait-holding-lock', 'a thread goes to sleep while it holds another internal mutex', S)
        if S.mon.get('nowait') == n: self.ob(False, 'zero-wait-blocks', 'a call with no waiting time goes to sleep', S)
        w = S.mon.get('wait')
        outs = []
        if ts is not None:
            p = ts
            sec = eng.find_cell(S, S.mem[p.r], S.st.norm(p.o), 8); ns = eng.find_cell(S, S.mem[p.r], S.st.norm(p.o + 8), 8)
            if isinstance(sec, Lin) and isinstance(ns, Lin):
                self.ob(S.st.entails(ns) and S.st.entails(C(999999999) - ns), 'deadline-normalised', 'the nanoseconds of the deadline are within one second', S)
                if isinstance(w, Lin) and isinstance(S.mon.get('now'), tuple):
                    ns0, n0 = S.mon['now']
                    e = sec.scale(10 ** 9) + ns - ns0.scale(10 ** 9) - n0 - w.scale(10 ** 6)
                    self.ob(S.st.entails_eq(e), 'deadline-exact', 'the deadline is the current time plus the given number of milliseconds', S)
            else: self.ob(False, 'deadline-normalised', 'the deadline is not computed', S)
            if isinstance(w, Lin): self.ob(S.st.entails_ne(w - INF), 'infinite-wait', 'an infinite wait must not time out', S)
        elif isinstance(w, Lin): self.ob(S.st.entails_eq(w - INF), 'timed-wait', 'a limited wait must not sleep without a deadline', S)
        S.mon['waits'] = 'y'; Q = []
        if self.eng.ends and ts is not None:        # nobody else ever comes: the time is over and stays over
            T = S.copy(); T.mon['$quiet'] = True; Q = [(T, C(110))]
        self.drop(S, n)
        A = S.copy()
        self.acquire(S, n); self.acquire(A, n)
        S.mon['woken'] = 'ok'; A.mon['woken'] = 'err'
        return [(A, C(110 if ts is not None else 22)), (S, ZERO)] + Q
    def wake(self, eng, S, a, kind):
        S.mon['wake:' + (pname(S, a[0]) or '?')] = kind
        return [(S, ZERO)]
    def minit(self, eng, S, I, a):
        S.mon['minit:' + (pname(S, a[0]) or '?')] = True
        return [(S, ZERO)]
    def cinit(self, eng, S, I, a):
        S.mon['cinit:' + (pname(S, a[0]) or '?')] = True
        return [(S, ZERO)]
    def mdestroy(self, eng, S, I, a):
        n = pname(S, a[0])
        self.ob(n not in S.mon['held'], 'destroy-held', 'a mutex is destroyed while it is held', S)
        S.mon['gone'] = S.mon.get('gone', ()) + (n,)
        return [(S, ZERO)]
    def clock(self, eng, S, I, a):
        p = a[1]
        A = S.copy(); models.set_errno(eng, A)
        if not eng.bounds(S, p, C(16), 'OS write'): return []
        s = V(newvar('now.sec', 0, 1 << 40)); n = V(newvar('now.nsec', 0, 999999999))
        R = S.w(p.r); o = S.st.norm(p.o).c
        R.cells[o] = (8, s); R.cells[o + 8] = (8, n)
        S.mon['now'] = (s, n)
        return [(A, C(-1)), (S, ZERO)]
    def gtod(self, eng, S, I, a):
        p = a[0]
        if not eng.bounds(S, p, C(16), 'OS write'): return []
        s = V(newvar('now.sec', 0, 1 << 40)); n = V(newvar('now.usec', 0, 999999))
        R = S.w(p.r); o = S.st.norm(p.o).c
        R.cells[o] = (8, s); R.cells[o + 8] = (8, n)
        S.mon['tods'] = S.mon.get('tods', ()) + (s.scale(10 ** 6) + n,)
        return [(S.copy(), ZERO), (S, ZERO)][1:]

def obj_at(S, name, size, kind='shared'):
    r = S.new_region(kind, name, size)
    return PtrV(r.rid, ZERO)

def mk_sem(eng, S, y, w, woff, name, mx1=None):
    """semaphore wrapper fields at offset woff of object w"""
    mx = obj_at(S, name + '.mutex', 40); cn = obj_at(S, name + '.count', 4); mm = obj_at(S, name + '.max', 4); cd = obj_at(S, name + '.cond', 48)
    M = V(newvar('max', 0, 1 << 31)) if mx1 is None else C(mx1)
    R = S.w(w.r)
    for f, p in (('MxMutex', mx), ('MxCount', cn), ('MxMax', mm), ('MxCond', cd)):
        o, s = foff(eng.mod, SEMW, f); R.cells[woff + o] = (8, p)
    S.w(mm.r).cells[0] = (4, M)
    def fresh(T):
        v = V(newvar(name + '.count', 0, INF)); T.st.ge(M - v)
        d = T.mon.get('d:' + name + '.count')
        if isinstance(d, Lin): T.st.ge(M + d - v)      # units held by this thread are not in the count
        return v
    y.share(S, cn, name + '.mutex+0', name + '.count', fresh, 4)
    return dict(mutex=mx, count=cn, max=mm, cond=cd, M=M, name=name)
def mk_event(eng, S, y, w, woff, name, manual=None):
    mx = obj_at(S, name + '.mutex', 40); mn = obj_at(S, name + '.manual', 1); sg = obj_at(S, name + '.signaled', 1); wt = obj_at(S, name + '.waiting', 4); cd = obj_at(S, name + '.cond', 48)
    R = S.w(w.r)
    for f, p in (('MxMutex', mx), ('MxManual', mn), ('MxSignaled', sg), ('MxWaiting', wt), ('MxCond', cd)):
        o, s = foff(eng.mod, EVW, f); R.cells[woff + o] = (8, p)
    mv = V(newvar('manual', 0, 1)) if manual is None else C(manual)
    S.w(mn.r).cells[0] = (1, mv)
    y.share(S, sg, name + '.mutex+0', name + '.signaled', lambda T: V(newvar(name + '.signaled', 0, 1)), 1)
    def fw(T):
        v = V(newvar(name + '.waiting', 0, 1 << 31)); T.st.ge(v - T.mon['d:' + name + '.waiting']); return v
    y.share(S, wt, name + '.mutex+0', name + '.waiting', fw, 4)
    return dict(mutex=mx, manual=mn, signaled=sg, waiting=wt, cond=cd, mv=mv, name=name)

def final(eng, rets):
    for T0, rv in rets:
        for T, r in (eng.toint(T0, eng.cond(rv, T0)) if rv is not None else [(T0, None)]):
            if T.st.cons and not T.st.feasible(): continue
            yield T, (None if r is None else r != ZERO)

MEM = ('bounds', 'null-deref', 'null-call', 'readonly', 'bad-free', 'double-free', 'use-after')
GROUPS = {
    'C21': ('lock-leak', 'token-leak', 'self-deadlock', 'unlock-not-held', 'wait-without-lock', 'wait-holding-lock', 'destroy-held', 'lock-order'),
    'C22': ('guarded-field',) + MEM,
    'C23': ('sem-', 'event-', 'not-created') + MEM,
    'C24': ('zero-wait-blocks', 'deadline-', 'infinite-wait', 'timed-wait', 'rw-time'),
}

def leak(eng, T, w, f):
    eng.ob(not T.mon['held'], 'lock-leak', 'the function returns while it still holds %s' % ', '.join(T.mon['held']), T, where=w, fn=f)

NS = 'CubicleSoft::Sync::'
def entry(sp, eng, S, y, cls, sig, kind, manual=None):
    """(function, object, primitive) for the primitive itself or for the class around it"""
    if cls:
        fld, w = {'sem': ('MxPthreadSemaphore', NS + 'Semaphore'), 'ev': ('MxPthreadEvent', NS + 'Event')}[kind]
        fn = sp.mod.find(sig); t = obj(eng, S, w, 'this')
        setf(eng, S, t, w, 'MxNamed', C(0)); setf(eng, S, t, w, 'MxMem', obj_at(S, 'mem', 96, 'heap') if cls == 'made' else NULL)
        off = foff(eng.mod, w, fld)[0]
    else:
        fn = sp.mod.find(sig); w = SEMW if kind == 'sem' else EVW; t = obj(eng, S, w, 'wrapper'); off = 0
    s = mk_sem(eng, S, y, t, off, 'sem') if kind == 'sem' else mk_event(eng, S, y, t, off, 'ev', manual)
    return fn, t, s, sp.mod.dem[fn.name].split('(')[0]
def unmade(sp, eng, rets, loc, nm):
    for T, r in final(eng, rets):
        eng.ob(r is False, 'not-created', 'an object that was not created refuses to work', T, where=loc, fn=nm)
    sp.absorb(eng, nm + ' on an object that was not created', len(rets))
def sem_wait(wait, cls=None):
    def f(sp):
        eng = sp.engine(); S = State()
        y = Sync(eng, S)
        fn, w, s, nm = entry(sp, eng, S, y, cls, NS + 'Semaphore::Lock(unsigned int)' if cls else U + 'WaitForUnixSemaphore(CubicleSoft::Sync::Util::UnixSemaphoreWrapper&, unsigned int)', 'sem')
        W = C(0) if wait == 0 else C(INF) if wait == 'inf' else V(newvar('Wait', 1, INF - 1))
        S.mon['wait'] = W
        if wait == 0: S.mon['nowait'] = 'sem.mutex+0'
        rets = eng.call(S, fn, [w, W])
        loc = sp.mod.loc_fn(fn)
        if cls == 'no': return unmade(sp, eng, rets, loc, nm)
        n = 0; ok = False
        for T, r in final(eng, rets):
            n += 1
            def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
            leak(eng, T, loc, nm)
            d = T.mon['d:sem.count']; last = T.mon.get('last:sem.count')
            if r:
                ok = True
                ob(T.st.entails_eq(d + 1), 'sem-token', 'a successful wait takes exactly one unit from the count')
                ob(isinstance(last, Lin) and T.st.entails(last), 'sem-token', 'a unit is only taken while the count is positive')
            else:
                ob(T.st.entails_eq(d), 'sem-token', 'a failed wait leaves the count unchanged')
                v = T.mon.get('first:sem.count')
                if isinstance(v, Lin) and not T.mon['waits'] and 'now' not in T.mon and wait != 'some': ob(T.st.entails_eq(v), 'sem-available', 'an available unit is taken at once')
                elif isinstance(v, Lin) and wait == 'some': ob(T.st.entails_eq(v), 'sem-available', 'an available unit is taken at once')
        sp.exist(ok, 'sem-token', loc, nm, 'a wait never succeeds')
        sp.absorb(eng, nm + ' wait=%s' % wait, n)
    return f
def sem_release(prev, cls=None):
    def f(sp):
        eng = sp.engine(); S = State(); y = Sync(eng, S)
        fn, w, s, nm = entry(sp, eng, S, y, cls, NS + 'Semaphore::Unlock(int*)' if cls else U + 'ReleaseUnixSemaphore(CubicleSoft::Sync::Util::UnixSemaphoreWrapper&, unsigned int*)', 'sem')
        pv = obj_at(S, 'prev', 4, 'stackobj') if prev else NULL
        rets = eng.call(S, fn, [w, pv])
        loc = sp.mod.loc_fn(fn); n = 0; ok = False
        if cls == 'no': return unmade(sp, eng, rets, loc, nm)
        for T, r in final(eng, rets):
            n += 1
            def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
            leak(eng, T, loc, nm)
            d = T.mon['d:sem.count']; v = T.mon.get('first:sem.count'); last = T.mon.get('last:sem.count')
            if not r:
                ob(T.st.entails_eq(d), 'sem-token', 'a failed release leaves the count unchanged'); continue
            ok = True
            if not isinstance(v, Lin) or not isinstance(last, Lin): ob(False, 'sem-token', 'a release happens under the mutex of the semaphore'); continue
            for X in eng._assume(T.copy(), ('ge', s['M'] - v - 1), True):
                eng.ob(X.st.entails_eq(d - 1), 'sem-token', 'a release adds one unit', X, where=loc, fn=nm)
                eng.ob('wake:sem.cond+0' in X.mon, 'sem-wakeup', 'a release that adds a unit wakes a waiter', X, where=loc, fn=nm)
            ob(T.st.entails(s['M'] - last), 'sem-token', 'the count never exceeds its maximum')
            ob(T.st.entails(d), 'sem-token', 'a release never takes units away')
            if prev:
                x = T.mem[pv.r].cells.get(0)
                ob(x is not None and isinstance(x[1], Lin) and T.st.entails_eq(x[1] - v), 'sem-prev', 'the reported previous count is the count before the release')
        sp.exist(ok, 'sem-token', loc, nm, 'a release never succeeds')
        sp.absorb(eng, nm, n)
    return f
def ev_wait(wait, manual, cls=None):
    def f(sp):
        eng = sp.engine(); S = State(); y = Sync(eng, S)
        fn, w, s, nm = entry(sp, eng, S, y, cls, NS + 'Event::Wait(unsigned int)' if cls else U + 'WaitForUnixEvent(CubicleSoft::Sync::Util::UnixEventWrapper&, unsigned int)', 'ev', manual)
        W = C(0) if wait == 0 else C(INF) if wait == 'inf' else V(newvar('Wait', 1, INF - 1))
        S.mon['wait'] = W
        if wait == 0: S.mon['nowait'] = 'ev.mutex+0'
        rets = eng.call(S, fn, [w, W])
        loc = sp.mod.loc_fn(fn); n = 0; ok = False
        if cls == 'no': return unmade(sp, eng, rets, loc, nm)
        for T, r in final(eng, rets):
            n += 1
            def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
            leak(eng, T, loc, nm)
            seen = T.mon.get('v:ev.signaled'); last = T.mon.get('last:ev.signaled'); wd = T.mon['d:ev.waiting']
            f0 = T.mon.get('first:ev.signaled'); w0 = T.mon.get('first:ev.waiting')
            ob(T.st.entails_eq(wd), 'event-waiters', 'the number of waiting threads is balanced when the wait ends')
            if r:
                ok = True
                ob(isinstance(seen, Lin) and T.st.entails(seen - 1), 'event-signal', 'a wait only succeeds while the event is signaled')
                if isinstance(last, Lin):
                    if manual: ob(T.st.entails_eq(last - seen), 'event-reset', 'a manual event stays signaled after a wait')
                    else: ob(T.st.entails_eq(last), 'event-reset', 'an automatic event is consumed by the wait that it ends')
                if not manual and not T.mon['waits'] and isinstance(w0, Lin): ob(T.st.entails_eq(w0), 'event-turn', 'a newcomer does not take an automatic event while others are waiting')
            else:
                if isinstance(last, Lin): ob(T.st.entails_eq(T.mon['d:ev.signaled']), 'event-reset', 'a failed wait leaves the event as it was')
                if isinstance(f0, Lin) and isinstance(w0, Lin) and not T.mon['waits']:
                    X = T.copy()
                    for X in eng._assume(X, ('ge', f0 - 1), True):
                        if manual: eng.ob(False, 'event-signal', 'a signaled manual event lets every wait through', X, where=loc, fn=nm)
                        else:
                            eng.ob(X.st.entails(w0 - 1), 'event-signal', 'a signaled event without waiters lets the wait through', X, where=loc, fn=nm)
        sp.exist(ok, 'event-signal', loc, nm, 'a wait never succeeds')
        sp.absorb(eng, nm + ' wait=%s manual=%d' % (wait, manual), n)
    return f
def ev_fire(which, manual, cls=None):
    def f(sp):
        eng = sp.engine(); S = State(); y = Sync(eng, S)
        fn, w, s, nm = entry(sp, eng, S, y, cls, NS + 'Event::' + which.replace('UnixEvent', '()') if cls else U + which + '(CubicleSoft::Sync::Util::UnixEventWrapper&)', 'ev', manual)
        rets = eng.call(S, fn, [w])
        loc = sp.mod.loc_fn(fn); n = 0; ok = False
        if cls == 'no': return unmade(sp, eng, rets, loc, nm)
        for T, r in final(eng, rets):
            n += 1
            def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
            leak(eng, T, loc, nm)
            last = T.mon.get('last:ev.signaled')
            ob(T.st.entails_eq(T.mon['d:ev.waiting']), 'event-waiters', 'firing or resetting does not change the number of waiting threads')
            if not r:
                if isinstance(last, Lin): ob(T.st.entails_eq(T.mon['d:ev.signaled']), 'event-reset', 'a failed call leaves the event as it was')
                continue
            ok = True
            if not isinstance(last, Lin): ob(False, 'event-signal', 'the event changes under its mutex'); continue
            if which == 'FireUnixEvent':
                ob(T.st.entails(last - 1), 'event-signal', 'firing signals the event')
                k = T.mon.get('wake:ev.cond+0')
                ob(k == 'broadcast' or (k is not None and not manual), 'event-wakeup', 'firing wakes %s' % ('all waiters of a manual event' if manual else 'a waiter'))
            else:
                ob(manual == 1, 'event-reset', 'only manual events can be reset')
                ob(T.st.entails_eq(last), 'event-reset', 'resetting ends the signaled state')
        if which == 'FireUnixEvent' or manual: sp.exist(ok, 'event-signal', loc, nm, 'the call never succeeds')
        sp.absorb(eng, nm + ' manual=%d' % manual, n)
    return f
def init_sem(sp):
    eng = sp.engine(); S = State()
    fn = sp.mod.find(U + 'InitUnixSemaphore(CubicleSoft::Sync::Util::UnixSemaphoreWrapper&, bool, unsigned int, unsigned int)')
    y = Sync(eng, S); w = obj(eng, S, SEMW, 'wrapper'); s = mk_sem(eng, S, y, w, 0, 'sem'); S.mon['init'] = True
    a, b = V(newvar('Start', 0, INF)), V(newvar('Max', 0, INF))
    S.w(s['max'].r).cells.pop(0, None)
    rets = eng.call(S, fn, [w, CondV(('eq', V(newvar('sh', 0, 1)))), a, b])
    loc = sp.mod.loc_fn(fn); nm = U + 'InitUnixSemaphore'
    for T, r in final(eng, rets):
        def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
        cn = T.mem[s['count'].r].cells.get(0); mx = T.mem[s['max'].r].cells.get(0)
        ob(cn is not None and mx is not None and T.st.entails_eq(mx[1] - b) and T.st.entails(mx[1] - cn[1]), 'sem-token', 'a new semaphore starts within its maximum')
        if cn is not None:
            for X in eng._assume(T.copy(), ('ge', b - a), True): eng.ob(X.st.entails_eq(cn[1] - a), 'sem-token', 'a new semaphore starts with the given count', X, where=loc, fn=nm)
        ob('minit:sem.mutex+0' in T.mon and 'cinit:sem.cond+0' in T.mon, 'sem-init', 'mutex and condition are initialised')
        leak(eng, T, loc, nm)
    sp.exist(rets, 'sem-init', loc, nm, 'never returns')
    sp.absorb(eng, nm, len(rets))
def init_ev(sp):
    eng = sp.engine(); S = State()
    fn = sp.mod.find(U + 'InitUnixEvent(CubicleSoft::Sync::Util::UnixEventWrapper&, bool, bool, bool)')
    y = Sync(eng, S); w = obj(eng, S, EVW, 'wrapper'); s = mk_event(eng, S, y, w, 0, 'ev'); S.mon['init'] = True
    S.w(s['manual'].r).cells.pop(0, None)
    a, b = V(newvar('Manual', 0, 1)), V(newvar('Signaled', 0, 1))
    rets = eng.call(S, fn, [w, CondV(('eq', V(newvar('sh', 0, 1)))), CondV(('eq', a - 1)), CondV(('eq', b - 1))])
    loc = sp.mod.loc_fn(fn); nm = U + 'InitUnixEvent'
    for T, r in final(eng, rets):
        def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
        g = lambda k: (T.mem[s[k].r].cells.get(0) or (0, None))[1]
        ob(isinstance(g('manual'), Lin) and T.st.entails_eq(g('manual') - a), 'event-init', 'a new event has the requested kind')
        ob(isinstance(g('signaled'), Lin) and T.st.entails_eq(g('signaled') - b), 'event-init', 'a new event has the requested state')
        ob(isinstance(g('waiting'), Lin) and T.st.entails_eq(g('waiting')), 'event-init', 'a new event has no waiters')
        ob('minit:ev.mutex+0' in T.mon and 'cinit:ev.cond+0' in T.mon, 'event-init', 'mutex and condition are initialised')
    sp.exist(rets, 'event-init', loc, nm, 'never returns')
    sp.absorb(eng, nm, len(rets))

def util_cases(pid):
    only = GROUPS[pid]
    out = []
    for c in (None, 'made', 'no'):
        if c == 'no' and pid != 'C23': continue
        x = '' if c is None else ' (class)' if c == 'made' else ' (class, not created)'
        out += [Case('sem wait %s' % w + x, sem_wait(w, c), only=only) for w in (0, 'some', 'inf')]
        out += [Case('event wait %s manual=%d' % (w, m) + x, ev_wait(w, m, c), only=only) for w in (0, 'some', 'inf') for m in (0, 1)]
        if pid != 'C24':
            out += [Case('sem release prev=%s' % p + x, sem_release(p, c), only=only) for p in (False, True)]
            out += [Case('%s manual=%d' % (k, m) + x, ev_fire(k, m, c), only=only) for k in ('FireUnixEvent', 'ResetUnixEvent') for m in (0, 1)]
    if pid == 'C23': out += [Case('init semaphore', init_sem, only=only), Case('init event', init_ev, only=only)]
    return out
