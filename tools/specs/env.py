"""C33: time, process and thread are reported as the system has them."""
from spec import *
import models

def now(fails):
    def f(sp, sig):
        eng = sp.engine(); S = State(); S.mon['t'] = None; S.mon['failed'] = False
        fn = sp.mod.find(sig); loc = sp.mod.loc_fn(fn); nm = sig.split('(')[0]
        def put(e, T, p, unit):
            if not e.bounds(T, p, C(16), 'OS write'): return False
            s = V(newvar('now.sec', 0, 1 << 40)); n = V(newvar('now.part', 0, unit - 1)); R = T.w(p.r); o = T.st.norm(p.o).c
            R.cells[o] = (8, s); R.cells[o + 8] = (8, n); T.mon['t'] = (s, n, unit)
            return True
        def gtod(e, T, I, a):
            A = T.copy(); A.mon['failed'] = True; models.set_errno(e, A)
            return ([(A, C(-1))] if fails else []) + ([(T, ZERO)] if put(e, T, a[0], 10 ** 6) else [])
        def cg(e, T, I, a):
            k = T.st.norm(a[0]) if isinstance(a[0], Lin) else None
            e.ob(k is not None and k.isconst() and k.c == 0, 'now-clock', 'the time of day is asked for', T)
            A = T.copy(); A.mon['failed'] = True; models.set_errno(e, A)
            return ([(A, C(-1))] if fails else []) + ([(T, ZERO)] if put(e, T, a[1], 10 ** 9) else [])
        def chrono(e, T, I, a):
            s = V(newvar('now.sec', 0, 1 << 33)); n = V(newvar('now.part', 0, 10 ** 9 - 1)); T.mon['t'] = (s, n, 10 ** 9)
            return [(T, s.scale(10 ** 9) + n)]
        eng.models['gettimeofday'] = gtod; eng.models['clock_gettime'] = cg; eng.models['_ZNSt6chrono3_V212system_clock3nowEv'] = chrono
        n = 0
        for T, r in eng.call(S, fn, []):
            n += 1; t = T.mon['t']
            def ob(c, rule, msg): eng.ob(c, rule, msg, T, where=loc, fn=nm)
            if T.mon['failed']: ob(isinstance(r, Lin) and T.st.entails_eq(r), 'now-failed', 'without a time there is no time'); continue
            ok = t is not None and isinstance(r, Lin)
            if ok:
                s, p, u = t; d = (s.scale(u) + p) - r.scale(u // 10 ** 6)
                ok = T.st.entails(d) and T.st.entails(C(u // 10 ** 6 - 1) - d)
            ob(ok, 'now-value', 'the result is the number of microseconds since 1970')
        sp.exist(n, 'now-value', loc, nm, 'returns'); sp.absorb(eng, nm, n)
    return f
def ident(name, bits, what):
    def f(sp, sig):
        eng = sp.engine(); S = State(); v = V(newvar(name, 1, (1 << (bits - 1)) - 1)); fn = sp.mod.find(sig); loc = sp.mod.loc_fn(fn); nm = sig.split('(')[0]; n = 0
        eng.models[name] = lambda e, T, I, a: [(T, v)]
        for T, r in eng.call(S, fn, []):
            n += 1; eng.ob(isinstance(r, Lin) and T.st.entails_eq(r - v), 'ident-value', 'the result is the %s' % what, T, where=loc, fn=nm)
        sp.exist(n, 'ident-value', loc, nm, 'returns'); sp.absorb(eng, nm, n)
    return f
A = 'CubicleSoft::Environment::AppInfo::'; U = 'CubicleSoft::Sync::Util::'
def cases():
    out = []
    for p in (A, U):
        for k in (0, 1): out.append(Case('%sGetUnixMicrosecondTime%s' % (p[13:], ', may fail' if k else ''), lambda sp, p=p, k=k: now(k)(sp, p + 'GetUnixMicrosecondTime()')))
        out.append(Case(p[13:] + 'GetCurrentThreadID', lambda sp, p=p: ident('pthread_self', 64, 'calling thread')(sp, p + 'GetCurrentThreadID()')))
    out.append(Case(A[13:] + 'GetCurrentProcessID', lambda sp: ident('getpid', 32, 'process of the caller')(sp, A + 'GetCurrentProcessID()')))
    return out
PROPS = {'C33': cases}
