"""Models of the C library, OS and compiler intrinsics used by the analysed code."""
from lin import *
from engine import *
import ir

def fresh_int(S, name, bits): return S.s(name, bits)

def rng(S, name, lo, hi): return V(newvar(name, lo, hi))

def errno_ptr(eng, S):
    rid = eng.globals.get('$errno')
    if rid is None:
        import engine
        engine._rid[0] += 1; rid = engine._rid[0]
        eng.globals['$errno'] = rid
        eng.globals[('region', rid)] = Region(rid, 'global', 'errno', C(4))
    if rid not in S.mem: S.mem[rid] = eng.globals[('region', rid)]
    return PtrV(rid, ZERO)
def set_errno(eng, S, v=None):
    p = errno_ptr(eng, S)
    r = S.w(p.r)
    r.cells = {0: (4, v if v is not None else V(newvar('errno', 1, 200)))}

# ------------------------------------------------------------------ strings
def strlen_of(eng, S, p, what='string'):
    """list of (state, Lin length).  Reports an unterminated string."""
    out = []
    for T, q in eng.deref(S, p, 'string read'):
        r = T.mem.get(q.r)
        off = T.st.norm(q.o)
        if eng.bounds(T, q, ONE, 'string read') is None: continue
        r = T.mem.get(q.r)
        if r is None or r.freed: continue
        if r.bytes is not None and off.isconst():
            i = r.bytes.find(b'\0', off.c)
            if i >= 0: out.append((T, C(i - off.c))); continue
        if r.nul is not None:
            n = T.st.norm(r.nul)
            if T.st.entails(n - off): out.append((T, T.st.norm(n - off))); continue
        # exact scan of known bytes
        if off.isconst() and not r.sym:
            i = off.c; hit = None
            while i in r.cells and r.cells[i][0] == 1 and isinstance(r.cells[i][1], Lin):
                v = r.cells[i][1]
                if T.st.norm(v) == NULL: hit = i; break
                if not T.st.entails_ne(v): break
                i += 1
            if hit is not None: out.append((T, C(hit - off.c))); continue
        # some zero byte at or after the start bounds the length
        best = None
        for o, s, v in r.sym:
            if isinstance(v, Lin) and T.st.norm(v) == NULL and T.st.entails(o - off):
                if best is None or T.st.entails(best - o): best = T.st.norm(o)
        for o in sorted(r.cells):
            s, v = r.cells[o]
            if isinstance(v, Lin) and T.st.norm(v) == NULL and T.st.entails(C(o) - off):
                if best is None or T.st.entails(best - o): best = C(o)
        if r.zero and best is None: best = off
        if best is None:
            if 'cstr' in r.tags:
                k = ('strlen', r.rid, r.epoch, off)
                v = eng.memo(T, k, 0, None, 'len')
                try: T.st.ge(r.size - off - v - 1)
                except Infeasible: continue
                out.append((T, v)); continue
            eng.ob(False, 'unterminated', '%s %s is not proven to be NUL terminated' % (what, r.name), T)
            if r.size is None: out.append((T, T.fresh('len', 0, BIGALLOC))); continue
            v = T.fresh('len', 0, None)
            try: T.st.ge(r.size - off - v - 1)
            except Infeasible: continue
            out.append((T, v)); continue
        eng.ob(True, 'unterminated', '', T)
        k = ('strlen', r.rid, r.epoch, off, tuple(sorted(r.cells.items(), key=repr)), r.sym)
        v = eng.memo(T, k, 0, None, 'len')
        c0 = eng.find_cell(T, r, off, 1)
        try:
            T.st.ge(best - off - v)
            if isinstance(c0, Lin) and T.st.entails_ne(c0): T.st.ge(v - 1)
        except Infeasible: continue
        if off == ZERO:
            R = T.w(r.rid); R.nul = v
        out.append((T, v))
    return out

def copy_range(eng, S, d, s, n, what, overlap_ok):
    """memory copy; list of states"""
    n = S.st.norm(n)
    for p, w in ((s, 'read'), (d, 'write')):
        b = eng.bounds(S, p, n, what + ' ' + w)
        if b is None: return []
        if b is False: return []
    rs, rd = S.mem[s.r], S.mem[d.r]
    so, do = S.st.norm(s.o), S.st.norm(d.o)
    if rd.ro: eng.ob(False, 'readonly', 'write to constant data %s' % rd.name, S)
    if s.r == d.r and not overlap_ok:
        dd = do - so
        ok = S.st.entails(dd - n) or S.st.entails(-dd - n) or S.st.entails_eq(dd)
        eng.ob(ok, 'overlap', '%s between overlapping parts of %s' % (what, rs.name), S)
    for h in eng.hooks_copy: h(eng, S, rd, do, rs, so, n)
    # collect the source
    got = []; exact = False; nulrel = None; tail_zero = None
    if n.isconst() and so.isconst() and n.c <= 4096:
        if rs.bytes is not None:
            got = [(i, 1, C(rs.bytes[so.c + i])) for i in range(n.c) if so.c + i < len(rs.bytes)] if n.c <= 64 else []
        else:
            for o, (sz, v) in rs.cells.items():
                if so.c <= o and o + sz <= so.c + n.c: got.append((o - so.c, sz, v))
    elif n.isconst() and n.c <= 64:
        for o, sz, v in rs.sym:
            k = S.st.norm(o) - so
            if k.isconst() and 0 <= k.c and k.c + sz <= n.c: got.append((k.c, sz, v))
    else:
        for o, (sz, v) in rs.cells.items():
            k = C(o) - so
            if S.st.entails(k) and S.st.entails(n - k - sz): got.append((k, sz, v))
        for o, sz, v in rs.sym:
            k = S.st.norm(o) - so
            if S.st.entails(k) and S.st.entails(n - k - sz): got.append((k, sz, v))
    if rs.nul is not None:
        k = S.st.norm(rs.nul) - so
        if S.st.entails(k):
            if S.st.entails(n - k - 1): nulrel = k
    elif rs.bytes is not None and so.isconst():
        i = rs.bytes.find(b'\0', so.c)
        if i >= 0 and S.st.entails(n - (i - so.c) - 1): nulrel = C(i - so.c)
    zero = rs.zero and not rs.cells and not rs.sym
    R = S.w(d.r)
    oldnul = R.nul
    if R.nul is not None:
        m = S.st.norm(R.nul)
        if S.st.entails(do - m - 1): pass
        else: R.nul = None
    eng.kill(S, R, do, n)
    import engine
    engine._epoch[0] += 1; R.epoch = engine._epoch[0]
    if R.zero and not zero: R.zero = False
    for k, sz, v in got:
        o = do + k
        if o.isconst(): R.cells[o.c] = (sz, v)
        elif len(R.sym) < 60: R.sym = R.sym + ((o, sz, v),)
    if nulrel is not None:
        o = do + nulrel
        if o.isconst(): R.cells[o.c] = (1, ZERO)
        elif not any(S.st.norm(x[0]) == o for x in R.sym): R.sym = R.sym + ((o, 1, ZERO),)
        if do == ZERO or (oldnul is not None and S.st.entails_eq(oldnul - do)):
            R.nul = S.st.norm(o)
    return [S]

def m_memcpy(overlap):
    def f(eng, S, I, a):
        if not isinstance(a[2], Lin): return [(S, a[0])]
        out = []
        for T, n in eng.uval(S, a[2], 64):
            if n.isconst() and n.c == 0: out.append((T, a[0])); continue
            if not n.isconst() and not isinstance(a[0], PtrV) or not isinstance(a[1], PtrV):
                # copying nothing from / to NULL
                done = False
                for p in a[:2]:
                    if isinstance(p, Lin) and T.st.norm(p).isconst():
                        ok = T.st.entails(-n)
                        eng.ob(ok, 'null-deref', 'memory copy through a NULL pointer', T)
                        done = True
                if done:
                    if T.st.entails(-n): out.append((T, a[0]))
                    continue
            for T2, d in eng.deref(T, a[0], 'write'):
                for T3, s in eng.deref(T2, a[1], 'read'):
                    for T4 in copy_range(eng, T3, d, s, n, 'memmove' if overlap else 'memcpy', overlap): out.append((T4, a[0]))
        return out
    return f

def m_memset(eng, S, I, a):
    out = []
    v = a[1]
    for T, n in eng.uval(S, a[2], 64):
        if n.isconst() and n.c == 0: out.append((T, a[0])); continue
        for T2, d in eng.deref(T, a[0], 'write'):
            b = eng.bounds(T2, d, n, 'memset write')
            if not b: continue
            R = T2.w(d.r)
            do = T2.st.norm(d.o)
            if R.ro: eng.ob(False, 'readonly', 'write to constant data', T2)
            for h in eng.hooks_fill: h(eng, T2, R, do, n, v)
            if R.nul is not None and not T2.st.entails(do - R.nul - 1): R.nul = None
            vz = isinstance(v, Lin) and T2.st.norm(v) == NULL
            whole = do == ZERO and R.size is not None and T2.st.entails_eq(R.size - n)
            if whole and vz:
                R.cells = {}; R.sym = (); R.zero = True
                if n.isconst() and n.c > 1 and R.kind == 'stack': R.cells[n.c - 1] = (1, ZERO)
                import engine
                engine._epoch[0] += 1; R.epoch = engine._epoch[0]
            else:
                z = R.zero
                eng.kill(T2, R, do, n)
                import engine
                engine._epoch[0] += 1; R.epoch = engine._epoch[0]
                R.zero = False
                if n.isconst() and do.isconst() and n.c <= 256 and isinstance(v, Lin) and T2.st.norm(v).isconst():
                    for i in range(n.c): R.cells[do.c + i] = (1, C(T2.st.norm(v).c & 255))
                    if vz:
                        # wide zero cells are easier to read back
                        i = 0
                        while i + 8 <= n.c and (do.c + i) % 8 == 0:
                            for j in range(8): R.cells.pop(do.c + i + j, None)
                            R.cells[do.c + i] = (8, ZERO); i += 8
            out.append((T2, a[0]))
    return out

def m_ovf(kind):
    def f(eng, S, I, a):
        out = []
        for T, x, y in eng.uval2(S, a[0], a[1], 64):
            if kind == 'add': rs = [(T, x + y)]
            elif y.isconst() or x.isconst():
                k, z = (y, x) if y.isconst() else (x, y)
                rs = [(T, z.scale(k.c))]
            else:
                rs = eng.binop(T, 'mul', x, y, 64)
            for T2, p in rs:
                A = T2.copy()
                for X in eng._assume(A, ('ge', C(M64 - 1) - p), True): out.append((X, AggV([p, ZERO])))
                for X in eng._assume(T2, ('ge', p - M64), True): out.append((X, AggV([X.u('ov', 64), ONE])))
        return out
    return f

def m_strlen(eng, S, I, a): return strlen_of(eng, S, a[0])

def m_strcpy(eng, S, I, a):
    out = []
    for T, n in strlen_of(eng, S, a[1]):
        for T2, d in eng.deref(T, a[0], 'write'):
            for T3, s in eng.deref(T2, a[1], 'read'):
                for T4 in copy_range(eng, T3, d, s, n + 1, 'strcpy', False):
                    # the copy is a string of the same length
                    R = T4.mem[d.r]
                    o = T4.st.norm(d.o + n)
                    if eng.find_cell(T4, R, o, 1) is None:
                        R = T4.w(d.r)
                        if o.isconst(): R.cells[o.c] = (1, ZERO)
                        else: R.sym = R.sym + ((o, 1, ZERO),)
                    if T4.st.norm(d.o) == ZERO and T4.mem[d.r].nul is None:
                        R = T4.w(d.r); R.nul = T4.st.norm(n)
                    out.append((T4, a[0]))
    return out
def m_strcat(eng, S, I, a):
    out = []
    for T, n in strlen_of(eng, S, a[0]):
        out += [(X, a[0]) for X, _ in m_strcpy(eng, T, I, [PtrV(a[0].r, a[0].o + n), a[1]])]
    return out

def lit(eng, S, p):
    r = S.mem.get(p.r) if isinstance(p, PtrV) else None
    if r is not None and r.bytes is not None and S.st.norm(p.o).isconst():
        b = r.bytes[S.st.norm(p.o).c:]
        i = b.find(b'\0')
        return b[:i] if i >= 0 else b
    return None
def known_byte(eng, T, p, i):
    R = T.mem.get(p.r) if isinstance(p, PtrV) else None
    if R is None: return None
    o = T.st.norm(p.o)
    if not o.isconst(): return None
    if R.bytes is not None: return C(R.bytes[o.c + i]) if 0 <= o.c + i < len(R.bytes) else None
    v = eng.find_cell(T, R, C(o.c + i), 1)
    return v if isinstance(v, Lin) else None
def scan(eng, S, p, c, n=None, stop0=False, last=False, limit=96):
    """positions of the byte c in text whose bytes are all known: [(state, index or None, length)] or None"""
    out = []; cur = [(S, None)]; i = 0
    while cur:
        if n is not None and i >= n: out += [(T, h, i) for T, h in cur]; break
        if i > limit or len(cur) + len(out) > 200: return None
        nx = []
        for T, h in cur:
            v = known_byte(eng, T, p, i)
            if v is None: return None
            for X in eng._assume(T.copy(), ('eq', v - c), True):
                if last and c != 0: nx.append((X, i))
                else: out.append((X, i, i))
            for X in eng._assume(T.copy(), ('eq', v - c), False):
                if stop0:
                    for Y in eng._assume(X.copy(), ('eq', v), True): out.append((Y, h, i))
                    nx += [(Y, h) for Y in eng._assume(X, ('eq', v), False)]
                else: nx.append((X, h))
        cur = nx; i += 1
    return out
def compare(eng, S, p, q, n=None, stop0=True, limit=96):
    """comparison of two texts whose bytes are all known: [(state, sign)] or None"""
    out = []; cur = [S]; i = 0
    while cur:
        if n is not None and i >= n: out += [(T, ZERO) for T in cur]; break
        if i > limit or len(cur) + len(out) > 200: return None
        nx = []
        for T in cur:
            u, v = known_byte(eng, T, p, i), known_byte(eng, T, q, i)
            if u is None or v is None: return None
            for sg, df in ((-1, v - u - 1), (1, u - v - 1)):
                try:
                    X = T.copy(); X.st.ge(df)
                    if X.st.feasible(): out.append((X, C(sg)))
                except Infeasible: pass
            for X in eng._assume(T, ('eq', u - v), True):
                if stop0:
                    out += [(Y, ZERO) for Y in eng._assume(X.copy(), ('eq', u), True)]; nx += eng._assume(X, ('eq', u), False)
                else: nx.append(X)
        cur = nx; i += 1
    return out
def taint(eng, S, name):
    """what follows rests on a function nothing is known about: no alarm is raised from there on"""
    eng.unknown_calls.add(str(name)); S.mon['$taint'] = True
def m_strncmp(eng, S, I, a):
    out = []
    for T, n in eng.uval(S, a[2], 64):
        r = compare(eng, T, a[0], a[1], n.c) if n.isconst() else None
        if r is None: v = T.s('cmp', 32); taint(eng, T, 'strncmp'); r = [(T, v)]
        out += r
    return out
def m_strnlen(eng, S, I, a):
    out = []
    for T, n in eng.uval(S, a[1], 64):
        r = scan(eng, T, a[0], 0, n.c) if n.isconst() else None
        if r is not None: out += [(X, C(i)) for X, h, i in r]; continue
        R = T.mem.get(a[0].r) if isinstance(a[0], PtrV) else None
        if R is not None and R.nul is not None:
            for X, l in strlen_of(eng, T, a[0]):
                out += minmax(eng, X, l, n)
            continue
        for X, d in eng.deref(T, a[0], 'read'):
            v = V(newvar('strnlen', 0, None)); X.st.ge(n - v); taint(eng, X, 'strnlen'); out.append((X, v))
    return out
def minmax(eng, S, l, n):
    out = []
    for c, v in ((n - l, l), (l - n - 1, n)):
        try:
            X = S.copy(); X.st.ge(c)
            if X.st.feasible(): out.append((X, X.st.norm(v)))
        except Infeasible: pass
    return out
def m_stpcpy(eng, S, I, a):
    return [(Y, PtrV(a[0].r, a[0].o + n)) for T, n in strlen_of(eng, S, a[1]) for Y, _ in m_strcpy(eng, T, I, a)]
def m_mempcpy(eng, S, I, a):
    return [(T, PtrV(a[0].r, a[0].o + a[2])) for T, _ in m_memcpy(False)(eng, S, I, a)]
def m_bzero(eng, S, I, a): return m_memset(eng, S, I, [a[0], ZERO, a[1]])
def m_ctype(*ranges, **kw):
    def f(eng, S, I, a):
        out = []; cur = [S]
        for lo, hi in ranges:
            nx = []
            for T in cur:
                for v, c in ((1, [a[0] - lo, C(hi) - a[0]]), (0, [C(lo - 1) - a[0]]), (0, [a[0] - hi - 1])):
                    try:
                        X = T.copy()
                        for k in c: X.st.ge(k)
                        if not X.st.feasible(): continue
                    except Infeasible: continue
                    if v: out.append((X, a[0] + kw['add'] if 'add' in kw else C(1)))
                    else: nx.append(X)
            cur = nx
        return out + [(T, a[0] if 'add' in kw else ZERO) for T in cur]
    def g(eng, S, I, a):
        out = []
        for T, x in eng.sval(S, a[0], 32): out += f(eng, T, I, [x])
        return out
    return g
def m_abs(w):
    def f(eng, S, I, a):
        out = []
        for T, x in eng.sval(S, a[0], w):
            for c, v in ((x, x), (-x - 1, -x)):
                try:
                    X = T.copy(); X.st.ge(c)
                    if X.st.feasible(): out.append((X, X.st.norm(v)))
                except Infeasible: pass
        return out
    return f
def m_strcmp(eng, S, I, a):
    r = compare(eng, S, a[0], a[1])
    return m_strcmp0(eng, S, I, a) if r is None else r
def m_strcmp0(eng, S, I, a):
    """comparison with a short literal is decided byte by byte, otherwise unknown"""
    la, lb = lit(eng, S, a[0]), lit(eng, S, a[1])
    if la is None and lb is None or (la is not None and lb is not None):
        if la is not None: return [(S, C((la > lb) - (la < lb)))]
        out = []
        for T, n in strlen_of(eng, S, a[0]):
            for T2, m in strlen_of(eng, T, a[1]):
                A = T2.copy()
                try:
                    A.st.eq(n - m); out.append((A, ZERO))
                except Infeasible: pass
                v = T2.s('cmp', 32)
                T2.st.neq(v); out.append((T2, v))
        return out
    L = la if la is not None else lb
    p = a[1] if la is not None else a[0]
    sgn = -1 if la is not None else 1
    out = []
    if len(L) > 8:
        for T, n in strlen_of(eng, S, p):
            A = T.copy()
            try:
                A.st.eq(n - len(L)); out.append((A, ZERO))
            except Infeasible: pass
            v = T.s('cmp', 32); T.st.neq(v); out.append((T, v))
        return out
    cur = [S]
    for i in range(len(L) + 1):
        want = L[i] if i < len(L) else 0
        nxt = []
        for T in cur:
            for T1, q in eng.deref(T, p, 'read'):
                for T2, v in eng.load(T1, PtrV(q.r, q.o + i), ir.IntTy(8)):
                    if not isinstance(v, Lin): v = T2.u('ch', 8)
                    for X in eng._assume(T2.copy(), ('eq', v - want), True): nxt.append(X)
                    for X in eng._assume(T2, ('eq', v - want), False):
                        d = X.s('cmp', 32)
                        X.st.neq(d); out.append((X, d))
        cur = nxt
    return out + [(T, ZERO) for T in cur]

def m_memcmp(eng, S, I, a):
    out = []
    for T, n in eng.uval(S, a[2], 64):
        if n.isconst() and n.c == 0: out.append((T, ZERO)); continue
        for T2, d in eng.deref(T, a[0], 'read'):
            if not eng.bounds(T2, d, n, 'memcmp read'): continue
            for T3, s in eng.deref(T2, a[1], 'read'):
                if not eng.bounds(T3, s, n, 'memcmp read'): continue
                r = compare(eng, T3, d, s, n.c, False) if n.isconst() else None
                if r is not None: out += r; continue
                if n.isconst() and n.c <= 8:
                    # decide byte by byte
                    cur = [T3]
                    for i in range(n.c):
                        nx = []
                        for X in cur:
                            for X1, u in eng.load(X, PtrV(d.r, d.o + i), ir.IntTy(8)):
                                for X2, w in eng.load(X1, PtrV(s.r, s.o + i), ir.IntTy(8)):
                                    if not isinstance(u, Lin) or not isinstance(w, Lin):
                                        nx.append(X2.copy()); out.append((X2, rng(X2, 'cmp', 1, 255))); continue
                                    for Y in eng._assume(X2.copy(), ('eq', u - w), True): nx.append(Y)
                                    for Y in eng._assume(X2, ('eq', u - w), False):
                                        v = Y.s('cmp', 32); Y.st.neq(v); out.append((Y, v))
                        cur = nx
                    out += [(X, ZERO) for X in cur]
                    continue
                out.append((T3, T3.s('cmp', 32)))
    return out
def m_memchr(eng, S, I, a):
    out = []
    for T, n in eng.uval(S, a[2], 64):
        for T2, d in eng.deref(T, a[0], 'read'):
            if not eng.bounds(T2, d, n, 'memchr read'): continue
            r = scan(eng, T2, d, a[1].c & 255, n.c) if n.isconst() and isinstance(a[1], Lin) and a[1].isconst() else None
            if r is not None: out += [(X, NULL if h is None else PtrV(d.r, d.o + h)) for X, h, i in r]; continue
            A = T2.copy()
            out.append((T2, NULL))
            k = V(newvar('hit', 0, None))
            try:
                A.st.ge(n - k - 1)
                if A.st.feasible(n.vars() + k.vars()): out.append((A, PtrV(d.r, d.o + k)))
            except Infeasible: pass
    return out
def m_strchr(eng, S, I, a, last=False):
    out = []
    if isinstance(a[1], Lin) and a[1].isconst():
        c = a[1].c & 255; r = scan(eng, S, a[0], c, None, True, last)
        if r is not None:
            out += [(X, NULL if h is None else PtrV(a[0].r, a[0].o + h)) for X, h, i in r]
            return out
    for T, n in strlen_of(eng, S, a[0]):
        A = T.copy(); out.append((T, NULL))
        k = V(newvar('hit', 0, None))
        try:
            A.st.ge(n - k); out.append((A, PtrV(a[0].r, a[0].o + k)))
        except Infeasible: pass
    return out

# ------------------------------------------------------------------ allocation
def alloc(eng, S, n, name, null, zero=False):
    out = []
    ok = S.copy() if null else S
    if null: out.append((S, NULL))
    try:
        ok.st.ge(C(BIGALLOC) - n)
        if n.t and not ok.st.feasible(n.vars()): return out
    except Infeasible: return out
    r = ok.new_region('heap', name, n)
    r.zero = zero
    eng.event(ok, 'alloc', r)
    out.append((ok, PtrV(r.rid, ZERO)))
    return out
def m_new(arr):
    def f(eng, S, I, a):
        out = []
        for T, n in eng.uval(S, a[0], 64): out += alloc(eng, T, n, 'heap', False)
        for T, p in out: T.w(p.r).tags = dict(T.mem[p.r].tags, by='new[]' if arr else 'new')
        return out
    return f
def m_malloc(eng, S, I, a):
    out = []
    for T, n in eng.uval(S, a[0], 64): out += alloc(eng, T, n, 'heap', True)
    for T, p in out:
        if isinstance(p, PtrV): T.w(p.r).tags = dict(T.mem[p.r].tags, by='malloc')
    return out
def m_calloc(eng, S, I, a):
    out = []
    for T, m in eng.binop(S, 'mul', a[0], a[1], 128):
        for T2, n in [(T, m)]: out += alloc(eng, T2, n, 'heap', True, True)
    for T, p in out:
        if isinstance(p, PtrV): T.w(p.r).tags = dict(T.mem[p.r].tags, by='malloc')
    return out
def release(eng, S, p, by):
    """list of states"""
    if isinstance(p, Lin): return [S]
    if not isinstance(p, PtrV):
        if isinstance(p, (SegV, tuple)):
            out = []
            for T, q in eng.deref(S, p, 'release'): out += release(eng, T, q, by)
            return out
        eng.ob(False, 'bad-free', 'release of an unknown pointer', S); return [S]
    r = S.mem.get(p.r)
    if r is None or r.freed:
        eng.ob(False, 'double-free', '%s is released twice' % (r.name if r else 'object'), S); return []
    ok = r.kind == 'heap' and S.st.entails_eq(p.o)
    eng.ob(ok, 'bad-free', 'release of %s which is not the start of an owned allocation' % r.name, S)
    if ok and r.tags.get('by') not in (None, by):
        eng.ob(False, 'bad-free', 'memory from %s is released with %s' % (r.tags.get('by'), {'malloc': 'free', 'new': 'delete', 'new[]': 'delete[]'}[by]), S)
    eng.event(S, 'free', r)
    R = S.w(p.r); R.freed = True; R.cells = {}; R.sym = (); R.nul = None
    return [S]
def m_release(by):
    def f(eng, S, I, a): return [(T, None) for T in release(eng, S, a[0], by)]
    return f
def m_realloc(eng, S, I, a):
    out = []
    for T, n in eng.uval(S, a[1], 64):
        p = a[0]
        if isinstance(p, Lin):
            out += m_malloc(eng, T, I, [n]); continue
        for X, q in alloc(eng, T, n, 'heap', True):
            if isinstance(q, PtrV):
                r = X.mem.get(p.r)
                if r is None or r.freed:
                    eng.ob(False, 'use-after-free', 'realloc of released memory', X); continue
                eng.ob(r.kind == 'heap' and X.st.entails_eq(p.o), 'bad-free', 'realloc of something that is not an allocation', X)
                if r.tags.get('by') not in (None, 'malloc'): eng.ob(False, 'bad-free', 'realloc of memory from %s' % r.tags.get('by'), X)
                N = X.w(q.r)
                N.tags = dict(r.tags, by='malloc')
                keep = lambda o, s: X.st.entails(n - o - s)
                N.cells = {o: c for o, c in r.cells.items() if keep(C(o), c[0])}
                N.sym = tuple(c for c in r.sym if keep(c[0], c[1]))
                if r.nul is not None and keep(r.nul, 1): N.nul = r.nul
                N.epoch = r.epoch
                eng.event(X, 'realloc', (r, N))
                O = X.w(p.r); O.freed = True; O.cells = {}; O.sym = ()
            out.append((X, q))
    return out

# ------------------------------------------------------------------ formatted output
FMT = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcsfFgGeEp%])')
def fmt_len(eng, S, fmt, args):
    """(min,max) Lin bounds of the output length, None if unknown"""
    lo = C(0); hi = C(0); i = 0; pos = 0
    for m in FMT.finditer(fmt):
        k = m.start() - pos; lo = lo + k; hi = None if hi is None else hi + k; pos = m.end()
        fl, wd, pr, ln, cv = m.groups()
        if cv == b'%': lo = lo + 1; hi = None if hi is None else hi + 1; continue
        W = 0
        if wd == b'*': i += 1; W = None
        elif wd: W = int(wd)
        P = None; pstar = False
        if pr == b'*': i += 1; pstar = True
        elif pr is not None: P = int(pr)
        i += 1
        if cv in b'diouxX':
            h = {None: 11, b'l': 20, b'll': 20, b'z': 20, b'j': 20, b'h': 6, b'hh': 4}.get(ln, 20)
            if cv in b'oxX': h = 24
            if pstar or W is None: hi = None
            else: hi = None if hi is None else hi + max(h, W, (P or 0) + 1)
            lo = lo + max(1, W or 0)
        elif cv == b'c': lo = lo + 1; hi = None if hi is None else hi + max(1, W or 0)
        else: hi = None; lo = lo + (1 if cv in b'fFgGeE' else 0)
    k = len(fmt) - pos
    return lo + k, (None if hi is None else hi + k)
def known_digits(S, E, cv):
    """text of a number whose digits are known, or None"""
    if not isinstance(E, Lin): return None
    v = S.st.norm(E)
    if v.isconst():
        n = v.c % (1 << 64)
        if cv in b'di' and n >> 63: n -= 1 << 64
        return [C(x) for x in {b'o': b'%o', b'x': b'%x', b'X': b'%X'}.get(cv, b'%d') % n]
    for num, ds, R in S.mon.get('$digits', ()):
        if R != {b'o': 8, b'x': 16, b'X': 16}.get(cv, 10): continue
        for neg in ((False, True) if cv in b'di' else (False,)):
            d = E + num if neg else E - num
            if not any(S.st.entails_eq(d + k) for k in (0, 1 << 64, -(1 << 64))): continue
            if neg and not S.st.entails(num - 1): continue
            if cv in b'di' and not S.st.entails(C((1 << 63) - (0 if neg else 1)) - num): continue
            out = [C(45)] if neg else []
            for x in reversed(ds):
                if S.st.entails(C(9) - x): out.append(x + 48)
                elif S.st.entails(x - 10): out.append(x + (87 if cv == b'x' else 55))
                else: return None
            return out
    return None
def fmt_text(S, fmt, args):
    """the exact output of plain integer conversions of constants and of numbers with known digits, or None"""
    out = []; pos = 0; i = 0
    if fmt is None: return None
    for m in FMT.finditer(fmt):
        out += [C(x) for x in fmt[pos:m.start()]]; pos = m.end(); fl, wd, pr, ln, cv = m.groups()
        if cv == b'%': out.append(C(37)); continue
        if fl or wd or pr is not None or cv not in b'diuoxX' or i >= len(args) or not isinstance(args[i], Lin): return None
        v = S.st.norm(args[i]); i += 1
        w = 64 if ln in (b'l', b'll', b'z', b'j') else 32 if ln is None else 0
        if not w: return None
        if v.isconst():
            n = v.c % (1 << w)
            if cv in b'di' and n >> (w - 1): n -= 1 << w
            out += known_digits(S, C(n), cv)
        else:
            t = known_digits(S, v, cv) if w == 64 else None
            if t is None: return None
            out += t
    if b'%' in FMT.sub(b'', fmt): return None
    return out + [C(x) for x in fmt[pos:]]
def put_text(eng, X, d, t):
    eng.havoc(X, d, C(len(t) + 1)); o = X.st.norm(d.o)
    if not o.isconst(): return False
    R = X.w(d.r)
    for k, b in enumerate(t + [ZERO]): R.cells[o.c + k] = (1, b)
    if o.c == 0: R.nul = C(len(t))
    return True
def m_snprintf(eng, S, I, a):
    out = []
    f = lit(eng, S, a[2])
    t = fmt_text(S, f, a[3:]); n = S.st.norm(a[1]) if isinstance(a[1], Lin) else None
    if t is not None and n is not None and n.isconst() and n.c > 0:
        for T, d in eng.deref(S, a[0], 'write'):
            if eng.bounds(T, d, n, 'snprintf write') and T.st.norm(d.o).isconst() and put_text(eng, T, d, t[:n.c - 1]): out.append((T, C(len(t))))
            else: break
        else: return out
        out = []
    for T, n in eng.uval(S, a[1], 64):
        lo, hi = fmt_len(eng, T, f, a[3:]) if f is not None else (C(0), None)
        L = V(newvar('fmtlen', 0, (1 << 31) - 1))
        T.st.ge(L - lo)
        if hi is not None: T.st.ge(hi - L)
        if n.isconst() and n.c == 0: out.append((T, L)); continue
        for T2, d in eng.deref(T, a[0], 'write'):
            if not eng.bounds(T2, d, n, 'snprintf write'): continue
            A = T2.copy()
            for X, full in ((T2, False), (A, True)):
                try:
                    X.st.ge(n - L - 1) if not full else X.st.ge(L - n)
                    if not X.st.feasible(L.vars() + n.vars()): continue
                except Infeasible: continue
                e = L if not full else n - 1
                eng.havoc(X, d, n)
                R = X.w(d.r)
                o = X.st.norm(d.o + e)
                if o.isconst(): R.cells[o.c] = (1, ZERO)
                else: R.sym = R.sym + ((o, 1, ZERO),)
                if X.st.norm(d.o) == ZERO: R.nul = X.st.norm(e)
                out.append((X, L))
    return out
def m_sprintf(eng, S, I, a):
    f = lit(eng, S, a[1])
    t = fmt_text(S, f, a[2:])
    if t is not None:
        out = []
        for T, d in eng.deref(S, a[0], 'write'):
            if eng.bounds(T, d, C(len(t) + 1), 'sprintf write') and T.st.norm(d.o).isconst() and put_text(eng, T, d, t): out.append((T, C(len(t))))
            else: break
        else: return out
    lo, hi = fmt_len(eng, S, f, a[2:]) if f is not None else (C(0), None)
    L = V(newvar('fmtlen', 0, (1 << 31) - 1))
    S.st.ge(L - lo)
    if hi is not None: S.st.ge(hi - L)
    out = []
    for T, d in eng.deref(S, a[0], 'write'):
        if not eng.bounds(T, d, L + 1, 'sprintf write'): continue
        eng.havoc(T, d, L + 1)
        R = T.w(d.r)
        o = T.st.norm(d.o + L)
        if o.isconst(): R.cells[o.c] = (1, ZERO)
        else: R.sym = R.sym + ((o, 1, ZERO),)
        if T.st.norm(d.o) == ZERO: R.nul = T.st.norm(L)
        out.append((T, L))
    return out

# ------------------------------------------------------------------ generic OS call: int result, -1 with errno on failure
def m_int(ok_lo=0, ok_hi=0, fail=True, out_args=(), need_str=()):
    def f(eng, S, I, a):
        res = []
        cur = [S]
        for i in need_str:
            if i < len(a):
                nx = []
                for T in cur: nx += [X for X, n in strlen_of(eng, T, a[i], 'argument')]
                cur = nx
        for S in cur:
            if fail:
                A = S.copy(); set_errno(eng, A); res.append((A, C(-1)))
            for i, sz in out_args:
                if isinstance(a[i], PtrV):
                    if not eng.bounds(S, a[i], C(sz), 'OS write'): return res
                    eng.havoc(S, a[i], C(sz))
            res.append((S, C(ok_lo) if ok_lo == ok_hi else V(newvar('ret', ok_lo, ok_hi))))
        return res
    return f
def m_zero(eng, S, I, a): return [(S, ZERO)]
def m_void(eng, S, I, a): return [(S, None)]
def m_errno(eng, S, I, a): return [(S, errno_ptr(eng, S))]

def m_getenv(eng, S, I, a):
    A = S.copy()
    r = S.new_region('env', 'getenv()', None)
    n = V(newvar('envlen', 0, 1 << 31)); r.nul = n; r.size = n + 1
    return [(A, NULL), (S, PtrV(r.rid, ZERO))]
def m_getcwd(eng, S, I, a):
    out = []
    A = S.copy(); set_errno(eng, A); out.append((A, NULL))
    for T, n in eng.uval(S, a[1], 64):
        for T2, d in eng.deref(T, a[0], 'write'):
            if not eng.bounds(T2, d, n, 'getcwd write'): continue
            eng.havoc(T2, d, n)
            L = V(newvar('cwdlen', 1, None))
            try:
                T2.st.ge(n - L - 1)
                if not T2.st.feasible(L.vars() + n.vars()): continue
            except Infeasible: continue
            R = T2.w(d.r); o = T2.st.norm(d.o + L)
            if o.isconst(): R.cells[o.c] = (1, ZERO)
            else: R.sym = R.sym + ((o, 1, ZERO),)
            if T2.st.norm(d.o) == ZERO: R.nul = T2.st.norm(L)
            out.append((T2, a[0]))
    return out
def m_readlink(eng, S, I, a):
    """returns the number of bytes placed in the buffer, not terminated"""
    out = []
    A = S.copy(); set_errno(eng, A); out.append((A, C(-1)))
    for T, n in eng.uval(S, a[2], 64):
        for T2, d in eng.deref(T, a[1], 'write'):
            if not eng.bounds(T2, d, n, 'readlink write'): continue
            eng.havoc(T2, d, n)
            L = V(newvar('linklen', 0, None))
            try: T2.st.ge(n - L)
            except Infeasible: continue
            out.append((T2, L))
    return out
def m_realpath(eng, S, I, a):
    out = []
    A = S.copy(); set_errno(eng, A); out.append((A, NULL))
    L = V(newvar('rplen', 1, 4095))
    if isinstance(a[1], PtrV):
        if eng.bounds(S, a[1], C(4096), 'realpath write'):
            eng.havoc(S, a[1], C(4096))
            R = S.w(a[1].r); o = S.st.norm(a[1].o + L)
            if o.isconst(): R.cells[o.c] = (1, ZERO)
            else: R.sym = R.sym + ((o, 1, ZERO),)
            if S.st.norm(a[1].o) == ZERO: R.nul = L
            out.append((S, a[1]))
        return out
    r = S.new_region('heap', 'realpath()', L + 1); r.nul = L; r.tags = {'by': 'malloc'}
    eng.event(S, 'alloc', r)
    out.append((S, PtrV(r.rid, ZERO)))
    return out
def cstr_region(S, name, lo=0, hi=1 << 31, kind='os'):
    r = S.new_region(kind, name, None)
    n = V(newvar(name + '.len', lo, hi)); r.nul = n; r.size = n + 1
    return PtrV(r.rid, ZERO)
def m_passwd(eng, S, I, a):
    A = S.copy()
    r = S.new_region('os', 'passwd', 48)
    for o in (0, 8, 24, 32, 40):
        r.cells[o] = (8, cstr_region(S, 'pw.%d' % o))
    return [(A, NULL), (S, PtrV(r.rid, ZERO))]
def m_group(eng, S, I, a):
    A = S.copy()
    r = S.new_region('os', 'group', 32)
    return [(A, NULL), (S, PtrV(r.rid, ZERO))]
def m_time(argi, kind):
    def f(eng, S, I, a):
        p = a[argi]
        if isinstance(p, PtrV):
            if not eng.bounds(S, p, C(16), 'OS write'): return []
            eng.havoc(S, p, C(16))
            R = S.w(p.r)
            o = S.st.norm(p.o)
            if o.isconst():
                R.cells[o.c] = (8, V(newvar('now.sec', 0, 1 << 40)))
                R.cells[o.c + 8] = (8, V(newvar('now.frac', 0, 999999 if kind == 'us' else 999999999)))
        return [(S, ZERO)]
    return f

def m_rw(write):
    """read/write: -1 or 0..n"""
    def f(eng, S, I, a):
        out = []
        for T, n in eng.uval(S, a[2], 64):
            if not (n.isconst() and n.c == 0):
                for T2, d in eng.deref(T, a[1], 'read' if write else 'write'):
                    if not eng.bounds(T2, d, n, 'write() source' if write else 'read() target'): continue
                    A = T2.copy(); set_errno(eng, A); out.append((A, C(-1)))
                    if not write: eng.havoc(T2, d, n)
                    L = V(newvar('xfer', 0, None))
                    try: T2.st.ge(n - L)
                    except Infeasible: continue
                    out.append((T2, L))
            else: out.append((T, ZERO))
        return out
    return f

import re
EFFECT = re.compile(r'^(remove|unlinkat|renameat|renameat2|truncate|truncate64|kill|raise|system|exec\w*|fork|vfork|creat|creat64|openat|openat64|link|linkat|symlinkat|fchmodat|fchownat|lockf|fcntl|fcntl64|dup|dup2|dup3|sleep|nanosleep|abort|exit|_exit|__assert_fail|f?printf|puts|rand|random|srand|time|pthread_\w+|sem_\w+|sched_\w+|shm_unlink|mmap64?|mprotect|mlock)$')
def m_unknown(eng, S, I, a, name, target):
    """unmodelled external: may write anything reachable through its arguments"""
    eng.unknown_calls.add(str(name))
    if not EFFECT.match(str(name)): S.mon['$taint'] = True
    for x in a:
        if isinstance(x, PtrV) and x.r in S.mem and not S.mem[x.r].ro and S.mem[x.r].kind != 'env': eng.havoc(S, x)
    ty = I.ty
    if ty is None or ty.k == 'void': return [(S, None)]
    if ty.k == 'int': return [(S, S.u('ext', ty.bits))]
    if ty.k == 'fp': return [(S, FpV(opaque('fp')))]
    return [(S, TOP)]

def m_isfp(eng, S, I, a):
    k = fp_cls(S, a[0]); mk = a[1].c if isinstance(a[1], Lin) and a[1].isconst() else None
    if k is not None and mk is not None:
        b = {'nan': 3, 'inf': 516 if not k[1] else 512 if k[1] > 0 else 4, 'fin': 504}.get(k[0], 504)
        if mk & b in (0, b): return [(S, CondV(('const', bool(mk & b))))]
    return [(S, CondV(('opq', ('fpclass', a[0], repr(a[1])))))]
def m_fabs(eng, S, I, a):
    k = fp_cls(S, a[0])
    if k is None: return [(S, FpV(opaque('fp')))]
    return [(S, fp_new(S, ('inf', 1) if k[0] == 'inf' else ('c', abs(k[1])) if k[0] == 'c' else k))]
def m_fpval(eng, S, I, a): return [(S, FpV(opaque('fp')))]

def register(eng):
    m = eng.models
    m['llvm.memcpy'] = m_memcpy(False); m['llvm.memmove'] = m_memcpy(True); m['memcpy'] = m['llvm.memcpy']; m['memmove'] = m['llvm.memmove']
    m['llvm.memset'] = m_memset; m['memset'] = m_memset
    m['llvm.umul.with.overflow'] = m_ovf('mul'); m['llvm.uadd.with.overflow'] = m_ovf('add')
    m['llvm.dbg'] = m_void; m['llvm.lifetime'] = m_void; m['llvm.stacksave'] = lambda e, S, I, a: [(S, TOP)]; m['llvm.stackrestore'] = m_void
    m['llvm.is.fpclass'] = m_isfp; m['llvm.fabs'] = m_fabs; m['fabs'] = m_fabs; m['llvm.fmuladd'] = m_fpval; m['llvm.assume'] = m_void; m['llvm.expect'] = lambda e, S, I, a: [(S, a[0])]
    def m_minmax(lo, sg):
        def f(eng, S, I, a):
            out = []
            for T, c in eng.icmp(S, ('s' if sg else 'u') + ('lt' if lo else 'gt'), a[0], a[1], I.ty):
                out += [(X, a[0]) for X in eng.assume(T.copy(), c, True)] + [(X, a[1]) for X in eng.assume(T, c, False)]
            return out
        return f
    m['llvm.umin'] = m_minmax(True, False); m['llvm.umax'] = m_minmax(False, False); m['llvm.smin'] = m_minmax(True, True); m['llvm.smax'] = m_minmax(False, True)
    m['strlen'] = m_strlen; m['wcslen'] = m_wcslen; m['strcpy'] = m_strcpy; m['strcmp'] = m_strcmp; m['memcmp'] = m_memcmp; m['memchr'] = m_memchr; m['strchr'] = m_strchr; m['strrchr'] = lambda e, S, I, a: m_strchr(e, S, I, a, True); m['strncmp'] = m_strncmp; m['strnlen'] = m_strnlen; m['stpcpy'] = m_stpcpy; m['mempcpy'] = m_mempcpy; m['bzero'] = m_bzero; m['explicit_bzero'] = m_bzero
    for n, r in (('isdigit', ((48, 57),)), ('isxdigit', ((48, 57), (65, 70), (97, 102))), ('isupper', ((65, 90),)), ('islower', ((97, 122),)), ('isalpha', ((65, 90), (97, 122))), ('isalnum', ((48, 57), (65, 90), (97, 122))), ('isspace', ((9, 13), (32, 32))), ('iscntrl', ((0, 31), (127, 127)))): m[n] = m_ctype(*r)
    m['toupper'] = m_ctype((97, 122), add=-32); m['tolower'] = m_ctype((65, 90), add=32); m['abs'] = m_abs(32); m['labs'] = m_abs(64); m['llabs'] = m_abs(64)
    m['bcmp'] = m_memcmp; m['strcat'] = m_strcat
    m['malloc'] = m_malloc; m['calloc'] = m_calloc; m['realloc'] = m_realloc; m['free'] = m_release('malloc')
    m['_Znwm'] = m_new(False); m['_Znam'] = m_new(True)
    for n in ('_ZdlPv', '_ZdlPvm'): m[n] = m_release('new')
    for n in ('_ZdaPv', '_ZdaPvm'): m[n] = m_release('new[]')
    m['snprintf'] = m_snprintf; m['sprintf'] = m_sprintf
    m['__errno_location'] = m_errno
    m['getenv'] = m_getenv; m['getcwd'] = m_getcwd; m['readlink'] = m_readlink; m['realpath'] = m_realpath
    m['getpwuid'] = m_passwd; m['getpwnam'] = m_passwd; m['getgrnam'] = m_group
    m['getuid'] = lambda e, S, I, a: [(S, S.u('uid', 32))]; m['getpid'] = lambda e, S, I, a: [(S, V(newvar('pid', 1, 1 << 22)))]
    m['pthread_self'] = lambda e, S, I, a: [(S, e.self_thread(S))]
    m['clock_gettime'] = m_time(1, 'ns'); m['gettimeofday'] = m_time(0, 'us')
    m['read'] = m_rw(False); m['write'] = m_rw(True)
    big = (1 << 31) - 1
    m['open'] = m_int(0, big, need_str=(0,)); m['close'] = m_int()
    m['lseek64'] = m_int(0, (1 << 63) - 1); m['lseek'] = m['lseek64']
    m['fstat'] = m_int(out_args=((1, 144),)); m['stat'] = m_int(out_args=((1, 144),), need_str=(0,)); m['lstat'] = m['stat']
    m['flock'] = m_int(); m['rename'] = m_int(need_str=(0, 1)); m['unlink'] = m_int(need_str=(0,)); m['rmdir'] = m_int(need_str=(0,)); m['mkdir'] = m_int(need_str=(0,))
    m['chown'] = m_int(need_str=(0,)); m['chmod'] = m_int(need_str=(0,)); m['utime'] = m_int(need_str=(0,)); m['utimes'] = m_int(need_str=(0,)); m['symlink'] = m_int(need_str=(0, 1))
    m['ftruncate'] = m_int(); m['fsync'] = m_int(); m['sync'] = m_void; m['umask'] = m_int(0, 511, False); m['usleep'] = m_int()
    m['munmap'] = m_int(); m['shm_open'] = m_int(0, big, need_str=(0,))
    for n in ('pthread_cond_broadcast', 'pthread_cond_destroy', 'pthread_cond_init', 'pthread_cond_signal', 'pthread_condattr_destroy', 'pthread_condattr_init', 'pthread_condattr_setpshared', 'pthread_mutex_destroy', 'pthread_mutex_init', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutexattr_destroy', 'pthread_mutexattr_init', 'pthread_mutexattr_setpshared', 'pthread_cond_wait', 'pthread_key_delete', 'pthread_setspecific', 'sched_yield'):
        m[n] = m_zero
    m['pthread_mutex_trylock'] = lambda e, S, I, a: [(S.copy(), ZERO), (S, C(16))]
    m['pthread_cond_timedwait'] = lambda e, S, I, a: [(S.copy(), ZERO), (S, C(110))]
    m['$unknown'] = m_unknown
    m['$indirect'] = m_unknown

def m_wcslen(eng, S, I, a):
    n = eng.memo(S, ('wcslen', repr(a[0])), 0, BIGALLOC // 4, 'wcslen')
    return [(S, n)]
