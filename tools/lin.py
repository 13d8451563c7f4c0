"""Linear expressions and the polyhedral constraint store (exact, LP based)."""
import ctypes, os, subprocess, tempfile, sys
from fractions import Fraction
from math import gcd

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None
def lib():
    global _lib
    if _lib is None:
        src = os.path.join(HERE, 'lp.cpp')
        cands = [os.path.join(HERE, '..', '.build')]
        so = None
        for d in cands:
            try:
                os.makedirs(d, exist_ok=True)
                p = os.path.join(d, 'liblp.so')
                if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
                    t = p + '.%d' % os.getpid()
                    subprocess.run(['g++', '-O2', '-shared', '-fPIC', src, '-o', t, '-lgmpxx', '-lgmp'], check=True)
                    os.replace(t, p)
                so = p
                break
            except OSError:
                continue
        if so is None:
            d = tempfile.mkdtemp(prefix='verif-lp-')
            so = os.path.join(d, 'liblp.so')
            subprocess.run(['g++', '-O2', '-shared', '-fPIC', src, '-o', so, '-lgmpxx', '-lgmp'], check=True)
        _lib = ctypes.CDLL(so)
        _lib.lp_solve.restype = ctypes.c_int
    return _lib

from ir import AnalysisError
import time
DEADLINE = [None]
STOP = [float('inf')]      # end of the whole check
stats = {'lp': 0, 'entail': 0}

# ------------------------------------------------------------------ variables
class VarInfo:
    __slots__ = ('name', 'lo', 'hi')
    def __init__(self, name, lo, hi): self.name = name; self.lo = lo; self.hi = hi

VARS = []
def newvar(name='v', lo=None, hi=None):
    VARS.append(VarInfo(name, lo, hi))
    return len(VARS) - 1

class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(self, c=0, t=()):
        self.c = c; self.t = t; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash((self.c, self.t))
        return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def isconst(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for v, k in o.t:
            n = d.get(v, 0) + k
            if n: d[v] = n
            else: d.pop(v, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + o.scale(-1)
    def __neg__(self): return self.scale(-1)
    def scale(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Lin(self.c * k, tuple((v, a * k) for v, a in self.t))
    def vars(self): return [v for v, _ in self.t]
    def subst(self, m):
        """m: var -> Lin"""
        for v, _ in self.t:
            if v in m: break
        else: return self
        r = Lin(self.c, tuple((v, k) for v, k in self.t if v not in m))
        for v, k in self.t:
            if v in m: r = r + m[v].scale(k)
        return r
    def __repr__(self):
        s = []
        for v, k in self.t:
            n = '%s#%d' % (VARS[v].name, v)
            s.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else '%d*' % abs(k)) + n)
        if self.c or not s: s.append('%+d' % self.c)
        return ''.join(s).lstrip('+')

ZERO = Lin(0); ONE = Lin(1)
_cc = {}
def C(k):
    if -300 < k < 300:
        r = _cc.get(k)
        if r is None: r = _cc[k] = Lin(k)
        return r
    return Lin(k)
def V(v): return Lin(0, ((v, 1),))


class Infeasible(Exception): pass

BIG = 1 << 62
class _Row:
    __slots__ = ('c', 't')
    def __init__(self, c, t): self.c = c; self.t = t
def lp(cons, obj):
    """cons: list of Lin (>=0); obj: Lin or None.  Returns ('inf',) | ('ok',) | ('opt', k) | ('unb',)   minimises"""
    stats['lp'] += 1
    if DEADLINE[0] is not None and not stats['lp'] & 15 and time.time() > DEADLINE[0]: raise AnalysisError('time budget exceeded')
    # coefficients beyond 64 bits: k*v = a*w + b*v with w = 2^32*v; rows that are larger still are left out (a relaxation)
    if any(abs(k) >= BIG for e in cons for _, k in e.t) or any(abs(e.c) >> 120 for e in cons) or (obj is not None and any(abs(k) >= BIG for _, k in obj.t)):
        if obj is not None and any(abs(k) >> 90 for _, k in obj.t): return ('unb',)
        big = set()
        def wide(e):
            t = {}
            for v, k in e.t:
                if abs(k) >= BIG: t[('w', v)] = k >> 32; k &= 0xFFFFFFFF; big.add(v)
                if k: t[v] = t.get(v, 0) + k
            return _Row(e.c, tuple(t.items()))
        cons = [wide(e) for e in cons if not abs(e.c) >> 120 and not any(abs(k) >> 90 for _, k in e.t)]
        if obj is not None: obj = wide(obj)
        for v in big: cons += [_Row(0, ((('w', v), 1), (v, -(1 << 32)))), _Row(0, ((('w', v), -1), (v, 1 << 32)))]
    vs = {}
    for e in cons:
        for v, _ in e.t:
            if v not in vs: vs[v] = len(vs)
    if obj is not None:
        for v, _ in obj.t:
            if v not in vs: vs[v] = len(vs)
    nv = len(vs); m = len(cons)
    A = (ctypes.c_int64 * max(1, nv * m))()
    hi = (ctypes.c_int64 * max(1, m))(); lo = (ctypes.c_uint64 * max(1, m))()
    for i, e in enumerate(cons):
        b = i * nv
        for v, k in e.t: A[b + vs[v]] = k
        hi[i] = e.c >> 64; lo[i] = e.c & 0xFFFFFFFFFFFFFFFF
    O = (ctypes.c_int64 * max(1, nv))()
    if obj is not None:
        for v, k in obj.t: O[vs[v]] = k
    ohi = ctypes.c_int64(); olo = ctypes.c_uint64()
    r = lib().lp_solve(nv, m, A, hi, lo, O, 0 if obj is None else 1, ctypes.byref(ohi), ctypes.byref(olo))
    if r == 0: return ('inf',)
    if obj is None: return ('ok',)
    if r == 2: return ('unb',)
    return ('opt', (ohi.value << 64) + olo.value + obj.c)


class Store:
    """conjunction of linear constraints over integer variables"""
    __slots__ = ('sub', 'cons', 'lo', 'hi', 'ne', 'cache', 'own')
    def __init__(self):
        self.sub = {}; self.cons = {}; self.lo = {}; self.hi = {}; self.ne = set(); self.cache = {}
    def copy(self):
        s = Store.__new__(Store)
        s.sub = dict(self.sub); s.cons = dict(self.cons); s.lo = dict(self.lo); s.hi = dict(self.hi); s.ne = set(self.ne)
        s.cache = dict(self.cache) if len(self.cache) < 200 else {}
        return s
    # ---- basics
    def norm(self, e):
        if not e.t: return e
        return e.subst(self.sub)
    def vlo(self, v):
        x = self.lo.get(v); y = VARS[v].lo
        if x is None: return y
        return x if y is None or x > y else y
    def vhi(self, v):
        x = self.hi.get(v); y = VARS[v].hi
        if x is None: return y
        return x if y is None or x < y else y
    def imin(self, e):
        r = e.c
        for v, k in e.t:
            b = self.vlo(v) if k > 0 else self.vhi(v)
            if b is None: return None
            r += k * b
        return r
    def imax(self, e):
        r = e.c
        for v, k in e.t:
            b = self.vhi(v) if k > 0 else self.vlo(v)
            if b is None: return None
            r += k * b
        return r
    def _dirty(self): self.cache = {}
    # ---- adding
    def ge(self, e):
        """assume e >= 0; raises Infeasible on a trivial contradiction"""
        e = self.norm(e)
        if not e.t:
            if e.c < 0: raise Infeasible()
            return
        g = 0
        for _, k in e.t: g = gcd(g, k)
        if g > 1: e = Lin(e.c // g, tuple((v, k // g) for v, k in e.t))   # floor division tightens
        m = self.imin(e)
        if m is not None and m >= 0: return
        M = self.imax(e)
        if M is not None and M < 0: raise Infeasible()
        if e in self.ne or (-e) in self.ne:
            self.ge(e - 1); return
        if len(e.t) == 1:
            v, k = e.t[0]     # k = +-1
            self._dirty()
            if k > 0: self.lo[v] = -e.c
            else: self.hi[v] = e.c
            lo, hi = self.vlo(v), self.vhi(v)
            if lo is not None and hi is not None:
                if lo > hi: raise Infeasible()
                if lo == hi: self._subst(v, C(lo)); return
            # disequalities at the new bound
            for d in list(self.ne):
                if d.t and len(d.t) == 1 and d.t[0][0] == v:
                    val = -d.c // d.t[0][1]
                    if val == (lo if k > 0 else hi):
                        self.ne.discard(d)
                        self.ge(V(v) - (val + 1) if k > 0 else C(val - 1) - V(v)); return
            return
        old = self.cons.get(e.t)
        if old is not None and old <= e.c: return
        neg = tuple((v, -k) for v, k in e.t)
        o2 = self.cons.get(neg)
        if o2 is not None:
            if o2 + e.c < 0: raise Infeasible()
            if o2 + e.c == 0:
                del self.cons[neg]
                self.cons.pop(e.t, None)
                self._dirty()
                self.eq(e); return
        self.cons[e.t] = e.c
        self._dirty()
    def eq(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c: raise Infeasible()
            return
        g = 0
        for _, k in e.t: g = gcd(g, k)
        if e.c % g: raise Infeasible()
        if g > 1: e = Lin(e.c // g, tuple((v, k // g) for v, k in e.t))
        best = None
        for v, k in e.t:
            if k in (1, -1) and (best is None or v > best[0]): best = (v, k)
        if best is None:
            self._dirty()
            for f in (e, -e):
                old = self.cons.get(f.t)
                if old is None or old > f.c: self.cons[f.t] = f.c
            return
        v, k = best
        rest = Lin(e.c, tuple(x for x in e.t if x[0] != v)).scale(-k)
        self._subst(v, rest)
    def _subst(self, v, r):
        self._dirty()
        lo, hi = self.vlo(v), self.vhi(v)
        self.lo.pop(v, None); self.hi.pop(v, None)
        m = {v: r}
        for x, e in list(self.sub.items()):
            e2 = e.subst(m)
            if e2 is not e: self.sub[x] = e2
        self.sub[v] = r
        redo = []
        for t, c in list(self.cons.items()):
            for x, _ in t:
                if x == v:
                    del self.cons[t]; redo.append(Lin(c, t)); break
        ne = self.ne; self.ne = set()
        for d in ne:
            d2 = d.subst(m)
            if not d2.t:
                if d2.c == 0: raise Infeasible()
            else: self.ne.add(d2)
        if lo is not None: self.ge(r - lo)
        if hi is not None: self.ge(C(hi) - r)
        for e in redo: self.ge(e)
    def neq(self, e):
        """assume e != 0"""
        e = self.norm(e)
        if not e.t:
            if e.c == 0: raise Infeasible()
            return
        g = 0
        for _, k in e.t: g = gcd(g, k)
        if e.c % g: return
        if g > 1: e = Lin(e.c // g, tuple((v, k // g) for v, k in e.t))
        if e.t[0][1] < 0: e = -e
        if self.entails(e): self.ge(e - 1); return
        if self.entails(-e): self.ge(-e - 1); return
        self.ne.add(e); self._dirty()
    # ---- queries
    def component(self, vs):
        seen = set(vs); todo = list(vs)
        idx = {}
        for t, c in self.cons.items():
            for v, _ in t: idx.setdefault(v, []).append((t, c))
        rows = {}
        while todo:
            v = todo.pop()
            for t, c in idx.get(v, ()):
                if t not in rows:
                    rows[t] = c
                    for x, _ in t:
                        if x not in seen: seen.add(x); todo.append(x)
        out = [Lin(c, t) for t, c in rows.items()]
        for v in seen:
            l = self.vlo(v)
            if l is not None: out.append(V(v) - l)
            h = self.vhi(v)
            if h is not None: out.append(C(h) - V(v))
        return out
    def feasible(self, vs=None):
        if vs is None:
            vs = set()
            for t in self.cons:
                for v, _ in t: vs.add(v)
        if not self.cons: return True
        vs2 = set()
        for e in vs:
            for v, _ in self.norm(V(e)).t: vs2.add(v)
        return lp(self.component(vs2), None)[0] != 'inf'
    def entails(self, e):
        """e >= 0 holds in every integer point"""
        e = self.norm(e)
        if not e.t: return e.c >= 0
        m = self.imin(e)
        if m is not None and m >= 0: return True
        c = self.cons.get(e.t)
        if c is not None and c <= e.c: return True
        M = self.imax(e)
        k = ('e', e)
        r = self.cache.get(k)
        if r is not None: return r
        stats['entail'] += 1
        rows = self.component(e.vars())
        rows.append(-e - 1)
        r = lp(rows, None)[0] == 'inf'
        self.cache[k] = r
        return r
    def entails_eq(self, e):
        e = self.norm(e)
        if not e.t: return e.c == 0
        return self.entails(e) and self.entails(-e)
    def entails_ne(self, e):
        e = self.norm(e)
        if not e.t: return e.c != 0
        if e in self.ne or -e in self.ne: return True
        g = 0
        for _, k in e.t: g = gcd(g, k)
        if e.c % g: return True
        if self.entails(e - 1) or self.entails(-e - 1): return True
        # a known disequality d != 0 with d == e
        for d in self.ne:
            if set(d.vars()) & set(e.vars()) or True:
                if self.entails_eq(d - e) or self.entails_eq(d + e): return True
        return False
    def minof(self, e):
        """greatest known lower bound or None"""
        e = self.norm(e)
        if not e.t: return e.c
        k = ('m', e)
        if k in self.cache: return self.cache[k]
        r = lp(self.component(e.vars()), e)
        r = r[1] if r[0] == 'opt' else (None if r[0] == 'unb' else 0)
        self.cache[k] = r
        return r
    def maxof(self, e):
        m = self.minof(-e)
        return None if m is None else -m
    def allcons(self):
        out = [Lin(c, t) for t, c in self.cons.items()]
        for v, l in self.lo.items(): out.append(V(v) - l)
        for v, h in self.hi.items(): out.append(C(h) - V(v))
        return out
    def __repr__(self):
        s = ['%s>=0' % Lin(c, t) for t, c in self.cons.items()]
        s += ['%r>=%d' % (V(v), l) for v, l in self.lo.items()] + ['%r<=%d' % (V(v), l) for v, l in self.hi.items()]
        s += ['%r==%r' % (V(v), e) for v, e in self.sub.items()]
        s += ['%r!=0' % e for e in self.ne]
        return '; '.join(s)


def karr(R, f1, f2):
    """affine equalities over the variables R valid in both maps var->Lin (f1, f2); returns list of Lin (==0)"""
    cols = {}
    rows = []
    for r in R:
        row = {}
        for tag, f in ((1, f1), (2, f2)):
            e = f[r]
            for v, k in e.t: row[(tag, v)] = Fraction(k)
            if e.c: row[(tag, 'c')] = Fraction(e.c)
        rows.append(row)
    # constant row
    rows.append({(1, 'c'): Fraction(1), (2, 'c'): Fraction(1)})
    n = len(rows)
    # left null space: eliminate, tracking combinations
    comb = [{i: Fraction(1)} for i in range(n)]
    act = list(range(n))
    used = set()
    keys = []
    for r in rows:
        for k in r:
            if k not in cols: cols[k] = 1; keys.append(k)
    order = list(range(n - 1, -1, -1))   # pivot on the constant and newest last
    for key in keys:
        piv = None
        for i in order:
            if i not in used and rows[i].get(key): piv = i; break
        if piv is None: continue
        used.add(piv)
        pr = rows[piv]; pk = pr[key]
        for i in range(n):
            if i == piv or i in used: continue
            a = rows[i].get(key)
            if a:
                f = a / pk
                for k2, x in pr.items():
                    y = rows[i].get(k2, 0) - f * x
                    if y: rows[i][k2] = y
                    else: rows[i].pop(k2, None)
                for k2, x in comb[piv].items():
                    y = comb[i].get(k2, 0) - f * x
                    if y: comb[i][k2] = y
                    else: comb[i].pop(k2, None)
    out = []
    for i in range(n):
        if i in used or rows[i]: continue
        cb = comb[i]
        den = 1
        for x in cb.values(): den = den * x.denominator // gcd(den, x.denominator)
        t = {}
        c = 0
        for j, x in cb.items():
            k = int(x * den)
            if j == n - 1: c = k
            else: t[R[j]] = k
        if t: out.append(Lin(c, tuple(sorted((v, k) for v, k in t.items() if k))))
    return out


def repivot(A, keep):
    """express dropped variables through kept ones, then eliminate the cheap rest"""
    ch = True
    while ch:
        ch = False
        for v in sorted(A.sub):
            if v not in keep: continue
            e = A.sub[v]
            for u, k in e.t:
                if u not in keep and k in (1, -1):
                    rest = Lin(e.c, tuple(x for x in e.t if x[0] != u))
                    del A.sub[v]
                    A._subst(u, (V(v) - rest).scale(k))
                    ch = True; break
            if ch: break
    # a kept variable that is a multiple of a dropped one: keep the relation as inequalities
    for v in sorted(A.sub):
        e = A.sub[v]
        if v in keep and sum(1 for u, k in e.t if u not in keep) == 1:
            del A.sub[v]; A._dirty()
            for f in (V(v) - e, e - V(v)): A.cons[f.t] = f.c
    dead = set()
    for t in A.cons:
        for v, _ in t:
            if v not in keep: dead.add(v)
    for v in sorted(dead):
        pos = []; neg = []
        for t, c in A.cons.items():
            for x, k in t:
                if x == v: (pos if k > 0 else neg).append((k, Lin(c, t)))
        lo, hi = A.vlo(v), A.vhi(v)
        if lo is not None: pos.append((1, V(v) - lo))
        if hi is not None: neg.append((-1, C(hi) - V(v)))
        if len(pos) * len(neg) > 12: continue
        new = []
        for a, p in pos:
            for b, q in neg:
                e = p.scale(-b) + q.scale(a)
                if e.t: new.append(e)
        for t in [t for t in A.cons if any(x == v for x, _ in t)]: del A.cons[t]
        A.lo.pop(v, None); A.hi.pop(v, None)
        A._dirty()
        for e in new: A.ge(e)
THRESH = [()]
def join_stores(s1, s2, pairs, live, widen=False, hints=()):
    """pairs: list of (newvar, E1, E2).  live: set of old variables to keep.  Returns the joined store.
    widen: only keep constraints of s1 (rewritten through pairs) that hold in s2, plus shared affine equalities."""
    A1 = s1.copy(); A2 = s2.copy()
    new = []
    for n, e1, e2 in pairs:
        A1.sub[n] = s1.norm(e1); A2.sub[n] = s2.norm(e2); new.append(n)
    keep0 = live | set(new)
    for A in (A1, A2):
        try: repivot(A, keep0)
        except Infeasible: pass
    J = Store()
    cands = []
    seen = set()
    def cand(e):
        g = 0
        for _, k in e.t: g = gcd(g, k)
        if not e.t: return
        if g > 1: e = Lin(e.c // g, tuple((v, k // g) for v, k in e.t))
        if e not in seen: seen.add(e); cands.append(e)
    newset = set(new)
    keep = live | newset
    # equalities
    R = []
    rs = set()
    def addR(v):
        if v not in rs and v in keep: rs.add(v); R.append(v)
    for v in sorted(keep):
        if v in A1.sub or v in A2.sub: addR(v)
    base = set()
    for v in list(R):
        for A in (A1, A2):
            if v in A.sub:
                for x, _ in A.sub[v].t: base.add(x)
    for v in sorted(base): addR(v)
    R.sort()
    f1 = {v: A1.norm(V(v)) for v in R}; f2 = {v: A2.norm(V(v)) for v in R}
    eqs = karr(R, f1, f2)
    # inequality candidates
    def inv_rewrites(A, sdx):
        """constraints of store A rewritten so that they mention the new variables"""
        rules = {}
        for p in pairs:
            n = p[0]; e = A.norm(V(n))
            for v, k in e.t:
                if k in (1, -1):
                    rest = Lin(e.c, tuple(x for x in e.t if x[0] != v))
                    rules.setdefault(v, []).append((V(n) - rest).scale(k))
        base = A.allcons()
        for v in list(rules):
            lo, hi = VARS[v].lo, VARS[v].hi
            if lo is not None: base.append(V(v) - (A.vlo(v)))
            if hi is not None: base.append(C(A.vhi(v)) - V(v))
        out = list(base)
        for e in base:
            for v, _ in e.t:
                for r in rules.get(v, ())[:3]:
                    out.append(e.subst({v: r}))
        # two-variable rewriting
        out2 = []
        for e in out:
            for v, _ in e.t:
                if v in rules and len(out2) < 400:
                    out2.append(e.subst({v: rules[v][0]}))
        return out + out2
    if widen == 2:
        ren = {}
        for n, e1, e2 in pairs:
            if e1.c == 0 and len(e1.t) == 1 and e1.t[0][1] == 1 and e1.t[0][0] not in ren: ren[e1.t[0][0]] = V(n)
        src = s1.copy()
        for e in s1.allcons(): cand(e.subst(ren))
        for v, e in s1.sub.items():
            x = (V(v) - e).subst(ren); cand(x); cand(-x)
        hints = ()
    else:
        for e in inv_rewrites(A1, 0): cand(e)
    if not widen:
        for e in inv_rewrites(A2, 1): cand(e)
    else:
        for n in new:
            cand(V(n)); cand(V(n) - 1)
            k = 0
            for c in THRESH[0]:
                e = C(c) - V(n)
                if A1.entails(e) and A2.entails(e):
                    cand(e); k += 1
                    if k == 2: break
    res = []
    for e in cands:
        if any(v not in keep for v, _ in e.t): continue
        if widen:
            if A2.entails(e) and A1.entails(e): res.append(e)
        else:
            if A1.entails(e) and A2.entails(e): res.append(e)
    # bounds of new variables and template differences
    if not widen:
        rel = set()
        for n in new:
            for A in (A1, A2):
                for v, _ in A.norm(V(n)).t: rel.add(v)
        # variables connected to those
        for A in (A1, A2):
            for t in A.cons:
                vs = [v for v, _ in t]
                if any(v in rel for v in vs) and len(vs) <= 4:
                    for v in vs:
                        if v in keep: rel.add(v)
        rel = [v for v in rel if v in keep and v not in newset]
        rel = sorted(rel)[:10]
        for i, n in enumerate(new):
            for e in (V(n), -V(n)):
                a = A1.minof(e); b = A2.minof(e)
                if a is not None and b is not None: res.append(e - min(a, b))
            for w in new[i + 1:] + rel:
                for e in (V(n) - V(w), V(w) - V(n)):
                    a = A1.minof(e)
                    if a is None: continue
                    b = A2.minof(e)
                    if b is None: continue
                    if abs(min(a, b)) < 1 << 36: res.append(e - min(a, b))
    # facts that moved together with a new variable: E >= b1 before, E >= b2 after, n went from k1 to k2
    steps = []
    for n in new:
        a, b = A1.norm(V(n)), A2.norm(V(n))
        if a.isconst() and b.isconst() and a.c != b.c: steps.append((n, a.c, b.c))
    if steps and widen != 2:
        forms = {}
        for A, B in ((A1, A2), (A2, A1)):
            for t, c in A.cons.items():
                if all(v in keep and v not in newset for v, _ in t): forms.setdefault(t, None)
            for v in list(A.lo) + list(A.hi):
                if v in keep and v not in newset and v not in B.sub:
                    if A.vlo(v) != B.vlo(v): forms.setdefault(((v, 1),), None)
                    if A.vhi(v) != B.vhi(v): forms.setdefault(((v, -1),), None)
        for t in list(forms)[:40]:
            E = Lin(0, t)
            b1 = A1.minof(E); b2 = A2.minof(E)
            if b1 is None or b2 is None or b1 == b2: continue
            for n, k1, k2 in steps:
                if (b2 - b1) % (k2 - k1): continue
                l = (b2 - b1) // (k2 - k1)
                if abs(l) > 1 << 20: continue
                F = E - V(n).scale(l)
                f1 = A1.minof(F); f2 = A2.minof(F)
                if f1 is not None and f2 is not None: res.append(F - min(f1, f2))
    for e in hints:
        a = A1.minof(e); b = A2.minof(e)
        if a is not None and b is not None: res.append(e - min(a, b))
    for e in eqs: J.eq(e)
    # interval facts of untouched old variables
    for v in live:
        if v in s1.sub or v in s2.sub: continue
        a, b = s1.lo.get(v), s2.lo.get(v)
        if a is not None and b is not None: J.ge(V(v) - min(a, b))
        a, b = s1.hi.get(v), s2.hi.get(v)
        if a is not None and b is not None: J.ge(C(max(a, b)) - V(v))
    # keep an irredundant set, simplest first
    rank = {e: i for i, e in enumerate(hints)}
    res.sort(key=lambda e: (len(e.t), sum(abs(k) for _, k in e.t), abs(e.c)))
    kept = []
    for e in res:
        if not J.entails(e): J.ge(e); kept.append(e)
    if len(J.cons) > 12:
        for t in sorted(J.cons, key=lambda t: (-len(t), -sum(abs(k) for _, k in t))):
            c = J.cons.get(t)
            if c is None or len(t) < 2: continue
            del J.cons[t]; J._dirty()
            if not J.entails(Lin(c, t)): J.cons[t] = c; J._dirty()
    for d in list(A1.ne) + list(A2.ne):
        if all(v in keep for v, _ in d.t) and A1.entails_ne(d) and A2.entails_ne(d): J.neq(d)
    # disequalities of new variables against constants / single variables
    for n in new:
        for A, B in ((A1, A2), (A2, A1)):
            e = A.norm(V(n))
            for d in A.ne:
                for s in (1, -1):
                    x = e - d.scale(s)
                    if not x.t:      # d*s = n - x.c
                        q = V(n) - x.c
                        if B.entails_ne(q) and A.entails_ne(q): J.neq(q)
    return J
