"""Abstract interpreter over LLVM IR: trace-partitioned polyhedral states, region memory, event monitors."""
import math
import re, sys, time
from lin import *
from ir import AnalysisError
import ir, lin

M64 = 1 << 64
BIGALLOC = 1 << 47
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ values
class PtrV:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r = r; self.o = o
    def __repr__(self): return '&r%d[%r]' % (self.r, self.o)
    def __eq__(self, x): return isinstance(x, PtrV) and x.r == self.r and x.o == self.o
    def __hash__(self): return hash((self.r, self.o))
class FnV:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return 'fn:' + str(self.n)
    def __eq__(self, x): return isinstance(x, FnV) and x.n == self.n
    def __hash__(self): return hash(self.n)
class FpV:
    __slots__ = ('i',)
    def __init__(self, i): self.i = i
    def __repr__(self): return 'fp:' + str(self.i)
    def __eq__(self, x): return isinstance(x, FpV) and x.i == self.i
    def __hash__(self): return hash(('fp', self.i))
def fp_cls(S, v):
    """what is known of a number: ('nan',0) ('inf',sign|None) ('fin',0) ('c',value) or None"""
    if not isinstance(v, FpV): return None
    if v.i == 'zero': return ('c', 0.0)
    if isinstance(v.i, tuple) and v.i[0] == 'const':
        try:
            t = v.i[1]
            if t.startswith('0x'):
                import struct
                x = struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
            else: x = float(t)
        except (ValueError, AttributeError, TypeError): return None
        return ('nan', 0) if x != x else ('inf', 1 if x > 0 else -1) if x - x != 0 else ('c', x)
    return S.mon.get(('$fp', v.i))
def fp_new(S, k):
    v = FpV(opaque('fp')); S.mon[('$fp', v.i)] = k; return v
def fp_bin(S, op, a, b):
    k, l = fp_cls(S, a), fp_cls(S, b)
    if k is None or l is None: return FpV(opaque('fp'))
    if k[0] == 'nan' or l[0] == 'nan': return fp_new(S, ('nan', 0))
    if op == 'fsub' and a == b: return fp_new(S, ('nan', 0) if k[0] == 'inf' else ('c', 0.0))
    if op == 'fmul' and ('c', 0.0) in (k, l): return fp_new(S, ('nan', 0) if 'inf' in (k[0], l[0]) else ('c', 0.0))
    return FpV(opaque('fp'))
def fp_cmp(S, p, a, b):
    k, l = fp_cls(S, a), fp_cls(S, b)
    if k is None or l is None: return None
    if p in ('true', 'false'): return p == 'true'
    if k[0] == 'nan' or l[0] == 'nan': return p[0] == 'u'
    if p in ('ord', 'uno'): return p == 'ord'
    q = p[1:]; mx = 1.7976931348623157e308; c = None
    if a == b or k == l and k[0] == 'c': c = 0
    elif k[0] == 'inf' or l[0] == 'inf':
        if k[0] == 'inf' and l[0] == 'inf':
            if k[1] and l[1]: c = (k[1] > l[1]) - (k[1] < l[1])
        elif k[0] == 'inf': c = k[1]
        else: c = -l[1] if l[1] else None
        if c is None and k[0] != l[0] and q in ('eq', 'ne'): return q == 'ne'
    elif k[0] == 'c' and l[0] == 'c': c = (k[1] > l[1]) - (k[1] < l[1])
    elif l[0] == 'c' and abs(l[1]) == mx: return (q == ('le' if l[1] > 0 else 'ge')) if q in ('le', 'ge') and (q == 'le') == (l[1] > 0) else False if q == ('gt' if l[1] > 0 else 'lt') else None
    elif k[0] == 'c' and abs(k[1]) == mx: return True if q == ('ge' if k[1] > 0 else 'le') else False if q == ('lt' if k[1] > 0 else 'gt') else None
    if c is None: return None
    return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[q]
class CondV:
    """boolean: ('ge',E) ('eq',E) ('not',c) ('and',a,b) ('or',a,b) ('opq',key)"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'cond%r' % (self.t,)
    def __eq__(self, x): return isinstance(x, CondV) and x.t == self.t
    def __hash__(self): return hash(self.t)
class AggV:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'agg%r' % (self.e,)
    def __eq__(self, x): return isinstance(x, AggV) and x.e == self.e
    def __hash__(self): return hash(tuple(self.e))
class _Top:
    def __repr__(self): return 'TOP'
TOP = _Top()
class SegV:
    """special pointer of the shape domain: first / last element of a list segment (see shape.py)"""
    __slots__ = ('s', 'end')
    def __init__(self, s, end): self.s = s; self.end = end
    def __repr__(self): return 'seg%s.%s' % (self.s, self.end)
    def __eq__(self, x): return isinstance(x, SegV) and x.s == self.s and x.end == self.end
    def __hash__(self): return hash((self.s, self.end))
NULL = C(0)
_opq = [0]
def opaque(tag='o'):
    _opq[0] += 1
    return (tag, _opq[0])

def lins_of(v):
    if isinstance(v, Lin): return (v,)
    if isinstance(v, PtrV): return (v.o,)
    if isinstance(v, AggV): return [y for x in v.e for y in lins_of(x)]
    if isinstance(v, CondV): return cond_lins(v.t)
    if isinstance(v, (tuple, list)): return [y for x in v for y in lins_of(x)]
    return ()
def cond_lins(t):
    if t[0] in ('ge', 'eq'): return [t[1]]
    if t[0] == 'not': return cond_lins(t[1])
    if t[0] in ('and', 'or'): return cond_lins(t[1]) + cond_lins(t[2])
    return []

# ------------------------------------------------------------------ memory
class Region:
    __slots__ = ('rid', 'kind', 'name', 'size', 'cells', 'sym', 'epoch', 'freed', 'nul', 'bytes', 'ro', 'tags', 'zero')
    def __init__(self, rid, kind, name, size):
        self.rid = rid; self.kind = kind; self.name = name; self.size = size
        self.cells = {}; self.sym = (); self.epoch = 0; self.freed = False; self.nul = None; self.bytes = None
        self.ro = False; self.tags = {}; self.zero = False
    def copy(self):
        r = Region.__new__(Region)
        for a in Region.__slots__: setattr(r, a, getattr(self, a))
        r.cells = dict(self.cells)
        return r

_rid = [0]
_epoch = [0]
INIT = {}

PURE = re.compile(r'(str|mem|is|to|wcs|abs|labs|llabs|free$|_Zd[la]|bcmp|bzero|__errno|fabs)')
class State:
    __slots__ = ('st', 'mem', 'regs', 'outer', 'mon', 'memo', 'trace', 'gen', 'ghost', 'hist', 'env')
    def __init__(self):
        self.hist = {}; self.env = 0
        self.st = Store(); self.mem = {}; self.regs = {}; self.outer = (); self.mon = {}; self.memo = {}; self.trace = (); self.gen = frozenset()
        self.ghost = {}
    def copy(self):
        s = State.__new__(State)
        s.st = self.st.copy(); s.mem = dict(self.mem); s.regs = dict(self.regs); s.outer = self.outer; s.mon = dict(self.mon)
        s.memo = dict(self.memo); s.trace = self.trace; s.gen = self.gen; s.ghost = dict(self.ghost); s.hist = self.hist; s.env = self.env
        return s
    def w(self, rid):
        """region for writing"""
        r = self.mem[rid].copy(); self.mem[rid] = r; return r
    # convenience
    def fresh(self, name, lo=None, hi=None): return V(newvar(name, lo, hi))
    def u(self, name, bits): return V(newvar(name, 0, (1 << bits) - 1))
    def s(self, name, bits): return V(newvar(name, -(1 << (bits - 1)), (1 << (bits - 1)) - 1))
    def new_region(self, kind, name, size):
        _rid[0] += 1
        r = Region(_rid[0], kind, name, size if isinstance(size, Lin) or size is None else C(size))
        self.mem[r.rid] = r
        return r


class Violation:
    def __init__(self, rule, where, fn, msg, trace):
        self.rule = rule; self.where = where; self.fn = fn; self.msg = msg; self.trace = trace
    def key(self): return (self.rule, self.where, self.fn, self.msg)
    def __repr__(self): return '%s at %s:%d in %s: %s' % (self.rule, self.where[0], self.where[1], self.fn, self.msg)


NULLFAIL = {'malloc', 'calloc', 'realloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'opendir', 'readdir', 'getcwd', 'realpath', 'getpwnam', 'getpwuid', 'getgrnam', 'getenv'}
class Cap(Exception): pass


class Engine:
    def __init__(self, mod):
        self.mod = mod
        self.models = {}
        self.stubs = {}          # demangled name (no params) -> handler, overrides bodies
        self.viol = {}
        self.obl = {}            # (rule, where, fn) -> bool
        self.paths = 0
        self.fns_seen = set()
        self.hooks_store = []    # f(eng, S, ins, region, off, size, val)
        self.hooks_load = []
        self.hooks_event = []
        self.hooks_copy = []; self.hooks_fill = []; self.unknown_calls = set()
        self.head_hooks = []; self.hooks_classify = []; self.classes = {}; self.maxcost = {}; self.initfns = {}
        self.stack = []
        self.ins = None
        self.globals = {}; self.track_cut = False; self.rank = None; self.ends = False; self.active = []
        self._loops = {}; self._thresh = {}
        self._live = {}; self._after = {}
        self.CAP = 40
        self.HEADCAP = 60
        self.lazy_ptr = None     # f(eng,S,region,off) -> value for pointers read from unknown memory
        self.quiet = 0
        self.inline_depth = 40
        self.icount = 0
        self.LIMIT = 400000
        self.peel = 0            # >0: confirm alarms by peeling loops that often instead of widening
        self.truncated = False; self.unroll = {}; self.peel1 = False; self.always_narrow = False; self.looped = set()
        self.deadline = None; self.shape = None; self.cur_live = None
        import models
        models.register(self)

    # ---------------------------------------------------------------- obligations
    def where(self):
        # innermost location inside the repo
        for ins in [self.ins] + [x for x in reversed(self.stack)]:
            if ins is not None:
                l = self.mod.loc(ins.dbg)
                if not l[0].startswith('/') and l[0] != '?' and not l[0].startswith('..'): return l
        return ('?', 0)
    def fname(self):
        if self.ins is None: return '?'
        return self.mod.dem.get(self.ins.fn.name, self.ins.fn.name)
    def ob(self, ok, rule, msg, S, where=None, fn=None):
        w = where or self.where(); f = fn or self.fname()
        k = (rule, w, f)
        if not ok and S.mon.get('$taint'): self.truncated = True; return ok
        self.obl[k] = self.obl.get(k, True) and bool(ok)
        if not ok:
            v = Violation(rule, w, f, msg, S.trace[-14:])
            self.viol.setdefault(v.key(), v)
        return ok

    def event(self, S, name, x):
        for h in self.hooks_event: h(self, S, name, x)
    def self_thread(self, S): return V(newvar('self', 1, None))

    # ---------------------------------------------------------------- assumptions
    def assume(self, S, c, truth=True):
        """list of states (S may be reused)"""
        if isinstance(c, Lin):
            c2 = S.st.norm(c)
            if c2.isconst(): return [S] if (c2.c & 1 != 0) == truth else []
            c = CondV(('not', ('eq', c2)))
        return self._assume(S, c.t, truth)
    def _try(self, S, f, E):
        T = S
        try:
            f(T.st)
            if E.t and not T.st.feasible([v for v, _ in E.t]): return []
        except Infeasible:
            return []
        return [T]
    def _assume(self, S, t, truth):
        k = t[0]
        if k == 'ge':
            E = t[1] if truth else -t[1] - 1
            return self._try(S, lambda st: st.ge(E), E)
        if k == 'eq':
            E = t[1]
            if truth: return self._try(S, lambda st: st.eq(E), E)
            return self._try(S, lambda st: st.neq(E), E)
        if k == 'not': return self._assume(S, t[1], not truth)
        if k in ('and', 'or'):
            if (k == 'and') == truth:
                out = []
                for a in self._assume(S, t[1], truth): out += self._assume(a, t[2], truth)
                return out
            A = self._assume(S.copy(), t[1], truth)
            B = []
            for b in self._assume(S, t[1], not truth): B += self._assume(b, t[2], truth)
            return A + B
        if k == 'const': return [S] if t[1] == truth else []
        if k == 'opq':
            key = ('opq', t[1])
            v = S.memo.get(key)
            if v is None:
                S.memo[key] = truth; return [S]
            return [S] if v == truth else []
        raise AnalysisError('cond %r' % (t,))
    def must(self, S, c, truth=True):
        """c is implied"""
        return not self.assume(S.copy(), c, not truth)

    # ---------------------------------------------------------------- machine integers
    def interval_split(self, S, E, base, size, name):
        """values E - k*size landing in [base, base+size): list of (state, Lin)"""
        E = S.st.norm(E)
        if E.isconst():
            return [(S, C((E.c - base) % size + base))]
        m = S.st.imin(E); M = S.st.imax(E)
        if m is not None and M is not None and m >= base and M < base + size: return [(S, E)]
        if S.st.entails(E - base) and S.st.entails(C(base + size - 1) - E): return [(S, E)]
        if S.ghost:
            try: self.saturate(S)
            except Infeasible: return []
            E = S.st.norm(E)
        m = S.st.minof(E); M = S.st.maxof(E)
        if m is not None and M is not None:
            k0 = (m - base) // size; k1 = (M - base) // size
            if k1 - k0 <= 2:
                out = []
                for k in range(k0, k1 + 1):
                    T = S.copy() if k < k1 else S
                    E2 = E - k * size
                    try:
                        T.st.ge(E2 - base); T.st.ge(C(base + size - 1) - E2)
                        if T.st.feasible(E.vars()): out.append((T, T.st.norm(E2)))
                    except Infeasible: pass
                return out
        key = ('wrap', E, base, size)
        v = S.memo.get(key)
        if v is None:
            v = S.memo[key] = V(newvar(name, base, base + size - 1))
        return [(S, v)]
    def uval(self, S, E, w): return self.interval_split(S, E, 0, 1 << w, 'u%d' % w)
    def sval(self, S, E, w): return self.interval_split(S, E, -(1 << (w - 1)), 1 << w, 's%d' % w)
    def uval2(self, S, A, B, w):
        out = []
        for T, a in self.uval(S, A, w):
            for T2, b in self.uval(T, B, w): out.append((T2, T2.st.norm(a), b))
        return out
    def sval2(self, S, A, B, w):
        out = []
        for T, a in self.sval(S, A, w):
            for T2, b in self.sval(T, B, w): out.append((T2, T2.st.norm(a), b))
        return out

    # ---------------------------------------------------------------- memory access
    def bounds(self, S, p, n, what, rule='bounds'):
        """n: Lin size.  True when the access is proven in bounds; afterwards it is assumed"""
        r = S.mem.get(p.r)
        if r is None:
            self.ob(False, 'use-after-free', 'access to an object that no longer exists', S); return False
        if r.freed:
            self.ob(False, 'use-after-free', '%s of %s after it was released' % (what, r.name), S); return False
        if r.size is None: return True
        o = S.st.norm(p.o); n = S.st.norm(n)
        ok = S.st.entails(o) and S.st.entails(r.size - o - n)
        if not ok and S.ghost:
            try: self.saturate(S)
            except Infeasible: return None
            ok = S.st.entails(o) and S.st.entails(r.size - o - n)
        if not ok and n.isconst() and n.c == 0: ok = True
        if not ok and not n.isconst() and S.st.entails(-n): ok = True
        self.ob(ok, rule, '%s of %s bytes at offset %s of %s (size %s) is not proven to stay inside it' % (what, self.show(S, n), self.show(S, o), r.name, self.show(S, r.size)), S)
        if not ok:
            try:
                S.st.ge(o); S.st.ge(r.size - o - n)
                if not S.st.feasible([v for v, _ in (o + r.size).t]): return None
            except Infeasible: return None
        return True
    def show(self, S, e):
        e = S.st.norm(e)
        return re.sub(r'#\d+', '', repr(e))
    def init_value(self, S, r, off, ty):
        if r.zero:
            return NULL if ty.k != 'fp' else FpV('zero')
        sz = self.mod.size(ty)
        k = (r.rid, r.epoch, off, ty.k, sz)
        v = INIT.get(k)
        if v is None:
            if ty.k == 'int':
                bits = 8 * sz
                v = V(newvar('%s[%s]' % (r.name, re.sub(r'#\d+', '', repr(off))), 0, (1 << bits) - 1))
            elif ty.k == 'ptr':
                v = self.lazy_ptr(self, S, r, off) if self.lazy_ptr else TOP
                if v is None: v = TOP
            elif ty.k == 'fp': v = FpV(opaque('fp'))
            else: v = TOP
            INIT[k] = v
        return v
    def find_cell(self, S, r, off, sz):
        """value of the cell exactly at off, or None; off normalised"""
        if off.isconst():
            c = r.cells.get(off.c)
            if c is not None and c[0] == sz: return c[1]
        for o, s, v in r.sym:
            if s == sz:
                o2 = S.st.norm(o)
                if o2 == off: return v
        if r.sym or not off.isconst():
            for o, s, v in r.sym:
                if s == sz:
                    d = S.st.norm(o) - off
                    if set(S.st.norm(o).vars()) and S.st.entails_eq(d): return v
            if not off.isconst():
                lo = S.st.minof(off); hi = S.st.maxof(off)
                if lo is not None and lo == hi and lo in r.cells and r.cells[lo][0] == sz: return r.cells[lo][1]
        return None
    def load(self, S, p, ty):
        """list of (state, value)"""
        sz = self.mod.size(ty)
        b = self.bounds(S, p, C(sz), 'read')
        if not b: return []
        r = S.mem[p.r]
        off = S.st.norm(p.o)
        for h in self.hooks_load: h(self, S, r, off, sz)
        if ty.k in ('struct', 'arr', 'named'):
            t = self.mod.resolve(ty)
            if t.k == 'struct':
                self.mod.layout(t)
                outs = [(S, [])]
                for i, e in enumerate(t.elems):
                    n2 = []
                    for T, acc in outs:
                        for T2, v in self.load(T, PtrV(p.r, off + t._offs[i]), e): n2.append((T2, acc + [v]))
                    outs = n2
                return [(T, AggV(a)) for T, a in outs]
            return [(S, TOP)]
        v = self.find_cell(S, r, off, sz)
        if v is not None: return [(S, v)]
        if r.bytes is not None and ty.k == 'int': return self.load_const(S, r, off, sz)
        if sz == 1 and r.nul is not None and ty.k == 'int':
            return self.load_char(S, r, off)
        if 'initfn' in r.tags and not (r.sym and any(not self.disjoint(S, o, s2, off, sz) for o, s2, v2 in r.sym)):
            out = []
            for T, v in self.initfns[r.tags['initfn']](self, S, T_r(S, r.rid), off, ty):
                R = T.w(r.rid); o = T.st.norm(off)
                if o.isconst(): R.cells[o.c] = (sz, v)
                else: R.sym = R.sym + ((o, sz, v),)
                out.append((T, v))
            return out
        if sz == 1 and 'prefix' in r.tags:
            return self.classify(S, r.rid, off)
        # reassemble / narrower reads of a constant-offset cell
        if off.isconst() and ty.k == 'int':
            for o, (s2, v2) in r.cells.items():
                if o <= off.c and off.c + sz <= o + s2 and isinstance(v2, Lin) and S.st.norm(v2).isconst():
                    k = (S.st.norm(v2).c >> (8 * (off.c - o))) & ((1 << (8 * sz)) - 1)
                    return [(S, C(k))]
            if any(o < off.c + sz and off.c < o + s2 for o, (s2, _) in r.cells.items()):
                bs = [r.cells.get(off.c + i) for i in range(sz)]
                if all(b is not None and b[0] == 1 and isinstance(b[1], Lin) and S.st.norm(b[1]).isconst() for b in bs):
                    return [(S, C(sum((S.st.norm(b[1]).c & 255) << (8 * i) for i, b in enumerate(bs))))]
                return [(S, S.u('mixed', 8 * sz))]
        if r.sym or (not off.isconst() and r.cells):
            # may overlap some written cell: unknown, unless disjoint from all
            for o, s2, v2 in r.sym:
                if not self.disjoint(S, o, s2, off, sz): return self.maybe_cell(S, r, off, sz, ty)
            if not off.isconst():
                for o, (s2, v2) in r.cells.items():
                    if not self.disjoint(S, C(o), s2, off, sz): return self.maybe_cell(S, r, off, sz, ty)
        v = self.init_value(S, r, off, ty)
        r = S.w(p.r)
        if off.isconst(): r.cells[off.c] = (sz, v)
        else: r.sym = r.sym + ((off, sz, v),)
        return [(S, v)]
    def maybe_cell(self, S, r, off, sz, ty):
        """read that may alias written cells: split on the aliased cell when there are few"""
        key = ('amb', r.rid, r.epoch, off, sz, tuple(sorted(map(repr, r.cells))) if not off.isconst() else 0, r.sym)
        if ty.k == 'int':
            v = S.memo.get(key)
            if v is None: v = S.memo[key] = S.u(r.name + '[?]', 8 * sz)
        elif ty.k == 'fp': v = FpV(opaque('fp'))
        else: v = TOP
        R = S.w(r.rid)
        if not off.isconst(): R.sym = R.sym + ((off, sz, v),)
        return [(S, v)]
    def disjoint(self, S, o1, s1, o2, s2):
        o1 = S.st.norm(o1); o2 = S.st.norm(o2)
        d = o2 - o1
        if d.isconst(): return d.c >= s1 or -d.c >= s2
        return S.st.entails(d - s1) or S.st.entails(-d - s2)
    def load_const(self, S, r, off, sz):
        b = r.bytes
        if off.isconst():
            return [(S, C(int.from_bytes(b[off.c:off.c + sz], 'little')))]
        key = ('cb', r.rid, off, sz)
        v = S.memo.get(key)
        if v is not None: return [(S, v)]
        lo = S.st.minof(off) or 0; hi = S.st.maxof(off)
        if hi is None: hi = len(b) - sz
        vals = set()
        cand = [o for o in range(max(0, lo), min(hi, len(b) - sz) + 1)]
        if sz > 1: cand = [o for o in cand if o % sz == 0] or cand
        if len(cand) <= 40:
            out = []
            for o in cand:
                T = S.copy()
                try:
                    T.st.eq(off - o)
                    if off.t and not T.st.feasible(off.vars()): continue
                except Infeasible: continue
                out.append((T, C(int.from_bytes(b[o:o + sz], 'little'))))
            return out
        vs = [int.from_bytes(b[o:o + sz], 'little') for o in cand]
        v = S.memo[key] = V(newvar('tbl', min(vs), max(vs)))
        return [(S, v)]
    def load_char(self, S, r, off):
        """byte of a C string region whose first NUL is at r.nul"""
        d = S.st.norm(r.nul) - off
        out = []
        key = ('ch', r.rid, r.epoch, off)
        if S.st.entails(d - 1): br = [('lt', S)]
        elif S.st.entails_eq(d): br = [('eq', S)]
        elif S.st.entails(-d - 1):
            return [(S, S.u('past', 8))]
        else:
            br = [('lt', S.copy()), ('eq', S.copy())]
            if not S.st.entails(d): br.append(('gt', S))
        for k, T in br:
            try:
                if k == 'lt': T.st.ge(d - 1)
                elif k == 'eq': T.st.eq(d)
                else: T.st.ge(-d - 1)
                if d.t and not T.st.feasible(d.vars()): continue
            except Infeasible: continue
            if k == 'eq':
                v = C(0)
                if T.ghost:
                    try: self.saturate(T)
                    except Infeasible: continue
            elif k == 'gt': v = T.u('past', 8)
            elif 'prefix' in r.tags:
                out += self.classify(T, r.rid, off); continue
            else:
                v = INIT.get(key)
                if v is None: v = INIT[key] = V(newvar('ch', 1, 255))
                R = T.w(r.rid)
                o = T.st.norm(off)
                if o.isconst(): R.cells[o.c] = (1, v)
                else: R.sym = R.sym + ((off, 1, v),)
            out.append((T, v))
        return out
    # -------- ghost prefix sums over a character sequence (see specs for JSON / UTF-8)
    def ghost_rel(self, S, rid, d, e):
        """offsets differ by d >= 0: the sums differ by e"""
        mx = self.maxcost.get(S.mem[rid].tags.get('prefix')) if rid in S.mem else None
        ch = False
        if not S.st.entails(e - d): S.st.ge(e - d); ch = True
        if mx is not None and not S.st.entails(d.scale(mx) - e): S.st.ge(d.scale(mx) - e); ch = True
        return ch
    def ghost_get(self, S, rid, off):
        """symbolic value of the prefix sum at off"""
        off = S.st.norm(off)
        lst = S.ghost.get(rid, ())
        for o, g in lst:
            if S.st.norm(o) == off: return g
        for o, g in lst:
            d = S.st.norm(o) - off
            if S.st.entails_eq(d): return g
        if off.isconst() and off.c == 0: g = C(0)
        else: g = V(newvar('G', 0, None))
        S.ghost[rid] = tuple(lst) + ((off, g),)
        for o, h in (lst if any(x[1] == ZERO for x in lst) or off == ZERO else tuple(lst) + ((ZERO, ZERO),)):
            d = off - S.st.norm(o)
            if S.st.entails(d): self.ghost_rel(S, rid, d, g - h)
            elif S.st.entails(-d): self.ghost_rel(S, rid, -d, h - g)
        return g
    def classify(self, S, rid, off):
        """first read of an element of a sequence with a prefix sum: split on the element's class"""
        r = S.mem[rid]
        classes = self.classes[r.tags['prefix']]
        out = []
        n = len(classes)
        for k, (lo, hi, cost, info) in enumerate(classes):
            if r.nul is not None:
                if hi == 0: continue
                lo = max(lo, 1)
            T = S.copy() if k < n - 1 else S
            key = ('cls', rid, r.epoch, off, k)
            v = INIT.get(key)
            if v is None: v = INIT[key] = C(lo) if lo == hi else V(newvar('ch', lo, hi))
            c = cost(self, T) if callable(cost) else cost
            try:
                g0 = self.ghost_get(T, rid, off)
                g1 = self.ghost_get(T, rid, off + 1)
                T.st.eq(g1 - g0 - c)
                if not T.st.feasible(list((g1 - g0).vars())): continue
            except Infeasible: continue
            R = T.w(rid)
            o = T.st.norm(off)
            if o.isconst(): R.cells[o.c] = (1, v)
            else: R.sym = R.sym + ((o, 1, v),)
            for h in self.hooks_classify: h(self, T, R, o, v, k, info)
            out.append((T, v))
        return out
    def saturate(self, S):
        """equal offsets have equal prefix sums; prefix sums grow at least as fast as offsets"""
        ch = False
        for rid, lst in list(S.ghost.items()):
            lst = list(lst)
            if not any(o == ZERO for o, g in lst): lst.append((ZERO, ZERO))
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    (o1, g1), (o2, g2) = lst[i], lst[j]
                    d = S.st.norm(o2 - o1)
                    e = S.st.norm(g2 - g1)
                    if S.st.entails(d):
                        if S.st.entails(-d):
                            if not S.st.entails_eq(e): S.st.eq(e); ch = True
                        else: ch = self.ghost_rel(S, rid, d, e) or ch
                    elif S.st.entails(-d): ch = self.ghost_rel(S, rid, -d, -e) or ch
        return ch
    def store(self, S, p, ty, v):
        sz = self.mod.size(ty)
        b = self.bounds(S, p, C(sz), 'write', 'bounds')
        if not b: return []
        r0 = S.mem[p.r]
        off = S.st.norm(p.o)
        if r0.ro: self.ob(False, 'readonly', 'write to constant data %s' % r0.name, S)
        if isinstance(v, AggV):
            t = self.mod.resolve(ty); self.mod.layout(t)
            outs = [S]
            for i, e in enumerate(t.elems):
                n2 = []
                for T in outs: n2 += self.store(T, PtrV(p.r, off + t._offs[i]), e, v.e[i])
                outs = n2
            return outs
        for h in self.hooks_store: h(self, S, r0, off, sz, v)
        r = S.w(p.r)
        # C string bookkeeping.  With track_cut the end of a string that is cut with a zero byte is remembered for when the byte is restored
        if self.track_cut and r.nul is not None:
            k2 = ('cut', r.rid); old = S.mon.pop(k2, None); n = S.st.norm(r.nul); nz = sz == 1 and isinstance(v, Lin) and S.st.entails_ne(v)
            if S.st.entails(off - n - 1):
                if old is not None and (S.st.entails(off - old - 1) or nz and S.st.entails(old - off - 1)): S.mon[k2] = old
            elif sz == 1 and isinstance(v, Lin) and S.st.norm(v) == NULL and S.st.entails(n - off):
                if old is not None or not S.st.entails_eq(n - off): S.mon[k2] = old if old is not None else n
                r.nul = off
            elif nz and S.st.entails(n - off - 1):
                if old is not None: S.mon[k2] = old
            elif old is not None and nz and S.st.entails_eq(off - n): r.nul = old
            else: r.nul = None
            keep = S.mon.get(k2)
            self.kill(S, r, off, C(sz))
            if keep is not None: S.mon[k2] = keep
            if off.isconst(): r.cells[off.c] = (sz, v)
            else: r.sym = r.sym + ((off, sz, v),)
            return [S]
        if r.nul is not None:
            n = S.st.norm(r.nul)
            if S.st.entails(off - n - 1): pass
            elif sz == 1 and isinstance(v, Lin) and S.st.norm(v) == NULL and S.st.entails(n - off): r.nul = off
            elif sz == 1 and isinstance(v, Lin) and S.st.entails_ne(v) and S.st.entails(n - off - 1): pass
            else: r.nul = None
        self.kill(S, r, off, C(sz))
        if off.isconst(): r.cells[off.c] = (sz, v)
        else: r.sym = r.sym + ((off, sz, v),)
        return [S]
    def kill(self, S, r, off, n):
        """forget cells that may overlap [off, off+n)"""
        off = S.st.norm(off); n = S.st.norm(n)
        killed = False
        if self.track_cut: S.mon.pop(('cut', r.rid), None)
        if off.isconst() and n.isconst():
            for o in [o for o, (s2, _) in r.cells.items() if o < off.c + n.c and off.c < o + s2]:
                s2, v = r.cells.pop(o)
                if s2 > 1 and isinstance(v, Lin) and v.isconst() and (o < off.c or o + s2 > off.c + n.c):
                    for i in range(s2):     # the rest of a constant stays known
                        if not off.c <= o + i < off.c + n.c: r.cells[o + i] = (1, C((v.c >> 8 * i) & 255))
        else:
            for o, (s2, _) in list(r.cells.items()):
                if not (S.st.entails(off - o - s2) or S.st.entails(C(o) - off - n)): del r.cells[o]; killed = True
        keep = []
        for c in r.sym:
            o = S.st.norm(c[0])
            if S.st.entails(off - o - c[1]) or S.st.entails(o - off - n): keep.append(c)
            elif o == off and n.isconst() and c[1] == n.c: pass
            else: killed = True
        r.sym = tuple(keep)
        if not off.isconst() or not n.isconst() or killed:
            _epoch[0] += 1; r.epoch = _epoch[0]
            if r.zero: r.zero = False
        return r
    def havoc(self, S, p, n=None):
        """unknown contents in [p, p+n) (or the whole region)"""
        r = S.w(p.r)
        if n is None:
            if self.track_cut: S.mon.pop(('cut', r.rid), None)
            r.cells = {}; r.sym = (); r.nul = None; _epoch[0] += 1; r.epoch = _epoch[0]; r.zero = False
        else:
            off = S.st.norm(p.o)
            if r.nul is not None and not S.st.entails(off - r.nul - 1): r.nul = None
            self.kill(S, r, p.o, n)
            _epoch[0] += 1; r.epoch = _epoch[0]
            r.zero = False

    # ---------------------------------------------------------------- operands
    def global_ptr(self, S, name):
        name = self.mod.alias.get(name, name)
        if name in self.mod.fns or name in self.mod.decls: return FnV(name)
        rid = self.globals.get(name)
        if rid is None:
            ty, init, const = self.mod.globals[name]
            _rid[0] += 1; rid = _rid[0]
            self.globals[name] = rid
            r = Region(rid, 'global', name, C(self.mod.size(ty)))
            if const and init is not None:
                r.ro = True
                b = self.const_bytes(ty, init)
                if b is not None:
                    r.bytes = b
                    if ty.k == 'arr' and ty.el.k == 'int' and ty.el.bits == 8 and b'\0' in b: r.nul = C(b.index(b'\0'))
                elif name.startswith('_ZTV'): self.const_cells(r, ty, init, 0)
            self.globals[('region', rid)] = r
        if rid not in S.mem: S.mem[rid] = self.globals[('region', rid)]
        return PtrV(rid, ZERO)
    def const_cells(self, r, ty, init, off):
        """virtual tables: the functions in them"""
        t = self.mod.resolve(ty)
        if init[0] == 'agg':
            for et, e in init[1]:
                self.const_cells(r, et, e, off); off += self.mod.size(et)
        elif t.k == 'ptr':
            if init[0] == 'null': r.cells[off] = (8, NULL)
            elif init[0] == 'g':
                n = self.mod.alias.get(init[1], init[1])
                if n in self.mod.fns or n in self.mod.decls: r.cells[off] = (8, FnV(n))
    def const_bytes(self, ty, init):
        t = self.mod.resolve(ty)
        if init[0] == 'str':
            s = init[1][2:-1]; out = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\' and s[i + 1] != '\\': out.append(int(s[i + 1:i + 3], 16)); i += 3
                elif s[i] == '\\': out.append(92); i += 2
                else: out.append(ord(s[i])); i += 1
            return bytes(out)
        if init[0] == 'zero': return bytes(self.mod.size(t))
        if init[0] == 'c': return (init[1] % (1 << (8 * self.mod.size(t)))).to_bytes(self.mod.size(t), 'little')
        if init[0] == 'agg' and t.k == 'arr':
            out = b''
            for et, e in init[1]:
                b = self.const_bytes(et, e)
                if b is None: return None
                out += b
            return out
        return None
    def val(self, S, v, ty):
        k = v[0]
        if k == 'r':
            x = S.regs.get(v[1])
            if x is None: raise AnalysisError('unset register %s in %s' % (v[1], self.fname()))
            return x
        if k == 'c': return C(v[1])
        if k == 'null': return NULL
        if k == 'g': return self.global_ptr(S, v[1])
        if k == 'undef':
            if ty is not None and ty.k == 'int': return S.u('undef', ty.bits)
            return TOP
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t.k == 'struct': return AggV([self.val(S, ('zero',), e) for e in t.elems])
            if t.k == 'fp': return FpV('zero')
            return NULL
        if k == 'f': return FpV(('const', v[1]))
        if k == 'gep': return self.gep(S, v[1], [(t, self.val(S, o, t)) for t, o in v[2]])[0][1]
        if k == 'cast': return self.val(S, v[3], v[2])
        if k == 'agg': return AggV([self.val(S, e, t) for t, e in v[1]])
        if k == 'str': return TOP
        if k == 'meta': return TOP
        if k == 'cbin': return TOP
        raise AnalysisError('operand %r' % (v,))

    def gep(self, S, ty, ops):
        base = ops[0][1]
        outs = [(S, ZERO)]
        def add(outs, v, vt, scale):
            res = []
            for T, o in outs:
                if isinstance(v, Lin):
                    if vt.bits < 64 and not T.st.norm(v).isconst():
                        for T2, x in self.sval(T, v, vt.bits): res.append((T2, o + x.scale(scale)))
                    else:
                        x = T.st.norm(v)
                        if x.isconst() and x.c >= (1 << 63): x = C(x.c - M64)
                        res.append((T, o + x.scale(scale)))
                elif isinstance(v, CondV):
                    for T2, x in self.toint(T, v): res.append((T2, o + x.scale(scale)))
                else: res.append((T, None))
            return res
        cur = ty
        outs = add(outs, ops[1][1], ops[1][0], self.mod.size(ty)) if len(ops) > 1 else outs
        for vt, v in ops[2:]:
            t = self.mod.resolve(cur)
            if t.k == 'struct':
                off, el = self.mod.fieldoff(t, v.c)
                outs = [(T, o + off if o is not None else None) for T, o in outs]; cur = el
            else:
                outs = add(outs, v, vt, self.mod.size(t.el)); cur = t.el
        res = []
        for T, o in outs:
            if isinstance(base, PtrV): res.append((T, TOP if o is None else PtrV(base.r, T.st.norm(base.o + o))))
            elif isinstance(base, SegV):
                res.append((T, base if o is not None and o == ZERO else ('segoff', base, o)))
            elif isinstance(base, tuple) and base and base[0] == 'segoff':
                res.append((T, ('segoff', base[1], base[2] + o)))
            elif isinstance(base, Lin): res.append((T, T.st.norm(base + o) if o is not None else TOP))
            else: res.append((T, TOP))
        return res

    def toint(self, S, v):
        """CondV -> 0/1 by splitting"""
        if isinstance(v, CondV):
            out = []
            for T in self.assume(S.copy(), v, True): out.append((T, ONE))
            for T in self.assume(S, v, False): out.append((T, ZERO))
            return out
        return [(S, v)]
    def cond(self, v, S):
        """value of i1 -> CondV or Lin const"""
        if isinstance(v, CondV): return v
        if isinstance(v, Lin):
            n = S.st.norm(v)
            if n.isconst(): return CondV(('const', bool(n.c & 1)))
            return CondV(('not', ('eq', n)))
        return CondV(('opq', opaque('top')))

    # ---------------------------------------------------------------- arithmetic
    def memo(self, S, key, lo, hi, name):
        v = S.memo.get(key)
        if v is None: v = S.memo[key] = V(newvar(name, lo, hi))
        return v
    def binop(self, S, op, a, b, w):
        """list of (state, value)"""
        if w == 1:
            ca, cb = self.cond(a, S).t, self.cond(b, S).t
            if op == 'and': return [(S, CondV(('and', ca, cb)))]
            if op == 'or': return [(S, CondV(('or', ca, cb)))]
            if op == 'xor':
                if cb == ('const', True): return [(S, CondV(('not', ca)))]
                if cb == ('const', False): return [(S, CondV(ca))]
                return [(S, CondV(('or', ('and', ca, ('not', cb)), ('and', ('not', ca), cb))))]
            return [(S, CondV(('opq', opaque())))]
        if isinstance(a, CondV) or isinstance(b, CondV):
            out = []
            for T, x in self.toint(S, a):
                for T2, y in self.toint(T, b): out += self.binop(T2, op, x, y, w)
            return out
        if isinstance(a, PtrV) and isinstance(b, PtrV) and op == 'sub':
            if a.r == b.r: return [(S, S.st.norm(a.o - b.o))]
            return [(S, S.u('ptrdiff', w))]
        if isinstance(a, PtrV) and isinstance(b, Lin):
            if op == 'add': return [(S, PtrV(a.r, a.o + b))]
            if op == 'sub': return [(S, PtrV(a.r, a.o - b))]
        if isinstance(b, PtrV) and isinstance(a, Lin) and op == 'add': return [(S, PtrV(b.r, b.o + a))]
        if not (isinstance(a, Lin) and isinstance(b, Lin)): return [(S, S.u('top', w))]
        a = S.st.norm(a); b = S.st.norm(b)
        F = 1 << w
        def red(e): return C(e.c % F) if e.isconst() else e
        if op == 'add': return [(S, red(a + b))]
        if op == 'sub': return [(S, red(a - b))]
        if op == 'mul':
            if a.isconst(): a, b = b, a
            if b.isconst():
                k = b.c % F
                if k >= F // 2: k -= F
                return [(S, red(a.scale(k)))]
            out = []
            for T, x, y in self.uval2(S, a, b, w):
                kx, ky = sorted([x, y], key=repr)
                v = self.memo(T, ('mul', kx, ky, w), 0, None, 'mul')
                for p, q in ((x, y), (y, x)):
                    lo = T.st.minof(p); hi = T.st.maxof(p)
                    try:
                        if lo is not None and lo >= 0: T.st.ge(v - q.scale(lo))
                        if hi is not None and hi < (1 << 62): T.st.ge(q.scale(hi) - v)
                    except Infeasible: break
                else: out.append((T, v))
            return out
        if op == 'shl':
            if b.isconst():
                if b.c >= w: return [(S, S.u('shlov', w))]
                return self.binop(S, 'mul', a, C(1 << b.c), w)
            lo, hi = S.st.minof(b), S.st.maxof(b)
            if lo is not None and hi is not None and 0 <= lo and hi < w and hi - lo <= 64:
                if a.isconst() and a.c == 1:
                    out = []
                    for T, bb in self.uval(S, b, w):
                        v = self.memo(T, ('pow2', bb, w), 1 << lo, 1 << hi, 'pow2')
                        out.append((T, v))
                    return out
            return [(S, self.memo(S, ('shl', a, b, w), 0, F - 1, 'shl'))]
        if op in ('udiv', 'lshr', 'urem'):
            if op == 'lshr':
                if not b.isconst(): return [(S, self.memo(S, ('lshr', a, b, w), 0, F - 1, 'lshr'))]
                d = C(1 << b.c)
            else: d = b
            out = []
            for T, x, y in self.uval2(S, a, d, w):
                if op != 'lshr' and not y.isconst():
                    ok = T.st.entails(y - 1)
                    self.ob(ok, 'div-by-zero', 'divisor is not proven to be nonzero', T)
                    if not ok:
                        T.st.ge(y - 1)
                if y.isconst() and y.c == 0:
                    self.ob(False, 'div-by-zero', 'divisor is zero', T); continue
                if x.isconst() and y.isconst():
                    out.append((T, C(x.c % y.c if op == 'urem' else x.c // y.c))); continue
                if y.isconst():
                    k = y.c
                    if T.st.entails(C(k - 1) - x):
                        out.append((T, x if op == 'urem' else ZERO)); continue
                    if all(c % k == 0 for _, c in x.t) and x.t:
                        q = Lin(x.c // k, tuple((v, c // k) for v, c in x.t))
                        out.append((T, C(x.c % k) if op == 'urem' else q)); continue
                    B = Lin(x.c % k, tuple((v, c) for v, c in x.t if c % k)); A = Lin(x.c // k, tuple((v, c // k) for v, c in x.t if c % k == 0))
                    if B.t and T.st.entails(B) and T.st.entails(C(k - 1) - B):
                        out.append((T, B if op == 'urem' else A)); continue
                    lo = T.st.minof(B) if B.t else None
                    if lo is not None and lo // k and T.st.entails(C((lo // k + 1) * k - 1) - B):
                        out.append((T, B - (lo // k) * k if op == 'urem' else A + lo // k)); continue
                    q = self.memo(T, ('div', x, k), 0, (F - 1) // k, 'q')
                    try:
                        T.st.ge(x - q.scale(k)); T.st.ge(q.scale(k) + (k - 1) - x)
                    except Infeasible: continue
                    out.append((T, T.st.norm(x - q.scale(k)) if op == 'urem' else T.st.norm(q)))
                else:
                    q = self.memo(T, ('div', x, y), 0, F - 1, 'q'); r = self.memo(T, ('rem', x, y), 0, F - 1, 'r')
                    lo = T.st.minof(y) or 1
                    try:
                        T.st.ge(x - q.scale(max(1, lo))); T.st.ge(y - r - 1); T.st.ge(x - r)
                    except Infeasible: continue
                    out.append((T, T.st.norm(r if op == 'urem' else q)))
            return out
        if op in ('sdiv', 'srem', 'ashr'):
            out = []
            for T, x in self.sval(S, a, w):
                if T.st.entails(x) and (op == 'ashr' or T.st.entails(b - 1)):
                    out += self.binop(T, {'sdiv': 'udiv', 'srem': 'urem', 'ashr': 'lshr'}[op], x, b, w)
                else:
                    out.append((T, self.memo(T, (op, x, b, w), -(F // 2), F // 2 - 1, op)))
            return out
        if op in ('and', 'or', 'xor'):
            if a.isconst(): a, b = b, a
            if a.isconst() and b.isconst():
                x, y = a.c % F, b.c % F
                return [(S, C(x & y if op == 'and' else x | y if op == 'or' else x ^ y))]
            if b.isconst():
                k = b.c % F
                if op == 'xor' and k == F - 1: return [(S, C(-1) - a)]
                if k == 0: return [(S, ZERO if op == 'and' else a)]
                if op == 'and' and k == F - 1: return [(S, a)]
                if op == 'and' and (k & (k + 1)) == 0:
                    n = S.st.norm(a)
                    if all(x % (k + 1) == 0 for _, x in n.t): return [(S, C(n.c % (k + 1)))]
            out = []
            for T, x, y in self.uval2(S, a, b, w):
                if op == 'and' and y.isconst():
                    k = y.c
                    if (k & (k + 1)) == 0:      # low mask
                        out += self.binop(T, 'urem', x, C(k + 1), w); continue
                    tz = (k & -k).bit_length() - 1
                    kk = k >> tz
                    if (kk & (kk + 1)) == 0:    # contiguous mask: (x >> tz) & kk << tz
                        for T2, q in self.binop(T, 'lshr', x, C(tz), w):
                            for T3, m in self.binop(T2, 'urem', q, C(kk + 1), w): out.append((T3, T3.st.norm(m.scale(1 << tz))))
                        continue
                    v = self.memo(T, ('and', x, k), 0, k, 'and')
                    try: T.st.ge(x - v)
                    except Infeasible: continue
                    out.append((T, v)); continue
                if op == 'or':
                    done = False
                    for p, q in ((x, y), (y, x)):
                        # p multiple of 2^k and q < 2^k
                        hi = T.st.maxof(q)
                        if hi is not None and hi >= 0:
                            k = max(1, hi.bit_length())
                            if hi == 0 or (p.c % (1 << k) == 0 and all(c % (1 << k) == 0 for _, c in p.t)):
                                out.append((T, p + q)); done = True; break
                    if done: continue
                    v = self.memo(T, ('or',) + tuple(sorted([x, y], key=repr)), 0, F - 1, 'or')
                    try: T.st.ge(v - x); T.st.ge(v - y); T.st.ge(x + y - v)
                    except Infeasible: continue
                    out.append((T, v)); continue
                v = self.memo(T, (op,) + tuple(sorted([x, y], key=repr)), 0, F - 1, op)
                try:
                    if op == 'and': T.st.ge(x - v); T.st.ge(y - v)
                    else: T.st.ge(x + y - v)
                except Infeasible: continue
                out.append((T, v))
            return out
        if op.startswith('f'): return [(S, FpV(opaque('fp')))]
        raise AnalysisError('binop ' + op)

    def icmp(self, S, pred, a, b, ty):
        """list of (state, CondV)"""
        w = 64 if ty.k == 'ptr' else ty.bits
        if w == 1:
            out = []
            for T, x in self.toint(S, a):
                for T2, y in self.toint(T, b): out += self.icmp(T2, pred, x, y, ir.IntTy(8))
            return out
        if isinstance(a, CondV) or isinstance(b, CondV):
            out = []
            for T, x in self.toint(S, a):
                for T2, y in self.toint(T, b): out += self.icmp(T2, pred, x, y, ty)
            return out
        pa, pb = isinstance(a, (PtrV, FnV)), isinstance(b, (PtrV, FnV))
        if pa or pb or isinstance(a, SegV) or isinstance(b, SegV):
            return self.ptrcmp(S, pred, a, b)
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return [(S, CondV(('opq', ('cmp', pred, id(a), id(b)) if False else opaque())))]
        a = S.st.norm(a); b = S.st.norm(b)
        F = 1 << w
        if pred in ('eq', 'ne'):
            d = a - b
            if d.isconst(): return [(S, CondV(('const', (d.c % F == 0) == (pred == 'eq'))))]
            if S.st.entails(d + (F - 1)) and S.st.entails(C(F - 1) - d):
                c = ('eq', d)
                return [(S, CondV(c if pred == 'eq' else ('not', c)))]
            out = []
            for T, x, y in self.uval2(S, a, b, w):
                c = ('eq', x - y)
                out.append((T, CondV(c if pred == 'eq' else ('not', c))))
            return out
        f = self.uval2 if pred[0] == 'u' else self.sval2
        out = []
        for T, x, y in f(S, a, b, w):
            k = pred[1:]
            e = {'gt': x - y - 1, 'ge': x - y, 'lt': y - x - 1, 'le': y - x}[k]
            if e.isconst(): out.append((T, CondV(('const', e.c >= 0))))
            else: out.append((T, CondV(('ge', e))))
        return out
    def ptrcmp(self, S, pred, a, b):
        if isinstance(a, SegV) or isinstance(b, SegV):
            return self.seg_cmp(S, pred, a, b)
        if isinstance(a, PtrV) and isinstance(b, PtrV) and a.r == b.r:
            d = S.st.norm(a.o - b.o)
            k = pred[1:] if pred[0] in 'us' and pred not in ('eq', 'ne') else pred
            if k == 'eq' or k == 'ne':
                c = ('const', d.c == 0) if d.isconst() else ('eq', d)
                return [(S, CondV(c if k == 'eq' else ('not', c)))]
            e = {'gt': d - 1, 'ge': d, 'lt': -d - 1, 'le': -d}[k]
            return [(S, CondV(('const', e.c >= 0) if e.isconst() else ('ge', e)))]
        if pred in ('eq', 'ne'):
            if isinstance(a, Lin) or isinstance(b, Lin):
                n = S.st.norm(a if isinstance(a, Lin) else b)
                if n.isconst(): return [(S, CondV(('const', pred == 'ne')))]
                return [(S, CondV(('opq', ('pc', a, b))))]
            if a is TOP or b is TOP: return [(S, CondV(('opq', opaque())))]
            if isinstance(a, FnV) and isinstance(b, FnV): return [(S, CondV(('const', (a.n == b.n) == (pred == 'eq'))))]
            return [(S, CondV(('const', pred == 'ne')))]
        return [(S, CondV(('opq', opaque())))]
    def seg_cmp(self, S, pred, a, b): raise AnalysisError('segment comparison')

    # ---------------------------------------------------------------- control flow
    def loops(self, f):
        if f.name in self._loops: return self._loops[f.name]
        # reverse post order
        seen = set(); post = []
        st = [(f.entry, iter(f.blocks[f.entry].succ))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(f.blocks[s].succ))); break
            else:
                post.append(b); st.pop()
        rpo = list(reversed(post)); idx = {b: i for i, b in enumerate(rpo)}
        dom = {f.entry: f.entry}
        ch = True
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = dom[a]
                while idx[b] > idx[a]: b = dom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in f.blocks[b].pred if p in dom]
                n = ps[0]
                for p in ps[1:]: n = inter(n, p)
                if dom.get(b) != n: dom[b] = n; ch = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == f.entry: return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in f.blocks[b].succ:
                if idx[s] <= idx[b]:
                    if not dominates(s, b): raise AnalysisError('irreducible control flow in ' + f.name)
                    body = loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x); todo += [p for p in f.blocks[x].pred if p in idx]
        r = (idx, loops)
        self._loops[f.name] = r
        return r
    def liveness(self, f):
        """block -> set of registers live at block entry (after phis)"""
        if f.name in self._live: return self._live[f.name]
        def ops(v, acc):
            if not isinstance(v, tuple) or not v: return
            if v[0] == 'r' and len(v) == 2: acc.add(v[1]); return
            for x in v:
                if isinstance(x, tuple): ops(x, acc)
                elif isinstance(x, list):
                    for y in x: ops(y, acc) if isinstance(y, tuple) else None
        use = {}; deff = {}; phiuse = {b: {} for b in f.blocks}
        for n, b in f.blocks.items():
            u = set(); d = set()
            for i in b.ins:
                if i.op == 'phi':
                    d.add(i.res)
                    for v, p in i.a:
                        s = set(); ops(v, s)
                        phiuse[n].setdefault(p, set()).update(s)
                    continue
                s = set()
                if i.a is not None:
                    ops(tuple(i.a) if isinstance(i.a, list) else i.a, s)
                    if isinstance(i.a, list):
                        for x in i.a: ops(x, s) if isinstance(x, tuple) else None
                    if i.op == 'call':
                        ops(i.a[0], s)
                        for t, v in i.a[1]: ops(v, s)
                u |= {x for x in s if x not in d}
                if i.res: d.add(i.res)
            use[n] = u; deff[n] = d
        live = {n: set(use[n]) for n in f.blocks}
        ch = True
        while ch:
            ch = False
            for n in reversed(f.order):
                out = set()
                for s in f.blocks[n].succ:
                    phid = {i.res for i in f.blocks[s].ins if i.op == 'phi'}
                    out |= (live[s] - set())
                    out -= set()
                    out |= phiuse[s].get(n, set())
                    # phis of s are defined on the edge
                    out -= (phid - use_in(phiuse, s, n))
                new = use[n] | (out - deff[n])
                # phi results defined in this block are live-in "after phis"
                phin = {i.res for i in f.blocks[n].ins if i.op == 'phi'}
                used_after = set()
                for i in f.blocks[n].ins:
                    pass
                new |= (out & phin)
                if new != live[n]: live[n] = new; ch = True
        for n, b in f.blocks.items():
            # phi results used in the block itself
            phin = {i.res for i in b.ins if i.op == 'phi'}
            s = set()
            for i in b.ins:
                if i.op != 'phi' and i.a is not None:
                    ops(tuple(i.a) if isinstance(i.a, list) else i.a, s)
                    if isinstance(i.a, list):
                        for x in i.a: ops(x, s) if isinstance(x, tuple) else None
                    if i.op == 'call':
                        ops(i.a[0], s)
                        for t, v in i.a[1]: ops(v, s)
            live[n] |= (phin & s)
        self._live[f.name] = live
        return live

    def live_after(self, I):
        r = self._after.get(id(I))
        if r is None:
            f = I.fn
            b = next(x for x in f.blocks.values() if any(i is I for i in x.ins))
            lv = self.liveness(f)
            keep = set()
            for s in b.succ: keep |= lv[s] | use_in2(f, s, b.name)
            n = next(k for k, i in enumerate(b.ins) if i is I)
            for i in b.ins[n + 1:]: keep |= self.ins_uses(i)
            r = self._after[id(I)] = keep
        return r
    def ins_uses(self, i):
        acc = set()
        def ops(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'r' and isinstance(v[1], str): acc.add(v[1]); return
                for x in v: ops(x)
            elif isinstance(v, list):
                for x in v: ops(x)
        if i.a is not None: ops(tuple(i.a) if isinstance(i.a, list) else i.a)
        return acc
    def call(self, S, f, args):
        """analyse function f from state S; list of (state, return value)"""
        if len(self.stack) > self.inline_depth: raise AnalysisError('inlining too deep at %s' % f.name)
        if sum(1 for i in self.stack if i is not None and i.op == 'call' and i.a[0] == ('g', f.name)) > 3:
            raise AnalysisError('recursion in %s' % self.mod.dem.get(f.name))
        self.fns_seen.add(f.name)
        if self.ends and self.recursive(f):
            for n, A, P in self.active:
                if n != f.name or P.env != S.env or S.mon.get('$taint'): continue
                T = S.copy(); T.mem = {r: R for r, R in T.mem.items() if r in P.mem or R.kind != 'stack'}
                Q = P.copy(); Q.regs = {str(i): a for i, a in enumerate(A)}; T.regs = {str(i): a for i, a in enumerate(args)}
                if self.same_state(Q, T, list(Q.regs)) and S.st.feasible():
                    self.ob(False, 'no-progress', 'the function calls itself in the state in which it was called, and so for ever', S, where=self.mod.loc_fn(f), fn=self.mod.dem.get(f.name, f.name))
                    return []
            P = S.copy(); P.hist = {}; self.active.append((f.name, args, P))
            try: return self.call_body(S, f, args)
            finally: self.active.pop()
        return self.call_body(S, f, args)
    def recursive(self, f):
        if getattr(self.mod, '_rec', None) is None:
            nx = {g.name: {self.mod.alias.get(i.a[0][1], i.a[0][1]) for b in g.blocks.values() for i in b.ins if i.op == 'call' and i.a[0][0] == 'g'} & set(self.mod.fns) for g in self.mod.fns.values()}
            rec = set()
            for g in nx:
                seen = set(); todo = list(nx[g])
                while todo:
                    x = todo.pop()
                    if x in seen: continue
                    seen.add(x); todo += nx[x]
                if g in seen: rec.add(g)
            self.mod._rec = rec
        return f.name in self.mod._rec
    def call_body(self, S, f, args):
        saved = S.regs
        if self.stack and self.stack[-1] is not None and self.stack[-1].op == 'call' and self.stack[-1].fn is not f:
            keep = self.live_after(self.stack[-1])
            saved = {k: v for k, v in saved.items() if k in keep}
        S.outer = S.outer + (saved,)
        S.regs = {n: a for (n, t), a in zip(f.params, args)}
        before = set(S.mem)
        save_ins = self.ins
        backs, exits, rets = self.run(f, set(f.blocks), None, [S], f.entry)
        self.ins = save_ins
        out = []
        for T, v in rets:
            # stack objects of this frame disappear
            for rid in [r for r in T.mem if r not in before and T.mem[r].kind == 'stack']:
                del T.mem[rid]
            T.regs = dict(T.outer[-1]); T.outer = T.outer[:-1]
            out.append((T, v))
        if len(out) > self.CAP: out = self.sample(out) if self.peel else self.merge_rets(out)
        return out
    def sample(self, l):
        self.truncated = True
        n = len(l)
        return [l[i * n // self.CAP] for i in range(self.CAP)]
    def merge_rets(self, out):
        groups = {}
        for T, v in out:
            T.regs['$ret'] = v if v is not None else NULL
        sts = self.merge([T for T, _ in out], None, self.CAP // 4)
        res = []
        for T in sts:
            v = T.regs.pop('$ret'); res.append((T, v))
        return res

    def run(self, f, scope, header, states, entry):
        """process the blocks of scope; returns (back edge states, exits [(block,state)], returns)"""
        idx, loops = self.loops(f)
        pend = {entry: list(states)}
        backs = []; exits = []; rets = []
        first = True
        while pend:
            b = min(pend, key=lambda x: idx[x])
            sts = pend.pop(b)
            if len(sts) > self.CAP: sts = self.sample(sts) if self.peel else self.merge(sts, self.liveness(f)[b], self.CAP // 4)
            if b in loops and b != header:
                ex, rt = self.loop(f, b, loops[b], sts)
                rets += rt
                outs = ex
            else:
                outs = []
                for S in sts:
                    for kind, x, T in self.block(f, f.blocks[b], S):
                        if kind == 'ret': rets.append((T, x))
                        else: outs.append((x, T))
            for tgt, T in outs:
                if tgt == header: backs.append(T)
                elif tgt not in scope: exits.append((tgt, T))
                else: pend.setdefault(tgt, []).append(T)
        return backs, exits, rets

    def loop(self, f, h, body, states):
        live = self.liveness(f)[h]
        un = next((k for n, k in self.unroll.items() if n in self.mod.dem.get(f.name, f.name)), 0)
        if un and not self.peel:
            sv, so, tr = self.viol, self.obl, self.truncated
            self.viol, self.obl = dict(sv), dict(so)
            self.peel = un; self.truncated = False
            sn, si = States_snapshot(states), self.icount
            r = self.loop(f, h, body, states)
            self.peel = 0
            if not self.truncated: self.truncated = tr; return r
            self.viol, self.obl, self.truncated = sv, so, tr; states = sn
        if self.peel:
            cur = self.concretise(states, live); ex = []; rt = []
            for it in range((un or self.peel) + 1):
                if not cur: break
                if len(cur) > self.CAP: cur = self.sample(cur)
                cur = self.lasso(f, h, live, cur, it)
                if not cur: break
                backs, e, r = self.run(f, body, h, cur, h)
                ex += e; rt += r
                cur = self.concretise(backs, live)
            if cur:
                self.truncated = True
                if un and it >= un: self.looped.add(self.mod.dem.get(f.name, f.name))
            return ex, rt
        inv = {}
        th = self._thresh.get((f.name, h))
        if th is None:
            th = set()
            for b in body:
                for i in f.blocks[b].ins:
                    if i.op == 'icmp':
                        for x in i.a[1:]:
                            if x[0] == 'c' and 2 <= x[1] <= 1 << 20: th |= {x[1] - 1, x[1], x[1] + 1}
            th = self._thresh[(f.name, h)] = tuple(sorted(th)[:24])
        lin.THRESH[0] = th
        states = self.concretise(states, live)
        for S in states:
            k = (0, self.key(S, live))
            if k in inv: inv[k] = (self.join(inv[k][0], S, live, False), 0)
            else: inv[k] = (S, 0)
        dirty = set(inv); init = {k: v[0].copy() for k, v in inv.items()}
        results = {}; backlist = {}
        rounds = 0
        while dirty:
            rounds += 1
            if rounds > 200: raise AnalysisError('loop does not stabilise in %s' % self.mod.dem.get(f.name))
            k = sorted(dirty, key=repr)[0] if len(dirty) > 1 else next(iter(dirty))
            dirty.discard(k)
            S0, cnt = inv[k]
            sv, so = self.viol, self.obl
            self.viol, self.obl = {}, {}
            backs, exits, rets = self.run(f, body, h, [S0.copy()], h)
            results[k] = (exits, rets, self.viol, self.obl)
            self.viol, self.obl = sv, so
            backs = self.concretise(backs, live); backlist[k] = backs
            lin.THRESH[0] = th
            grown = set()
            for B in backs:
                kb = (1 if self.peel1 else 0, self.key(B, live))
                if kb not in inv:
                    if len(inv) >= self.HEADCAP: raise AnalysisError('too many loop states in %s' % self.mod.dem.get(f.name))
                    inv[kb] = (B, 0); dirty.add(kb)
                else:
                    I, cnt = inv[kb]
                    if self.subsumes(I, B, live): continue
                    J = self.join(I, B, live, 2 if cnt >= 5 else cnt >= 2)
                    inv[kb] = (J, cnt + (kb not in grown)); dirty.add(kb); grown.add(kb)
                    results.pop(kb, None)
        self.no_exit(f, h, inv, backlist, results, live)
        if self.rank is not None: self.ranked(f, h, inv, backlist, live)
        if self.always_narrow or any(results[k][2] for k in inv): results = self.narrow(f, h, body, live, inv, init, backlist, results)
        ex = []; rt = []
        for k in inv:
            e, r, v, o = results[k]
            ex += e; rt += r
            self.viol.update({a: b for a, b in v.items() if a not in self.viol})
            for a, b in o.items(): self.obl[a] = self.obl.get(a, True) and b
        return ex, rt
    def head_loc(self, f, h, body=None):
        for b in [h] + sorted(body or ()):
            for i in f.blocks[b].ins:
                l = self.mod.loc(i.dbg) if i.dbg else ('?', 0)
                if l[0] != '?' and l[1]: return l
        return self.mod.loc_fn(f)
    def lasso(self, f, h, live, cur, it):
        """a path that comes back to the head of a loop in the very state it was there before never leaves the loop"""
        out = []; lk = (f.name, h, len(self.stack))
        for S in cur:
            prev = S.hist.get(lk, ()) if it else ()
            if any(P.env == S.env and self.same_state(P, S, live) for P in prev) and not S.mon.get('$taint') and S.st.feasible():
                self.ob(False, 'no-progress', 'the loop comes back to the state it was in before and never ends', S, where=self.head_loc(f, h), fn=self.mod.dem.get(f.name, f.name))
                continue
            snap = S.copy(); snap.hist = {}
            S.hist = dict(S.hist); S.hist[lk] = prev[-7:] + (snap,); out.append(S)
        return out
    def same_state(self, P, S, live):
        n = S.st.norm
        def eq(a, b):
            if a is b: return True
            if isinstance(a, Lin) and isinstance(b, Lin): return a == b or n(a) == n(b)
            if isinstance(a, PtrV) and isinstance(b, PtrV): return a.r == b.r and (a.o == b.o or n(a.o) == n(b.o))
            if isinstance(a, AggV) and isinstance(b, AggV): return len(a.e) == len(b.e) and all(eq(x, y) for x, y in zip(a.e, b.e))
            return a is not TOP and b is not TOP and type(a) == type(b) and a == b
        for r in live:
            a, b = P.regs.get(r), S.regs.get(r)
            if (a is None) != (b is None) or a is not None and not eq(a, b): return False
        if P.mem.keys() != S.mem.keys(): return False
        for rid, A in P.mem.items():
            B = S.mem[rid]
            if A is B: continue
            if A.freed != B.freed or A.epoch != B.epoch or A.zero != B.zero or len(A.cells) != len(B.cells) or len(A.sym) != len(B.sym) or A.tags != B.tags: return False
            for x, y in ((A.size, B.size), (A.nul, B.nul)):
                if (x is None) != (y is None) or x is not None and not eq(x, y): return False
            for o, (w, v) in A.cells.items():
                c = B.cells.get(o)
                if c is None or c[0] != w or not eq(v, c[1]): return False
            for x, y in zip(A.sym, B.sym):
                if not all(eq(p, q) if not isinstance(p, int) else p == q for p, q in zip(x, y)): return False
        ka = {k for k in P.mon if k != '$digits'}; kb = {k for k in S.mon if k != '$digits'}
        return ka == kb and all(eq(P.mon[k], S.mon[k]) if isinstance(P.mon[k], (Lin, PtrV)) else P.mon[k] == S.mon[k] for k in ka)
    def no_exit(self, f, h, inv, backlist, results, live):
        """loop states from which, on the over-approximation, no way out of the loop exists"""
        ok = {k for k in inv if k in results and (results[k][0] or results[k][1] or results[k][2] or not backlist.get(k))}
        succ = {k: {(1 if self.peel1 else 0, self.key(B, live)) for B in backlist.get(k, ())} for k in inv}
        ch = True
        while ch:
            ch = False
            for k in inv:
                if k not in ok and (succ[k] & ok or not succ[k] <= set(inv)): ok.add(k); ch = True
        for k in inv:
            S = inv[k][0]
            if k not in ok and not S.mon.get('$taint') and S.st.feasible():
                self.ob(False, 'no-progress', 'the loop has no way out in this state', S, where=self.head_loc(f, h), fn=self.mod.dem.get(f.name, f.name))
    def ranked(self, f, h, inv, backlist, live):
        """does every way round the loop move some quantity strictly one way?  Quantities are machine numbers that did not
        wrap, so that cannot go on for ever; ways round that do so are removed, and the rest is looked at again"""
        edges = []
        for k in inv:
            for B in backlist.get(k, ()):
                kb = (1 if self.peel1 else 0, self.key(B, live))
                if inv[k][0].env != B.env: continue          # the environment is asked anew
                edges.append((k, B, kb))
        def comps(es):
            # edges inside strongly connected components
            nx = {}
            for a, B, b in es: nx.setdefault(a, set()).add(b)
            def reach(x):
                seen = set(); todo = list(nx.get(x, ()))
                while todo:
                    y = todo.pop()
                    if y in seen: continue
                    seen.add(y); todo += nx.get(y, ())
                return seen
            R = {a: reach(a) for a in nx}
            out = {}
            for e in es:
                a, B, b = e
                if a in R.get(b, ()) or a == b:
                    c = frozenset(x for x in R[a] if a in R.get(x, ())) | {a}
                    out.setdefault(c, []).append(e)
            return list(out.values())
        def vals(S):
            d = {}
            for r in live:
                v = S.regs.get(r)
                if isinstance(v, Lin): d[r] = v
                elif isinstance(v, PtrV): d[r, v.r] = v.o
            for rid, R in S.mem.items():
                for o, (w, v) in R.cells.items():
                    if isinstance(v, Lin): d[rid, o, w] = v
                    elif isinstance(v, PtrV): d[rid, o, v.r] = v.o
            return d
        cache = {}
        def val(S):
            if id(S) not in cache: cache[id(S)] = vals(S)
            return cache[id(S)]
        todo = comps(edges); left = []
        while todo:
            es = todo.pop(); done = False
            locs = None
            for k, B, kb in es:
                x = set(val(inv[k][0])) & set(val(B)); locs = x if locs is None else locs & x
            locs = sorted(locs, key=repr)
            loc1 = []; delta = {}
            for l in locs:
                a = [val(B)[l] - val(inv[k][0])[l] for k, B, kb in es]
                if all(x == ZERO for x in a): continue
                loc1.append(l); delta[l] = a
            cand = [(l, delta[l]) for l in loc1] + [((l, m), [x - y for x, y in zip(delta[l], delta[m])]) for i, l in enumerate(loc1[:8]) for m in loc1[:i]]
            cand += [((l, '+', m), [x + y for x, y in zip(delta[l], delta[m])]) for i, l in enumerate(loc1[:8]) for m in loc1[:i]]
            for l, a in cand:
                for sg in (1, -1):
                    try:
                        if not all(e[1].st.entails(x.scale(sg)) for e, x in zip(es, a)): continue
                        strict = [e[1].st.entails(x.scale(sg) - 1) for e, x in zip(es, a)]
                    except Infeasible: continue
                    if any(strict):
                        todo += comps([e for e, s in zip(es, strict) if not s]); done = True; break
                if done: break
            if not done: left.append(es)
        self.rank.setdefault((self.head_loc(f, h), self.mod.dem.get(f.name, f.name)), []).append(not left)
    def narrow(self, f, h, body, live, inv, init, backlist, results):
        """one descending step: the join of the entry states and the back edges of the fixpoint, adopted if it is inductive"""
        N = {}
        try:
            for k in inv:
                for B in backlist[k]:
                    kb = (1 if self.peel1 else 0, self.key(B, live))
                    if kb not in inv: return results
                    N[kb] = self.join(N[kb], B, live, False) if kb in N else B.copy()
            for k, S in init.items(): N[k] = self.join(S.copy(), N[k], live, False) if k in N else S.copy()
            for rnd in range(4):
                new = {}; stable = True
                for k in list(N):
                    sv, so = self.viol, self.obl; self.viol, self.obl = {}, {}
                    try:
                        backs, exits, rets = self.run(f, body, h, [N[k].copy()], h)
                        new[k] = (exits, rets, self.viol, self.obl)
                    finally: self.viol, self.obl = sv, so
                    for B in self.concretise(backs, live):
                        kb = (1 if self.peel1 else 0, self.key(B, live))
                        if kb not in N:
                            if kb not in inv: return results
                            N[kb] = B.copy(); stable = False
                        elif not self.subsumes(N[kb], B, live): N[kb] = self.join(N[kb], B, live, rnd); stable = False
                if stable: break
            else: return results
        except Infeasible: return results
        for k in inv: new.setdefault(k, ([], [], {}, {}))
        return new
    def concretise(self, states, live):
        """boolean conditions live at a loop head become constants"""
        out = []; self.cur_live = live
        for h in self.head_hooks:
            states = [T for S in states for T in h(self, S)]
        for S in states:
            if S.ghost:
                try: self.saturate(S)
                except Infeasible: continue
            for rid in [r for r, R in S.mem.items() if R.kind == 'input' and (R.sym or R.cells)]:
                R = S.w(rid); R.sym = ()
            work = [S]
            for r in sorted(live):
                v = S.regs.get(r)
                if isinstance(v, CondV):
                    nw = []
                    for T in work:
                        for T2, x in self.toint(T, v):
                            T2.regs[r] = x; nw.append(T2)
                    work = nw
            out += work
        return out

    # ---------------------------------------------------------------- abstract state operations
    def key(self, S, live):
        k = []
        def vk(v, bits8=False):
            if isinstance(v, PtrV): return v.r
            if isinstance(v, Lin):
                return 'n' if v == NULL else 'i'
            if isinstance(v, (FnV, SegV)): return v
            if isinstance(v, CondV): return v
            if isinstance(v, AggV): return tuple(vk(x) for x in v.e)
            return 't'
        if live is not None:
            for r in sorted(live):
                v = S.regs.get(r)
                if v is not None:
                    x = vk(v)
                    if isinstance(v, Lin): x = 'i'
                    k.append((r, x))
        else:
            for r in sorted(S.regs):
                if r == '$ret':
                    v = S.regs[r]
                    if isinstance(v, Lin):
                        n = S.st.norm(v); k.append(n.c if n.isconst() and n.c in (0, 1) else 'i')
                    else: k.append(vk(v))
        for rid in sorted(S.mem):
            R = S.mem[rid]
            if R.kind == 'global': continue
            cs = []
            if R.kind in ('obj', 'stackobj', 'heap', 'stack'):
                for o in sorted(R.cells):
                    s, v = R.cells[o]
                    if isinstance(v, (PtrV, SegV, FnV)): cs.append((o, vk(v)))
                    elif s == 8 and v == NULL: cs.append((o, 'z'))
                    elif s == 1 and R.kind == 'obj':
                        n = v if isinstance(v, Lin) else None
                        if n is not None and n.isconst() and n.c in (0, 1): cs.append((o, n.c))
            # integer zero and null pointer look alike: only keep 'z' when the cell holds pointers elsewhere
            cs = [c for c in cs if c[1] != 'z' or ('ptrcell', rid, c[0]) in self.ptrcells]
            k.append((rid, R.freed, tuple(cs), tuple(sorted((a, b) for a, b in R.tags.items() if isinstance(b, (str, int, bool))))))
        if self.shape is not None:
            for d in S.outer:
                for r in sorted(d):
                    if isinstance(d[r], (PtrV, SegV, tuple)): k.append((r, self.monkey(S, d[r])))
        for a in sorted(S.mon, key=repr):
            v = S.mon[a]
            if isinstance(a, tuple) and a[0] == 'pend': continue
            if not isinstance(v, Lin): k.append((repr(a), repr(self.monkey(S, v))))
        return tuple(k)
    def monkey(self, S, v):
        if isinstance(v, PtrV): return ('p', v.r)
        if isinstance(v, Lin): return 'i'
        if isinstance(v, tuple): return tuple(self.monkey(S, x) for x in v)
        return v
    ptrcells = set()

    def join(self, S1, S2, live, widen):
        # prefix sums at the cursors of both states
        for r in (live if live is not None else set(S1.regs) & set(S2.regs)):
            a, b = S1.regs.get(r), S2.regs.get(r)
            if isinstance(a, PtrV) and isinstance(b, PtrV) and a.r == b.r and a.r in S1.mem and 'prefix' in S1.mem[a.r].tags:
                self.ghost_get(S1, a.r, a.o); self.ghost_get(S2, b.r, b.o)
            elif isinstance(a, Lin) and isinstance(b, Lin) and a != b:
                for rid in set(S1.ghost) | set(S2.ghost):
                    if rid not in S1.mem or rid not in S2.mem: continue
                    if any(S1.st.norm(o) == S1.st.norm(a) for o, g in S1.ghost.get(rid, ())) or any(S2.st.norm(o) == S2.st.norm(b) for o, g in S2.ghost.get(rid, ())):
                        for T, x in ((S1, a), (S2, b)):
                            if T.st.entails(x) and T.st.entails(T.mem[rid].size - x): self.ghost_get(T, rid, x)
        pairs = []      # (newvar, e1, e2)
        pmap = {}
        hints = []
        used = set()
        gen = set()
        n1, n2 = S1.st.norm, S2.st.norm
        def J(e1, e2, name='j'):
            if e1 == e2:
                for v in e1.vars(): used.add(v)
                return e1
            k = (n1(e1), n2(e2))
            v = pmap.get(k)
            if v is None:
                if k[0] == k[1] and k[0].isconst(): return k[0]
                # shared offset from an existing pair
                v = newvar(name, None, None)
                lo = None
                for e in (e1, e2):
                    if len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1: pass
                i1 = S1.st.imin(k[0]); i2 = S2.st.imin(k[1])
                pmap[k] = v; pairs.append((v, e1, e2)); gen.add(v)
            return V(v)
        def JV(v1, v2, name='j'):
            if isinstance(v1, Lin) and isinstance(v2, Lin): return J(v1, v2, name)
            if isinstance(v1, PtrV) and isinstance(v2, PtrV) and v1.r == v2.r:
                o = None
                if v1.o != v2.o:
                    a, b = n1(v1.o), n2(v2.o); g = math.gcd(a.c, b.c, *[c for _, c in a.t + b.t])
                    if g and g % 4 == 0 and a != b:       # a cursor that moves in steps of g
                        o = J(Lin(a.c // g, tuple((v, c // g) for v, c in a.t)), Lin(b.c // g, tuple((v, c // g) for v, c in b.t)), name).scale(g)
                if o is None: o = J(v1.o, v2.o, name)
                if o != v1.o and v1.r in S1.mem and v1.r in S2.mem:
                    A, B = S1.mem[v1.r], S2.mem[v1.r]
                    for x, y in ((A.size, B.size), (A.nul, B.nul)):
                        if x is not None and y is not None and x == y: hints.append(x - o)
                return PtrV(v1.r, o)
            if isinstance(v1, AggV) and isinstance(v2, AggV): return AggV([JV(a, b) for a, b in zip(v1.e, v2.e)])
            if isinstance(v1, tuple) and isinstance(v2, tuple) and len(v1) == len(v2): return tuple(JV(a, b) for a, b in zip(v1, v2))
            if type(v1) == type(v2) and v1 == v2:
                for l in lins_of(v1):
                    for v in l.vars(): used.add(v)
                return v1
            return TOP
        R = State()
        R.outer = S1.outer
        for d in R.outer:
            for x in d.values():
                for l in lins_of(x):
                    for v in l.vars(): used.add(v)
        for r in (live if live is not None else set(S1.regs) & set(S2.regs)):
            if r in S1.regs and r in S2.regs: R.regs[r] = JV(S1.regs[r], S2.regs[r], r)
        for a in S1.mon:
            if a in S2.mon:
                if isinstance(a, tuple) and a[0] == 'pend':
                    continue
                R.mon[a] = JV(S1.mon[a], S2.mon[a], 'm')
        regions = []
        for rid in S1.mem:
            if rid not in S2.mem: continue
            A, B = S1.mem[rid], S2.mem[rid]
            if A is B:
                R.mem[rid] = A
                if A.size is not None:
                    for v in A.size.vars(): used.add(v)
                if A.nul is not None:
                    for v in A.nul.vars(): used.add(v)
                for s, v in A.cells.values():
                    for l in lins_of(v):
                        for x in l.vars(): used.add(x)
                for o, s, v in A.sym:
                    for l in (o,) + tuple(lins_of(v)):
                        for x in l.vars(): used.add(x)
                continue
            N = A.copy()
            N.cells = {}; N.sym = ()
            if A.size is not None and B.size is not None: N.size = J(A.size, B.size)
            same = A.epoch == B.epoch
            for o in sorted(set(A.cells) | set(B.cells)):
                ca, cb = A.cells.get(o), B.cells.get(o)
                if ca is None or cb is None:
                    have = ca or cb
                    if not same or A.nul is not None: continue
                    other = B if cb is None else A
                    if any(o2 < o + have[0] and o < o2 + s2 for o2, (s2, _) in other.cells.items()) or other.sym: continue
                    ty = ir.PTR if not isinstance(have[1], (Lin, FpV)) else ir.IntTy(8 * have[0]) if isinstance(have[1], Lin) else ir.FLT['double']
                    iv = self.init_value(S1, other, C(o), ty)
                    if ca is None: ca = (have[0], iv)
                    else: cb = (have[0], iv)
                if ca[0] != cb[0]: continue
                v = JV(ca[1], cb[1], '%s.%d' % (A.name, o))
                if v is not TOP: N.cells[o] = (ca[0], v)
            if not same: _epoch[0] += 1; N.epoch = _epoch[0]
            N.zero = A.zero and B.zero
            N.freed = A.freed
            N.nul = None
            if A.nul is not None and B.nul is not None: N.nul = J(A.nul, B.nul, 'nul')
            N.tags = {k: v for k, v in A.tags.items() if B.tags.get(k) == v}
            R.mem[rid] = N
            regions.append((rid, A, B, N))
        # symbolic cells: same raw offset, or the same distance from a joined quantity
        for rid, A, B, N in regions:
            sym = []
            for o1, s1, v1 in A.sym:
                hit = None
                for o2, s2, v2 in B.sym:
                    if s1 == s2 and (o1 == o2):
                        hit = (o1, o2, v2); no = o1; break
                if hit is None:
                    for nv, e1, e2 in list(pairs):
                        d = n1(o1) - n1(e1)
                        if d.isconst():
                            for o2, s2, v2 in B.sym:
                                if s1 == s2 and (n2(o2) - n2(e2)) == d: hit = (o1, o2, v2); no = V(nv) + d.c; break
                            if hit is None and n2(e2 + d.c).isconst():
                                cc = B.cells.get(n2(e2 + d.c).c)
                                if cc and cc[0] == s1: hit = (o1, None, cc[1]); no = V(nv) + d.c
                        if hit: break
                if hit is None: continue
                v = JV(v1, hit[2], 'c')
                if v is TOP: continue
                for x in no.vars(): used.add(x)
                sym.append((no, s1, v))
            for o1, (s1, v1) in A.cells.items():
                if o1 in N.cells or not B.sym: continue
                for nv, e1, e2 in list(pairs):
                    d = C(o1) - n1(e1)
                    if d.isconst():
                        for o2, s2, v2 in B.sym:
                            if s1 == s2 and (n2(o2) - n2(e2)) == d:
                                v = JV(v1, v2, 'c')
                                if v is not TOP: sym.append((V(nv) + d.c, s1, v))
                                break
            N.sym = tuple(sym[:24])
        # ghost sums
        for rid in S1.ghost:
            if rid not in S2.ghost: continue
            out = []
            for o1, g1 in S1.ghost[rid]:
                q = n1(o1)
                if any(v not in used for v in q.vars()): continue
                for o2, g2 in S2.ghost[rid]:
                    if n2(o2) == q: out.append((q, J(g1, g2, 'G'))); break
            for nv, e1, e2 in list(pairs):
                for o1, g1 in S1.ghost[rid]:
                    if n1(o1) == n1(e1):
                        for o2, g2 in S2.ghost[rid]:
                            if n2(o2) == n2(e2): out.append((V(nv), J(g1, g2, 'G'))); break
            R.ghost[rid] = tuple(out)
        for k, v in S1.memo.items():
            if S2.memo.get(k) == v:
                if isinstance(v, Lin):
                    if all(x in used for x in v.vars()): R.memo[k] = v
                else: R.memo[k] = v
        live_old = {v for v in used}
        R.st = join_stores(S1.st, S2.st, pairs, live_old, widen, hints)
        R.gen = S1.gen | frozenset(gen)
        R.trace = S1.trace
        return R

    def subsumes(self, I, B, live):
        """B is included in I (I may be generalised over I.gen)"""
        bind = {}
        chk = []
        def P(a, b):
            if isinstance(a, Lin) and isinstance(b, Lin):
                if a == b and not any(v in I.gen for v in a.vars()): return True
                if len(a.t) == 1 and a.t[0][1] == 1 and a.t[0][0] in I.gen and a.t[0][0] not in bind:
                    bind[a.t[0][0]] = b - a.c; return True
                if len(a.t) == 1 and a.t[0][1] > 1 and a.t[0][0] in I.gen and a.t[0][0] not in bind:
                    d = B.st.norm(b) - a.c; k = a.t[0][1]
                    if d.c % k == 0 and all(c % k == 0 for _, c in d.t):
                        bind[a.t[0][0]] = Lin(d.c // k, tuple((v, c // k) for v, c in d.t)); return True
                chk.append((a, b)); return True
            if isinstance(a, PtrV) and isinstance(b, PtrV): return a.r == b.r and P(a.o, b.o)
            if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(P(x, y) for x, y in zip(a, b))
            if isinstance(a, AggV) and isinstance(b, AggV): return all(P(x, y) for x, y in zip(a.e, b.e))
            if a is TOP: return True
            return a == b
        for r in live:
            if r in I.regs:
                if r not in B.regs or not P(I.regs[r], B.regs[r]): return False
        for a in I.mon:
            if isinstance(a, tuple) and a[0] == 'pend': continue
            if a not in B.mon or not P(I.mon[a], B.mon[a]): return False
        later = []
        for rid, A in I.mem.items():
            X = B.mem.get(rid)
            if X is None: return False
            if A is X: continue
            if A.freed != X.freed: return False
            if A.nul is not None and (X.nul is None or not P(A.nul, X.nul)): return False
            if A.zero and not X.zero: return False
            for k, v in A.tags.items():
                if X.tags.get(k) != v: return False
            for o, (s, v) in A.cells.items():
                c = X.cells.get(o)
                if c is None:
                    if X.epoch == A.epoch and isinstance(v, (Lin,)) and not X.sym and not any(o2 < o + s and o < o2 + s2 for o2, (s2, _) in X.cells.items()):
                        c = (s, self.init_value(B, X, C(o), ir.IntTy(8 * s)))
                    else: return False
                if c[0] != s or not P(v, c[1]): return False
            for c in A.sym: later.append((rid, c))
            if A.epoch != X.epoch and A.cells is not None:
                pass
        def bs(e): return e.subst(bind)
        for rid, (o, s, v) in later:
            X = B.mem[rid]
            got = self.find_cell(B, X, B.st.norm(bs(o)), s)
            if got is None: return False
            if not P(v, got): return False
        for rid, gl in I.ghost.items():
            for o, g in gl:
                o2 = B.st.norm(bs(o))
                hit = None
                for ob, gb in B.ghost.get(rid, ()):
                    if B.st.norm(ob) == o2: hit = gb; break
                if hit is None:
                    if not (set(g.vars()) & I.gen): continue
                    for ob, gb in B.ghost.get(rid, ()):
                        if B.st.entails_eq(B.st.norm(ob) - o2): hit = gb; break
                    if hit is None: return False
                if not P(g, hit): return False
        for a, b in chk:
            if not B.st.entails_eq(bs(a) - b): return False
        for e in I.st.allcons():
            if not B.st.entails(bs(e)): return False
        for v, e in I.st.sub.items():
            if not B.st.entails_eq(bs(V(v)) - bs(e)): return False
        for e in I.st.ne:
            if not B.st.entails_ne(bs(e)): return False
        for k, v in I.memo.items():
            if isinstance(v, Lin) and any(x in I.gen for x in v.vars()):
                pass
            elif B.memo.get(k) != v: return False
        return True

    def merge(self, states, live, target):
        """join states with equal keys until few remain"""
        groups = {}
        for S in states:
            lv = live if live is not None else None
            groups.setdefault(self.key(S, lv), []).append(S)
        out = []
        for k, g in groups.items():
            # keep return-value distinct states apart; join the rest
            J = g[0]
            for S in g[1:]: J = self.join(J, S, live, False)
            out.append(J)
        return out

    # ---------------------------------------------------------------- instructions
    def block(self, f, b, S):
        """yield ('ret', value, state) or ('br', target, state)"""
        work = [(S, 0)]
        out = []
        ins = b.ins
        n = len(ins)
        while work:
            S, i = work.pop()
            while True:
                I = ins[i]
                self.ins = I
                self.icount += 1
                if self.icount > self.LIMIT or (self.deadline and not self.icount & 63 and time.time() > self.deadline): raise AnalysisError('analysis budget exceeded in %s' % self.mod.dem.get(f.name))
                if I.op == 'phi': i += 1; continue
                if I.op in ('br', 'switch', 'ret', 'unreachable'):
                    out += self.term(f, b, I, S)
                    break
                res = self.step(S, I)
                if len(res) == 1:
                    S = res[0]; i += 1; continue
                for T in res: work.append((T, i + 1))
                break
        return out
    def edge(self, f, S, frm, to):
        vals = []
        for I in f.blocks[to].ins:
            if I.op != 'phi': break
            for v, p in I.a:
                if p == frm: vals.append((I.res, self.val(S, v, I.ty))); break
        for r, v in vals: S.regs[r] = v
        return ('br', to, S)
    def term(self, f, b, I, S):
        if I.op == 'ret':
            v = None if I.a[0] is None else self.val(S, I.a[0], I.ty)
            return [('ret', v, S)]
        if I.op == 'unreachable': return []
        if I.op == 'br':
            if len(I.a) == 1: return [self.edge(f, S, b.name, I.a[0])]
            c = self.val(S, I.a[0], ir.IntTy(1))
            out = []
            line = self.mod.loc(I.dbg)
            for truth, tgt in ((True, I.a[1]), (False, I.a[2])):
                for T in self.assume(S.copy() if truth else S, self.cond(c, S), truth):
                    T.trace = (T.trace + ((line, truth),))[-40:]
                    out.append(self.edge(f, T, b.name, tgt))
            return out
        if I.op == 'switch':
            v = self.val(S, I.a[0], I.ty)
            w = I.ty.bits
            out = []
            if not isinstance(v, Lin): v = S.u('sw', w)
            alts = None
            E = S.st.norm(v)
            if S.st.entails(E + (1 << (w - 1))) and S.st.entails(C((1 << (w - 1)) - 1) - E): alts = [(S, E, True)]
            else: alts = [(T, x, False) for T, x in self.uval(S, v, w)]
            for S, E, sg in alts:
                rest = [S]
                for c, tgt in I.a[2]:
                    if not sg: c %= 1 << w
                    T = S.copy()
                    for X in self._assume(T, ('eq', E - c), True):
                        X.trace = (X.trace + ((self.mod.loc(I.dbg), c),))[-40:]
                        out.append(self.edge(f, X, b.name, tgt))
                    nr = []
                    for R in rest: nr += self._assume(R, ('eq', E - c), False)
                    rest = nr
                for R in rest:
                    R.trace = (R.trace + ((self.mod.loc(I.dbg), 'default'),))[-40:]
                    out.append(self.edge(f, R, b.name, I.a[1]))
            return out

    def deref(self, S, p, what):
        """list of (state, PtrV) for a usable pointer"""
        if isinstance(p, PtrV): return [(S, p)]
        if isinstance(p, Lin) and S.st.norm(p).isconst():
            self.ob(False, 'null-deref', '%s through a NULL pointer' % what, S)
            return []
        if isinstance(p, SegV) or (isinstance(p, tuple) and p and p[0] == 'segoff'): return self.seg_deref(S, p)
        raise AnalysisError('%s through an unmodelled pointer %r at %s:%d' % ((what, p) + self.where()))
    def seg_deref(self, S, p): raise AnalysisError('segment dereference')

    def step(self, S, I):
        op = I.op
        def one(v):
            S.regs[I.res] = v; return [S]
        def many(l):
            out = []
            for T, v in l:
                if I.res: T.regs[I.res] = v
                out.append(T)
            return out
        if op == 'alloca':
            n = I.a[0]
            size = self.mod.size(I.ty)
            if n is not None:
                nv = self.val(S, n, None)
                size = nv.scale(size)
            t = self.mod.resolve(I.ty)
            r = S.new_region('stack', I.res, size)
            return one(PtrV(r.rid, ZERO))
        if op in ('load', 'store', 'getelementptr') and (I.a[0] if op == 'load' else I.a[1] if op == 'store' else I.a[0][1]) == ('undef',):
            self.ob(False, 'null-deref', 'a pointer is used that was never set', S)
            return []
        if op == 'load':
            out = []
            for T, p in self.deref(S, self.val(S, I.a[0], ir.PTR), 'read'):
                for T2, v in self.load(T, p, I.ty):
                    T2.regs[I.res] = v; out.append(T2)
            return out
        if op == 'store':
            v = self.val(S, I.a[0], I.ty)
            outs = [(S, v)]
            if I.ty.k == 'int' and isinstance(v, CondV): outs = self.toint(S, v)
            res = []
            for T, v in outs:
                for T2, p in self.deref(T, self.val(T, I.a[1], ir.PTR), 'write'):
                    if isinstance(v, (PtrV, SegV)) and p.o.isconst(): self.ptrcells.add(('ptrcell', p.r, p.o.c))
                    res += self.store(T2, p, I.ty, v)
            return res
        if op == 'getelementptr':
            return many(self.gep(S, I.ty, [(t, self.val(S, v, t)) for t, v in I.a]))
        if op in ir.BIN:
            a, b = self.val(S, I.a[0], I.ty), self.val(S, I.a[1], I.ty)
            if I.ty.k == 'fp': return one(fp_bin(S, op, a, b))
            return many(self.binop(S, op, a, b, I.ty.bits))
        if op == 'icmp':
            a, b = self.val(S, I.a[1], I.ty), self.val(S, I.a[2], I.ty)
            return many(self.icmp(S, I.a[0], a, b, I.ty))
        if op == 'fcmp': 
            r = fp_cmp(S, I.a[0], self.val(S, I.a[1], I.ty), self.val(S, I.a[2], I.ty))
            return one(CondV(('opq', opaque('fcmp')) if r is None else ('const', r)))
        if op == 'zext':
            v = self.val(S, I.a[1], I.a[0])
            if I.a[0].bits == 1: return many(self.toint(S, v))
            if not isinstance(v, Lin): return one(S.u('zext', I.a[0].bits) if v is TOP else v)
            return many(self.uval(S, v, I.a[0].bits))
        if op == 'sext':
            v = self.val(S, I.a[1], I.a[0])
            if I.a[0].bits == 1: return many([(T, -x) for T, x in self.toint(S, v)])
            if not isinstance(v, Lin): return one(S.u('sext', I.ty.bits))
            return many(self.sval(S, v, I.a[0].bits))
        if op == 'trunc':
            v = self.val(S, I.a[1], I.a[0])
            if I.ty.bits == 1:
                if isinstance(v, CondV): return one(v)
                if not isinstance(v, Lin): return one(CondV(('opq', opaque())))
                n = S.st.norm(v)
                if n.isconst(): return one(C(n.c & 1))
                try:
                    S.st.ge(n); S.st.ge(C(1) - n)
                except Infeasible: return []
                return one(CondV(('eq', n - 1)))
            if isinstance(v, Lin):
                n = S.st.norm(v)
                if n.isconst(): n = C(n.c % (1 << I.ty.bits))
                return one(n)
            return one(S.u('trunc', I.ty.bits))
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
            v = self.val(S, I.a[1] if op != 'freeze' else I.a[0], I.a[0] if op != 'freeze' else I.ty)
            return one(v)
        if op in ('fptoui', 'fptosi'): return one(S.u('fp2i', I.ty.bits))
        if op == 'fneg':
            k = fp_cls(S, self.val(S, I.a[0], I.ty))
            if k is not None: return one(fp_new(S, ('inf', None if k[1] is None else -k[1]) if k[0] == 'inf' else ('c', -k[1]) if k[0] == 'c' else k))
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc', 'fneg'): return one(FpV(opaque('fp')))
        if op == 'select':
            c = self.cond(self.val(S, I.a[0], None), S)
            out = []
            for T in self.assume(S.copy(), c, True):
                T.regs[I.res] = self.val(T, I.a[1], I.ty); out.append(T)
            for T in self.assume(S, c, False):
                T.regs[I.res] = self.val(T, I.a[2], I.ty); out.append(T)
            return out
        if op == 'extractvalue':
            v = self.val(S, I.a[0], I.ty)
            for k in I.a[1]: v = v.e[k] if isinstance(v, AggV) else TOP
            return one(v)
        if op == 'insertvalue':
            v = self.val(S, I.a[0], I.ty)
            x = self.val(S, I.a[2], I.a[1])
            t = self.mod.resolve(I.ty)
            el = list(v.e) if isinstance(v, AggV) else [TOP] * len(t.elems)
            el[I.a[3][0]] = x
            return one(AggV(el))
        if op == 'cmpxchg':
            out = []
            for T, p in self.deref(S, self.val(S, I.a[0], ir.PTR), 'cmpxchg'):
                out += self.ev_atomic(T, I, 'cmpxchg', p)
            return out
        if op == 'atomicrmw':
            out = []
            for T, p in self.deref(S, self.val(S, I.a[1], ir.PTR), 'atomicrmw'):
                out += self.ev_atomic(T, I, 'atomicrmw', p)
            return out
        if op == 'fence': return [S]
        if op == 'call': return self.do_call(S, I)
        raise AnalysisError('instruction ' + op)

    def ev_atomic(self, S, I, kind, p):
        out = []
        if kind == 'cmpxchg':
            old = self.val(S, I.a[1], I.ty); new = self.val(S, I.a[2], I.ty)
            for T, v in self.load(S, p, I.ty):
                for T2, c in self.icmp(T, 'eq', v, old, I.ty):
                    for T3 in self.assume(T2.copy(), c, True):
                        for T4 in self.store(T3, p, I.ty, new):
                            T4.regs[I.res] = AggV([v, ONE]); out.append(T4)
                    for T3 in self.assume(T2, c, False):
                        T3.regs[I.res] = AggV([v, ZERO]); out.append(T3)
        else:
            x = self.val(S, I.a[2], I.ty)
            for T, v in self.load(S, p, I.ty):
                if I.a[0] in ('add', 'sub', 'and', 'or', 'xor'): rs = self.binop(T, I.a[0], v, x, I.ty.bits)
                elif I.a[0] == 'xchg': rs = [(T, x)]
                else: rs = [(T, T.u('rmw', I.ty.bits))]
                for T2, nv in rs:
                    for T3 in self.store(T2, p, I.ty, nv):
                        if I.res: T3.regs[I.res] = v
                        out.append(T3)
        return out

    def do_call(self, S, I):
        callee, args = I.a
        if callee[0] == 'asm': 
            if I.res: S.regs[I.res] = S.u('asm', 64)
            return [S]
        if callee[0] == 'g': target = FnV(self.mod.alias.get(callee[1], callee[1]))
        else: target = self.val(S, callee, ir.PTR)
        avs = [self.val(S, v, t) for t, v in args]
        if isinstance(target, Lin):
            self.ob(False, 'null-call', 'call through a NULL function pointer', S)
            return []
        name = target.n if isinstance(target, FnV) else None
        rs = self.dispatch(S, I, name, target, avs)
        out = []
        for T, v in rs:
            if I.res: T.regs[I.res] = v if v is not None else TOP
            out.append(T)
        return out
    def chosen(self, name, rs):
        """the environment made a choice that it need not make again - except for what may last: an end of file, an error"""
        if not isinstance(rs, list): rs = list(rs)
        more = []
        for T, v in rs:
            n = T.st.norm(v) if isinstance(v, Lin) else None
            if name in ('read', 'pread') and n == ZERO: continue
            if T.mon.pop('$quiet', None): continue
            if self.ends and n is not None and not n.isconst() and name in ('read', 'pread') and not T.st.entails(n - 1):
                try:
                    X = T.copy(); X.st.eq(n); more.append((X, ZERO)); T.st.neq(n)
                except Infeasible: pass
            if self.ends and n is not None and (n == C(-1) or n == NULL and name in NULLFAIL) and name is not None and name not in self.mod.fns:
                X = T.copy(); rid = self.globals.get('$errno'); c = X.mem[rid].cells.get(0) if rid in X.mem else None
                c = X.st.norm(c[1]) if c is not None and isinstance(c[1], Lin) else None
                if c is None: more.append((X, v))
                elif not c.isconst() or c.c not in (4, 11):
                    if not c.isconst():
                        L = X.mon.get('$lasting')
                        if L is None: L = X.mon['$lasting'] = V(newvar('errno', 5, 200))
                        X.w(rid).cells = {0: (4, L)}
                    more.append((X, v))
            T.env += 1
        return rs + more
    def dispatch(self, S, I, name, target, avs):
        self.stack.append(I)
        try:
            if name is not None:
                d = self.mod.dem.get(name)
                if d is not None:
                    h = self.stubs.get(d) or self.stubs.get(d.split('(')[0])
                    if h is not None: return self.chosen(name, h(self, S, I, avs))
                base = name.split('.')[0] if not name.startswith('llvm.') else name
                h = self.models.get(name)
                if h is None and name.startswith('llvm.'):
                    for k in self.models:
                        if k.startswith('llvm.') and name.startswith(k): h = self.models[k]; break
                if h is not None:
                    r = h(self, S, I, avs); self.ins = I
                    return r if name.startswith('llvm.') or PURE.match(name) else self.chosen(name, r)
                if name in self.mod.fns:
                    r = self.call(S, self.mod.fns[name], avs); self.ins = I
                    return r
            h = self.models.get('$indirect') if name is None or not isinstance(name, str) or name.startswith('$') else self.models.get('$unknown')
            if h is None: raise AnalysisError('call of unmodelled function %s at %s' % (name or target, self.where()))
            return self.chosen('?', h(self, S, I, avs, name, target))
        finally:
            self.stack.pop(); self.ins = I

def States_snapshot(l): return [S.copy() for S in l]
def use_in2(f, s, n):
    acc = set()
    for i in f.blocks[s].ins:
        if i.op != 'phi': break
        for v, p in i.a:
            if p == n and isinstance(v, tuple) and v[0] == 'r': acc.add(v[1])
    return acc
def T_r(S, rid): return S.mem[rid]
def use_in(phiuse, s, n): return phiuse[s].get(n, set())
