"""C05: fixed-size mixed variables.  C06: mixed variables of the thread-local allocator."""
from spec import *
from specs import conv, utf
import itertools
NS = 'CubicleSoft::'; U64 = (1 << 64) - 1; U = 'unsigned long'; TLS = NS + 'Sync::TLS::'
MODES = ['None', 'Bool', 'Int', 'UInt', 'Double', 'Str']
class Static:
    """StaticMixedVar / UTF8MixedVar with room for N - 1 bytes"""
    def __init__(self, N=8, utf8=False):
        self.N = N; self.utf8 = utf8; self.cap = N - 1; self.null_ok = False; self.tag = 'char[%d]' % N
        self.base = NS + 'StaticMixedVar<char[%d]>' % N; self.cls = NS + 'UTF8::UTF8MixedVar<char[%d]>' % N if utf8 else self.base
    def sig(self, m, args):
        """methods of the base class unless it is a UTF-8 method"""
        own = 'UTF8' in m; c = NS + ('UTF8::UTF8MixedVar<char [%d]>' if own else 'StaticMixedVar<char [%d]>') % self.N
        return '%s::%s(%s)' % (c, m, args)
    def ctor(self): return self.sig('StaticMixedVar', '')
    def prepare(self, sp, eng, S):
        o, s = foff(sp.mod, self.base, 'MxStr'); self.so = o
        def st(eng_, T, r, off, sz, v):
            if r.rid != self.rid or off is None: return
            if not isinstance(off, Lin): off = C(off)
            if T.st.norm(off).isconst():
                k = T.st.norm(off).c
                if not (o <= k < o + self.N): return          # another field
                eng_.ob(k + sz <= o + self.N, 'var-bounds', 'a store runs over the end of the text buffer', T); return
            eng_.ob(T.st.entails(off - o) and T.st.entails(C(o + self.N - sz) - off), 'var-bounds', 'a store with a computed position stays inside the text buffer', T)
        eng.hooks_store.append(st)
    def make(self, eng, S, text, name='this'):
        p = obj(eng, S, self.base, name); self.rid = p.r
        self.so = foff(eng.mod, self.base, 'MxStr')[0]
        if text is not None:
            for i, b in enumerate(list(text) + [ZERO]): S.w(p.r).cells[self.so + i] = (1, b)
            setf(eng, S, p, self.base, 'MxStrPos', C(len(text)))
        self.fields(eng, S, p)
        return p
    def fields(self, eng, S, p):
        c = self.base
        setf(eng, S, p, c, 'MxMode', C(1)); setf(eng, S, p, c, 'MxInt', V(newvar('MxInt', -(1 << 63), (1 << 63) - 1))); setf(eng, S, p, c, 'MxDouble', FpV('old'))
    def str_of(self, eng, T, p): return PtrV(p.r, C(self.so))
    def pos(self, eng, T, p):
        v = getf(eng, T, p, self.base, 'MxStrPos'); v = T.st.norm(v) if isinstance(v, Lin) else None
        return v
    def owned(self, eng, T, p, ob): pass
    def argfix(self, S): return []
class Tls:
    """TLS::MixedVar; the allocator is represented by its contract, which C27 decides"""
    def __init__(self): self.cls = self.base = TLS + 'MixedVar'; self.cap = None; self.null_ok = True; self.tag = 'TLS'
    def sig(self, m, args): return '%sMixedVar::%s(%s)' % (TLS, m, args)
    def ctor(self): return self.sig('MixedVar', NS + 'Sync::TLS*')
    def prepare(self, sp, eng, S):
        S.mon['blk'] = ()
        eng.stubs[TLS + 'malloc(unsigned long)'] = lambda e, T, I, a: self.malloc(e, T, a[0], a[1])
        eng.stubs[TLS + 'free(void*, bool)'] = lambda e, T, I, a: self.free(e, T, a[0], a[1])
        eng.stubs[TLS + 'realloc(void*, unsigned long, bool)'] = lambda e, T, I, a: self.realloc(e, T, a[0], a[1], a[2])
    def tls_ok(self, e, T, t): e.ob(isinstance(t, PtrV) and T.mem[t.r].tags.get('tls') is not None, 'var-own', 'memory comes from the allocator of the variable', T)
    def block(self, T, name, n, tls):
        r = T.new_region('heap', name, n); r.tags = {'by': 'tls', 'owner': tls}; return r
    def malloc(self, e, T0, t, n):
        out = []
        for T, v in e.uval(T0, n, 64):
            self.tls_ok(e, T, t)
            if T.st.norm(v) == ZERO: out.append((T, NULL)); continue
            r = self.block(T, 'block', v, T.mem[t.r].tags.get('tls')); out.append((T, PtrV(r.rid, ZERO)))
        return out
    def rel(self, e, T, t, p):
        ok = isinstance(p, PtrV) and p.r in T.mem and T.mem[p.r].tags.get('by') == 'tls' and not T.mem[p.r].freed and T.st.entails_eq(p.o)
        e.ob(ok, 'var-own', 'only a block that is allocated is released, once', T)
        if ok:
            e.ob(T.mem[p.r].tags.get('owner') == T.mem[t.r].tags.get('tls'), 'var-own', 'a block is released to the allocator that it came from', T)
            T.w(p.r).freed = True
        return ok
    def free(self, e, T0, t, p):
        out = []
        for T, q in e.ptrcases(T0, p) if hasattr(e, 'ptrcases') else [(T0, p)]:
            self.tls_ok(e, T, t)
            if isinstance(q, Lin) and T.st.norm(q) == NULL: out.append((T, None)); continue
            if self.rel(e, T, t, q): out.append((T, None))
        return out
    def realloc(self, e, T0, t, p, n):
        if isinstance(p, Lin) and T0.st.norm(p) == NULL: return self.malloc(e, T0, t, n)
        out = []
        for T, v in e.uval(T0, n, 64):
            self.tls_ok(e, T, t)
            ok = isinstance(p, PtrV) and p.r in T.mem and T.mem[p.r].tags.get('by') == 'tls' and not T.mem[p.r].freed and T.st.entails_eq(p.o)
            e.ob(ok, 'var-own', 'only a block that is allocated is resized', T)
            if not ok: continue
            if T.st.norm(v) == ZERO: self.rel(e, T, t, p); out.append((T, NULL)); continue
            R = T.mem[p.r]; r = self.block(T, 'block', v, R.tags.get('owner')); nv = T.st.norm(v)
            for o, (s, x) in R.cells.items():
                if nv.isconst() and o + s > nv.c: continue
                if not nv.isconst() and not T.st.entails(nv - o - s): continue
                r.cells[o] = (s, x)
            self.rel(e, T, t, p); out.append((T, PtrV(r.rid, ZERO)))
        return out
    def tls(self, S, k=1):
        r = S.new_region('obj', 'TLS', C(8)); r.tags = {'tls': k}; return PtrV(r.rid, ZERO)
    def make(self, eng, S, text, name='this', tls=None):
        p = obj(eng, S, self.base, name); self.rid = p.r
        t = tls or self.tls(S); setf(eng, S, p, self.base, 'MxTLS', t); k = S.mem[t.r].tags['tls']
        if text is None: setf(eng, S, p, self.base, 'MxStr', NULL); setf(eng, S, p, self.base, 'MxStrPos', ZERO)
        else:
            r = self.block(S, name + '.text', C(len(text) + 1), k)
            for i, b in enumerate(list(text) + [ZERO]): r.cells[i] = (1, b)
            setf(eng, S, p, self.base, 'MxStr', PtrV(r.rid, ZERO)); setf(eng, S, p, self.base, 'MxStrPos', C(len(text)))
        Static.fields(self, eng, S, p)
        return p
    def str_of(self, eng, T, p): return getf(eng, T, p, self.base, 'MxStr')
    pos = Static.pos
    def owned(self, eng, T, p, ob, keep=()):
        s = self.str_of(eng, T, p); live = {r for r, R in T.mem.items() if R.tags.get('by') == 'tls' and not R.freed and r not in keep}
        if s is None or isinstance(s, Lin): ob(not live, 'var-own', 'no block is left behind'); return
        ob(isinstance(s, PtrV) and live == {s.r} and T.st.entails_eq(s.o), 'var-own', 'the variable owns exactly its own block')
        if isinstance(s, PtrV) and s.r in live: ob(T.mem[s.r].tags.get('owner') == T.mem[getf(eng, T, p, self.base, 'MxTLS').r].tags.get('tls') if isinstance(getf(eng, T, p, self.base, 'MxTLS'), PtrV) else False, 'var-own', 'the block comes from the allocator of the variable')

def byte(S, nm): return V(newvar(nm, 1, 127))
def text(S, nm, n): return [byte(S, '%s%d' % (nm, i)) for i in range(n)]
def ptext(S, nm, t, zero=True):
    r = S.new_region('input', nm, C(len(t) + (1 if zero else 0)))
    for i, b in enumerate(list(t) + ([ZERO] if zero else [])): r.cells[i] = (1, b)
    if zero: r.nul = C(len(t))
    return PtrV(r.rid, ZERO)
def rd(eng, T, p, i, n=1):
    if not isinstance(p, PtrV): return None
    l = eng.load(T.copy(), PtrV(p.r, p.o + i), ir.IntTy(8 * n)); return l[0][1] if l else None
def has_text(eng, K, T, p, exp, ob, rule='var-text', why='the text is exactly the one the operation defines'):
    n = K.pos(eng, T, p); s = K.str_of(eng, T, p)
    if K.null_ok and not exp and isinstance(s, Lin): ob(n == ZERO, 'var-size', 'the size is zero'); return True
    ok = n is not None and n.isconst() and n.c == len(exp); ob(ok, 'var-size', 'the recorded size is that of the text')
    if not ok: return False
    for i, e in enumerate(list(exp) + [ZERO]):
        c = rd(eng, T, s, i); g = conv_same(T, c, e); ob(g, rule if i < len(exp) else 'var-zero', why if i < len(exp) else 'the text ends with a zero byte')
    return True
def conv_same(T, c, e):
    if not isinstance(c, Lin): return False
    d = T.st.norm(c - e)
    return d.c % 256 == 0 if d.isconst() else T.st.entails_eq(d)
def matches(eng, K, T, p, exp):
    n = K.pos(eng, T, p); s = K.str_of(eng, T, p)
    if K.null_ok and not exp and isinstance(s, Lin): return n == ZERO
    if n is None or not n.isconst() or n.c != len(exp): return False
    return all(conv_same(T, rd(eng, T, s, i), e) for i, e in enumerate(list(exp) + [ZERO]))
def one_of(eng, K, T, p, alts, ob):
    """the variable holds one of the texts"""
    if len(alts) == 1: has_text(eng, K, T, p, alts[0], ob); return
    ob(any(matches(eng, K, T, p, a) for a in alts), 'var-text', 'the text is one the operation allows')
def joined(K, op, old, new):
    """texts allowed after op"""
    old = old or []
    if op == 'set': return [new[:K.cap]]
    if op == 'append': return [(old + new)[:K.cap]]
    full = new + old
    if K.cap is None or len(full) < K.cap: return [full]
    return [full, old] if len(full) == K.cap else [old]
def unchanged_mode(eng, K, T, p, ob, mode=1):
    m = getf(eng, T, p, K.base, 'MxMode'); ob(isinstance(m, Lin) and T.st.entails_eq(m - mode), 'var-mode', 'the kind of the value is the one the operation defines')
STRARG = {'Str': 'char const*', 'Data': 'char const*, unsigned long'}
def run_op(name):
    def deco(f):
        def mk(*a, **k):
            def run(sp):
                eng = sp.engine(); S = State(); eng.unroll = {'': 120}; eng.CAP = 200
                f(sp, eng, S, *a, **k)
            return run
        return mk
    return deco
def call(sp, eng, S, K, m, args, a, chk, quiet=False):
    sg = K.sig(m, args); fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); nm = sg.split('(')[0]
    rets = eng.call(S, fn, a)
    for T0, r0 in rets:
        for T, r in eng.toint(T0, r0) if r0 is not None else [(T0, None)]:
            chk(T, r, lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm))
    sp.exist(rets, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, len(rets))
@run_op('text')
def text_case(sp, eng, S, K, op, kind, pn, qn):
    K.prepare(sp, eng, S); old = None if pn is None else text(S, 'old', pn); t = K.make(eng, S, old)
    new = text(S, 'new', qn); p = ptext(S, 'str', new, kind == 'Str')
    m = {'set': 'Set', 'append': 'Append', 'prepend': 'Prepend'}[op] + kind; mode = 5 if op == 'set' else 1
    def chk(T, r, ob):
        one_of(eng, K, T, t, joined(K, op, old, new), ob); unchanged_mode(eng, K, T, t, ob, mode); K.owned(eng, T, t, ob)
    call(sp, eng, S, K, m, STRARG[kind], [t, p] + ([C(qn)] if kind == 'Data' else []), chk)
@run_op('char')
def char_case(sp, eng, S, K, m, pn, same):
    """AppendChar, AppendMissingChar, RemoveTrailingChar"""
    K.prepare(sp, eng, S); old = None if pn is None else text(S, 'old', pn); c = byte(S, 'chr')
    if same is not None and pn:
        if same: old[-1] = c
        else:
            old[-1] = V(newvar('last', 1, 60)); c = V(newvar('chr', 61, 127))
    t = K.make(eng, S, old)
    o = old or []
    if m == 'AppendChar' or (m == 'AppendMissingChar' and not (pn and same)): exp = (o + [c])[:K.cap]
    elif m == 'RemoveTrailingChar': exp = o[:-1] if pn and same else o
    else: exp = o
    def chk(T, r, ob):
        one_of(eng, K, T, t, [exp], ob); unchanged_mode(eng, K, T, t, ob); K.owned(eng, T, t, ob)
        if m == 'RemoveTrailingChar': ob(isinstance(r, Lin) and T.st.entails_eq(r - int(bool(pn and same))), 'var-result', 'the call tells whether the character was there')
    call(sp, eng, S, K, m, 'char', [t, c], chk)
@run_op('size')
def size_case(sp, eng, S, K, pn, n):
    K.prepare(sp, eng, S); old = None if pn is None else text(S, 'old', pn); t = K.make(eng, S, old); o = old or []
    nv = C(n) if n is not None else V(newvar('size', K.cap + 1, U64))
    def chk(T, r, ob):
        K.owned(eng, T, t, ob); unchanged_mode(eng, K, T, t, ob)
        if n is None or (K.cap is not None and n > K.cap): one_of(eng, K, T, t, [o], ob); return
        z = K.pos(eng, T, t); ob(z is not None and T.st.entails_eq(z - n), 'var-size', 'the size is the one asked for')
        s = K.str_of(eng, T, t)
        for i in range(min(n, len(o))): ob(conv_same(T, rd(eng, T, s, i), o[i]), 'var-text', 'the text up to the new size is kept')
        ob(conv_same(T, rd(eng, T, s, n), ZERO), 'var-zero', 'the text ends with a zero byte')
    call(sp, eng, S, K, 'SetSize', U, [t, nv], chk)
@run_op('int')
def int_case(sp, eng, S, K, op, signed, neg, R, nd, pn, cls=None, bad=False):
    """AppendInt / PrependInt and the unsigned versions"""
    K.prepare(sp, eng, S); old = None if pn is None else text(S, 'old', pn); t = K.make(eng, S, old)
    num, ds = conv.digits(S, min(max(R, 2), 36), nd, cls, neg)
    if signed and not neg: S.st.ge(C((1 << 63) - 1) - num)
    m = {'append': 'Append', 'prepend': 'Prepend'}[op] + ('Int' if signed else 'UInt')
    def chk(T, r, ob):
        unchanged_mode(eng, K, T, t, ob); K.owned(eng, T, t, ob)
        if not 2 <= R <= 36: one_of(eng, K, T, t, [old or []], ob); return
        tx = [C(45)] if neg else []
        for d in reversed(ds):
            if T.st.entails(C(9) - d): tx.append(d + 48)
            elif T.st.entails(d - 10): tx.append(d + 55)
            else: ob(False, 'var-text', 'digits above nine are told apart'); return
        one_of(eng, K, T, t, joined(K, op, old, tx), ob)
    call(sp, eng, S, K, m, ('long' if signed else U) + ', ' + U, [t, -num if neg else num, C(R)], chk)
@run_op('double')
def double_case(sp, eng, S, K, op, pn, qn):
    K.prepare(sp, eng, S); old = None if pn is None else text(S, 'old', pn); t = K.make(eng, S, old); new = text(S, 'num', qn)
    v = FpV('val'); prec = V(newvar('precision', 0, 5000))
    def snp(e, T0, I, a):
        f = models.lit(e, T0, a[2]); out = []
        f = f.decode('latin1') if isinstance(f, bytes) else f
        e.ob(f in ('%1.*g', '%.*g') and len(a) == 5 and a[4] == v and isinstance(a[3], Lin) and T0.st.entails_eq(a[3] - prec), 'var-double', 'the number is written in general notation with the given precision', T0)
        for T, n in e.uval(T0, a[1], 64):
            for X, d in e.deref(T, a[0], 'write'):
                if not e.bounds(X, d, n, 'snprintf write'): continue
                e.ob(X.st.entails(n - 775), 'var-double', 'there is room for every number: sign, 767 significant digits, point and exponent', X)
                e.havoc(X, d, n); o = X.st.norm(d.o); n_ = X.st.norm(n)
                if not o.isconst() or not n_.isconst(): raise AnalysisError('snprintf into an unknown place')
                tx = new[:max(0, n_.c - 1)]
                for i, b in enumerate(tx + [ZERO]): X.w(d.r).cells[o.c + i] = (1, b)
                X.w(d.r).nul = C(o.c + len(tx)); out.append((X, C(len(new))))
        return out
    eng.models['snprintf'] = snp
    def chk(T, r, ob):
        unchanged_mode(eng, K, T, t, ob); K.owned(eng, T, t, ob); one_of(eng, K, T, t, joined(K, op, old, new), ob)
    call(sp, eng, S, K, {'append': 'AppendDouble', 'prepend': 'PrependDouble'}[op], 'double, ' + U, [t, v, prec], chk)
@run_op('simple')
def simple_case(sp, eng, S, K, m):
    """setters, getters, kinds"""
    K.prepare(sp, eng, S); old = text(S, 'old', 2); t = K.make(eng, S, old); c = K.base
    if m.startswith('Set'):
        k = m[3:]; ty = {'Bool': 'bool', 'Int': 'long', 'UInt': U, 'Double': 'double'}[k]
        v = {'Bool': V(newvar('newbool', 0, 1)), 'Int': V(newvar('newint', -(1 << 63), (1 << 63) - 1)), 'UInt': V(newvar('newint', 0, U64)), 'Double': FpV('new')}[k]
        oi = getf(eng, S, t, c, 'MxInt')
        def chk(T, r, ob):
            unchanged_mode(eng, K, T, t, ob, MODES.index(k)); one_of(eng, K, T, t, [old], ob); K.owned(eng, T, t, ob)
            i, d = getf(eng, T, t, c, 'MxInt'), getf(eng, T, t, c, 'MxDouble')
            if k == 'Double': ob(d == v and i == oi, 'var-value', 'the number is stored')
            else:
                # as 64 bits
                iv = [x for _, x in eng.uval(T.copy(), i, 64)]; vv = [x for _, x in eng.uval(T.copy(), v, 64)]
                ob(isinstance(i, Lin) and (T.st.entails_eq(i - v) or k == 'UInt' and all(Y.st.entails_eq(Y.st.norm(x) - v) for Y, x in eng.uval(T.copy(), i, 64))), 'var-value', 'the value is stored'); ob(d == FpV('old'), 'var-value', 'the other values are left alone')
        call(sp, eng, S, K, m, ty, [t, v], chk)
    elif m.startswith('Is'):
        k = m[2:]; mo = V(newvar('mode', 0, 5)); setf(eng, S, t, c, 'MxMode', mo); w = MODES.index(k)
        def chk(T, r, ob): ob(isinstance(r, Lin) and (T.st.norm(r) == C(1) and T.st.entails_eq(mo - w) or T.st.norm(r) == ZERO and T.st.entails_ne(mo - w)), 'var-mode', 'the kind is recognised')
        call(sp, eng, S, K, m, '', [t], chk)
    else:
        k = m[3:]; oi = getf(eng, S, t, c, 'MxInt')
        sg = K.sig(m, ''); fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); nm = sg.split('(')[0]
        rets = eng.call(S, fn, [t])
        for T, r in rets:
            ob = lambda c_, rule, msg: eng.ob(c_, rule, msg, T, where=loc, fn=nm)
            if k == 'Double': ob(r == FpV('old'), 'var-value', 'the stored number is returned')
            elif k == 'Str': s = K.str_of(eng, T, t); ob(isinstance(r, PtrV) and r.r == s.r and T.st.entails_eq(r.o - s.o), 'var-value', 'the text is returned')
            elif k == 'Size': ob(isinstance(r, Lin) and T.st.entails_eq(r - 2), 'var-value', 'the size is returned')
            elif k == 'MaxSize': ob(isinstance(r, Lin) and T.st.entails_eq(r - K.N), 'var-value', 'the capacity is returned')
            elif k == 'Bool':
                for Y, b in eng.toint(T, r): ob(isinstance(b, Lin) and (Y.st.norm(b) == C(1) and Y.st.entails_ne(oi) or Y.st.norm(b) == ZERO and Y.st.entails_eq(oi)), 'var-value', 'true exactly for a value other than zero')
            else:
                for Y, b in eng.toint(T, r):
                    d = Y.st.norm(b - oi) if isinstance(b, Lin) else None
                    ob(d is not None and (d.isconst() and d.c % (1 << 64) == 0 or Y.st.entails_eq(d)), 'var-value', 'the stored value is returned')
            one_of(eng, K, T, t, [old], ob); unchanged_mode(eng, K, T, t, ob)
        sp.exist(rets, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, len(rets))
@run_op('ctor')
def ctor_case(sp, eng, S, K):
    K.prepare(sp, eng, S); t = obj(eng, S, K.base, 'this'); K.rid = t.r; a = [t]
    if K.null_ok: tl = K.tls(S); a.append(tl)
    else: K.so = foff(sp.mod, K.base, 'MxStr')[0]
    def chk(T, r, ob):
        unchanged_mode(eng, K, T, t, ob, 0); has_text(eng, K, T, t, [], ob); K.owned(eng, T, t, ob)
        i = getf(eng, T, t, K.base, 'MxInt'); ob(isinstance(i, Lin) and T.st.entails_eq(i), 'var-value', 'the number is zero')
        if K.null_ok: ob(getf(eng, T, t, K.base, 'MxTLS') == tl, 'var-own', 'the allocator is the given one')
    call(sp, eng, S, K, 'MixedVar' if K.null_ok else 'StaticMixedVar', K.ctor().split('(')[1][:-1], a, chk)
def wtext(S, cs, zero):
    u = [x for c in cs for x in c.units(4)] + ([ZERO] if zero else [])
    r = S.new_region('input', 'src', C(4 * len(u))); utf.fill(S, r, u, 4)
    if zero: r.tags = dict(r.tags or {}); r.tags['wlen'] = len(u) - 1
    return PtrV(r.rid, ZERO), len(u)
def wcslen(e, S, I, a):
    out = []
    for T, p in e.deref(S, a[0], 'wcslen'):
        i = 0
        while True:
            if not e.bounds(T, PtrV(p.r, p.o + 4 * i), C(4), 'wcslen'): break
            c = T.mem[p.r].cells.get(T.st.norm(p.o).c + 4 * i)
            if c is None: raise AnalysisError('wcslen of unknown text')
            if T.st.norm(c[1]) == ZERO: out.append((T, C(i))); break
            i += 1
    return out
@run_op('utf8')
def utf8_case(sp, eng, S, K, m, pn, what, zero=False):
    K.prepare(sp, eng, S); eng.models['wcslen'] = wcslen; old = text(S, 'old', pn); t = K.make(eng, S, old)
    cs = [utf.mk('c%d' % i, x) for i, x in enumerate(what)]
    if m == 'SetUTF8': p, n = wtext(S, cs, zero); a = [t, p, C(n)]; args = 'wchar_t const*, unsigned long'; pre = []
    elif m == 'SetUTF8z': p, n = wtext(S, cs, True); a = [t, p]; args = 'wchar_t const*'; pre = []; m = 'SetUTF8'
    else: p, n = wtext(S, cs, True); a = [t, p]; args = 'wchar_t const*'; pre = old
    def chk(T, r, ob):
        alts = [pre + o for o in utf.outputs(cs, 1, K.cap - len(pre), False)]
        if pre and cs and cs[0].kind == 'comb':      # a combining character may belong to the text before it
            z = utf.mk('z', 'A'); alts += [pre + o[1:] for o in utf.outputs([z] + cs, 1, K.cap - len(pre) + 1, False)]
        if zero:  # the terminating zero of the source, if there is room for it, is not counted
            pass
        ob(any(matches(eng, K, T, t, x) for x in alts), 'var-text', 'the text is the old text, if it is kept, and the UTF-8 form of every allowed character that fits')
        unchanged_mode(eng, K, T, t, ob, 5 if m == 'SetUTF8' else 1)
    call(sp, eng, S, K, m, args, a, chk)
@run_op('from8')
def from8_case(sp, eng, S, K, what, cap):
    K.prepare(sp, eng, S); cs = [utf.mk('c%d' % i, x) for i, x in enumerate(what)]
    old = [u for c in cs for u in c.utf8()]; t = K.make(eng, S, old)
    z = S.new_region('stackobj', 'DestDataSize', C(8)); z.cells[0] = (8, C(cap)); d = buf(S, 'DestData', C(cap * 4), 'output')
    def chk(T, r, ob):
        acc = utf.outputs(cs + [utf.mk('z', 'Z')], 4, cap, True)
        n = T.mem[z.rid].cells.get(0); n = T.st.norm(n[1]) if n and isinstance(n[1], Lin) else None
        ok = [o for o in acc if n is not None and n.isconst() and n.c == len(o)]
        ob(bool(ok), 'var-size', 'the reported size is that of the converted characters and the zero after them')
        if ok: ob(any(all(utf.same(T, utf.getunit(eng, T, d, i, 4), e, 4) for i, e in enumerate(o)) for o in ok), 'var-text', 'the characters of the text are returned')
        has_text(eng, K, T, t, old, ob)
    call(sp, eng, S, K, 'ConvertFromUTF8', 'wchar_t*, unsigned long&', [t, d, PtrV(z.rid, ZERO)], chk)
@run_op('tostr')
def tostr_case(sp, eng, S, K, R, n, slack, neg=False, signed=False, cls=None):
    sg = 'IntToString'; args = 'char*, unsigned long, %s, unsigned long' % ('long' if signed else U)
    num, ds = conv.digits(S, R, n, cls, neg)
    if signed and not neg: S.st.ge(C((1 << 63) - 1) - num)
    ln = n + (1 if neg else 0); size = ln + 1 + slack; b = buf(S, 'Result', C(size), 'output')
    def chk(T, r, ob):
        ok = slack >= 0 and size >= 2
        ob(isinstance(r, Lin) and T.st.entails_eq(r - int(ok)), 'int-result', 'the conversion succeeds exactly if the text fits')
        if not ok: return
        tx = [C(45)] if neg else []
        for d in reversed(ds):
            if T.st.entails(C(9) - d): tx.append(d + 48)
            elif T.st.entails(d - 10): tx.append(d + 55)
            else: ob(False, 'int-text', 'digits above nine are told apart'); return
        conv.expect_text(eng, T, b, tx, ob)
    call(sp, eng, S, K, sg, args, [b, C(size), -num if neg else num, C(R)], chk)
@run_op('bounds')
def bounds_case(sp, eng, S, K, m, kind=None):
    """any text, any source: the text buffer is never left and the recorded size stays below the capacity"""
    eng.unroll = {}; eng.CAP = 40; N = K.N; K.prepare(sp, eng, S); t = K.make(eng, S, None); pos = V(newvar('MxStrPos', 0, N - 1)); setf(eng, S, t, K.base, 'MxStrPos', pos)
    R = S.w(t.r); R.sym = R.sym + ((pos + K.so, 1, ZERO),)
    if kind == 'Str': p, n = cstr(S, 'str'); a = [t, p]; args = STRARG[kind]
    elif kind == 'Data': n = V(newvar('size', 0, 1 << 40)); p = buf(S, 'str', n); a = [t, p, n]; args = STRARG[kind]
    elif kind == 'char': a = [t, V(newvar('chr', -128, 127))]; args = 'char'
    elif kind == 'size': a = [t, V(newvar('size', 0, U64))]; args = U
    elif kind in ('long', U): a = [t, V(newvar('val', -(1 << 63) if kind == 'long' else 0, (1 << 63) - 1 if kind == 'long' else U64)), V(newvar('radix', 0, U64))]; args = kind + ', ' + U
    elif kind == 'double': a = [t, FpV('val'), V(newvar('precision', 0, U64))]; args = 'double, ' + U
    def chk(T, r, ob):
        z = K.pos(eng, T, t); ob(z is not None and T.st.entails(z) and T.st.entails(C(N - 1) - z), 'var-size', 'the recorded size stays below the capacity')
    call(sp, eng, S, K, m, args, a, chk)
def grow_case(m, kind):
    """TLS variable: any lengths"""
    @run_op('grow')
    def f(sp, eng, S):
        K = Tls(); eng.unroll = {}; eng.CAP = 40; K.prepare(sp, eng, S); t = K.make(eng, S, []); pos = V(newvar('MxStrPos', 0, 1 << 40))
        sr = S.w(K.str_of(eng, S, t).r); sr.cells = {}; sr.size = pos + 1; sr.sym = ((pos, 1, ZERO),); setf(eng, S, t, K.base, 'MxStrPos', pos)
        if kind == 'Str': p, n = cstr(S, 'str'); a = [t, p]; args = STRARG[kind]
        elif kind == 'Data': n = V(newvar('size', 0, 1 << 40)); p = buf(S, 'str', n); a = [t, p, n]; args = STRARG[kind]
        elif kind == 'char': n = C(1); a = [t, V(newvar('chr', -128, 127))]; args = 'char'
        elif kind == 'size': n = V(newvar('size', 0, 1 << 40)); a = [t, n]; args = U
        def chk(T, r, ob):
            z = K.pos(eng, T, t); e = [n] if m.startswith('Set') else [n + pos] if m != 'AppendMissingChar' else [n + pos, pos] if m != 'RemoveTrailingChar' else [pos, pos - 1]
            ob(z is not None and any(T.st.entails_eq(z - x) for x in e), 'var-size', 'the recorded size is that of the text'); K.owned(eng, T, t, ob)
        call(sp, eng, S, K, m, args, a, chk)
    return f()
def copy_case(text_n, mine=None, assign=False, self_=False, other_tls=False):
    @run_op('copy')
    def f(sp, eng, S):
        K = Tls(); K.prepare(sp, eng, S); src = None if text_n is None else text(S, 'src', text_n); t1 = K.tls(S, 1); t2 = K.tls(S, 2) if other_tls else t1
        if assign:
            m_ = None if mine is None else text(S, 'old', mine); t = K.make(eng, S, m_, 'this', t1)
        else: t = obj(eng, S, K.base, 'this')
        o = t if self_ else K.make(eng, S, src, 'TempVar', t2)
        mode = V(newvar('mode', 0, 5)); iv = V(newvar('int', -(1 << 63), (1 << 63) - 1)); setf(eng, S, o, K.base, 'MxMode', mode); setf(eng, S, o, K.base, 'MxInt', iv); setf(eng, S, o, K.base, 'MxDouble', FpV('src'))
        osr = K.str_of(eng, S, o); exp = (m_ if self_ else src) or []
        def chk(T, r, ob):
            keep = set() if self_ or not isinstance(osr, PtrV) else {osr.r}
            has_text(eng, K, T, t, exp, ob); K.owned(eng, T, t, ob, keep)
            if not self_: has_text(eng, K, T, o, exp, ob, why='the source is left alone'); ob(not isinstance(osr, PtrV) or not T.mem[osr.r].freed, 'var-own', 'the source keeps its text')
            g = lambda f_: getf(eng, T, t, K.base, f_)
            ob(isinstance(g('MxMode'), Lin) and T.st.entails_eq(g('MxMode') - mode) and isinstance(g('MxInt'), Lin) and T.st.entails_eq(g('MxInt') - iv) and g('MxDouble') == FpV('src'), 'var-value', 'kind and numbers are those of the source')
            if assign: ob(isinstance(r, PtrV) and r.r == t.r, 'var-value', 'assignment returns the variable') if r is not None else None
        sg = K.sig('operator=' if assign else 'MixedVar', TLS + 'MixedVar const&'); fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); nm = sg.split('(')[0]
        rets = eng.call(S, fn, [t, o])
        for T, r in rets: chk(T, r, lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm))
        sp.exist(rets, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, len(rets))
    return f()
@run_op('dtor')
def dtor_case(sp, eng, S, n):
    K = Tls(); K.prepare(sp, eng, S); t = K.make(eng, S, None if n is None else text(S, 'old', n))
    def chk(T, r, ob): ob(not [1 for R in T.mem.values() if R.tags.get('by') == 'tls' and not R.freed], 'var-own', 'the text is released with the variable')
    call(sp, eng, S, K, '~MixedVar', '', [t], chk)
def common(K, olds, news, out):
    add = lambda nm, f, **k: out.append(Case('%s %s' % (K().tag, nm), f, **k))
    add('constructor', ctor_case(K()))
    for op in ('set', 'append', 'prepend'):
        for kind in ('Str', 'Data'):
            for pn in olds:
                for qn in news: add('%s%s %s %s' % (op, kind, pn, qn), text_case(K(), op, kind, pn, qn))
    for m in ('AppendChar', 'AppendMissingChar', 'RemoveTrailingChar'):
        for pn in olds:
            for same in ((True, False) if pn and m != 'AppendChar' else (None,)): add('%s %s %s' % (m, pn, same), char_case(K(), m, pn, same))
    for m in ['Set' + k for k in MODES[1:5]] + ['Is' + k for k in MODES] + ['Get' + k for k in MODES[1:] + ['Size'] + ([] if K().null_ok else ['MaxSize'])]: add(m, simple_case(K(), m))
    for op in ('append', 'prepend'):
        for pn in olds:
            for sg, neg in ((0, 0), (1, 0), (1, 1)):
                for nd in (1, 3): add('%s int signed %d neg %d, %d digits to %s' % (op, sg, neg, nd, pn), int_case(K(), op, sg, bool(neg), 10, nd, pn))
            for q in (1, 3, 5): add('%s double %s %d' % (op, pn, q), double_case(K(), op, pn, q))
        for R, nd, cls in ((16, 2, 'lh'), (16, 2, 'hl'), (2, 3, None), (36, 1, 'h'), (0, 1, None), (1, 1, None), (37, 1, None)):
            for sg in (0, 1): add('%s int radix %d %s signed %d' % (op, R, cls, sg), int_case(K(), op, sg, False, R, nd, 1, cls))
    for R in (2, 7, 8, 10, 16, 36):
        mx = conv.ndig(R, U64)
        for n in sorted({1, 2, 3, mx - 1, mx}):
            for cls in [None] if R <= 10 else ['l' * n, 'h' * n, ('lh' * n)[:n]]:
                if cls and n == mx and (R ** (n - 1)) * (10 if cls[-1] == 'h' else 1) > U64: continue
                for sl in (0, -1, 3): add('IntToString radix %d, %d digits %s, slack %d' % (R, n, cls, sl), tostr_case(K(), R, n, sl, cls=cls))
    for n in (1, 2, 10, 18, 19):
        for neg in (0, 1):
            for sl in (0, -1, 1): add('IntToString signed %d digits, negative %d, slack %d' % (n, neg, sl), tostr_case(K(), 10, n, sl, bool(neg), True))
def c05():
    out = []; add = lambda nm, f, **k: out.append(Case(nm, f, **k))
    common(Static, (0, 1, 3, 5, 6, 7), (0, 1, 2, 4, 6, 7, 8, 9), out)
    for pn in (0, 3, 7):
        for n in (0, 2, 3, 5, 7, 8, None): add('SetSize %s %s' % (pn, n), size_case(Static(), pn, n))
    K64 = lambda: Static(64)
    for op in ('append', 'prepend'):
        for R, nd in ((10, 19), (10, 20), (3, 41), (2, 43), (2, 44), (2, 61), (2, 64)): add('char[64] %s %d digits radix %d' % (op, nd, R), int_case(K64(), op, 0, False, R, nd, 2))
        for nd in (62, 63): add('char[64] %s minus %d digits radix 2' % (op, nd), int_case(K64(), op, 1, True, 2, nd, 0))
        for q in (24, 60, 61): add('char[64] %s double %d' % (op, q), double_case(K64(), op, 2, q))
    for m, k in (('AppendStr', 'Str'), ('AppendData', 'Data'), ('SetStr', 'Str'), ('SetData', 'Data'), ('PrependStr', 'Str'), ('PrependData', 'Data'), ('AppendChar', 'char'), ('AppendMissingChar', 'char'), ('RemoveTrailingChar', 'char'), ('SetSize', 'size'),
                 ('AppendInt', 'long'), ('AppendUInt', U), ('PrependInt', 'long'), ('PrependUInt', U), ('AppendDouble', 'double'), ('PrependDouble', 'double')):
        for N in (64, 8): add('char[%d] any %s' % (N, m), bounds_case(Static(N), m, k))
    two, three, four, comb, bad = utf.box_of(0xE9), utf.box_of(0x20AC), utf.box_of(0x1F600), utf.box_of(0x301), utf.box_of(0xD900)
    A = 'A'; KU = lambda: Static(8, True)
    texts = [[], [A], [A, A, A], [A] * 7, [A] * 8, [two], [three], [four], [A, comb], [comb, A], [bad, A], [A, bad, A], [two] * 3, [two] * 4, [A] * 5 + [three], [A] * 4 + [three], [A] * 4 + [four], [A] * 3 + [four], [three, three], [three, three, A], [three] * 3, [four, four], [A] * 6 + [two], [A] * 5 + [two]]
    for i, w in enumerate(texts):
        nm = ' '.join('A' if x == A else {two: '2', three: '3', four: '4', comb: 'c', bad: 'x'}[x] for x in w)
        add('SetUTF8 size [%s]' % nm, utf8_case(KU(), 'SetUTF8', 2, w)); add('SetUTF8 size with zero [%s]' % nm, utf8_case(KU(), 'SetUTF8', 2, w, True)); add('SetUTF8 [%s]' % nm, utf8_case(KU(), 'SetUTF8z', 2, w))
        for pn in (0, 1, 4, 6, 7): add('AppendUTF8 %d [%s]' % (pn, nm), utf8_case(KU(), 'AppendUTF8', pn, w))
        if sum(1 if x == A else x[2] for x in w) <= 7:
            for cap in (0, 1, len(w), len(w) + 1, len(w) + 3): add('ConvertFromUTF8 %d [%s]' % (cap, nm), from8_case(KU(), w, cap))
    return out
def c06():
    out = []; add = lambda nm, f, **k: out.append(Case(nm, f, **k))
    common(Tls, (None, 0, 1, 3), (0, 1, 4), out)
    for op in ('append', 'prepend'):
        for R, nd in ((10, 20), (3, 41), (2, 43), (2, 44), (2, 64)): add('TLS %s %d digits radix %d' % (op, nd, R), int_case(Tls(), op, 0, False, R, nd, 2))
        add('TLS %s minus 63 digits radix 2' % op, int_case(Tls(), op, 1, True, 2, 63, 0))
    for pn in (None, 0, 3):
        for n in (0, 2, 3, 5): add('TLS SetSize %s %s' % (pn, n), size_case(Tls(), pn, n))
    for a in (None, 0, 2):
        add('TLS copy %s' % a, copy_case(a)); add('TLS destructor %s' % a, dtor_case(a)); add('TLS self-assignment %s' % a, copy_case(a, a, True, True))
        for b in (None, 0, 1, 3):
            for o in (0, 1): add('TLS assignment %s to %s, allocator %d' % (a, b, o), copy_case(a, b, True, other_tls=o))
    for m, k in (('AppendStr', 'Str'), ('AppendData', 'Data'), ('SetStr', 'Str'), ('SetData', 'Data'), ('PrependStr', 'Str'), ('PrependData', 'Data'), ('AppendChar', 'char'), ('AppendMissingChar', 'char'), ('SetSize', 'size')): add('TLS any %s' % m, grow_case(m, k))
    return out
PROPS = {'C05': c05}
