"""C16: static arrays.  C18: cache."""
from specs.packed import *
NSV = NS
class Life:
    """lifetimes of the element values: constructed once, destroyed once, equal to what they were copied from"""
    val = Packed.val; put = Packed.put; origin = Packed.origin
    v_new = Packed.v_new; v_copy = Packed.v_copy; v_set = Packed.v_set; v_del = Packed.v_del; const = Packed.const
    def __init__(self, sp, C_):
        self.sp = sp; self.mod = sp.mod; self.C = C_
        eng = self.eng = sp.engine(); eng.unroll = {'': 12}; eng.CAP = 200
        self.S = State(); self.S.mon['live'] = (); self.S.mon['cmp'] = ()
        V_ = 'VerifValue::'
        eng.stubs[V_ + 'VerifValue()'] = self.v_new; eng.stubs[V_ + 'VerifValue(VerifValue const&)'] = self.v_copy
        eng.stubs[V_ + '~VerifValue()'] = self.v_del; eng.stubs[V_ + 'operator=(VerifValue const&)'] = self.v_set
        eng.stubs[V_ + 'operator==(VerifValue const&) const'] = self.v_eq
    def v_eq(self, eng, S, I, a):
        out = []
        for T, p in eng.deref(S, a[0], 'comparison'):
            for X, q in eng.deref(T, a[1], 'comparison'):
                if not eng.bounds(X, p, C(8), 'comparison') or not eng.bounds(X, q, C(8), 'comparison'): continue
                v, w = self.val(X, p), self.val(X, q)
                eng.ob(v is not None and w is not None, 'value-life', 'a value that does not exist is compared', X)
                if v is None or w is None: continue
                k = tuple(sorted((self.origin(X, v), self.origin(X, w)), key=repr)); old = [r for x, r in X.mon['cmp'] if x == k]
                if k[0] == k[1]: out.append((X, C(1))); continue
                for r in old or (1, 0):
                    Y = X.copy(); Y.mon['cmp'] = Y.mon['cmp'] + ((k, r),); out.append((Y, C(r)))
        return out
    def same(self, T, v, w):
        """True, False or None (not compared)"""
        if v is None or w is None: return None
        k = tuple(sorted((self.origin(T, v), self.origin(T, w)), key=repr))
        return True if k[0] == k[1] else next((bool(r) for x, r in T.mon['cmp'] if x == k), None)
    def live(self, S, R, off):
        v = V(newvar('value', 0, U64)); S.mon['live'] = S.mon['live'] + (v,); R.cells[off] = (8, v); return v
    def arr(self, S, name, n, es, voffs, extra=None):
        """array of n elements of size es with live values at voffs; pointer to the first element and the values"""
        r = S.new_region('heap', name, C(8 + n * es)); r.tags = {'by': 'new[]'}; r.cells[0] = (8, C(n)); vs = []
        for i in range(n):
            vs.append([self.live(S, r, 8 + i * es + o) for o in voffs])
            if extra: extra(r, 8 + i * es)
        return PtrV(r.rid, C(8)), vs
    def arg(self, S, name):
        r = S.new_region('input', name, C(8)); v = self.live(S, r, 0); return PtrV(r.rid, ZERO), v
    def region(self, T, p, n, es, ob, what):
        """p points to n constructed elements of a live allocation made by new[]: its region, or None"""
        ok = isinstance(p, PtrV) and p.r in T.mem and not T.mem[p.r].freed and T.mem[p.r].tags.get('by') == 'new[]' and T.st.entails_eq(p.o - 8) and T.st.entails_eq(T.mem[p.r].size - 8 - n * es)
        ob(ok, 'array-own', '%s points to its own memory of the right size' % what)
        return T.mem[p.r] if ok else None
    def finish(self, T, own, vals, ob):
        for rid, R in T.mem.items():
            if R.kind == 'heap' and not R.freed: ob(rid in own, 'array-leak', '%s is neither reachable nor released' % R.name)
        for v in T.mon['live']: ob(v in vals, 'value-life', 'a value is never destroyed')

class Vec(Life):
    def __init__(self, sp): Life.__init__(self, sp, NS + 'StaticVector<VerifValue>'); self.dims = ('Size',)
    def make(self, S, name, d, null=False):
        t = obj(self.eng, S, self.C, name, 'obj'); n = d[0]; setf(self.eng, S, t, self.C, 'Size', C(n)); vs = []
        p = NULL
        if not null: p, vs = self.arr(S, name + '.data', n, 8, (0,))
        setf(self.eng, S, t, self.C, 'ptr', p)
        return t, [v[0] for v in vs]
    def check(self, T, t, d, ob):
        g = lambda f: getf(self.eng, T, t, self.C, f); n = d[0]
        ok = self.const(T, g('Size')) == n; ob(ok, 'array-size', 'the array has the expected size')
        p = g('ptr')
        if not ok: return set(), []
        if n == 0 and isinstance(p, Lin) and T.st.norm(p) == NULL: return set(), []
        R = self.region(T, p, n, 8, ob, 'the array')
        if R is None: return set(), []
        return {p.r}, [self.val(T, PtrV(p.r, C(8 + 8 * i))) for i in range(n)]
    def at(self, T, t, i): return getf(self.eng, T, t, self.C, 'ptr')
class Arr2(Life):
    def __init__(self, sp): Life.__init__(self, sp, NS + 'Static2DArray<VerifValue>'); self.dims = ('Width', 'Height')
    def make(self, S, name, d, null=False):
        t = obj(self.eng, S, self.C, name, 'obj'); w, h = d; s = lambda f, v: setf(self.eng, S, t, self.C, f, v)
        s('Width', C(w)); s('Height', C(h)); vs = []; p = q = NULL
        if not null:
            p, vs = self.arr(S, name + '.data', w * h, 8, (0,))
            r = S.new_region('heap', name + '.rows', C(8 * h)); r.tags = {'by': 'new[]'}; q = PtrV(r.rid, ZERO)
            for y in range(h): r.cells[8 * y] = (8, PtrV(p.r, C(8 + 8 * w * y)))
        s('baseptr', p); s('ptr', q)
        return t, [v[0] for v in vs]
    def check(self, T, t, d, ob):
        g = lambda f: getf(self.eng, T, t, self.C, f); w, h = d
        ok = self.const(T, g('Width')) == w and self.const(T, g('Height')) == h; ob(ok, 'array-size', 'the array has the expected size')
        p, q = g('baseptr'), g('ptr')
        if not ok: return set(), []
        own = set(); vs = []
        isnull = lambda x: isinstance(x, Lin) and T.st.norm(x) == NULL
        if not (w * h == 0 and isnull(p)):
            R = self.region(T, p, w * h, 8, ob, 'the array')
            if R is not None: own.add(p.r); vs = [self.val(T, PtrV(p.r, C(8 + 8 * i))) for i in range(w * h)]
        if not (w * h == 0 and isnull(q)):
            ok = isinstance(q, PtrV) and q.r in T.mem and not T.mem[q.r].freed and T.mem[q.r].tags.get('by') == 'new[]' and T.st.entails_eq(q.o) and T.st.entails_eq(T.mem[q.r].size - 8 * h)
            ob(ok, 'array-own', 'the row table is the array\'s own memory of the right size')
            if ok:
                own.add(q.r)
                for y in range(h):
                    c = T.mem[q.r].cells.get(8 * y)
                    ob(c is not None and isinstance(p, PtrV) and isinstance(c[1], PtrV) and c[1].r == p.r and T.st.entails_eq(c[1].o - 8 - 8 * w * y), 'array-rows', 'every row pointer leads to its row')
        return own, vs

def method(cls, m, args): return '%s::%s(%s)' % (cls, m, args)
def a_case(K, meth, d, d2=None, null=False, null2=False, pos=None, alias=False):
    def run(sp):
        h = K(sp); eng = h.eng; S = h.S; C_ = h.C; cn = C_.split('::')[1].split('<')[0]
        args = []; t = None; mine = None; other = None
        if meth in ('ctor', 'copy'): t = obj(eng, S, C_, 'this', 'obj')
        else: t, mine = h.make(S, 'this', d, null)
        if d2 is not None: other, ov = (t, mine) if alias else h.make(S, 'other', d2, null2)
        sig = {'ctor': method(C_, cn, ', '.join(['unsigned long'] * len(d))), 'copy': method(C_, cn, C_ + ' const&'), 'dtor': method(C_, '~' + cn, ''),
               'assign': method(C_, 'operator=', C_ + ' const&'), 'eq': method(C_, 'operator==', C_ + ' const&') + ' const', 'ne': method(C_, 'operator!=', C_ + ' const&') + ' const', 'at': method(C_, 'operator[]', 'unsigned long'), 'raw': method(C_, 'RawData', '') + ' const'}
        for f in ('Size', 'Width', 'Height'): sig[f] = method(C_, 'Get' + f, '') + ' const'
        fn = sp.mod.find(sig[meth]); loc = sp.mod.loc_fn(fn); nm = sig[meth].split('(')[0]
        a = [t]
        if meth == 'ctor': a += [C(x) for x in d]
        elif other is not None: a.append(other)
        elif meth == 'at': a.append(C(pos))
        rets = eng.call(S, fn, a); outs = set()
        for T, r0 in rets:
          for T, r in (eng.toint(T, r0) if r0 is not None else [(T, None)]):
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            if meth == 'dtor': h.finish(T, set(), [], ob); continue
            own, vs = h.check(T, t, d2 if meth in ('copy', 'assign') else d, ob)
            for v in vs: ob(v is not None, 'value-life', 'every element is a constructed value')
            allown, allv = set(own), list(vs)
            if other is not None and not alias:
                own2, vs2 = h.check(T, other, d2, ob); ob(not own & own2, 'array-alias', 'two arrays share no memory'); allown |= own2; allv += vs2
                ob(vs2 == ov, 'array-value', 'the elements of the other array are left alone')
            if meth in ('copy', 'assign'): ob(len(vs) == len(ov) and all(v is not None and h.origin(T, v) == w for v, w in zip(vs, ov)), 'array-value', 'every element equals the element it was copied from')
            elif mine is not None: ob(vs == mine, 'array-value', 'the elements are left alone')
            if meth == 'assign': ob(r == t, 'array-result', 'the array itself is returned')
            if meth in ('eq', 'ne'):
                same = [h.same(T, x, y) for x, y in zip(mine, ov)] if d == d2 else [False]
                want = False if False in same else True if None not in same else None
                ob(want is not None and isinstance(r, Lin) and T.st.entails_eq(r - int(want == (meth == 'eq'))), 'array-equal', 'the comparison is true exactly if sizes and all elements are equal'); outs.add(want)
            bp = getf(eng, T, t, C_, 'baseptr') if K is Arr2 else getf(eng, T, t, C_, 'ptr')
            if meth == 'at': ob(isinstance(r, PtrV) and isinstance(bp, PtrV) and r.r == bp.r and T.st.entails_eq(r.o - 8 - 8 * pos * (d[0] if K is Arr2 else 1)), 'array-result', 'the element or row at the position is returned')
            if meth == 'raw': ob(r == getf(eng, T, t, C_, 'ptr'), 'array-result', 'the raw data is returned')
            if meth in h.dims: ob(isinstance(r, Lin) and T.st.entails_eq(r - d[h.dims.index(meth)]), 'array-result', 'the size is returned')
            h.finish(T, allown, allv, ob)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, '%s %s %s' % (nm, d, d2), len(rets))
    return run
def long_case(sig, kind):
    """arrays of unknown size: memory accesses and ownership"""
    def run(sp):
        eng = sp.engine(); S = State(); two = '2D' in kind; C_ = NS + ('Static2DArray<long>' if two else 'StaticVector<long>')
        def mk(name, null=False):
            t = obj(eng, S, C_, name, 'obj'); n = V(newvar(name + '.n', 0, 1 << 40))
            setf(eng, S, t, C_, 'Size', n); p = S.new_region('heap', name + '.data', n.scale(8)); p.tags = {'by': 'new[]'}
            setf(eng, S, t, C_, 'ptr', PtrV(p.rid, ZERO)); return t, p.rid, n
        fn = sp.mod.find(sig.replace('$', C_)); loc = sp.mod.loc_fn(fn)
        if kind == 'copy': t = obj(eng, S, C_, 'this', 'obj'); o, rid, n = mk('other'); a = [t, o]
        elif kind == 'ctor': t = obj(eng, S, C_, 'this', 'obj'); n = V(newvar('Num', 0, 1 << 40)); a = [t, n]
        else: t, r1, n1 = mk('this'); o, rid, n = mk('other'); a = [t, o]
        rets = eng.call(S, fn, a)
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=C_)
            if kind == 'eq': continue
            p, z = getf(eng, T, t, C_, 'ptr'), getf(eng, T, t, C_, 'Size')
            ob(isinstance(z, Lin) and T.st.entails_eq(z - n), 'array-size', 'the array has the expected size')
            ob((isinstance(p, PtrV) and not T.mem[p.r].freed and T.st.entails_eq(T.mem[p.r].size - n.scale(8)) and (kind == 'ctor' or p.r != rid)) or (isinstance(p, Lin) and T.st.norm(p) == NULL and T.st.entails_eq(n)), 'array-own', 'the array points to its own memory of the right size')
        sp.exist(rets, 'returns', loc, C_, 'returns')
        sp.absorb(eng, sig, len(rets))
    return run
def c16():
    out = []
    D1 = [(0,), (1,), (2,), (3,)]; D2 = [(0, 0), (0, 2), (2, 0), (1, 1), (2, 1), (1, 2), (2, 3)]
    for K, D in ((Vec, D1), (Arr2, D2)):
        kn = K.__name__
        add = lambda nm, *a, **k: out.append(Case('%s %s' % (kn, nm), a_case(K, *a, **k)))
        for d in D:
            nulls = (False, True) if 0 in d else (False,)
            add('ctor %s' % (d,), 'ctor', d)
            for nu in nulls:
                s = '%s%s' % (d, ' null' if nu else '')
                add('copy ' + s, 'copy', d, d, null2=nu); add('dtor ' + s, 'dtor', d, null=nu); add('raw ' + s, 'raw', d, null=nu); add('assign self ' + s, 'assign', d, d, null=nu, alias=True)
                for f in ('Size',) if K is Vec else ('Width', 'Height'): add('Get%s %s' % (f, s), f, d, null=nu)
                for e in D:
                    for nu2 in (False, True) if 0 in e else (False,):
                        for m in ('assign', 'eq', 'ne'): add('%s %s %s%s' % (m, s, e, ' null' if nu2 else ''), m, d, e, null=nu, null2=nu2)
            if 0 not in d:
                for i in range(d[-1]): add('at %s %d' % (d, i), 'at', d, pos=i)
    for sig, k in (('$::StaticVector(unsigned long)', 'ctor'), ('$::StaticVector($ const&)', 'copy'), ('$::operator=($ const&)', 'assign'), ('$::operator==($ const&) const', 'eq')): out.append(Case('Vec long ' + k, long_case(sig, k)))
    return out

# ---------------------------------------------------------------- cache
class CacheM(Life):
    def __init__(self, sp, cls):
        Life.__init__(self, sp, NS + cls + '<VerifValue, VerifValue>'); self.N = NS + 'CacheNode<VerifValue, VerifValue>'
        self.o = {f: foff(self.mod, self.N, f)[0] for f in ('Used', 'Key', 'Value')}; self.es = self.mod.csize(self.N)
    def make(self, S, name, used):
        t = obj(self.eng, S, self.C, name, 'obj'); it = iter(used)
        p, vs = self.arr(S, name + '.nodes', len(used), self.es, (self.o['Key'], self.o['Value']), lambda r, o: r.cells.__setitem__(o + self.o['Used'], (1, C(next(it)))))
        setf(self.eng, S, t, self.C, 'Nodes', p); setf(self.eng, S, t, self.C, 'NumNodes', C(len(used)))
        return t, vs
    def check(self, T, t, n, ob):
        g = lambda f: getf(self.eng, T, t, self.C, f)
        ok = self.const(T, g('NumNodes')) == n; ob(ok, 'array-size', 'the cache has the expected size'); p = g('Nodes')
        if not ok: return set(), []
        R = self.region(T, p, n, self.es, ob, 'the cache')
        if R is None: return set(), []
        out = []
        for i in range(n):
            b = 8 + i * self.es; u = R.cells.get(b + self.o['Used'])
            out.append((self.const(T, u[1]) if u else None, self.val(T, PtrV(p.r, C(b + self.o['Key']))), self.val(T, PtrV(p.r, C(b + self.o['Value'])))))
        return {p.r}, out
def cache_case(cls, meth, used, res=None, other=None, alias=False):
    def run(sp):
        h = CacheM(sp, cls); eng = h.eng; S = h.S; C_ = h.C; n = len(used)
        if meth in ('ctor', 'copy'): t = obj(eng, S, C_, 'this', 'obj'); vs = None
        else: t, vs = h.make(S, 'this', used)
        V_ = 'VerifValue const&'
        sig = {'ctor': '%s(unsigned long)' % cls, 'copy': '%s(%s const&)' % (cls, C_), 'dtor': '~%s()' % cls, 'assign': 'operator=(%s const&)' % C_, 'Empty': 'Empty()', 'Insert': 'Insert(unsigned long, %s, %s)' % (V_, V_),
               'Remove': 'Remove(unsigned long, %s)' % V_, 'Exists': 'Exists(unsigned long, %s)' % V_, 'Find': 'Find(VerifValue&, unsigned long, %s)' % V_, 'GetSize': 'GetSize()', 'RawData': 'RawData()'}[meth]
        a = [t]; extra = []; ov = None; o = None
        if meth in ('copy', 'assign'):
            o, ov = (t, vs) if alias else h.make(S, 'other', other); a.append(o)
        if meth == 'ctor': a.append(C(n))
        if res is not None: hk = V(newvar('HashKey.q', 0, (U64 - res) // n)).scale(n) + res; kp, kv = h.arg(S, 'Key'); extra.append(kv)
        if meth == 'Insert': vp, vv = h.arg(S, 'Value'); extra.append(vv); a += [hk, kp, vp]
        elif meth in ('Remove', 'Exists'): a += [hk, kp]
        elif meth == 'Find': rp, rv = h.arg(S, 'Result'); a += [rp, hk, kp]
        fn = sp.mod.find(C_ + '::' + sig); loc = sp.mod.loc_fn(fn); nm = C_ + '::' + sig.split('(')[0]
        rets = eng.call(S, fn, a); outs = set()
        for T, r0 in rets:
          for T, r in (eng.toint(T, r0) if r0 is not None else [(T, None)]):
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            if meth == 'dtor': h.finish(T, set(), [], ob); continue
            mused = other if meth in ('copy', 'assign') and not alias else used
            own, en = h.check(T, t, len(mused), ob); own = set(own); allv = [x for e in en for x in e[1:]] + extra
            ob(all(x is not None for e in en for x in e), 'value-life', 'every entry has a constructed key and value')
            if o is not None and not alias:
                own2, en2 = h.check(T, o, len(other), ob); ob(not own & own2, 'array-alias', 'two caches share no memory'); own |= own2; allv += [x for e in en2 for x in e[1:]]
                ob([(u, [k, v]) for u, k, v in en2] == list(zip(other, ov)), 'cache-value', 'the source of a copy is left alone')
            exp = None
            if meth == 'ctor': ob(all(e[0] == 0 for e in en), 'cache-empty', 'a new cache is empty')
            elif meth in ('copy', 'assign'): ob(len(en) == len(mused) and all(e[0] == u and e[1] is not None and e[2] is not None and h.origin(T, e[1]) == h.origin(T, w[0]) and h.origin(T, e[2]) == h.origin(T, w[1]) for e, u, w in zip(en, mused, ov)), 'cache-value', 'every entry equals the one it was copied from')
            elif meth == 'Empty': ob(all(e[0] == 0 for e in en), 'cache-empty', 'nothing is in the cache afterwards')
            else:
                exp = [[u, k, v] for u, (k, v) in zip(used, vs)]
                if meth == 'Insert':
                    e = en[res] if len(en) == n else None; ob(e and e[0] == 1 and e[1] is not None and e[2] is not None and h.origin(T, e[1]) == kv and h.origin(T, e[2]) == vv, 'cache-insert', 'the entry is stored in its place'); exp[res] = None
                if meth in ('Remove', 'Exists', 'Find'):
                    same = h.same(T, vs[res][0], kv) if used[res] else False; outs.add(same)
                    ob(same is not None and isinstance(r, Lin) and T.st.entails_eq(r - int(bool(same))), 'cache-find', 'a key is reported exactly if it is in the cache')
                    if meth == 'Remove' and same: ob(len(en) == n and en[res][0] == 0, 'cache-remove', 'the removed entry is gone'); exp[res] = None
                    if meth == 'Find':
                        c = h.val(T, rp); allv.append(c); ob(c is not None and h.origin(T, c) == (h.origin(T, vs[res][1]) if same else rv), 'cache-find', 'the value of the key is returned, and nothing is changed without it')
                ob(len(en) == n and all(x is None or list(e) == x for e, x in zip(en, exp)), 'cache-value', 'no other entry changes')
            if meth == 'assign': ob(r == t, 'cache-value', 'the cache itself is returned')
            if meth == 'GetSize': ob(isinstance(r, Lin) and T.st.entails_eq(r - n), 'cache-value', 'the size is returned')
            if meth == 'RawData': ob(r == getf(eng, T, t, C_, 'Nodes'), 'cache-value', 'the nodes are returned')
            h.finish(T, own, allv, ob)
        if meth in ('Remove', 'Exists', 'Find') and used[res]: sp.exist(True in outs, 'returns', loc, nm, 'a key can be found')
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, '%s %s %s' % (nm, used, res), len(rets))
    return run
def chash_case(sized):
    """the hash functions read nothing but the key"""
    def run(sp):
        eng = sp.engine(); S = State(); sg = NS + 'CacheUtil::GetHashKey(' + ('unsigned char*, unsigned long)' if sized else 'char*)')
        fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn)
        if sized: n = V(newvar('Size', 0, 1 << 40)); q = V(newvar('Size.q', 0, 1 << 38)); a = [buf(S, 'Str', n), n]
        else: p, n = cstr(S, 'Str'); a = [p]
        rets = eng.call(S, fn, a)
        sp.exist(rets, 'returns', loc, sg, 'returns'); sp.absorb(eng, sg, len(rets))
    return run
def c18():
    out = []
    for cls in ('Cache', 'CacheNoCopy'):
        add = lambda nm, *a, **k: out.append(Case('%s %s' % (cls, nm), cache_case(cls, *a, **k)))
        for used in ([0], [1], [1, 0], [0, 1], [1, 1, 0], [1, 1, 1]):
            add('ctor %d' % len(used), 'ctor', used) if used[0] else None
            add('dtor %s' % used, 'dtor', used); add('Empty %s' % used, 'Empty', used); add('GetSize %s' % used, 'GetSize', used); add('RawData %s' % used, 'RawData', used)
            for res in range(len(used)):
                for m in ('Insert', 'Remove', 'Exists', 'Find'): add('%s %s %d' % (m, used, res), m, used, res)
            if cls == 'Cache':
                add('copy %s' % used, 'copy', used, other=used); add('assign self %s' % used, 'assign', used, other=used, alias=True)
                for o in ([0], [1], [1, 0], [0, 1], [1, 0, 1]): add('assign %s %s' % (used, o), 'assign', used, other=o)
    for z in (0, 1): out.append(Case('CacheUtil::GetHashKey %d' % z, chash_case(z)))
    return out
PROPS = {'C16': c16, 'C18': c18}
