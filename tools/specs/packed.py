"""C17: packed ordered hash."""
from specs.hash import *
from specs import hash as hb
F32 = 0xFFFFFFFF
class Packed:
    def __init__(self, sp, cls='PackedOrderedHash', M=8, sip=0):
        self.sp = sp; self.mod = sp.mod; self.cls = cls; self.C = NS + cls + '<VerifValue>'; self.N = NS + 'PackedOrderedHashNode<VerifValue>'
        eng = self.eng = sp.engine(); eng.unroll = {'': 9}; eng.CAP = 200
        self.S = State(); self.keys = Keys(eng, self.S, M); self.keys.skip = 8; self.sip = sip
        self.o = {f: foff(self.mod, self.N, f)[0] for f in ('PrevHashIndex', 'NextHashIndex', 'IntKey', 'StrKey', 'Value')}
        self.ns = self.mod.csize(self.N)
        self.S.mon['live'] = ()
        V_ = 'VerifValue::'
        eng.stubs[V_ + 'VerifValue()'] = self.v_new; eng.stubs[V_ + 'VerifValue(VerifValue const&)'] = self.v_copy
        eng.stubs[V_ + '~VerifValue()'] = self.v_del; eng.stubs[V_ + 'operator=(VerifValue const&)'] = self.v_set
    # values: a live value is a variable in mon['live']; the bytes carry it
    def val(self, S, p):
        c = self.eng.find_cell(S, S.mem[p.r], S.st.norm(p.o), 8)
        return c if isinstance(c, Lin) and c in S.mon['live'] else None
    def put(self, S, p, eqto=None):
        v = V(newvar('value', 0, U64))
        if eqto is not None: S.mon[('same', v)] = S.mon.get(('same', eqto), eqto)
        S.mon['live'] = S.mon['live'] + (v,)
        return self.eng.store(S, p, ir.IntTy(64), v)
    def origin(self, S, v): return S.mon.get(('same', v), v)
    def v_new(self, eng, S, I, a):
        out = []
        for T, p in eng.deref(S, a[0], 'construction'):
            if not eng.bounds(T, p, C(8), 'construction'): continue
            out += [(X, None) for X in self.put(T, p)]
        return out
    def v_copy(self, eng, S, I, a):
        out = []
        for T, p in eng.deref(S, a[0], 'construction'):
            for X, q in eng.deref(T, a[1], 'copy'):
                if not eng.bounds(X, p, C(8), 'construction') or not eng.bounds(X, q, C(8), 'copy'): continue
                v = self.val(X, q); eng.ob(v is not None, 'value-life', 'a value that does not exist is copied', X)
                out += [(Y, None) for Y in self.put(X, p, v)]
        return out
    def v_set(self, eng, S, I, a):
        out = []
        for T, p in eng.deref(S, a[0], 'assignment'):
            for X, q in eng.deref(T, a[1], 'copy'):
                if not eng.bounds(X, p, C(8), 'assignment') or not eng.bounds(X, q, C(8), 'copy'): continue
                w = self.val(X, p); v = self.val(X, q)
                eng.ob(w is not None, 'value-life', 'a value that does not exist is assigned to', X)
                eng.ob(v is not None, 'value-life', 'a value that does not exist is copied', X)
                if w is not None: X.mon['live'] = tuple(x for x in X.mon['live'] if x != w)
                out += [(Y, a[0]) for Y in self.put(X, p, v)]
        return out
    def v_del(self, eng, S, I, a):
        out = []
        for T, p in eng.deref(S, a[0], 'destruction'):
            if not eng.bounds(T, p, C(8), 'destruction'): continue
            w = self.val(T, p)
            eng.ob(w is not None, 'value-life', 'a value that does not exist is destroyed', T)
            if w is not None: T.mon['live'] = tuple(x for x in T.mon['live'] if x != w)
            out.append((T, None))
        return out
    def params(self, S, t):
        k1 = getf(self.eng, S, t, self.C, 'Key1'); k2 = getf(self.eng, S, t, self.C, 'Key2')
        return ('sip', (k1, k2, C(2), C(4))) if self.sip else ('djb', (k1,))
    def table(self, S, n, ents, name='this', order='rev'):
        """ents: list of None (unset) or (kind, residue)"""
        eng = self.eng; t = obj(eng, S, self.C, name, 'obj'); g = lambda f, v: setf(eng, S, t, self.C, f, v)
        g('UseSipHash', C(self.sip)); g('Key1', V(newvar('Key1', 0, U64))); g('Key2', V(newvar('Key2', 0, U64)))
        a = S.new_region('heap', name + '.array', C(n * (self.ns + 4))); a.tags = {'by': 'new[]'}
        g('ArrayNodes', PtrV(a.rid, ZERO)); g('HashNodes', PtrV(a.rid, C(n * self.ns))); g('Mask', C(n - 1)); g('NumNodes', C(n)); g('NextNodePos', C(len(ents)))
        g('NumUsed', C(sum(1 for e in ents if e))); g('CompactNumUsed50', C(n >> 1)); g('CompactNextNodePos75', C(n - (n >> 3))); g('CompactNumUsed90', C(n - n // 10)); g('ResizeNumUsed40', C((n << 3) // 10))
        kind, params = self.params(S, t)
        ds = []; a = S.w(a.rid)
        for i, e in enumerate(ents):
            b = i * self.ns
            if e is None:
                a.cells[b + self.o['PrevHashIndex']] = (4, C(F32)); a.cells[b + self.o['NextHashIndex']] = (4, V(newvar('junk', 0, F32)))
                a.cells[b + self.o['IntKey']] = (8, V(newvar('junk', 0, U64))); a.cells[b + self.o['StrKey']] = (8, NULL); ds.append(None); continue
            k, res = e
            h = self.keys.fresh(S, res)
            if k == 'i':
                key = V(newvar('key', 0, U64)); d = ('i', key, C(8))
                a.cells[b + self.o['IntKey']] = (8, key); a.cells[b + self.o['StrKey']] = (8, NULL)
            else:
                sid, q, l = self.keys.string(S, '%s%d.key' % (name, i), 'heap'); S.w(q.r).cells[0] = (8, l); d = ('s', sid, l)
                a = S.w(a.rid); a.cells[b + self.o['IntKey']] = (8, h); a.cells[b + self.o['StrKey']] = (8, q)
            for x in ds:
                if x and x[0] == d[0] == 'i': S.st.neq(x[1] - d[1])
                elif x and x[0] == d[0] == 's': self.keys.differ(S, x[1], d[1])
            S.mon['hashes'] = S.mon['hashes'] + ((kind, d[0], d[1], d[2], params, h),)
            v = V(newvar('value', 0, U64)); S.mon['live'] = S.mon['live'] + (v,); a.cells[b + self.o['Value']] = (8, v)
            ds.append(d)
        for j in range(n):
            ch = [i for i, e in enumerate(ents) if e and e[1] % n == j]
            if order == 'rev': ch = ch[::-1]
            a.cells[n * self.ns + 4 * j] = (4, C(ch[0] if ch else F32))
            for x, i in enumerate(ch):
                a.cells[i * self.ns + self.o['PrevHashIndex']] = (4, C(ch[x - 1]) if x else C(0x80000000 | j))
                a.cells[i * self.ns + self.o['NextHashIndex']] = (4, C(ch[x + 1]) if x + 1 < len(ch) else C(F32))
        S.mem[a.rid] = a
        return t, a.rid, ds
    def fld(self, T, rid, i, f):
        o = i * self.ns + self.o[f]
        c = T.mem[rid].cells.get(o)
        if c is None and f in ('PrevHashIndex', 'NextHashIndex'):
            l = self.eng.load(T.copy(), PtrV(rid, C(o)), ir.IntTy(32)); return l[0][1] if l else None
        return c[1] if c else None
    def key(self, T, rid, i):
        s = self.fld(T, rid, i, 'StrKey'); k = self.fld(T, rid, i, 'IntKey')
        if isinstance(s, PtrV):
            R = T.mem.get(s.r)
            if R is None or R.freed or 'sid' not in R.tags or s.o != C(8): return None
            n = R.cells.get(0)
            if n is None or not T.st.entails_eq(R.size - 8 - n[1]): return None
            return ('s', R.tags['sid'], n[1])
        if isinstance(s, Lin) and T.st.norm(s) == NULL and isinstance(k, Lin): return ('i', k, C(8))
        return None
    def hashof(self, T, t, d):
        kind, params = self.params(T, t)
        return next((x[5] for x in T.mon['hashes'] if x[0] == kind and x[1] == d[0] and len(x[4]) == len(params) and all(T.st.entails_eq(u - w) for u, w in zip(x[4], params)) and ((d[0] == 's' and self.keys.cls(T, x[2]) == self.keys.cls(T, d[1])) or (d[0] == 'i' and T.st.entails_eq(x[2] - d[1])))), None)
    def const(self, T, v, w=None):
        v = T.st.norm(v) if isinstance(v, Lin) else None
        return (v.c if w is None else v.c % (1 << w)) if v is not None and v.isconst() else None
    def check(self, T, t, ob):
        """invariants; returns (owned regions, [(index, key descriptor, value)])"""
        g = lambda f: getf(self.eng, T, t, self.C, f)
        own = set(); ents = []
        a, hn = g('ArrayNodes'), g('HashNodes'); n = self.const(T, g('NumNodes')); nx = self.const(T, g('NextNodePos')); mk = self.const(T, g('Mask')); nu = self.const(T, g('NumUsed'))
        ok = isinstance(a, PtrV) and a.r in T.mem and not T.mem[a.r].freed and n is not None and n >= 1 and (n & (n - 1)) == 0 and mk == n - 1
        ob(ok, 'packed-table', 'the table has a power of two of entries and the mask for it')
        if not ok: return own, ents
        R = T.mem[a.r]
        ok = T.st.entails(R.size - n * (self.ns + 4)) and isinstance(hn, PtrV) and hn.r == a.r and T.st.entails(hn.o - n * self.ns) and T.st.entails(R.size - hn.o - 4 * n) and a.o == ZERO
        ob(ok, 'packed-table', 'array and buckets lie inside the allocated memory and apart')
        if not ok: return own, ents
        ho = self.const(T, hn.o)
        ob(nx is not None and 0 <= nx <= n, 'packed-table', 'the next position lies inside the table')
        if nx is None or nx > n or ho is None: return own, ents
        own.add(a.r); used = []
        for i in range(nx):
            p = self.const(T, self.fld(T, a.r, i, 'PrevHashIndex'), 32)
            if p == F32:
                continue
            used.append(i); d = self.key(T, a.r, i)
            ob(d is not None, 'packed-key', 'the key of an entry is intact and owned by it')
            v = self.val(T, PtrV(a.r, C(i * self.ns + self.o['Value'])))
            ob(v is not None, 'value-life', 'an entry in use holds a constructed value')
            ents.append((i, d, v))
            if d is not None and d[0] == 's':
                s = self.fld(T, a.r, i, 'StrKey'); ob(s.r not in own, 'packed-key', 'two entries share the memory of a key'); own.add(s.r)
                hh = self.hashof(T, t, d); k = self.fld(T, a.r, i, 'IntKey')
                ob(hh is not None and isinstance(k, Lin) and T.st.entails_eq(k - hh), 'packed-key', 'the stored hash of a text key is its hash')
        ob(nu == len(used), 'packed-count', 'the size is the number of entries in use')
        left = set(used)
        for j in range(n):
            l = self.eng.load(T.copy(), PtrV(a.r, C(ho + 4 * j)), ir.IntTy(32))
            c = self.const(T, l[0][1], 32) if l else None; prev = 0x80000000 | j
            while c != F32:
                if c is None or c not in left: ob(False, 'packed-chain', 'a bucket leads to an entry that is not in use or to one twice'); break
                left.discard(c)
                ob(self.const(T, self.fld(T, a.r, c, 'PrevHashIndex'), 32) == prev, 'packed-chain', 'a previous index inside a bucket is wrong')
                d = self.key(T, a.r, c); h = self.hashof(T, t, d) if d else None
                if h is not None:
                    h = T.st.norm(h); ob(all(x % n == 0 for _, x in h.t) and h.c % n == j, 'packed-chain', 'an entry is in the bucket of its hash')
                prev = c; c = self.const(T, self.fld(T, a.r, c, 'NextHashIndex'), 32)
        ob(not left, 'packed-chain', 'every entry in use is found in its bucket')
        for f, v in (('CompactNumUsed90', None), ('ResizeNumUsed40', None)):
            x = self.const(T, g(f)); ob(x is not None and 0 <= x <= n, 'packed-table', 'the limits for resizing belong to the size')
        return own, ents
    def finish(self, T, owns, entss, ob, extra=()):
        own = set().union(*owns) if owns else set()
        for rid, R in T.mem.items():
            if R.kind == 'heap' and not R.freed: ob(rid in own, 'packed-leak', '%s is neither reachable nor released' % R.name)
        vs = [v for e in entss for _, _, v in e] + list(extra)
        for v in T.mon['live']: ob(v in vs, 'value-life', 'a value is never destroyed')
    def find(self, meth, args, const=False): return self.mod.find('%s::%s(%s)%s' % (self.C, meth, args, ' const' if const else ''))
    eqkey = H.eqkey
    def expect(self, T, ents, ds, vals, ob, new=None, removed=None, front=None):
        """the entries are ds (in order) without removed, followed by new"""
        exp = [(d, v) for i, (d, v) in enumerate(zip(ds, vals)) if d and i != removed]
        ok = len(ents) == len(exp) + (1 if new is not None else 0)
        ob(ok, 'packed-order', 'exactly the expected entries are in the table')
        if not ok: return
        for (i, d, v), (e, w) in zip(ents, exp):
            ob(self.eqkey(T, d, e) is True, 'packed-order', 'the entries keep their order and keys')
            if w is not None: ob(v is not None and self.origin(T, v) == self.origin(T, w), 'packed-value', 'the entries keep their values')
        if new is not None: ob(self.eqkey(T, ents[-1][1], new) is True, 'packed-order', 'the new entry is the last one and has the given key')

def pname(n, ents): return 'n=%d [%s]' % (n, ' '.join('-' if e is None else '%s%d' % e for e in ents))
def vals_of(h, S, rid, ents): return [S.mem[rid].cells[i * h.ns + h.o['Value']][1] if e else None for i, e in enumerate(ents)]

def set_case(cls, how, withval, n, ents, order='rev', M=8, sip=0):
    def run(sp):
        h = Packed(sp, cls, M, sip); eng = h.eng; S = h.S
        t, rid, ds = h.table(S, n, ents, order=order); vals = vals_of(h, S, rid, ents)
        a, sig, d = keyarg(h, S, how); arg = None
        if withval:
            r = S.new_region('input', 'Value', C(8)); arg = V(newvar('argval', 0, U64)); r.cells[0] = (8, arg); S.mon['live'] = S.mon['live'] + (arg,); a.append(PtrV(r.rid, ZERO)); sig = sig + ['VerifValue const&']
        fn = h.find('Set', ', '.join(sig)); loc = sp.mod.loc_fn(fn); nm = h.C + '::Set'
        rets = eng.call(S, fn, [t] + a); seen = set()
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            own, en = h.check(T, t, ob)
            ap = getf(eng, T, t, h.C, 'ArrayNodes')
            if any(h.eqkey(T, d, e) is None for e in ds if e): ob(False, 'packed-find', 'the key is compared with the keys in its bucket'); continue
            hit = [i for i, e in enumerate(ds) if e and h.eqkey(T, d, e) is True]
            if hit:
                seen.add(0)
                v2 = list(vals)
                if withval: v2[hit[0]] = arg
                h.expect(T, en, ds, v2, ob); ok = len([e for e in en]) and isinstance(r, PtrV) and isinstance(ap, PtrV) and r.r == ap.r
                res = next((i for i, dd, v in en if h.eqkey(T, dd, d) is True), None)
                ob(ok and res is not None and T.st.entails_eq(r.o - res * h.ns), 'packed-result', 'the existing entry is returned')
            else:
                seen.add(1)
                h.expect(T, en, ds, vals, ob, new=d)
                ok = isinstance(r, PtrV) and isinstance(ap, PtrV) and r.r == ap.r and en and T.st.entails_eq(r.o - en[-1][0] * h.ns)
                ob(ok, 'packed-result', 'the new entry is returned')
                if withval and en: v = en[-1][2]; ob(v is not None and h.origin(T, v) == arg, 'packed-value', 'the new entry has the given value')
            h.finish(T, [own], [en], ob, [arg] if withval else [])
        sp.exist(1 in seen, 'returns', loc, nm, 'a new key can be set')
        sp.absorb(eng, nm + ' ' + pname(n, ents), len(rets))
    return run

def find_case(cls, meth, how, n, ents, order='rev', pos=False, sip=0):
    """Find and Unset by key"""
    def run(sp):
        h = Packed(sp, cls, 8, sip); eng = h.eng; S = h.S
        t, rid, ds = h.table(S, n, ents, order=order); vals = vals_of(h, S, rid, ents)
        a, sig, d = keyarg(h, S, how)
        if pos: pr = S.new_region('stackobj', 'Pos', C(8)); a.append(PtrV(pr.rid, ZERO)); sig = sig + ['unsigned long&']
        fn = h.find(meth, ', '.join(sig)); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + meth
        rets = eng.call(S, fn, [t] + a)
        for T, r0 in rets:
          for T, r in eng.toint(T, r0):
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            own, en = h.check(T, t, ob)
            hit = [i for i, e in enumerate(ds) if e and h.eqkey(T, d, e) is True]
            if any(h.eqkey(T, d, e) is None for e in ds if e): ob(False, 'packed-find', 'the key is compared with the keys in its bucket'); continue
            if meth == 'Unset':
                ob(isinstance(r, Lin) and T.st.entails_eq(r - (1 if hit else 0)), 'packed-result', 'the result tells whether the key was there')
                h.expect(T, en, ds, vals, ob, removed=hit[0] if hit else None)
            else:
                ap = getf(eng, T, t, h.C, 'ArrayNodes')
                if hit:
                    ob(isinstance(r, PtrV) and r.r == ap.r and T.st.entails_eq(r.o - hit[0] * h.ns), 'packed-find', 'a key that is in the table is found')
                    if pos: c = T.mem[pr.rid].cells.get(0); ob(c is not None and isinstance(c[1], Lin) and T.st.entails_eq(c[1] - hit[0]), 'packed-find', 'the position of the entry is reported')
                else: ob(isinstance(r, Lin) and T.st.norm(r) == NULL, 'packed-find', 'a key that is not in the table is not found')
                h.expect(T, en, ds, vals, ob)
            h.finish(T, [own], [en], ob)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + pname(n, ents), len(rets))
    return run

def op_case(cls, meth, n, ents, arg=None, order='rev', M=8):
    """Unset(node), Get, GetPos, Next, Prev, Optimize, AutoResizeHash, ResizeHash, destructor"""
    def run(sp):
        h = Packed(sp, cls, M); eng = h.eng; S = h.S
        t, rid, ds = h.table(S, n, ents, order=order); vals = vals_of(h, S, rid, ents)
        N = h.N + '*'; args = [t]; pr = None
        if meth == 'Unset': args.append(PtrV(rid, C(arg * h.ns)) if arg is not None else NULL); sig = N
        elif meth == 'GetPos': args.append(PtrV(rid, C(arg * h.ns))); sig = N
        elif meth == 'Get': args.append(C(arg)); sig = 'unsigned long'
        elif meth in ('Next', 'Prev'): pr = S.new_region('stackobj', 'Pos', C(8)); pr.cells[0] = (8, C(arg)); args.append(PtrV(pr.rid, ZERO)); sig = 'unsigned long&'
        elif meth == 'ResizeHash': args.append(C(arg)); sig = 'unsigned long'
        else: sig = ''
        fn = h.find(meth, sig); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + meth
        rets = eng.call(S, fn, args); k = len(ents)
        for T, r0 in rets:
          for T, r in (eng.toint(T, r0) if r0 is not None else [(T, None)]):
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            if meth.startswith('~'): h.finish(T, [], [], ob); continue
            own, en = h.check(T, t, ob); ap = getf(eng, T, t, h.C, 'ArrayNodes')
            rem = None
            def isn(i): return isinstance(r, PtrV) and isinstance(ap, PtrV) and r.r == ap.r and T.st.entails_eq(r.o - i * h.ns) if i is not None else isinstance(r, Lin) and T.st.norm(r) == NULL
            if meth == 'Unset':
                rem = arg if arg is not None and ents[arg] else None
                ob(isinstance(r, Lin) and T.st.entails_eq(r - (1 if rem is not None else 0)), 'packed-result', 'the result tells whether an entry was taken out')
            elif meth == 'Get': ob(isn(arg if arg < k and ents[arg] else None), 'packed-result', 'the entry at a position is returned, if there is one')
            elif meth == 'GetPos': ob(isinstance(r, Lin) and T.st.entails_eq(r - arg), 'packed-result', 'the position of an entry is returned')
            elif meth in ('Next', 'Prev'):
                if meth == 'Next': nxt = next((i for i in range(0 if arg >= k else arg + 1, k) if ents[i]), None)
                else: nxt = next((i for i in range(min(arg, k) - 1, -1, -1) if ents[i]), None)
                ob(isn(nxt), 'packed-iterate', 'iterating visits every entry in order and no unset one')
                c = T.mem[pr.rid].cells.get(0); ob(c is not None and isinstance(c[1], Lin) and T.st.entails_eq(c[1] - (nxt if nxt is not None else k)), 'packed-iterate', 'iterating reports the position of the entry')
            elif meth == 'ShouldOptimize': pass
            elif meth == 'Optimize': ob(getf(eng, T, t, h.C, 'NextNodePos') == getf(eng, T, t, h.C, 'NumUsed') or h.const(T, getf(eng, T, t, h.C, 'NextNodePos')) == len(en), 'packed-result', 'nothing but entries in use is left')
            elif meth == 'AutoResizeHash' and k == n:
                ob(h.const(T, getf(eng, T, t, h.C, 'NextNodePos')) is not None and h.const(T, getf(eng, T, t, h.C, 'NextNodePos')) < h.const(T, getf(eng, T, t, h.C, 'NumNodes')), 'packed-result', 'a full table has room afterwards')
            h.expect(T, en, ds, vals, ob, removed=rem)
            h.finish(T, [own], [en], ob)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + pname(n, ents), len(rets))
    return run

def big_case(cls, n, ents, arg):
    """ResizeHash to many nodes: the table is as large as asked for (as far as positions reach) and its sizes agree"""
    def run(sp):
        h = Packed(sp, cls, 8); eng = h.eng; S = h.S; eng.unroll = {'': 70}
        t, rid, ds = h.table(S, n, ents); fn = h.find('ResizeHash', 'unsigned long'); loc = sp.mod.loc_fn(fn); nm = h.C + '::ResizeHash'
        rets = eng.call(S, fn, [t, C(arg)])
        for T, r in rets:
            ob = lambda c, msg: eng.ob(c, 'packed-size', msg, T, where=loc, fn=nm)
            g = lambda f: h.const(T, getf(eng, T, t, h.C, f)); N = g('NumNodes'); a = getf(eng, T, t, h.C, 'ArrayNodes'); b = getf(eng, T, t, h.C, 'HashNodes')
            ob(N is not None and N & (N - 1) == 0 and N >= max(min(arg, 1 << 30), 1) and N <= max(2 * arg, n), 'a table gets the number of nodes that was asked for, rounded up')
            if N is None: continue
            ob(g('Mask') == N - 1, 'the mask selects every position of the table')
            ob(isinstance(a, PtrV) and isinstance(b, PtrV) and a.r == b.r and a.o == ZERO and h.const(T, b.o) == N * h.ns and T.st.entails(T.mem[a.r].size - N * (h.ns + 4)), 'the table has room for its nodes and positions')
            ob(g('NextNodePos') == sum(1 for e in ents if e) == g('NumUsed'), 'the number of entries stays the same')
            ob(g('CompactNumUsed90') == N - N // 10 and g('ResizeNumUsed40') == (N << 3) // 10 and g('CompactNumUsed50') == N >> 1 and g('CompactNextNodePos75') == N - (N >> 3), 'the fill levels are those of the new size')
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' %d' % arg, len(rets))
    return run

def copy_case(meth, n, ents, mine, self_=False):
    def run(sp):
        h = Packed(sp); eng = h.eng; S = h.S
        if meth == 'operator=': t, rid, md = h.table(S, 2, mine); mv = vals_of(h, S, rid, mine)
        else: t = obj(eng, S, h.C, 'this', 'obj')
        if self_: o, ds, vals = t, md, mv
        else: o, rid2, ds = h.table(S, n, ents, 'other'); vals = vals_of(h, S, rid2, ents)
        fn = h.find(meth, h.C + ' const&'); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + meth
        rets = eng.call(S, fn, [t, o])
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            own2, en2 = h.check(T, o, ob); h.expect(T, en2, ds, vals, ob)
            if meth == 'operator=': ob(r == t, 'packed-result', 'the table itself is returned')
            if self_: h.finish(T, [own2], [en2], ob); continue
            own, en = h.check(T, t, ob); h.expect(T, en, ds, vals, ob)
            ob(not own & own2, 'packed-alias', 'a copy shares nothing with its source')
            ob([i for i, d, v in en] == [i for i, d, v in en2], 'packed-order', 'the entries of a copy have the positions of those of its source') if False else None
            h.finish(T, [own, own2], [en, en2], ob)
            for f in ('UseSipHash', 'Key1', 'Key2'):
                x, y = getf(eng, T, t, h.C, f), getf(eng, T, o, h.C, f); ob(isinstance(x, Lin) and isinstance(y, Lin) and T.st.entails_eq(x - y), 'packed-copy', 'a copy hashes like its source')
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + pname(n, ents), len(rets))
    return run

def ctor_case(cls, three, size):
    def run(sp):
        h = Packed(sp, cls, 8, three); eng = h.eng; S = h.S
        t = obj(eng, S, h.C, 'this', 'obj'); k1 = V(newvar('k1', 0, U64)); k2 = V(newvar('k2', 0, U64))
        fn = h.find(cls, 'unsigned long, unsigned long' + (', unsigned long' if three else '')); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + cls
        rets = eng.call(S, fn, [t, C(size), k1] + ([k2] if three else []))
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            own, en = h.check(T, t, ob); h.finish(T, [own], [en], ob); ob(not en, 'packed-order', 'a new table is empty')
            g = lambda f: getf(eng, T, t, h.C, f)
            ob(isinstance(g('UseSipHash'), Lin) and T.st.entails_eq(g('UseSipHash') - three) and T.st.entails_eq(g('Key1') - k1) and (not three or T.st.entails_eq(g('Key2') - k2)), 'packed-key', 'the given hash keys are used')
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def c17():
    out = []; i0, i1, s0, s1 = ('i', 0), ('i', 1), ('s', 0), ('s', 1)
    for cls in ('PackedOrderedHash', 'PackedOrderedHashNoCopy'):
        full = cls == 'PackedOrderedHash'
        add = lambda nm, f: out.append(Case('%s %s' % (cls, nm), f))
        tabs = [(1, []), (1, [i0]), (1, [s0]), (1, [None]), (2, [i0, i1]), (2, [i0, s0]), (2, [None, i0]), (2, [i0, None]), (4, [i0, None, i0]), (4, [i0, s1, ('i', 2), ('i', 3)]), (4, [None, i0, None, s0]), (4, [i0, i0, i0]), (4, [s0, ('i', 4), None, None]), (2, [None, None])]
        if not full: tabs = tabs[1:2] + tabs[4:7] + tabs[10:12]
        for n, en in tabs:
            for order in ('rev', 'fwd') if sum(1 for e in en if e) > 1 else ('rev',):
                for how in 'is':
                    for wv in (0, 1): add('Set %s%s %s %s' % (how, ' value' if wv else '', order, pname(n, en)), set_case(cls, how, wv, n, en, order))
                    add('Unset %s %s %s' % (how, order, pname(n, en)), find_case(cls, 'Unset', how, n, en, order))
                    for pos in (0, 1): add('Find %s%s %s %s' % (how, ' pos' if pos else '', order, pname(n, en)), find_case(cls, 'Find', how, n, en, order, pos))
                for i in range(len(en)): add('Unset node %d %s %s' % (i, order, pname(n, en)), op_case(cls, 'Unset', n, en, i, order))
                for m in ('Optimize', 'AutoResizeHash'): add('%s %s %s' % (m, order, pname(n, en)), op_case(cls, m, n, en, None, order))
            for i in range(len(en) + 2):
                add('Get %d %s' % (i, pname(n, en)), op_case(cls, 'Get', n, en, i))
                for m in ('Next', 'Prev'): add('%s %d %s' % (m, i, pname(n, en)), op_case(cls, m, n, en, i))
            for i in range(len(en)): add('GetPos %d %s' % (i, pname(n, en)), op_case(cls, 'GetPos', n, en, i))
            add('ShouldOptimize %s' % pname(n, en), op_case(cls, 'ShouldOptimize', n, en))
            add('dtor %s' % pname(n, en), op_case(cls, '~' + cls, n, en))
            for z in (0, 1, 2, 3, 4, 8): add('ResizeHash %d %s' % (z, pname(n, en)), op_case(cls, 'ResizeHash', n, en, z))
        for n, en in ((1, []), (4, []), (1024, [])):
            for z in (9, 511, 512, 1000, 65535, 65536, 65537, (1 << 20) + 1, (1 << 24) + 1, 1 << 30, (1 << 30) + 1, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) + 1, (1 << 63) + 1, (1 << 64) - 1):
                add('ResizeHash big %d %s' % (z, pname(n, en)), big_case(cls, n, en, z))
        add('Unset null', op_case(cls, 'Unset', 1, [i0]))
        for how in 'is': add('Set sip %s' % how, set_case(cls, how, 1, 2, [i0, s0], sip=1)); add('Find sip %s' % how, find_case(cls, 'Find', how, 2, [i0, s0], sip=1))
        for th in (0, 1):
            for z in (0, 1, 2, 3, 4, 5, 8): add('ctor %d %d' % (th, z), ctor_case(cls, th, z))
        if full:
            for n, en in tabs:
                add('copy %s' % pname(n, en), copy_case(cls, n, en, []))
                for mine in ([], [i0, s0], [None, s1]): add('assign %s to %s' % (pname(n, en), pname(2, mine)), copy_case('operator=', n, en, mine))
            add('assign self', copy_case('operator=', 2, [], [i0, s0], True))
    for u in ('GetDJBX33XHashKey', 'GetSipHashKey'): out.append(Case(u, util_case('PackedOrderedHashUtil', u)))
    return out
PROPS = {'C17': c17}
