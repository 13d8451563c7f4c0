"""C15: ordered hash with detachable nodes."""
from spec import *
import itertools
NS = 'CubicleSoft::'
U64 = (1 << 64) - 1
class Keys:
    """string contents and hash values as uninterpreted quantities: equal keys have equal hashes, nothing else is assumed"""
    def __init__(self, eng, S, M):
        self.eng = eng; self.M = M; self.nsid = 0
        S.mon['cls'] = (); S.mon['neq'] = (); S.mon['hashes'] = ()
        for u in ('OrderedHashUtil', 'PackedOrderedHashUtil'):
            eng.stubs[NS + u + '::GetDJBX33XHashKey'] = lambda e, S, I, a: self.hash(S, 'djb', a[0], a[1], (a[2],))
            eng.stubs[NS + u + '::GetSipHashKey'] = lambda e, S, I, a: self.hash(S, 'sip', a[0], a[1], tuple(a[2:]))
        self.memcmp0 = eng.models.get('memcmp')
        eng.models['memcmp'] = self.memcmp; eng.models['bcmp'] = self.memcmp
        eng.hooks_copy.append(self.on_copy)
        self.skip = 0      # bytes before the text of a stored string
    def string(self, S, name, kind, n=None, by='new[]'):
        self.nsid += 1; sid = 's%d' % self.nsid
        n = n if n is not None else V(newvar(name + '.len', 0, 1 << 31))
        r = S.new_region(kind, name, n + (self.skip if kind == 'heap' else 0)); r.tags = {'sid': sid, 'by': by} if kind == 'heap' else {'sid': sid}
        S.mon['cls'] = S.mon['cls'] + ((sid, sid),)
        return sid, PtrV(r.rid, C(self.skip if kind == 'heap' else 0)), n
    def text_off(self, R): return self.skip if R.kind == 'heap' else 0
    def on_copy(self, eng, S, rd, do, rs, so, n):
        R = S.w(rd.rid); sid = rs.tags.get('sid')
        R.tags = {k: v for k, v in R.tags.items() if k != 'sid'}
        if sid is None: return
        ls = rs.size - self.text_off(rs) if rs.size is not None else None
        if ls is not None and S.st.entails_eq(so - self.text_off(rs)) and S.st.entails_eq(n - ls) and S.st.entails_eq(do - self.text_off(rd)): R.tags['sid'] = sid
        # a shorter text in a longer buffer
    def cls(self, S, sid): return dict(S.mon['cls'])[sid]
    def streq(self, S, a, b, la=None, lb=None):
        ca, cb = self.cls(S, a), self.cls(S, b)
        if ca == cb: return [(S, True)]
        if tuple(sorted((ca, cb))) in S.mon['neq']: return [(S, False)]
        T = S.copy(); out = []
        S.mon['neq'] = tuple(sorted(set(S.mon['neq']) | {tuple(sorted((ca, cb)))}))
        out.append((S, False))
        T.mon['cls'] = tuple((s, ca if c == cb else c) for s, c in T.mon['cls'])
        T.mon['neq'] = tuple(sorted({tuple(sorted(ca if x == cb else x for x in p)) for p in T.mon['neq']}))
        if any(p[0] == p[1] for p in T.mon['neq']): return out
        if la is not None and lb is not None:
            try:
                T.st.eq(la - lb)
                if (la - lb).t and not T.st.feasible((la - lb).vars()): return out
            except Infeasible: return out
        # equal texts have equal hashes
        hs = [h for h in T.mon['hashes'] if h[1] == 's' and self.cls(T, h[2]) == ca]
        for x in hs[1:]:
            if x[0] == hs[0][0] and x[4] == hs[0][4]:
                if T.st.norm(x[5] - hs[0][5]).isconst() and T.st.norm(x[5] - hs[0][5]).c: return out
                d = x[5] - hs[0][5]
                if d.c % self.M: return out
                try: T.st.eq(d)
                except Infeasible: return out
        out.append((T, True))
        return out
    def differ(self, S, a, b):
        S.mon['neq'] = tuple(sorted(set(S.mon['neq']) | {tuple(sorted((self.cls(S, a), self.cls(S, b))))}))
    def memcmp(self, eng, S, I, a):
        if not (isinstance(a[0], PtrV) and isinstance(a[1], PtrV)): return self.memcmp0(eng, S, I, a)
        A, B = S.mem[a[0].r], S.mem[a[1].r]
        if 'sid' not in A.tags or 'sid' not in B.tags: return self.memcmp0(eng, S, I, a)
        if not eng.bounds(S, a[0], a[2], 'memcmp read') or not eng.bounds(S, a[1], a[2], 'memcmp read'): return []
        la, lb = A.size - self.text_off(A), B.size - self.text_off(B)
        if S.st.entails_eq(a[0].o - self.text_off(A)) and S.st.entails_eq(a[1].o - self.text_off(B)) and S.st.entails_eq(a[2] - la) and S.st.entails_eq(a[2] - lb):
            return [(T, ZERO if e else V(newvar('cmp', 1, 255))) for T, e in self.streq(S, A.tags['sid'], B.tags['sid'])]
        # part of the texts only: equality of the part says nothing
        T = S.copy()
        return [(S, ZERO), (T, V(newvar('cmp', 1, 255)))]
    def desc(self, S, p, n):
        """what is hashed: ('s', sid, len) or ('i', key, 8)"""
        if not isinstance(p, PtrV): return None
        R = S.mem[p.r]
        if 'sid' in R.tags and S.st.entails_eq(p.o - self.text_off(R)) and S.st.entails_eq(R.size - self.text_off(R) - n): return ('s', R.tags['sid'], n)
        if S.st.entails_eq(n - 8):
            c = self.eng.find_cell(S, R, S.st.norm(p.o), 8)
            if isinstance(c, Lin): return ('i', c, n)
            for T, v in self.eng.load(S, p, ir.IntTy(64)): return ('i', v, n)
        return None
    def fresh(self, S, b): return V(newvar('hash.q', 0, U64 // self.M - 1)).scale(self.M) + b
    def intern(self, S, kind, d, params, res=None):
        """hash of a described key: list of (state, value)"""
        work = [S]; out = []
        for h in S.mon['hashes']:
            if h[0] != kind or h[1] != d[0] or len(h[4]) != len(params): continue
            nw = []
            for T in work:
                if not all(isinstance(x, Lin) and isinstance(y, Lin) and T.st.entails_eq(x - y) for x, y in zip(h[4], params)): nw.append(T); continue
                if d[0] == 's':
                    for X, e in self.streq(T, h[2], d[1], h[3], d[2]):
                        if e: out.append((X, h[5]))
                        else: nw.append(X)
                else:
                    df = T.st.norm(h[2] - d[1])
                    for X in self.eng._assume(T.copy(), ('eq', df), True) if not df.isconst() else ([T.copy()] if df.c == 0 else []): out.append((X, h[5]))
                    if df.isconst():
                        if df.c: nw.append(T)
                    else:
                        for X in self.eng._assume(T, ('eq', df), False): nw.append(X)
            work = nw
        for T in work:
            for b in (range(self.M) if res is None else [res]):
                X = T.copy(); v = self.fresh(X, b)
                X.mon['hashes'] = X.mon['hashes'] + ((kind, d[0], d[1], d[2], params, v),)
                out.append((X, v))
        return out
    def hash(self, S, kind, p, n, params):
        if not isinstance(p, PtrV):
            self.eng.ob(False, 'null-deref', 'hash of a NULL key', S); return []
        if not self.eng.bounds(S, p, n, 'hash read'): return []
        d = self.desc(S, p, n)
        if d is None:
            out = []
            for b in range(self.M): T = S.copy(); out.append((T, self.fresh(T, b)))
            return out
        return self.intern(S, kind, d, params)

class H:
    def __init__(self, sp, cls='OrderedHash', M=2, sip=0):
        self.sp = sp; self.mod = sp.mod; self.cls = cls; self.C = NS + cls + '<long>'; self.N = NS + 'OrderedHashNode<long>'
        eng = self.eng = sp.engine(); eng.unroll = {'': 7}; eng.CAP = 200
        self.S = State(); self.keys = Keys(eng, self.S, M); self.sip = sip
        self.o = {f: foff(self.mod, self.N, f)[0] for f in ('PrevHashNode', 'NextHashNode', 'PrevListNode', 'NextListNode', 'HashKey', 'IntKey', 'StrKey', 'Value')}
        self.nsize = self.mod.csize(self.N); self.nodes = []
    def params(self, S, t):
        k1 = getf(self.eng, S, t, self.C, 'Key1'); k2 = getf(self.eng, S, t, self.C, 'Key2')
        return ('sip', (k1, k2, C(2), C(4))) if self.sip else ('djb', (k1,))
    def node(self, S, kind, name, hashed=None):
        """kind 'i' or 's'; an unattached node"""
        r = S.new_region('heap', name, C(self.nsize)); r.tags = {'by': 'new'}
        for f in ('PrevHashNode', 'NextHashNode', 'PrevListNode', 'NextListNode'): r.cells[self.o[f]] = (8, NULL)
        p = PtrV(r.rid, ZERO)
        r.cells[self.o['Value']] = (8, V(newvar('value', 0, U64)))
        if kind == 'i':
            k = V(newvar('key', 0, U64)); r.cells[self.o['IntKey']] = (8, k); r.cells[self.o['StrKey']] = (8, NULL); d = ('i', k, C(8))
        else:
            sid, q, n = self.keys.string(S, name + '.key', 'heap'); r.cells[self.o['IntKey']] = (8, n); r.cells[self.o['StrKey']] = (8, q); d = ('s', sid, n)
        r.cells[self.o['HashKey']] = (8, ZERO)
        return p, d
    def table(self, S, m, nodes, name='this', order='rev', sip=None):
        """nodes: list of (kind, residue)"""
        t = obj(self.eng, S, self.C, name, 'obj')
        eng = self.eng
        setf(eng, S, t, self.C, 'UseSipHash', C(self.sip)); setf(eng, S, t, self.C, 'Key1', V(newvar('Key1', 0, U64))); setf(eng, S, t, self.C, 'Key2', V(newvar('Key2', 0, U64)))
        a = S.new_region('heap', name + '.buckets', C(8 * m)); a.tags = {'by': 'new[]'}
        for i in range(m): a.cells[8 * i] = (8, NULL)
        setf(eng, S, t, self.C, 'HashNodes', PtrV(a.rid, ZERO)); setf(eng, S, t, self.C, 'HashSize', C(m))
        setf(eng, S, t, self.C, 'NextPrimePos', C(sum(1 for p in (3, 5, 11, 23) if p <= m)))
        kind, params = self.params(S, t)
        ns = []; ds = []
        for i, (k, b) in enumerate(nodes):
            p, d = self.node(S, k, '%s%d' % (name, i))
            for e in ds:
                if e[0] == d[0] == 'i': S.st.neq(e[1] - d[1])
                elif e[0] == d[0] == 's': self.keys.differ(S, e[1], d[1])
            v = self.keys.fresh(S, b)
            S.mon['hashes'] = S.mon['hashes'] + ((kind, d[0], d[1], d[2], params, v),)
            S.w(p.r).cells[self.o['HashKey']] = (8, v)
            ns.append(p); ds.append(d)
        for i, p in enumerate(ns):
            R = S.w(p.r)
            R.cells[self.o['PrevListNode']] = (8, ns[i - 1] if i else NULL); R.cells[self.o['NextListNode']] = (8, ns[i + 1] if i + 1 < len(ns) else NULL)
        setf(eng, S, t, self.C, 'FirstListNode', ns[0] if ns else NULL); setf(eng, S, t, self.C, 'LastListNode', ns[-1] if ns else NULL); setf(eng, S, t, self.C, 'NumListNodes', C(len(ns)))
        for i in range(m):
            ch = [p for p, (k, b) in zip(ns, nodes) if b % m == i]
            if order == 'rev': ch = ch[::-1]
            S.w(a.rid).cells[8 * i] = (8, ch[0] if ch else NULL)
            for j, p in enumerate(ch):
                R = S.w(p.r); R.cells[self.o['PrevHashNode']] = (8, ch[j - 1] if j else NULL); R.cells[self.o['NextHashNode']] = (8, ch[j + 1] if j + 1 < len(ch) else NULL)
        return t, ns, ds
    def cell(self, T, p, f):
        c = T.mem[p.r].cells.get(self.o[f]) if p.r in T.mem else None
        return c[1] if c else None
    def key(self, T, p):
        """descriptor of a node's key in state T"""
        s = self.cell(T, p, 'StrKey'); k = self.cell(T, p, 'IntKey')
        if isinstance(s, PtrV):
            R = T.mem.get(s.r)
            if R is None or R.freed or 'sid' not in R.tags: return None
            if not (isinstance(k, Lin) and s.o == ZERO and T.st.entails_eq(R.size - k)): return None
            return ('s', R.tags['sid'], k)
        if isinstance(s, Lin) and T.st.norm(s) == NULL and isinstance(k, Lin): return ('i', k, C(8))
        return None
    def null(self, T, v): return isinstance(v, Lin) and T.st.norm(v) == NULL
    def same(self, T, a, b): return a == b or (self.null(T, a) and self.null(T, b))
    def check(self, T, t, exp, ob, owned=()):
        """all structure invariants of the table, which holds exactly exp in this order; returns the regions it owns"""
        eng = self.eng; own = set()
        g = lambda f: getf(eng, T, t, self.C, f)
        seq = []; cur = g('FirstListNode'); prev = NULL
        while not self.null(T, cur):
            if not isinstance(cur, PtrV) or cur.r not in T.mem or T.mem[cur.r].freed or cur in seq or cur.o != ZERO:
                ob(False, 'hash-list', 'the order list is broken: %s' % ('a link is lost' if not isinstance(cur, PtrV) else 'a link to a released node' if cur.r in T.mem and T.mem[cur.r].freed else 'a cycle')); return own
            ob(self.same(T, self.cell(T, cur, 'PrevListNode'), prev), 'hash-list', 'a previous link of the order list is wrong')
            seq.append(cur); prev = cur; cur = self.cell(T, cur, 'NextListNode')
        ob(self.same(T, g('LastListNode'), prev), 'hash-list', 'the last pointer of the order list is wrong')
        n = g('NumListNodes'); ob(isinstance(n, Lin) and T.st.entails_eq(n - len(seq)), 'hash-count', 'the size is not the number of nodes')
        if exp is not None: ob(seq == list(exp), 'hash-order', 'the order of the nodes is not the expected one')
        a = g('HashNodes'); m = g('HashSize')
        ok = isinstance(a, PtrV) and a.r in T.mem and not T.mem[a.r].freed and isinstance(m, Lin) and T.st.entails(T.mem[a.r].size - m.scale(8)) and T.st.entails(m - 1)
        ob(ok, 'hash-table', 'the bucket array exists and has as many entries as the table says')
        if not ok: return own
        own |= {a.r} | {p.r for p in seq}
        np = g('NextPrimePos'); ob(isinstance(np, Lin) and T.st.entails(np) and T.st.entails(C(31) - np), 'hash-table', 'the next size stays inside the table of sizes')
        m = T.st.norm(m)
        if m.isconst():
            left = list(seq)
            R = T.mem[a.r]
            for i in range(m.c):
                c = eng.find_cell(T, R, C(8 * i), 8)
                if c is None and R.zero: c = NULL
                prev = NULL; steps = 0
                while not self.null(T, c):
                    if c not in left:
                        ob(False, 'hash-chain', 'a bucket leads to %s' % ('a node twice' if c in seq else 'something that is not a node of the table')); break
                    left.remove(c)
                    ob(self.same(T, self.cell(T, c, 'PrevHashNode'), prev), 'hash-chain', 'a previous link inside a bucket is wrong')
                    h = self.cell(T, c, 'HashKey')
                    okh = isinstance(h, Lin)
                    if okh:
                        h = T.st.norm(h); okh = all(x % m.c == 0 for _, x in h.t) and h.c % m.c == i
                    ob(okh, 'hash-chain', 'a node is in the bucket of its hash')
                    prev = c; c = self.cell(T, c, 'NextHashNode')
            ob(not left, 'hash-chain', 'every node of the table is found in its bucket')
        ds = []
        for p in seq:
            d = self.key(T, p)
            ob(d is not None, 'hash-key', 'the key of a node is intact and owned by it')
            if d is None: continue
            if d[0] == 's':
                s = self.cell(T, p, 'StrKey'); ob(s.r not in own, 'hash-key', 'two nodes share the memory of a key'); own.add(s.r)
            h = self.cell(T, p, 'HashKey')
            kind, params = self.params(T, t)
            e = next((x for x in T.mon['hashes'] if x[0] == kind and x[1] == d[0] and len(x[4]) == len(params) and all(T.st.entails_eq(u - w) for u, w in zip(x[4], params)) and ((d[0] == 's' and self.keys.cls(T, x[2]) == self.keys.cls(T, d[1])) or (d[0] == 'i' and T.st.entails_eq(x[2] - d[1])))), None)
            ob(e is not None and isinstance(h, Lin) and T.st.entails_eq(h - e[5]), 'hash-key', 'the stored hash of a node is the hash of its key')
        return own
    def leaks(self, T, own, extra, ob):
        ex = set()
        for p in extra:
            if isinstance(p, PtrV) and p.r in T.mem:
                ex.add(p.r)
                s = self.cell(T, p, 'StrKey')
                if isinstance(s, PtrV): ex.add(s.r)
        for rid, R in T.mem.items():
            if R.kind == 'heap' and not R.freed: ob(rid in own or rid in ex, 'hash-leak', '%s is neither reachable nor released' % R.name)
    def detached(self, T, p, ob, reset=None, d=None):
        ok = isinstance(p, PtrV) and p.r in T.mem and not T.mem[p.r].freed
        ob(ok, 'hash-detach', 'a detached node is not released')
        if not ok: return
        ob(all(self.null(T, self.cell(T, p, f)) for f in ('PrevHashNode', 'NextHashNode', 'PrevListNode', 'NextListNode')), 'hash-detach', 'a detached node has no links left')
        ob(self.key(T, p) is not None, 'hash-key', 'a detached node keeps its key')
        if reset is not None and T.st.entails_eq(reset - 1): ob(isinstance(self.cell(T, p, 'HashKey'), Lin) and T.st.entails_eq(self.cell(T, p, 'HashKey')), 'hash-detach', 'the hash of a detached node is reset when asked')
    def find(self, meth, args, const=False): return self.mod.find('%s::%s(%s)%s' % (self.C, meth, args, ' const' if const else ''))
    def eqkey(self, T, d, e):
        """True / False / None"""
        if d is None or e is None: return None
        if d[0] != e[0]: return False
        if d[0] == 'i':
            if T.st.entails_eq(d[1] - e[1]): return True
            return False if T.st.entails_ne(d[1] - e[1]) else None
        a, b = self.keys.cls(T, d[1]), self.keys.cls(T, e[1])
        if a == b: return True
        if tuple(sorted((a, b))) in T.mon['neq'] or T.st.entails_ne(d[2] - e[2]): return False
        return None

def keyarg(h, S, kind):
    """arguments for an int or a string key"""
    if kind == 'i':
        k = V(newvar('argkey', 0, U64)); return [k], ['long'], ('i', k, C(8))
    sid, p, n = h.keys.string(S, 'argkey', 'input')
    return [p, n], ['char const*', 'unsigned long'], ('s', sid, n)
def shapes(maxn, ms=(1, 2), kinds='i'):
    out = []
    for m in ms:
        for n in range(maxn + 1):
            for res in itertools.product(range(m), repeat=n):
                for ks in ([kinds * n] if len(kinds) == 1 else map(''.join, itertools.product(kinds, repeat=n))):
                    out.append((m, [(k, b) for k, b in zip(ks, res)]))
    return out
def sname(m, nodes): return 'm=%d [%s]' % (m, ' '.join('%s%d' % x for x in nodes))

def insert_case(cls, meth, how, m, nodes, at=None, M=None, order='rev', sip=0):
    """how: i, s (key and value) or ni, ns (node), na (attached node)"""
    def run(sp):
        h = H(sp, cls, M or m, sip); eng = h.eng; S = h.S
        t, ns, ds = h.table(S, m, nodes, order=order)
        args = [t]; sig = []
        if meth.startswith('Insert'): args.append(ns[at] if at is not None else NULL); sig.append(h.N + '*')
        v = V(newvar('argval', 0, U64)); g = None
        if how in ('i', 's'):
            a, s, d = keyarg(h, S, how); args += a; sig += s
            va = S.new_region('input', 'Value', C(8)); va.cells[0] = (8, v); args.append(PtrV(va.rid, ZERO)); sig.append('long const&')
        else:
            g, d = h.node(S, 's' if how == 'ns' else 'i', 'given'); v = h.cell(S, g, 'Value'); args.append(g); sig.append(h.N + '*')
            if how == 'na':
                o, _ = h.node(S, 'i', 'other'); S.w(g.r).cells[h.o['NextHashNode']] = (8, o); S.w(o.r).cells[h.o['PrevHashNode']] = (8, g)
            elif how == 'nh':
                kind, params = h.params(S, t)
                sts = []
                for T, hv in h.keys.intern(S, kind, d, params): T.w(g.r).cells[h.o['HashKey']] = (8, hv); sts.append(T)
        fn = h.find(meth, ', '.join(sig)); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + meth
        rets = [x for Z in (sts if how == 'nh' else [S]) for x in eng.call(Z, fn, args)]; seen = set()
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            if how == 'na':
                ob(h.null(T, r), 'hash-attached', 'a node that is linked already is refused')
                own = h.check(T, t, ns, ob); h.leaks(T, own, [g, o], ob); continue
            if h.null(T, r):
                seen.add(0)
                ob(any(h.eqkey(T, d, e) is True for e in ds), 'hash-find', 'an insertion is refused only when the key exists')
                own = h.check(T, t, ns, ob)
                if g is not None: h.detached(T, g, ob)
                h.leaks(T, own, [g], ob); continue
            seen.add(1)
            ok = isinstance(r, PtrV) and r not in ns and (g is None or r == g)
            ob(ok, 'hash-result', 'the new node is returned')
            if not ok: continue
            ob(all(h.eqkey(T, d, e) is False for e in ds), 'hash-find', 'no key is ever in the table twice')
            kd = h.key(T, r)
            ob(kd is not None and h.eqkey(T, kd, d) is True, 'hash-key', 'the new node has the given key')
            x = h.cell(T, r, 'Value'); ob(isinstance(x, Lin) and T.st.entails_eq(x - v), 'hash-value', 'the new node has the given value')
            if at is not None: exp = ns[:at] + [r] + ns[at:] if meth == 'InsertBefore' else ns[:at + 1] + [r] + ns[at + 1:]
            else: exp = ns + [r] if meth in ('Push', 'InsertBefore') else [r] + ns
            own = h.check(T, t, exp, ob); h.leaks(T, own, [], ob)
        if how != 'na': sp.exist(1 in seen and (not nodes or how not in [k for k, b in nodes] or 0 in seen), 'returns', loc, nm, 'a new key can be inserted and an existing one is refused')
        sp.absorb(eng, nm + ' ' + sname(m, nodes), len(rets))
    return run

def find_case(cls, how, m, nodes, order='rev', sip=0):
    def run(sp):
        h = H(sp, cls, m, sip); eng = h.eng; S = h.S
        t, ns, ds = h.table(S, m, nodes, order=order)
        if how in 'is': a, sig, d = keyarg(h, S, how)
        else: g, d = h.node(S, how[1], 'given'); a = [g]; sig = [h.N + '*']
        fn = h.find('Find', ', '.join(sig), True); loc = sp.mod.loc_fn(fn); nm = h.C + '::Find'
        rets = eng.call(S, fn, [t] + a)
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            if h.null(T, r): ob(all(h.eqkey(T, d, e) is False for e in ds), 'hash-find', 'a key that is in the table is found')
            else: ob(r in ns and h.eqkey(T, d, ds[ns.index(r)]) is True, 'hash-find', 'only a node with the given key is found')
            own = h.check(T, t, ns, ob); h.leaks(T, own, [g] if how[0] == 'n' else [], ob)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + sname(m, nodes), len(rets))
    return run

def take_case(cls, meth, m, nodes, at=None, order='rev'):
    """Detach, Remove, Pop, Shift"""
    def run(sp):
        h = H(sp, cls, m); eng = h.eng; S = h.S
        t, ns, ds = h.table(S, m, nodes, order=order)
        rk = V(newvar('Reset', 0, 1)); S.mon['rk'] = rk
        X = (ns[-1] if meth == 'Pop' else ns[0] if meth == 'Shift' else ns[at] if at is not None else None) if ns else None
        args = [t]; sig = []
        if meth in ('Detach', 'Remove'): args.append(X if X is not None else NULL); sig.append(h.N + '*')
        if meth != 'Remove': args.append(rk); sig.append('bool')
        fn = h.find(meth, ', '.join(sig)); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + meth
        rets = eng.call(S, fn, args)
        for T, r0 in rets:
          for T, r in eng.toint(T, r0):
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            if meth in ('Pop', 'Shift'): ob(h.same(T, r, X if X is not None else NULL), 'hash-result', 'the node at the end of the order is returned')
            else: ob(isinstance(r, Lin) and T.st.entails_eq(r - (0 if X is None else 1)), 'hash-result', 'the result tells whether a node was taken out')
            own = h.check(T, t, [p for p in ns if p != X], ob)
            if X is not None:
                if meth == 'Remove': ob(T.mem[X.r].freed, 'hash-leak', 'a removed node is released')
                else: h.detached(T, X, ob, rk)
            h.leaks(T, own, [X] if X is not None and meth != 'Remove' else [], ob)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + sname(m, nodes), len(rets))
    return run

def clear_case(cls, meth, m, nodes, dele=1):
    def run(sp):
        h = H(sp, cls, m); eng = h.eng; S = h.S
        t, ns, ds = h.table(S, m, nodes)
        rk = V(newvar('Reset', 0, 1))
        fn = h.find(meth, 'bool, bool' if meth == 'Empty' else ''); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + meth
        rets = eng.call(S, fn, [t, C(dele), rk] if meth == 'Empty' else [t])
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            own = h.check(T, t, [], ob) if meth == 'Empty' else set()
            if not dele:
                for p in ns:
                    ob(not T.mem[p.r].freed and h.null(T, h.cell(T, p, 'PrevHashNode')) and h.null(T, h.cell(T, p, 'NextHashNode')), 'hash-detach', 'a detached node can be attached again')
                    if T.st.entails_eq(rk - 1): ob(T.st.entails_eq(h.cell(T, p, 'HashKey')), 'hash-detach', 'the hash of a detached node is reset when asked')
            h.leaks(T, own, [] if dele else ns, ob)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + sname(m, nodes), len(rets))
    return run

def resize_case(cls, m, nodes, new, M):
    def run(sp):
        h = H(sp, cls, M); eng = h.eng; S = h.S
        t, ns, ds = h.table(S, m, nodes)
        fn = h.find('ResizeHash', 'unsigned long'); loc = sp.mod.loc_fn(fn); nm = h.C + '::ResizeHash'
        rets = eng.call(S, fn, [t, C(new)])
        for T, r0 in rets:
          for T, r in eng.toint(T, r0):
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            ob(isinstance(r, Lin) and T.st.entails_eq(r - (1 if new else 0)), 'hash-result', 'a size of zero is refused, any other accepted')
            own = h.check(T, t, ns, ob); h.leaks(T, own, [], ob)
            s = getf(eng, T, t, h.C, 'HashSize'); ob(isinstance(s, Lin) and T.st.entails_eq(s - (new or m)), 'hash-table', 'the table has the asked size')
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + sname(m, nodes), len(rets))
    return run

def copy_case(meth, m, nodes, mine, self_=False):
    def run(sp):
        h = H(sp, 'OrderedHash', m * 2); eng = h.eng; S = h.S
        if meth == 'operator=': t, ms, md = h.table(S, 2, mine)
        else: t = obj(eng, S, h.C, 'this', 'obj')
        if self_: o, ns, ds = t, ms, md
        else: o, ns, ds = h.table(S, m, nodes, 'other')
        vals = [h.cell(S, p, 'Value') for p in ns]
        fn = h.find(meth, h.C + ' const&'); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + meth
        rets = eng.call(S, fn, [t, o])
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            own2 = h.check(T, o, ns, ob)
            if meth == 'operator=': ob(r == t, 'hash-result', 'the table itself is returned')
            if self_: h.leaks(T, own2, [], ob); continue
            own = h.check(T, t, None, ob)
            ob(not own & own2, 'hash-alias', 'a copy shares nothing with its source')
            h.leaks(T, own | own2, [], ob)
            p = getf(eng, T, t, h.C, 'FirstListNode'); i = 0
            while isinstance(p, PtrV) and i < len(ns):
                ob(h.eqkey(T, h.key(T, p), ds[i]) is True, 'hash-copy', 'a copy has the keys of its source in the same order')
                x = h.cell(T, p, 'Value'); ob(isinstance(x, Lin) and T.st.entails_eq(x - vals[i]), 'hash-copy', 'a copy has the values of its source in the same order')
                p = h.cell(T, p, 'NextListNode'); i += 1
            ob(i == len(ns) and h.null(T, p), 'hash-copy', 'a copy has as many nodes as its source')
            for f in ('UseSipHash', 'Key1', 'Key2'):
                x, y = getf(eng, T, t, h.C, f), getf(eng, T, o, h.C, f); ob(isinstance(x, Lin) and isinstance(y, Lin) and T.st.entails_eq(x - y), 'hash-copy', 'a copy hashes like its source')
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm + ' ' + sname(m, nodes), len(rets))
    return run

def ctor_case(cls, three, size):
    def run(sp):
        h = H(sp, cls, 2, three); eng = h.eng; S = h.S
        t = obj(eng, S, h.C, 'this', 'obj')
        k1 = V(newvar('k1', 0, U64)); k2 = V(newvar('k2', 0, U64))
        z = C(size) if size is not None else V(newvar('Estimated', 0, 1 << 28))
        fn = h.find(cls, 'unsigned long, unsigned long' + (', unsigned long' if three else '')); loc = sp.mod.loc_fn(fn); nm = h.C + '::' + cls
        S.mon['z'] = z; S.mon['k1'] = k1; S.mon['k2'] = k2
        rets = eng.call(S, fn, [t, z, k1] + ([k2] if three else []))
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            own = h.check(T, t, [], ob); h.leaks(T, own, [], ob)
            g = lambda f: getf(eng, T, t, h.C, f)
            ob(isinstance(g('UseSipHash'), Lin) and T.st.entails_eq(g('UseSipHash') - three) and T.st.entails_eq(g('Key1') - k1) and (not three or T.st.entails_eq(g('Key2') - k2)), 'hash-key', 'the given hash keys are used')
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def node_case(meth, kind, arg):
    """OrderedHashNode members"""
    def run(sp):
        h = H(sp); eng = h.eng; S = h.S
        g, d = h.node(S, kind, 'node'); S.w(g.r).kind = 'obj'
        n = h.N; sig = []; args = [g]; e = None; cp = 1
        if meth == 'SetIntKey': k = V(newvar('argkey', 0, U64)); args += [k, C(arg)]; e = ('i', k, C(8)); sig = ['long', 'bool']
        elif meth == 'SetStrKey': sid, p, l = h.keys.string(S, 'argkey', 'input'); args += [p, l, C(arg)]; e = ('s', sid, l); sig = ['char const*', 'unsigned long', 'bool']; cp = arg
        elif meth in ('OrderedHashNode', 'operator='):
            sig = [n + ' const&']
            if arg == 'self': o, e = g, d
            else: o, e = h.node(S, arg, 'source')
            args.append(o); val = h.cell(S, o, 'Value')
            S.w(o.r).cells[h.o['HashKey']] = (8, V(newvar('hash', 0, U64))); hk = h.cell(S, o, 'HashKey')
            if o is not g: S.w(o.r).kind = 'obj'
            if meth == 'OrderedHashNode': R = S.w(g.r); S.mem.pop(R.cells[h.o['StrKey']][1].r, None) if kind == 's' else 0; R.cells = {}
        fn = sp.mod.find('%s::%s(%s)' % (n, meth, ', '.join(sig))); loc = sp.mod.loc_fn(fn); nm = n + '::' + meth
        old = h.cell(S, g, 'StrKey') if meth != 'OrderedHashNode' else None
        rets = eng.call(S, fn, args)
        for T, r in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            if meth == '~OrderedHashNode': h.leaks(T, set(), [], ob); continue
            s = h.cell(T, g, 'StrKey'); own = {s.r} if isinstance(s, PtrV) else set()
            if meth == 'SetStrKey' and not arg: ob(s == args[1], 'hash-key', 'the given text is used itself')
            elif meth == 'SetStrKey':
                ok = isinstance(s, PtrV) and T.mem[s.r].kind == 'heap' and not T.mem[s.r].freed and T.st.entails(T.mem[s.r].size - e[2])
                ob(ok, 'hash-key', 'the node owns memory for its key')
                kk = h.cell(T, g, 'IntKey'); ob(isinstance(kk, Lin) and T.st.entails_eq(kk - e[2]), 'hash-key', 'the length of the key is recorded')
            elif e is not None:
                ob(h.eqkey(T, h.key(T, g), e) is True, 'hash-key', 'the node has the new key')
            if meth in ('SetIntKey', 'SetStrKey'): ob(T.st.entails_eq(h.cell(T, g, 'HashKey')), 'hash-key', 'changing the key resets the hash')
            elif meth != '~OrderedHashNode' and sig:
                x, y = h.cell(T, g, 'Value'), h.cell(T, g, 'HashKey')
                ob(isinstance(x, Lin) and T.st.entails_eq(x - val) and isinstance(y, Lin) and T.st.entails_eq(y - hk), 'hash-copy', 'value and hash are copied')
                if o is not g:
                    so = h.cell(T, o, 'StrKey')
                    ob(not isinstance(so, PtrV) or (so != s and not T.mem[so.r].freed), 'hash-alias', 'a copied node shares no memory with its source')
                    if isinstance(so, PtrV): own.add(so.r)
            if meth == 'SetIntKey' and not arg and isinstance(old, PtrV):
                ob(not T.mem[old.r].freed, 'hash-key', 'memory the caller manages is not released'); own.add(old.r)
            if meth == 'SetStrKey' and not arg and isinstance(old, PtrV): own.add(old.r)
            h.leaks(T, own, [], ob)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def util_case(cls, meth):
    def run(sp):
        eng = sp.engine(); S = State()
        n = V(newvar('Size', 0, 1 << 40)); p = buf(S, 'Str', n)
        nm = NS + cls + '::' + meth
        if meth == 'GetDJBX33XHashKey': fn = sp.mod.find(nm); args = [p, n, V(newvar('Init', 0, U64))]
        else: fn = sp.mod.find(nm); args = [p, n, V(newvar('k1', 0, U64)), V(newvar('k2', 0, U64)), C(2), C(4)]
        rets = eng.call(S, fn, args); loc = sp.mod.loc_fn(fn)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def c15():
    out = []
    for cls in ('OrderedHash', 'OrderedHashNoCopy'):
        full = cls == 'OrderedHash'
        sh = shapes(2) + [(2, [('i', 0), ('i', 0), ('i', 0)]), (2, [('i', 0), ('i', 1), ('i', 0)]), (1, [('s', 0), ('i', 0)]), (2, [('s', 0), ('s', 0)])] if full else [(1, []), (2, [('i', 0), ('i', 0)]), (2, [('s', 1), ('i', 0), ('i', 1)])]
        add = lambda nm, f, b=60: out.append(Case('%s %s' % (cls, nm), f, budget=b))
        for m, ns in sh:
            grow = len(ns) + 1 >= 3
            M = (3 if m == 1 else 6) if grow else m
            nn = ns if not grow else [(k, b) for k, b in ns]
            for meth in ('Push', 'Unshift'):
                for how in ('i', 's', 'ni', 'ns'):
                    if not full and how in ('ni', 'ns'): continue
                    if grow and how in ('ni', 'ns') : continue
                    add('%s %s %s' % (meth, how, sname(m, ns)), insert_case(cls, meth, how, m, nn, M=M))
            for how in ('i', 's', 'ni', 'ns'): add('Find %s %s' % (how, sname(m, ns)), find_case(cls, how, m, ns))
            for meth in ('Pop', 'Shift'): add('%s %s' % (meth, sname(m, ns)), take_case(cls, meth, m, ns))
            for order in ('rev', 'fwd'):
                for meth in ('Detach', 'Remove'):
                    for at in range(len(ns)): add('%s at %d %s %s' % (meth, at, order, sname(m, ns)), take_case(cls, meth, m, ns, at, order))
            for d in (0, 1): add('Empty %d %s' % (d, sname(m, ns)), clear_case(cls, 'Empty', m, ns, d))
            add('dtor %s' % sname(m, ns), clear_case(cls, '~' + cls, m, ns))
        for meth in ('Detach', 'Remove'): add('%s null' % meth, take_case(cls, meth, 2, [('i', 0)]))
        for at in (0, 1):
            for meth in ('InsertBefore', 'InsertAfter'):
                for how in ('i', 's', 'ni', 'na'): add('%s at %d %s' % (meth, at, how), insert_case(cls, meth, how, 2, [('i', 0), ('i', 1)], at, M=6))
        for meth in ('InsertBefore', 'InsertAfter'):
            for how in ('i', 's', 'ns', 'na', 'nh'): add('%s null %s' % (meth, how), insert_case(cls, meth, how, 2, [('i', 0)]))
        for how in ('i', 's'): add('Push sip %s' % how, insert_case(cls, 'Push', how, 2, [(how, 0)], sip=1)); add('Find sip %s' % how, find_case(cls, how, 2, [(how, 0), ('i', 0)], sip=1))
        for m, ns, new, M in ((1, [('i', 0), ('i', 1), ('i', 2)], 3, 3), (2, [('i', 0), ('i', 2), ('s', 1)], 4, 4), (4, [('i', 0), ('i', 2), ('s', 3)], 1, 4), (2, [('i', 0), ('i', 1)], 0, 2), (2, [], 3, 6), (4, [('i', 1), ('i', 3)], 2, 4)):
            add('Resize %d->%d %s' % (m, new, sname(m, ns)), resize_case(cls, m, ns, new, M))
        for three in (0, 1):
            for z in (0, 1, 2, 3, 5, None): add('ctor %d %s' % (three, z), ctor_case(cls, three, z))
    for m, ns in [(1, []), (2, [('i', 0)]), (2, [('i', 0), ('s', 0)]), (2, [('s', 1), ('i', 0)]), (2, [('i', 0), ('i', 1), ('i', 0)]), (1, [('s', 0), ('s', 0)])]:
        out.append(Case('copy %s' % sname(m, ns), copy_case('OrderedHash', m, ns, [])))
        for mine in ([], [('i', 0), ('s', 1)]): out.append(Case('assign %s to %s' % (sname(m, ns), sname(2, mine)), copy_case('operator=', m, ns, mine)))
    out.append(Case('assign self', copy_case('operator=', 2, [], [('i', 0), ('s', 1)], True)))
    for k in 'is':
        for a in (0, 1): out.append(Case('node SetIntKey %s %d' % (k, a), node_case('SetIntKey', k, a))); out.append(Case('node SetStrKey %s %d' % (k, a), node_case('SetStrKey', k, a)))
        for a in ('i', 's'): out.append(Case('node copy %s %s' % (k, a), node_case('OrderedHashNode', k, a))); out.append(Case('node assign %s %s' % (k, a), node_case('operator=', k, a)))
        out.append(Case('node assign self %s' % k, node_case('operator=', k, 'self'))); out.append(Case('node dtor %s' % k, node_case('~OrderedHashNode', k, 0)))
    for u in ('GetDJBX33XHashKey', 'GetSipHashKey'): out.append(Case(u, util_case('OrderedHashUtil', u)))
    return out
PROPS = {'C15': c15}
