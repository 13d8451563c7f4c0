"""C27: thread-local allocator."""
from spec import *
NS = 'CubicleSoft::'; U64 = (1 << 64) - 1; TLS = NS + 'Sync::TLS::'; U = 'unsigned long'
SV = NS + 'StaticVector<CubicleSoft::Queue<char> >'; QC = NS + 'Queue<char>'; QN = NS + 'QueueNode<char>'
class H:
    def __init__(self, sp, bits, queued=None, init=True):
        """bits: number of buckets; queued: {bucket: number of cached blocks}"""
        self.sp = sp; eng = self.eng = sp.engine(); S = self.S = State(); eng.unroll = {'': 80}; eng.CAP = 300; mod = self.mod = sp.mod
        self.bits = bits; S.mon['specific'] = NULL
        eng.models['pthread_getspecific'] = self.getspec; eng.models['pthread_setspecific'] = self.setspec
        self.qs = mod.csize(QC); self.ns = mod.csize(QN); self.nq = {k: n for k, n in (queued or {}).items()}
        self.t = obj(eng, S, NS + 'Sync::TLS', 'TLS'); self.main = None; self.q = {}
        if init:
            m = S.new_region('heap', 'MainPtr', C(mod.csize(SV))); m.tags = {'by': 'new'}; self.main = PtrV(m.rid, ZERO)
            a = S.new_region('heap', 'buckets', C(8 + bits * self.qs)); a.tags = {'by': 'new[]'}; a.cells[0] = (8, C(bits)); self.arr = a.rid
            setf(eng, S, self.main, SV, 'Size', C(bits)); setf(eng, S, self.main, SV, 'ptr', PtrV(a.rid, C(8)))
            for b in range(bits):
                nodes = [self.node(S, b, i) for i in range((queued or {}).get(b, 0))]; self.q[b] = nodes; self.put(S, b, nodes)
            S.mon['specific'] = self.main
    def node(self, S, b, i):
        r = S.new_region('heap', 'cached%d.%d' % (b, i), C(max(self.ns, 1 + (1 << b)))); r.tags = {'by': 'malloc'}; return r.rid
    def put(self, S, b, nodes):
        o = 8 + b * self.qs; f = lambda n: foff(self.mod, QC, n)[0]; R = S.w(self.arr); no, vo = foff(self.mod, QN, 'NextNode')[0], foff(self.mod, QN, 'Value')[0]
        P = lambda x: PtrV(x, ZERO)
        R.cells[o + f('FirstNode')] = (8, P(nodes[0]) if nodes else NULL); R.cells[o + f('LastNode')] = (8, P(nodes[-1]) if nodes else NULL); R.cells[o + f('NumNodes')] = (8, C(len(nodes)))
        for x, y in zip(nodes, nodes[1:] + [None]): S.w(x).cells[no] = (8, P(y) if y is not None else NULL); S.w(x).cells[vo] = (1, V(newvar('stale', 0, 255)))
    def getspec(self, e, S, I, a):
        e.ob(isinstance(a[0], Lin) and S.st.entails_eq(a[0] - getf(e, S, self.t, NS + 'Sync::TLS', 'MxKey')) if isinstance(getf(e, S, self.t, NS + 'Sync::TLS', 'MxKey'), Lin) else True, 'tls-key', 'the key of the allocator is used', S)
        return [(S, S.mon['specific'])]
    def setspec(self, e, S, I, a):
        T = S.copy(); T.mon['specific'] = a[1]; T.mon['set'] = True
        return [(T, ZERO), (S, C(12))]
    def queue(self, T, b, ob):
        """blocks in bucket b, None if it is broken"""
        R = T.mem[self.arr]; o = 8 + b * self.qs; f = lambda n: foff(self.mod, QC, n)[0]; no = foff(self.mod, QN, 'NextNode')[0]
        g = lambda n: (R.cells.get(o + f(n)) or (0, None))[1]
        out = []; p = g('FirstNode')
        isnull = lambda x: isinstance(x, Lin) and T.st.norm(x) == NULL
        while isinstance(p, PtrV) and len(out) < 6:
            ok = p.r in T.mem and not T.mem[p.r].freed and T.st.entails_eq(p.o); ob(ok, 'tls-cache', 'every cached block is allocated memory')
            if not ok: return None
            if p.r in out: ob(False, 'tls-cache', 'no block is cached twice'); return None
            out.append(p.r); p = (T.mem[p.r].cells.get(no) or (0, None))[1]
        ok = isnull(p); n = g('NumNodes'); l = g('LastNode')
        ok = ok and isinstance(n, Lin) and T.st.norm(n) == C(len(out)) and (isnull(l) if not out else isinstance(l, PtrV) and l.r == out[-1])
        ob(ok, 'tls-cache', 'the list of cached blocks is linked to its end and counted')
        return out if ok else None
    def check(self, T, ob, changed=None, used=(), block_ok=True):
        """the cache is intact: buckets as before except the given ones; every live block is cached, given out or used"""
        live = {r for r, R in T.mem.items() if R.kind == 'heap' and not R.freed}; acc = {self.main.r, self.arr} if self.main is not None else set()
        for b in range(self.bits if self.main is not None else 0):
            q = self.queue(T, b, ob)
            if q is None: return
            exp = (changed or {}).get(b, self.q[b])
            ob(sorted(q) == sorted(exp), 'tls-cache', 'bucket %s holds exactly the blocks released to it and not handed out since' % ('changed' if changed and b in changed else 'unchanged'))
            for r in q:
                ob(T.st.entails(T.mem[r].size - 1 - (1 << b)) and T.st.entails(T.mem[r].size - self.ns), 'tls-cache', 'a cached block is large enough for its bucket')
                acc.add(r)
        acc |= set(used)
        ob(live <= acc, 'tls-leak', 'no block is lost')
        ob(set(used) <= live, 'tls-own', 'a block in use is not released')
    def header(self, T, r):
        c = T.mem[r].cells.get(0); return T.st.norm(c[1]) if c is not None and c[0] == 1 and isinstance(c[1], Lin) else None
    def block(self, T, p, size, ob):
        """p is a fresh block for size bytes; its region"""
        ok = isinstance(p, PtrV) and p.r in T.mem and T.mem[p.r].kind == 'heap' and not T.mem[p.r].freed and T.mem[p.r].tags.get('by') == 'malloc' and T.st.entails_eq(p.o - 1)
        ob(ok, 'tls-block', 'the result is a block of allocated memory after its size byte')
        if not ok: return None
        R = T.mem[p.r]; ob(T.st.entails(R.size - 1 - size), 'tls-block', 'the block has room for the requested size')
        h = self.header(T, p.r); ok = h is not None and h.isconst() and 3 <= h.c <= 63; ob(ok, 'tls-header', 'the size byte of the block is set')
        if not ok: return None
        ob(T.st.entails(C(1 << h.c) - size) and T.st.entails(R.size - 1 - (1 << h.c)), 'tls-header', 'the size byte stands for at least the requested and at most the available size')
        if h.c < self.bits: ob(T.st.entails(R.size - self.ns), 'tls-header', 'a block that may be cached later has room for the links of the cache')
        return p.r, h.c
    def data(self, S, pos, cells=()):
        """a block in use with size byte pos"""
        n = max(self.ns, 1 + (1 << pos)) if pos < self.bits else 1 + (1 << pos)
        r = S.new_region('heap', 'data', C(n)); r.tags = {'by': 'malloc'}; r.cells[0] = (1, C(pos)); vs = {}
        for i in cells: vs[i] = V(newvar('byte%d' % i, 0, 255)); r.cells[1 + i] = (1, vs[i])
        return PtrV(r.rid, C(1)), vs
    def kept(self, T, p, vs, lim, ob):
        for i, v in vs.items():
            if lim is not None and not T.st.entails(lim - i - 1): continue
            l = self.eng.load(T.copy(), PtrV(p.r, p.o + i), ir.IntTy(8)); c = l[0][1] if l else None
            d = T.st.norm(c - v) if isinstance(c, Lin) else None
            ob(d is not None and (d.c % 256 == 0 if d.isconst() else T.st.entails_eq(d)), 'tls-content', 'the contents are kept')
    def call(self, m, args, a, chk, prefix=TLS):
        sg = '%s%s(%s)' % (prefix, m, args); fn = self.mod.find(sg); loc = self.mod.loc_fn(fn); nm = sg.split('(')[0]; eng = self.eng
        rets = eng.call(self.S, fn, a)
        for T0, r0 in rets:
            if isinstance(r0, PtrV) or r0 is None: T = T0; chk(T, r0, lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)); continue
            for T, r in eng.toint(T0, r0): chk(T, r, lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm))
        self.sp.exist(rets, 'returns', loc, nm, 'returns'); self.sp.absorb(eng, nm, len(rets)); return rets
isnull = lambda T, p: isinstance(p, Lin) and T.st.norm(p) == NULL
def malloc_case(bits, queued, lo, hi, static=False):
    def run(sp):
        h = H(sp, bits, queued); n = V(newvar('Size', lo, hi))
        seen = []
        def chk(T, r, ob):
            if isnull(T, r): h.check(T, ob); seen.append(0); return
            b = h.block(T, r, n, ob)
            if b is None: return
            seen.append(1); rid, pos = b; ch = {}
            old = [k for k, v in h.q.items() if rid in v]
            if old: ch[old[0]] = [x for x in h.q[old[0]] if x != rid]; ob(old[0] == pos, 'tls-header', 'a block from the cache keeps its size')
            h.check(T, ob, ch, {rid})
        h.call('malloc', ('void*, ' if static else '') + U, [h.t, n], chk)
        sp.exist(1 in seen, 'tls-block', ('sync/sync_tls.cpp', 0), TLS + 'malloc', 'memory can be allocated')
    return run
def huge_case(m, bits, q):
    """a size that no power of two reaches"""
    def run(sp):
        h = H(sp, bits, q); n = V(newvar('Size', (1 << 63) + 1, U64)); d, vs = h.data(h.S, 4, (0, 7)); nm = TLS + m; ret = []
        def chk(T, r, ob):
            ret.append(1); ob(isnull(T, r), 'tls-block', 'a size that cannot be had is refused'); h.check(T, ob, used={d.r}); h.kept(T, d, vs, None, ob)
        h.call(m, {'malloc': U, 'realloc': 'void*, unsigned long, bool'}[m], {'malloc': [h.t, n], 'realloc': [h.t, d, n, C(1)]}[m], chk)
        sp.exist(ret, 'no-progress', ('sync/sync_tls.cpp', 0), nm, 'the request ends')
    return run
def none_case(m):
    """no thread cache, or nothing to do"""
    def run(sp):
        h = H(sp, 4, init=False); n = V(newvar('Size', 1, 1 << 62)); d, vs = h.data(h.S, 3, (0, 7))
        a = {'malloc': [h.t, n], 'realloc': [h.t, d, V(newvar('Size', 9, 1 << 62)), C(1)], 'free': [h.t, d, C(1)], 'ThreadEnd': [h.t]}[m]
        def chk(T, r, ob):
            if m == 'free': return
            ob(isinstance(r, Lin) and T.st.entails_eq(r), 'tls-init', 'without a thread cache the call fails'); h.check(T, ob, used={d.r}); h.kept(T, d, vs, None, ob)
        h.call(m, {'malloc': U, 'realloc': 'void*, unsigned long, bool', 'free': 'void*, bool', 'ThreadEnd': ''}[m], a, chk)
    return run
def zero_case():
    def run(sp):
        h = H(sp, 4, {3: 1})
        def chk(T, r, ob): ob(isnull(T, r), 'tls-block', 'nothing is allocated for size zero'); h.check(T, ob)
        h.call('malloc', U, [h.t, ZERO], chk)
    return run
def realloc_case(bits, queued, pos, lo, hi, cache, static=False):
    def run(sp):
        h = H(sp, bits, queued); N = 1 << pos; d, vs = h.data(h.S, pos, sorted({0, 1, 7, N // 2, N - 1})); n = V(newvar('NewSize', lo, hi)); old = d.r
        def chk(T, r, ob):
            if isnull(T, r):
                ob(h.header(T, old) == C(pos), 'tls-header', 'a block that could not be resized stays as it was') if not T.mem[old].freed else ob(False, 'tls-own', 'a block that could not be resized is not released')
                h.kept(T, d, vs, None, ob) if not T.mem[old].freed else None; h.check(T, ob, used={old}); return
            b = h.block(T, r, n, ob)
            if b is None: return
            rid, ps = b; h.kept(T, r, vs, n, ob); ch = {}
            frm = [k for k, v in h.q.items() if rid in v]
            if frm: ch[frm[0]] = [x for x in h.q[frm[0]] if x != rid]
            if rid != old and not T.mem[old].freed:
                ob(pos < h.bits, 'tls-cache', 'only a block of a cached size is kept for reuse')
                if pos < h.bits: ch[pos] = ch.get(pos, h.q[pos]) + [old]
            h.check(T, ob, ch, {rid})
        h.call('realloc', 'void*, void*, unsigned long' if static else 'void*, unsigned long, bool', [h.t, d, n] + ([] if static else [C(cache)]), chk)
    return run
def realloc_null_case(n):
    def run(sp):
        h = H(sp, 4, {3: 1}); z = C(0) if n == 0 else V(newvar('NewSize', 1, 1 << 40))
        def chk(T, r, ob):
            if isnull(T, r): h.check(T, ob); return
            ob(n != 0, 'tls-block', 'nothing is allocated for size zero'); b = h.block(T, r, z, ob)
            if b: old = [k for k, v in h.q.items() if b[0] in v]; h.check(T, ob, {old[0]: [x for x in h.q[old[0]] if x != b[0]]} if old else None, {b[0]})
        h.call('realloc', 'void*, unsigned long, bool', [h.t, NULL, z, C(1)], chk)
    return run
def free_case(bits, queued, pos, cache, how='free'):
    def run(sp):
        h = H(sp, bits, queued); d, vs = h.data(h.S, pos, (0, 1))
        def chk(T, r, ob):
            ch = {}
            if not T.mem[d.r].freed:
                ob(pos < bits and cache, 'tls-leak', 'the block is released or kept for reuse')
                if pos < bits: ch[pos] = h.q[pos] + [d.r]
            h.check(T, ob, ch)
            if how == 'realloc': ob(isnull(T, r), 'tls-block', 'resizing to zero releases the block')
        if how == 'free': h.call('free', 'void*, bool', [h.t, d, C(cache)], chk)
        elif how == 'static': h.call('free', 'void*, void*', [h.t, d], chk)
        elif how == 'realloc': h.call('realloc', 'void*, unsigned long, bool', [h.t, d, ZERO, C(cache)], chk)
        else:
            a = obj(h.eng, h.S, TLS + 'AutoFree', 'AutoFree'); setf(h.eng, h.S, a, TLS + 'AutoFree', 'MxTLS', h.t); setf(h.eng, h.S, a, TLS + 'AutoFree', 'MxData', d)
            h.call('AutoFree::~AutoFree', '', [a], chk)
    return run
def autoctor_case():
    def run(sp):
        h = H(sp, 4); d, vs = h.data(h.S, 3); a = obj(h.eng, h.S, TLS + 'AutoFree', 'AutoFree'); g = lambda T, f: getf(h.eng, T, a, TLS + 'AutoFree', f)
        h.call('AutoFree::AutoFree', NS + 'Sync::TLS*, void*', [a, h.t, d], lambda T, r, ob: (ob(g(T, 'MxTLS') == h.t and g(T, 'MxData') == d, 'tls-own', 'the guard remembers the allocator and the block'), h.check(T, ob, used={d.r})))
    return run
def free_null_case():
    def run(sp):
        h = H(sp, 4, {3: 1}); h.call('free', 'void*, bool', [h.t, NULL, C(1)], lambda T, r, ob: h.check(T, ob))
    return run
def dup_case(bits, queued, pos, cache, null=False):
    def run(sp):
        h = H(sp, bits, queued); N = 1 << pos; d, vs = h.data(h.S, pos, sorted({0, 3, N - 1}))
        if null:
            h.call('dup_malloc', 'void*, bool', [h.t, NULL, C(1)], lambda T, r, ob: (ob(isnull(T, r), 'tls-block', 'nothing is duplicated for no block'), h.check(T, ob, used={d.r}))); return
        def chk(T, r, ob):
            if isnull(T, r): h.check(T, ob, used={d.r}); h.kept(T, d, vs, None, ob) if not T.mem[d.r].freed else None; return
            ok = isinstance(r, PtrV) and T.mem[r.r].tags.get('by') == 'malloc' and not T.mem[r.r].freed and T.st.entails_eq(r.o) and r.r != d.r; ob(ok, 'tls-block', 'the duplicate is plain allocated memory')
            if not ok: return
            ob(T.st.entails(T.mem[r.r].size - N), 'tls-block', 'the duplicate is as large as the block'); h.kept(T, r, vs, None, ob); ch = {}
            if not T.mem[d.r].freed:
                ob(pos < bits and cache, 'tls-leak', 'the block is released or kept for reuse')
                if pos < bits: ch[pos] = h.q[pos] + [d.r]
            h.check(T, ob, ch, {r.r})
        h.call('dup_malloc', 'void*, bool', [h.t, d, C(cache)], chk)
    return run
def info_case(bits, queued, num):
    def run(sp):
        h = H(sp, bits, queued); a = h.S.new_region('stackobj', 'Nodes', C(8)); b = h.S.new_region('stackobj', 'Size', C(8))
        n = C(num) if num is not None else V(newvar('Num', bits, U64))
        def chk(T, r, ob):
            ok = num is not None and num < bits; ob(isinstance(r, Lin) and T.st.entails_eq(r - int(ok)), 'tls-info', 'the call succeeds exactly for an existing bucket'); h.check(T, ob)
            if not ok: return
            k = len(h.q[num]); x, y = (T.mem[z.rid].cells.get(0, (0, None))[1] for z in (a, b))
            ob(isinstance(x, Lin) and T.st.entails_eq(x - k), 'tls-info', 'the number of cached blocks is reported')
            ob(isinstance(y, Lin) and T.st.entails_eq(y - k * max(1 << num, h.ns)), 'tls-info', 'the size of the cached blocks is reported')
        h.call('GetBucketInfo', 'unsigned long, unsigned long&, unsigned long&', [h.t, n, PtrV(a.rid, ZERO), PtrV(b.rid, ZERO)], chk)
    return run
def end_case(bits, queued):
    def run(sp):
        h = H(sp, bits, queued)
        def chk(T, r, ob):
            ob(not [1 for R in T.mem.values() if R.kind == 'heap' and not R.freed], 'tls-leak', 'every cached block and the cache are released')
            ob(isinstance(r, Lin) and T.st.entails_eq(r - 1), 'tls-init', 'ending an initialised thread succeeds')
        # setting the pointer to NULL does not fail
        h.eng.models['pthread_setspecific'] = lambda e, S, I, a: (S.mon.__setitem__('specific', a[1]), [(S, ZERO)])[1]
        h.call('ThreadEnd', '', [h.t], lambda T, r, ob: (chk(T, r, ob), ob(isnull(T, T.mon['specific']), 'tls-init', 'the thread has no cache afterwards')))
    return run
def init_case(bits, already):
    def run(sp):
        h = H(sp, bits, {}, init=already)
        def chk(T, r, ob):
            if already: ob(isinstance(r, Lin) and T.st.entails_eq(r - 1), 'tls-init', 'a second initialisation does nothing'); h.check(T, ob); return
            live = {r_ for r_, R in T.mem.items() if R.kind == 'heap' and not R.freed}
            if isinstance(r, Lin) and T.st.entails_eq(r): ob(not live and isnull(T, T.mon['specific']), 'tls-leak', 'a failed initialisation leaves nothing behind'); return
            m = T.mon['specific']; ok = isinstance(m, PtrV) and m.r in live; ob(ok, 'tls-init', 'the cache of the thread is stored')
            if not ok: return
            p = getf(h.eng, T, m, SV, 'ptr'); z = getf(h.eng, T, m, SV, 'Size'); ob(isinstance(z, Lin) and T.st.entails_eq(z - bits), 'tls-init', 'the cache has the given number of buckets')
            ok = isinstance(p, PtrV) and T.st.entails_eq(p.o - 8) and T.st.entails_eq(T.mem[p.r].size - 8 - bits * h.qs)
            if bits: ob(ok, 'tls-init', 'the cache has its buckets')
            if ok:
                h.main = m; h.arr = p.r; h.q = {b: [] for b in range(bits)}; h.check(T, ob)
        h.call('ThreadInit', U, [h.t, C(bits)], chk)
    return run
def c27():
    out = []; add = lambda nm, f, **k: out.append(Case(nm, f, **k))
    M = 1 << 62
    for bits, q in ((0, {}), (1, {}), (3, {}), (4, {3: 1}), (5, {3: 1, 4: 2}), (6, {4: 1, 5: 3}), (5, {}), (15, {14: 1, 3: 2}), (20, {})):
        for lo, hi in ((1, 8), (9, 16), (17, 1 << 20), ((1 << 20) + 1, M)): add('malloc %d buckets %s sizes %d-%d' % (bits, q, lo, hi), malloc_case(bits, q, lo, hi))
        for n in sorted({0, 3, 4, bits - 1, bits}):
            if n >= 0: add('bucket info %d %s %d' % (bits, q, n), info_case(bits, q, n))
        add('bucket info %d %s beyond' % (bits, q), info_case(bits, q, None))
        add('thread end %d %s' % (bits, q), end_case(bits, q))
        for pos in (3, 4, 5, 6):
            for c in (0, 1):
                for how in ('free', 'realloc'): add('%s %d buckets %s size %d cache %d' % (how, bits, q, pos, c), free_case(bits, q, pos, c, how))
                add('dup_malloc %d buckets %s size %d cache %d' % (bits, q, pos, c), dup_case(bits, q, pos, c))
                for lo, hi in ((1, 8), (9, 16), (17, 64), (65, 1 << 30)): add('realloc %d buckets %s size %d cache %d to %d-%d' % (bits, q, pos, c, lo, hi), realloc_case(bits, q, pos, lo, hi, c))
            add('AutoFree %d buckets %s size %d' % (bits, q, pos), free_case(bits, q, pos, 1, 'auto')); add('static free %d buckets %s size %d' % (bits, q, pos), free_case(bits, q, pos, 1, 'static'))
    add('static malloc', malloc_case(5, {3: 1}, 1, 1 << 30, True)); add('static realloc', realloc_case(5, {4: 1}, 3, 1, 1 << 30, 1, True))
    for m in ('malloc', 'realloc'):
        for bits, q in ((0, {}), (5, {4: 1})): add('%s of a huge size, %d buckets' % (m, bits), huge_case(m, bits, q))
    add('malloc of zero', zero_case()); add('free of NULL', free_null_case()); add('dup_malloc of NULL', dup_case(4, {}, 3, 1, True)); add('AutoFree constructor', autoctor_case())
    for n in (0, 1): add('realloc of NULL %d' % n, realloc_null_case(n))
    for m in ('malloc', 'realloc', 'free', 'ThreadEnd'): add('%s without a thread cache' % m, none_case(m))
    for bits in (0, 1, 5, 15): add('thread init %d' % bits, init_case(bits, False)); add('second thread init %d' % bits, init_case(bits, True))
    return out
PROPS = {'C27': c27}
