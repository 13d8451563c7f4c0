"""C19: search and replace."""
from spec import *
from specs.mixed import Tls, ptext
import itertools
NS = 'CubicleSoft::'; U64 = (1 << 64) - 1; U = 'unsigned long'
KINDS = {'char': ('', 'char', 1), 'long': ('', 'long', 8), 'compare': ('Compare', 'char, VerifEq', 1), 'alloc': ('Alloc', 'char, CubicleSoft::Sync::TLS', 1), 'alloccompare': ('AllocCompare', 'char, CubicleSoft::Sync::TLS, VerifEq', 1)}
class K:
    def __init__(self, kind):
        suf, targ, self.es = KINDS[kind]; self.kind = kind; self.el = targ.split(',')[0]
        self.find = NS + 'FastFind%s<%s>' % (suf, targ); self.rep = NS + 'FastReplace%s<%s>' % (suf, targ); self.cmp = 'compare' in kind; self.alloc = 'alloc' in kind
        self.fname = 'FastFind' + suf; self.rname = 'FastReplace' + suf
    def findnext(self, c): return '%s::FindNext(%s)' % (c, 'VerifEq' if self.cmp else 'bool')
    def setpattern(self, c): return '%s::SetPattern(%s const*, unsigned long%s%s)' % (c, self.el, ', CubicleSoft::Sync::TLS*' if self.alloc else '', ', VerifEq' if self.cmp else '')
    def all(self, static):
        e = self.el; a = ['%s*' % e if static else '%s*&' % e, 'unsigned long&', e + ' const*', U, e + ' const*', U, e + ' const*', U]
        if self.alloc: a.append('CubicleSoft::Sync::TLS*')
        if self.cmp: a.append('VerifEq')
        a += [U, U, U]
        if not self.cmp: a.append('bool')
        return '%s::%s(%s)' % (self.rep, 'StaticReplaceAll' if static else 'ReplaceAll', ', '.join(a))
class H:
    def __init__(self, sp, kind):
        self.sp = sp; self.mod = sp.mod; self.k = K(kind); eng = self.eng = sp.engine(); self.S = State(); eng.unroll = {'': 200}; eng.CAP = 4000
        if hasattr(eng, 'LIMIT'): eng.LIMIT = 4000000
        eng.models['memcmp'] = self.memcmp; eng.stubs['VerifEq::operator()(char const&, char const&) const'] = self.eqop
        self.tls = None
        if self.k.alloc: self.T = Tls(); self.T.prepare(sp, eng, self.S); self.tls = self.T.tls(self.S)
    def memcmp(self, e, S, I, a):
        out = []; es = self.k.es
        for T, n in e.uval(S, a[2], 64):
            if T.st.norm(n) == ZERO: out.append((T, ZERO)); continue
            for T2, d in e.deref(T, a[0], 'read'):
                if not e.bounds(T2, d, n, 'memcmp read'): continue
                for T3, s in e.deref(T2, a[1], 'read'):
                    if not e.bounds(T3, s, n, 'memcmp read'): continue
                    nn = T3.st.norm(n)
                    if not nn.isconst(): out.append((T3, T3.s('cmp', 32))); continue
                    cur = [T3]; w = es if nn.c % es == 0 else 1
                    for i in range(0, nn.c, w):
                        nx = []
                        for X in cur:
                            for X1, u in e.load(X, PtrV(d.r, d.o + i), ir.IntTy(8 * w)):
                                for X2, v in e.load(X1, PtrV(s.r, s.o + i), ir.IntTy(8 * w)):
                                    if not isinstance(u, Lin) or not isinstance(v, Lin): raise AnalysisError('comparison of unknown contents')
                                    for Y in e._assume(X2.copy(), ('eq', u - v), True): nx.append(Y)
                                    for Y in e._assume(X2, ('eq', u - v), False): c = Y.s('cmp', 32); Y.st.neq(c); out.append((Y, c))
                        cur = nx
                    out += [(X, ZERO) for X in cur]
        return out
    def eqop(self, e, S, I, a):
        out = []; a = a[-2:]
        for T, p in e.deref(S, a[0], 'comparison'):
            for X, q in e.deref(T, a[1], 'comparison'):
                if not e.bounds(X, p, C(self.k.es), 'comparison') or not e.bounds(X, q, C(self.k.es), 'comparison'): continue
                for X1, u in e.load(X, p, ir.IntTy(8)):
                    for X2, v in e.load(X1, q, ir.IntTy(8)):
                        if not isinstance(u, Lin) or not isinstance(v, Lin): raise AnalysisError('comparison of unknown elements')
                        for Y in e._assume(X2.copy(), ('eq', u - v), True): out.append((Y, C(1)))
                        for Y in e._assume(X2, ('eq', u - v), False): out.append((Y, ZERO))
        return out
    def array(self, nm, els, kind='input', cap=None):
        r = self.S.new_region(kind, nm, C(self.k.es * (len(els) if cap is None else cap)))
        for i, v in enumerate(els): r.cells[i * self.k.es] = (self.k.es, v)
        return PtrV(r.rid, ZERO)
    def els(self, nm, n, lo=1, hi=127): return [V(newvar('%s%d' % (nm, i), lo, hi)) for i in range(n)]
    def seq(self, states, sig, mkargs):
        fn = self.mod.find(sig); out = []
        for S in states: out += self.eng.call(S, fn, mkargs(S))
        return out
    def loc(self, sig): return self.mod.loc_fn(self.mod.find(sig))
def pattern(h, word):
    """elements by class: equal letters are equal, others differ"""
    if set(word) == {'?'}: return h.els('pat', len(word))
    cl = {}; out = []
    for c in word:
        if c not in cl: k = len(cl); cl[c] = V(newvar('pat.' + c, 1 + 7 * k, 7 + 7 * k))
        out.append(cl[c])
    return out
def judge(T, pat, data, j):
    """True: the pattern is at j; False: it is not; None: not decided on this path"""
    if j + len(pat) > len(data): return False
    if all(T.st.entails_eq(p - data[j + i]) for i, p in enumerate(pat)): return True
    if any(T.st.entails_ne(p - data[j + i]) for i, p in enumerate(pat)): return False
    return None
def find_case(kind, word, n, calls=3, skip=None, usememcmp=1, null_pat=False):
    def run(sp):
        h = H(sp, kind); k = h.k; eng = h.eng; c = k.find; pat = [] if null_pat else pattern(h, word); m = len(pat); data = h.els('data', n)
        p = h.array('Pattern', pat); d = h.array('Data', data); t = obj(eng, h.S, c, 'this')
        st = [T for T, _ in h.seq([h.S], '%s::%s()' % (c, k.fname), lambda S: [t])]
        st = [T for T, _ in h.seq(st, k.setpattern(c), lambda S: [t, p, C(m)] + ([h.tls] if k.alloc else []))]
        st = [T for T, _ in h.seq(st, '%s::SetData(%s const*, unsigned long)' % (c, k.el), lambda S: [t, d, C(n)])]
        fs = k.findnext(c); loc = h.loc(fs); nm = fs.split('(')[0]
        sp.exist(st, 'returns', loc, nm, 'the search can be set up'); cnt = 0
        cur = [(T, 0) for T in st]
        for rnd in range(calls):
            nx = []
            for S, pos in cur:
                for T, r in h.seq([S], fs, lambda S: [t] + ([] if k.cmp else [C(usememcmp)])):
                    ob = lambda cc, rule, msg: eng.ob(cc, rule, msg, T, where=loc, fn=nm); cnt += 1
                    if isinstance(r, Lin):
                        ob(T.st.norm(r) == NULL and (m == 0 or all(judge(T, pat, data, j) is False for j in range(pos, n - m + 1))), 'find-miss', 'the search only ends when there is no further match'); continue
                    o = T.st.norm(r.o) if isinstance(r, PtrV) and r.r == d.r else None; ok = o is not None and o.isconst() and o.c % k.es == 0
                    ob(ok, 'find-result', 'a match is a position in the data')
                    if not ok: continue
                    j = o.c // k.es
                    ob(m > 0 and pos <= j and judge(T, pat, data, j) is True, 'find-match', 'what is found equals the pattern')
                    ob(all(judge(T, pat, data, i) is False for i in range(pos, j)), 'find-first', 'no match before it is passed over')
                    if skip is None: nx.append((T, j + 1)); continue
                    for X, s in h.seq([T], '%s::SkipMatch(%s)' % (c, U), lambda S: [t, C(skip)]):
                        so = X.st.norm(s.o) if isinstance(s, PtrV) and s.r == d.r else None
                        ob(so is not None and so == C((j + m + skip) * k.es), 'find-skip', 'skipping leads behind the match')
                        nx.append((X, j + m + skip))
            cur = nx
        if k.alloc:
            for T, _ in cur: eng.ob(not [1 for R in T.mem.values() if R.tags.get('by') == 'tls' and not R.freed], 'find-leak', 'no memory is left behind', T, where=loc, fn=nm)
        sp.absorb(eng, nm, cnt)
    return run
def reference(T, pat, data, rep, limit):
    """(elements, number of replacements), None if the path does not decide it"""
    out = []; i = 0; num = 0; n = len(data)
    while i < n:
        if num < limit and pat:
            g = judge(T, pat, data, i)
            if g is None: return None
            if g: out += rep; i += len(pat); num += 1; continue
        out.append(data[i]); i += 1
    return out, num
def same(T, eng, p, i, es, e):
    l = eng.load(T.copy(), PtrV(p.r, p.o + i * es), ir.IntTy(8 * es)); c = l[0][1] if l else None
    if not isinstance(c, Lin): return False
    d = T.st.norm(c - e); return d.c % (1 << (8 * es)) == 0 if d.isconst() else T.st.entails_eq(d)
def replace_case(kind, word, n, rn, limit=None, growth=1024, extra=1, static=None, inplace=False, sizes=True, usememcmp=1):
    """ReplaceAll; static: capacity relative to the data"""
    def run(sp):
        h = H(sp, kind); k = h.k; eng = h.eng; S = h.S; pat = pattern(h, word) if word else []; m = len(pat); data = h.els('data', n); rep = h.els('rep', rn)
        z = [] if sizes else [ZERO]
        p = h.array('Pattern', pat + z); w = h.array('ReplaceWith', rep + z)
        rs = S.new_region('stackobj', 'ResultSize', C(8)); rr = S.new_region('stackobj', 'Result', C(8))
        if static is None: d = h.array('Data', data); res = PtrV(rr.rid, ZERO)
        elif inplace: d = h.array('Data', data, 'output', n); res = d; rs.cells[0] = (8, C(n)); cap = n
        else: cap = max(0, n + static); d = h.array('Data', data); res = h.array('ResultBuffer', [], 'output', cap); rs.cells[0] = (8, C(cap))
        lim = U64 if limit is None else limit
        a = [res, PtrV(rs.rid, ZERO), d, C(n), p, C(m if sizes else U64), w, C(rn if sizes else U64)] + ([h.tls] if k.alloc else []) + [C(lim), C(growth), C(extra)] + ([] if k.cmp else [C(usememcmp)])
        sg = k.all(static is not None); fn = h.mod.find(sg); loc = h.loc(sg); nm = sg.split('(')[0]
        rets = eng.call(S, fn, a)
        for T, r in rets:
            ob = lambda cc, rule, msg: eng.ob(cc, rule, msg, T, where=loc, fn=nm)
            x = T.mem[rs.rid].cells.get(0); x = T.st.norm(x[1]) if x and isinstance(x[1], Lin) else None
            ref = reference(T, pat, data, rep, lim)
            trunc = False
            if ref is None: # the buffer was full before the rest was looked at
                ob(static is not None and not inplace, 'replace-text', 'every position of the data is looked at'); continue
            exp, num = ref
            if static is not None and len(exp) > cap: exp = exp[:cap]; trunc = True
            ob(x is not None and x == C(len(exp)), 'replace-size', 'the reported size is that of the data with every match replaced')
            if x != C(len(exp)): continue
            if not trunc: ob(isinstance(r, Lin) and T.st.entails_eq(r - num), 'replace-count', 'the number of replacements is returned')
            q = res
            if static is None:
                c = T.mem[rr.rid].cells.get(0); q = c[1] if c else None; own = {rid for rid, R in T.mem.items() if R.kind == 'heap' and not R.freed}
                if not exp and not extra and isinstance(q, Lin) and T.st.norm(q) == NULL and not own: continue
                ok = isinstance(q, PtrV) and own == {q.r} and T.st.entails_eq(q.o); ob(ok, 'replace-own', 'the result is the only memory left')
                if not ok: continue
                ob(T.st.entails(T.mem[q.r].size - k.es * (len(exp) + extra)), 'replace-own', 'the result has room for its elements and the extra ones')
            else: ob(not [1 for R in T.mem.values() if R.kind == 'heap' and not R.freed], 'replace-own', 'no memory is left behind')
            ob(all(same(T, eng, q, i, k.es, e) for i, e in enumerate(exp)), 'replace-text', 'the result is the data with every match replaced, from left to right')
        sp.exist(rets, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, len(rets))
    return run
def life_case(kind, m, n, rn, post, allocated, detach, twice):
    """one replacement through the object itself, then the object is reused or destroyed"""
    def run(sp):
        h = H(sp, kind); k = h.k; eng = h.eng; S = h.S; c = k.rep; pat = h.els('pat', m); data = h.els('data', n); rep = h.els('rep', rn)
        p = h.array('Pattern', pat); w = h.array('ReplaceWith', rep); d = h.array('Data', data); b = h.array('ResultBuffer', [], 'output', 8); t = obj(eng, S, c, 'this')
        sig = lambda m_, a_: '%s::%s(%s)' % (c, m_, a_); el = k.el
        one = lambda st, s, f: [T for T, _ in h.seq(st, s, f)]
        st = one([S], sig(k.rname, ''), lambda S: [t]); st = one(st, sig('SetGrowthSize', U), lambda S: [t, C(1)]); st = one(st, sig('SetExtraAlloc', U), lambda S: [t, C(1)])
        for i in range(2 if twice else 1):
            st = one(st, k.setpattern(c), lambda S: [t, p, C(m)] + ([h.tls] if k.alloc else []))
            st = one(st, sig('SetData', '%s const*, %s, %s*, %s' % (el, U, el, U)), lambda S: [t, d, C(n), NULL if allocated else b, ZERO if allocated else C(8)])
            if i == 0 and twice: st = one(st, sig('SetData', '%s const*, %s, %s*, %s' % (el, U, el, U)), lambda S: [t, d, C(n), NULL if allocated else b, ZERO if allocated else C(8)])
        fs = k.findnext(c); loc = h.loc(fs); nm = fs.split('(')[0]; end = []; res = []; cnt = 0
        for T, r in h.seq(st, fs, lambda S: [t] + ([] if k.cmp else [C(1)])):
            if isinstance(r, Lin): end.append((T, data, 0)); continue
            o = T.st.norm(r.o); j = o.c // k.es
            ob = lambda cc, rule, msg: eng.ob(cc, rule, msg, T, where=loc, fn=nm); ob(judge(T, pat, data, j) is True, 'find-match', 'what is found equals the pattern')
            for X in one([T], sig('Replace', '%s const*, %s, %s' % (el, U, U)), lambda S: [t, w, C(rn), C(post)]):
                nxt = min(n, j + m + post)
                for Y, r2 in h.seq([X], fs, lambda S: [t] + ([] if k.cmp else [C(1)])):
                    if isinstance(r2, Lin): end.append((Y, data[:j] + rep + data[nxt:], 1))
                    else:
                        j2 = Y.st.norm(r2.o).c // k.es; end.append((Y, data[:j] + rep + data[nxt:j2], 1))
        for T, exp, _ in end:
            cnt += 1; ob = lambda cc, rule, msg: eng.ob(cc, rule, msg, T, where=loc, fn=nm)
            for X, z in h.seq([T], sig('GetDataSize', ''), lambda S: [t]): ob(isinstance(z, Lin) and X.st.entails_eq(z - len(exp)), 'replace-size', 'the size is that of the data copied so far')
            for X, q in h.seq([T], sig('DetachData' if detach else 'GetData', ''), lambda S: [t]):
                ok = isinstance(q, PtrV) and not X.mem[q.r].freed and X.st.entails_eq(q.o); ob(ok, 'replace-own', 'the data is there')
                if not ok: continue
                ob(all(same(X, eng, q, i, k.es, e) for i, e in enumerate(exp)), 'replace-text', 'the data copied so far is the one before the next match, with the match replaced')
                for Y, _ in h.seq([X], sig('~' + k.rname, ''), lambda S: [t]):
                    own = {rid for rid, R in Y.mem.items() if R.kind == 'heap' and not R.freed}; eng.ob(own == ({q.r} if detach and allocated else set()), 'replace-own', 'memory is released exactly once, by its owner', Y, where=loc, fn=nm)
        sp.exist(end, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, cnt)
    return run
def any_case(kind, big=False):
    """any pattern and any data: nothing outside them is read"""
    def run(sp):
        h = H(sp, kind); k = h.k; eng = h.eng; c = k.find; eng.unroll = {}; eng.CAP = 40; del eng.models['memcmp']; models.register(eng)
        es = k.es; m = V(newvar('PatternSize', 1027 if big else 1, 1 << 30)); n = V(newvar('DataSize', 0, 1 << 30)); S = h.S
        p = buf(S, 'Pattern', m.scale(es)); d = buf(S, 'Data', n.scale(es)); t = obj(eng, S, c, 'this'); eng.stubs.pop('VerifEq::operator()(char const&, char const&) const', None)
        eng.stubs['VerifEq::operator()(char const&, char const&) const'] = lambda e, T, I, a: [(T, V(newvar('eq', 0, 1)))]
        st = [T for T, _ in h.seq([S], '%s::%s()' % (c, k.fname), lambda S: [t])]
        st = [T for T, _ in h.seq(st, k.setpattern(c), lambda S: [t, p, m] + ([h.tls] if k.alloc else []))]
        st = [T for T, _ in h.seq(st, '%s::SetData(%s const*, unsigned long)' % (c, k.el), lambda S: [t, d, n])]
        fs = k.findnext(c); loc = h.loc(fs); nm = fs.split('(')[0]; cnt = 0
        for T, r in h.seq(st, fs, lambda S: [t] + ([] if k.cmp else [C(1)])):
            cnt += 1
            if isinstance(r, PtrV): eng.ob(r.r == d.r and T.st.entails(r.o) and T.st.entails(n.scale(es) - m.scale(es) - r.o), 'find-result', 'a match lies in the data', T, where=loc, fn=nm)
        sp.exist(st, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, cnt)
    return run
def mixed_case(n, m, rn, str_):
    """TLS::MixedVar::ReplaceData and ReplaceStr"""
    def run(sp):
        h = H(sp, 'alloc'); eng = h.eng; S = h.S; from_ = __import__('specs.mixed', fromlist=['x']); data = None if n is None else h.els('text', n); pat = h.els('pat', m); rep = h.els('rep', rn)
        t = h.T.make(eng, S, data, 'this', h.tls); p = ptext(S, 'src', pat, str_); w = ptext(S, 'dest', rep, str_)
        sg = h.T.sig('ReplaceStr' if str_ else 'ReplaceData', 'char const*, char const*' if str_ else 'char const*, unsigned long, char const*, unsigned long'); fn = h.mod.find(sg); loc = h.loc(sg); nm = sg.split('(')[0]
        rets = eng.call(S, fn, [t, p, w] if str_ else [t, p, C(m), w, C(rn)])
        for T, r in rets:
            ob = lambda cc, rule, msg: eng.ob(cc, rule, msg, T, where=loc, fn=nm); ref = reference(T, pat, data or [], rep, U64)
            ob(ref is not None, 'var-text', 'every position of the text is looked at')
            if ref is None: continue
            ob(isinstance(r, Lin) and T.st.entails_eq(r - ref[1]), 'var-result', 'the number of replacements is returned')
            from_.has_text(eng, h.T, T, t, ref[0], ob); from_.unchanged_mode(eng, h.T, T, t, ob); h.T.owned(eng, T, t, ob)
        sp.exist(rets, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, len(rets))
    return run
def c06():
    from specs import mixed
    out = mixed.c06()
    for n in (None, 0, 2, 4):
        for m in (0, 1, 2):
            for rn in (0, 1, 2, 3):
                for st in (0, 1): out.append(Case('TLS replace %s %d %d %d' % (n, m, rn, st), mixed_case(n, m, rn, st)))
    return out
def c19():
    out = []; add = lambda nm, f, **kw: out.append(Case(nm, f, **kw))
    small = ['?', '??', '???', '????']
    words = ['abcde', 'aaaaa', 'abbba', 'ababab', 'abcdefgh', 'aaaaaaaab', 'abcdefghij', 'aaaaaaaaaa', 'abbbbbbbbba', 'abcabcabcab', 'aabbccddeeff', 'abbcccdddeeefffg', 'abcdefghijklmnop', 'aaaaaaaaaaaaaaa', 'aaaaaaaZaaaaaaaa', 'aZaaaaaaaaaaaaaaaaa', 'aaaaaaaaaaaaaaZa', 'abbbcccdddeeefffggghhhiiia', 'ababababababababab']
    for kind in KINDS:
        for w in small if kind != 'long' else small[:3]:
            m = len(w)
            for n in sorted({0, 1, m - 1, m, m + 1, m + 2}):
                if n < 0: continue
                for um in (1, 0) if kind in ('char', 'long') else (1,): add('%s find %s in %d, memcmp %d' % (kind, w, n, um), find_case(kind, w, n, usememcmp=um))
            for sk in (0, 1): add('%s find %s in %d, skip %d' % (kind, w, m + 2, sk), find_case(kind, w, m + 2, skip=sk))
        for w in words:
            for n in (len(w) - 1, len(w), len(w) + 1, len(w) + 2) if kind in ('char', 'long') else (len(w) + 1,):
                for um in (1, 0) if kind in ('char', 'long') else (1,): add('%s find %s in %d, memcmp %d' % (kind, w, n, um), find_case(kind, w, n, 2, usememcmp=um))
        add('%s find nothing' % kind, find_case(kind, '', 3, null_pat=True))
        add('%s any pattern' % kind, any_case(kind), budget=10); add('%s any long pattern' % kind, any_case(kind, True), budget=10)
        for w, n in (('?', 0), ('?', 1), ('?', 3), ('?', 4), ('??', 1), ('??', 2), ('??', 4), ('??', 5), ('???', 4), ('', 2), ('aa', 5), ('aba', 6), ('abcab', 7)) if kind in ('char', 'long') else (('?', 0), ('?', 3), ('??', 2), ('??', 4), ('', 2), ('aba', 5)):
            for rn in (0, 1, 2, 3) if kind == 'char' else (0, 1, 3):
                for lim in (None, 0, 1, 2) if kind == 'char' else (None, 1):
                    for g, x in ((1024, 1), (0, 1), (1, 0)) if lim is None else ((0, 1),): add('%s replace %s in %d by %d, limit %s, growth %d, extra %d' % (kind, w, n, rn, lim, g, x), replace_case(kind, w, n, rn, lim, g, x))
                    for st in (0, 2, -1, 6) if lim in (None, 1) else (6,): add('%s static replace %s in %d by %d, limit %s, room %d' % (kind, w, n, rn, lim, st), replace_case(kind, w, n, rn, lim, static=st))
                    if rn <= len(w) and w: add('%s replace in place %s in %d by %d, limit %s' % (kind, w, n, rn, lim), replace_case(kind, w, n, rn, lim, static=0, inplace=True))
        for w, n, rn in (('??', 3, 2), ('?', 2, 0)):
            for st in (None, 4): add('%s replace %s in %d by %d without sizes, static %s' % (kind, w, n, rn, st), replace_case(kind, w, n, rn, static=st, sizes=False))
        for m, n in ((1, 2), (2, 3)):
            for rn in (0, 2):
                for post in (0, 1, 5):
                    for al in (0, 1):
                        for de in (0, 1):
                            for tw in (0, 1): add('%s step by step %d in %d by %d, post %d, allocated %d, detach %d, twice %d' % (kind, m, n, rn, post, al, de, tw), life_case(kind, m, n, rn, post, al, de, tw))
    return out
PROPS = {'C19': c19, 'C06': c06}
