"""C14: linked lists and queues (shape analysis)."""
from spec import *
from shape import Shape
NS = 'CubicleSoft::'
class L:
    """one analysed list or queue class"""
    def __init__(self, sp, cls, val='long'):
        self.sp = sp; self.mod = sp.mod; self.cls = cls; self.q = cls.startswith('Queue')
        self.C = '%s%s<%s>' % (NS, cls, val); self.N = '%s%s<%s>' % (NS, 'QueueNode' if self.q else 'ListNode', val)
        self.eng = sp.engine()
        m = self.mod
        nx, _ = foff(m, self.N, 'NextNode'); pv = None if self.q else foff(m, self.N, 'PrevNode')[0]; vo, vs = foff(m, self.N, 'Value')
        self.sh = Shape(self.eng, m.csize(self.N), nx, pv, vo, vs)
        self.fo = foff(m, self.C, 'FirstNode')[0]; self.lo = foff(m, self.C, 'LastNode')[0]
        self.given = []
    def head(self, S, name, shape, raw=False):
        """a list object; shape: string of S (segment) and N (node); returns (pointer, [elements])"""
        t = obj(self.eng, S, self.C, name, 'obj')
        h = (t.r, self.fo, self.lo); self.sh.heads.append(h)
        for o in (self.fo, self.lo): self.eng.ptrcells.add(('ptrcell', t.r, o))
        if raw: return t, h, []
        els = []
        for c in shape:
            if c == 'S': s = self.sh.seg(S, NULL, NULL); els.append(('E', s))
            else: els.append(PtrV(self.sh.node(S, NULL, NULL).rid, ZERO))
        f = lambda x: SegV(x[1], 'f') if isinstance(x, tuple) else x
        l = lambda x: SegV(x[1], 'l') if isinstance(x, tuple) else x
        n = ZERO
        for i, x in enumerate(els):
            p = l(els[i - 1]) if i else NULL; q = f(els[i + 1]) if i + 1 < len(els) else NULL
            if isinstance(x, tuple):
                r = S.mon[('seg', x[1])]; S.mon[('seg', x[1])] = (p, q, r[2], r[3]); n = n + r[2]
            else:
                R = S.w(x.r); R.cells[self.sh.nxt] = (8, q); n = n + 1
                if self.sh.prv is not None: R.cells[self.sh.prv] = (8, p)
        R = S.w(t.r)
        R.cells[self.fo] = (8, f(els[0]) if els else NULL); R.cells[self.lo] = (8, l(els[-1]) if els else NULL)
        setf(self.eng, S, t, self.C, 'NumNodes', n)
        S.mon[('seq', name)] = tuple(els)
        return t, h, els
    def find(self, meth, args='', const=False):
        if not meth.startswith('~') and meth not in ('List', 'ListNoCopy', 'Queue', 'QueueNoCopy'): pass
        return self.mod.find('%s::%s(%s)%s' % (self.C, meth, args, ' const' if const else ''))
    def ok_list(self, T, h, name, exp, loc, fn, vals=None):
        """the list is exactly exp"""
        ob = lambda c, r, m: self.eng.ob(c, r, m, T, where=loc, fn=fn)
        seq, err = self.sh.walk(T, h)
        ob(err is None, 'list-shape', '%s afterwards: %s' % (name, err))
        if err is not None: return seq
        if exp is not None: ob(list(seq) == list(exp), 'list-order', '%s does not hold the expected nodes in the expected order' % name)
        n, q = self.sh.count(T, seq)
        c = T.mem[h[0]].cells.get(foff(self.mod, self.C, 'NumNodes')[0])
        ob(c is not None and isinstance(c[1], Lin) and T.st.entails_eq(c[1] - n), 'list-count', 'the node count of %s is not the number of nodes in it' % name)
        return seq
    def no_leak(self, T, seqs, extra, loc, fn):
        have = set()
        for s in seqs: have |= {x.r if isinstance(x, PtrV) else x[1] for x in s}
        have |= {x.r for x in extra if isinstance(x, PtrV)}
        for rid, R in T.mem.items():
            if R.kind == 'heap' and not R.freed: self.eng.ob(rid in have, 'list-leak', 'a node is neither linked nor returned nor released', T, where=loc, fn=fn)
        for k in T.mon:
            if isinstance(k, tuple) and k[0] == 'seg':
                n = T.mon[k][2]
                self.eng.ob(k[1] in have or T.st.entails_eq(n), 'list-leak', 'nodes are neither linked nor released', T, where=loc, fn=fn)
    def detached(self, T, p, loc, fn):
        ok = isinstance(p, PtrV) and p.r in T.mem and not T.mem[p.r].freed and p.o == ZERO
        for o in (self.sh.nxt, self.sh.prv):
            if ok and o is not None:
                c = self.sh.cell(T, p.r, o); ok = isinstance(c, Lin) and T.st.norm(c) == NULL
        self.eng.ob(ok, 'list-detach', 'a detached node is not usable on its own (released or still linked)', T, where=loc, fn=fn)
    def value(self, T, p):
        c = T.mem[p.r].cells.get(self.sh.val) if p.r in T.mem else None
        return c[1] if c else None

def insert_case(cls, meth, kind, pos):
    """kind: value / node / attached; pos: None (no position argument), 'null', 'at'"""
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', 'SNS' if pos == 'at' else 'S')
        args = [t]; sig = []
        X = els[1] if pos == 'at' else NULL
        if pos is not None: args.append(X); sig.append(k.N + '*')
        v = V(newvar('arg', 0, (1 << 64) - 1))
        g = None
        if kind == 'value':
            a = S.new_region('input', 'Value', C(8)); a.cells[0] = (8, v); args.append(PtrV(a.rid, ZERO)); sig.append('long const&')
        else:
            g = PtrV(k.sh.node(S, NULL, NULL, v, 'given').rid, ZERO); args.append(g); sig.append(k.N + '*')
            if kind != 'node':
                R = S.w(g.r); o = PtrV(k.sh.node(S, NULL, NULL, None, 'other').rid, ZERO)
                if kind == 'attached-next': R.cells[k.sh.nxt] = (8, o); S.w(o.r).cells.update({k.sh.prv: (8, g)} if k.sh.prv is not None else {})
                else: R.cells[k.sh.prv] = (8, o); S.w(o.r).cells[k.sh.nxt] = (8, g)
                other = o
        fn = k.find(meth, ', '.join(sig)); loc = sp.mod.loc_fn(fn); nm = k.C + '::' + meth
        before = {r for r in S.mem}
        rets = eng.call(S, fn, args)
        front = meth in ('Unshift',) or (meth == 'InsertAfter' and pos != 'at')
        for T, r in rets:
            seq0 = list(T.mon[('seq', 'this')])
            if kind.startswith('attached'):
                if meth != 'operator+=': eng.ob(isinstance(r, Lin) and T.st.norm(r) == NULL, 'list-attached', 'a node that is already linked is refused', T, where=loc, fn=nm)
                s = k.ok_list(T, h, 'the list', seq0, loc, nm)
                k.no_leak(T, [s], [g, other], loc, nm)
                c1 = k.sh.cell(T, g.r, k.sh.nxt); c2 = k.sh.cell(T, g.r, k.sh.prv) if k.sh.prv is not None else NULL
                eng.ob((c1 == other and c2 == NULL) if kind == 'attached-next' else (c2 == other and c1 == NULL), 'list-attached', 'a refused node keeps its links', T, where=loc, fn=nm)
                continue
            new = [PtrV(x, ZERO) for x, R in T.mem.items() if R.kind == 'heap' and not R.freed and PtrV(x, ZERO) not in seq0]
            eng.ob(len(new) == 1 and (g is None or new == [g]), 'list-order', 'exactly one node is added', T, where=loc, fn=nm)
            if len(new) != 1: continue
            z = new[0]
            if meth == 'operator+=': eng.ob(r == t, 'list-result', 'the list itself is returned', T, where=loc, fn=nm)
            else: eng.ob(r == z, 'list-result', 'the inserted node is returned', T, where=loc, fn=nm)
            x = k.value(T, z)
            eng.ob(isinstance(x, Lin) and T.st.entails_eq(x - v), 'list-value', 'the inserted node holds the given value', T, where=loc, fn=nm)
            if pos == 'at':
                i = seq0.index(X); exp = seq0[:i] + [z] + seq0[i:] if meth == 'InsertBefore' else seq0[:i + 1] + [z] + seq0[i + 1:]
            else: exp = [z] + seq0 if front else seq0 + [z]
            s = k.ok_list(T, h, 'the list', exp, loc, nm)
            k.no_leak(T, [s], [], loc, nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def take_case(cls, meth):
    """Pop, Shift"""
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', 'S'); n0 = S.mon[('seg', els[0][1])][2]; S.mon['n0'] = n0
        fn = k.find(meth); loc = sp.mod.loc_fn(fn); nm = k.C + '::' + meth
        rets = eng.call(S, fn, [t]); seen = set()
        for T, r in rets:
            seq0 = list(T.mon[('seq', 'this')])
            if isinstance(r, Lin) and T.st.norm(r) == NULL:
                seen.add(0)
                eng.ob(T.st.entails_eq(n0), 'list-result', 'nothing is returned only from an empty list', T, where=loc, fn=nm)
                s = k.ok_list(T, h, 'the list', seq0, loc, nm); k.no_leak(T, [s], [], loc, nm)
                continue
            seen.add(1)
            ok = isinstance(r, PtrV) and seq0 and (seq0[-1] if meth == 'Pop' else seq0[0]) == r
            eng.ob(ok, 'list-result', 'the %s node is returned' % ('last' if meth == 'Pop' else 'first'), T, where=loc, fn=nm)
            if not ok: continue
            k.detached(T, r, loc, nm)
            s = k.ok_list(T, h, 'the list', [x for x in seq0 if x != r], loc, nm); k.no_leak(T, [s], [r], loc, nm)
        sp.exist(seen == {0, 1}, 'returns', loc, nm, 'returns a node from a list with nodes and nothing from an empty one')
        sp.absorb(eng, nm, len(rets))
    return run

def remove_case(cls, meth, null):
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', 'S' if null else 'SNS')
        X = NULL if null else els[1]
        fn = k.find(meth, k.N + '*'); loc = sp.mod.loc_fn(fn); nm = k.C + '::' + meth
        rets = eng.call(S, fn, [t, X])
        for T, r in rets:
            seq0 = list(T.mon[('seq', 'this')])
            want = 0 if null else 1
            for T2, rr in eng.toint(T, r):
                eng.ob(isinstance(rr, Lin) and T2.st.entails_eq(rr - want), 'list-result', 'the result tells whether a node was taken out', T2, where=loc, fn=nm)
            s = k.ok_list(T, h, 'the list', [x for x in seq0 if x != X], loc, nm)
            if not null:
                if meth == 'Detach': k.detached(T, X, loc, nm)
                else: eng.ob(T.mem[X.r].freed, 'list-leak', 'a removed node is released', T, where=loc, fn=nm)
            k.no_leak(T, [s], [X] if meth == 'Detach' else [], loc, nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def clear_case(cls, meth, shape):
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', shape)
        fn = k.find(meth); loc = sp.mod.loc_fn(fn); nm = k.C + '::' + meth
        rets = eng.call(S, fn, [t])
        for T, r in rets:
            s = []
            if meth == 'Empty': s = k.ok_list(T, h, 'the list', [], loc, nm)
            k.no_leak(T, [s], [], loc, nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def copy_case(cls, meth, shape, mine, self_=False):
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', mine, raw=meth != 'operator=')
        if self_: o, ho, oe = t, h, els
        else: o, ho, oe = k.head(S, 'other', shape)
        fn = k.find(meth, k.C + ' const&'); loc = sp.mod.loc_fn(fn); nm = k.C + '::' + meth
        name = 'this' if self_ else 'other'
        vals = [S.mem[x.r].cells[k.sh.val][1] for x in oe if isinstance(x, PtrV)]
        n0, q0 = k.sh.count(S, oe); S.mon['n0'] = n0; S.mon['q0'] = q0
        rets = eng.call(S, fn, [t, o])
        for T, r in rets:
            s2 = k.ok_list(T, ho, 'the source', T.mon[('seq', name)], loc, nm)
            if meth == 'operator=': eng.ob(r == t, 'list-result', 'the list itself is returned', T, where=loc, fn=nm)
            if self_: k.no_leak(T, [s2], [], loc, nm); continue
            s = k.ok_list(T, h, 'the copy', None, loc, nm)
            eng.ob(not set(map(str, s)) & set(map(str, s2)), 'list-alias', 'a copy shares no node with its source', T, where=loc, fn=nm)
            n, q = k.sh.count(T, s)
            eng.ob(T.st.entails_eq(n - T.mon['n0']), 'list-copy', 'a copy has as many nodes as its source', T, where=loc, fn=nm)
            eng.ob(q is not None and T.st.entails_eq(q - T.mon['q0']), 'list-copy', 'a copy holds the values of its source', T, where=loc, fn=nm)
            if 'S' not in shape and all(isinstance(x, PtrV) for x in s) and len(s) == len(vals):
                for x, v in zip(s, vals):
                    y = k.value(T, x); eng.ob(isinstance(y, Lin) and T.st.entails_eq(y - v), 'list-copy', 'a copy holds the values of its source in the same order', T, where=loc, fn=nm)
            k.no_leak(T, [s, s2], [], loc, nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def append_case(cls, self_):
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', 'S')
        o, ho, oe = (t, h, els) if self_ else k.head(S, 'other', 'S')
        fn = k.find('DetachAllAndAppend', k.C + '&'); loc = sp.mod.loc_fn(fn); nm = k.C + '::DetachAllAndAppend'
        rets = eng.call(S, fn, [t, o])
        for T, r in rets:
            a = list(T.mon[('seq', 'this')]); b = [] if self_ else list(T.mon[('seq', 'other')])
            # a segment that is known to be empty may stay behind in either list
            s = k.ok_list(T, h, 'the list', None, loc, nm)
            s2 = [] if self_ else k.ok_list(T, ho, 'the other list', None, loc, nm)
            live = lambda l: [x for x in l if isinstance(x, PtrV) or not T.st.entails_eq(T.mon[('seg', x[1])][2])]
            eng.ob(live(s) == live(a + b), 'list-order', 'the list does not hold its own nodes followed by those of the other list', T, where=loc, fn=nm)
            eng.ob(live(s2) == [], 'list-order', 'the other list is empty afterwards', T, where=loc, fn=nm)
            k.no_leak(T, [s, s2], [], loc, nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def ctor_case(cls, arg):
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', '', raw=True)
        v = V(newvar('arg', 0, (1 << 64) - 1))
        fn = k.find(cls, 'long' if arg else ''); loc = sp.mod.loc_fn(fn); nm = k.C + '::' + cls
        rets = eng.call(S, fn, [t, v] if arg else [t])
        for T, r in rets:
            s = k.ok_list(T, h, 'the list', None, loc, nm)
            ok = len(s) == (1 if arg else 0)
            eng.ob(ok, 'list-order', 'a new list holds exactly what it was given', T, where=loc, fn=nm)
            if ok and arg:
                x = k.value(T, s[0]); eng.ob(isinstance(x, Lin) and T.st.entails_eq(x - v), 'list-value', 'the node holds the given value', T, where=loc, fn=nm)
            k.no_leak(T, [s], [], loc, nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def get_case(cls, meth):
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', 'S')
        fn = k.find(meth, '', True); loc = sp.mod.loc_fn(fn); nm = k.C + '::' + meth
        rets = eng.call(S, fn, [t])
        for T, r in rets:
            s = k.ok_list(T, h, 'the list', T.mon[('seq', 'this')], loc, nm)
            if meth == 'GetSize': ok = isinstance(r, Lin) and T.st.entails_eq(r - k.sh.count(T, s)[0])
            else: ok = r == k.sh.cell(T, h[0], k.fo if meth == 'First' else k.lo)
            eng.ob(ok, 'list-result', '%s returns what it says' % meth, T, where=loc, fn=nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def create_case(cls, arg):
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        v = V(newvar('arg', 0, (1 << 64) - 1)); a = S.new_region('input', 'Value', C(8)); a.cells[0] = (8, v)
        fn = k.find('CreateNode', 'long const&' if arg else ''); loc = sp.mod.loc_fn(fn); nm = k.C + '::CreateNode'
        rets = eng.call(S, fn, [PtrV(a.rid, ZERO)] if arg else [])
        for T, r in rets:
            k.detached(T, r, loc, nm)
            if arg and isinstance(r, PtrV):
                x = k.value(T, r); eng.ob(isinstance(x, Lin) and T.st.entails_eq(x - v), 'list-value', 'the node holds the given value', T, where=loc, fn=nm)
            k.no_leak(T, [], [r], loc, nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run

def step_case(cls, meth):
    def run(sp):
        k = L(sp, cls); eng = k.eng; S = State()
        t, h, els = k.head(S, 'this', 'SNS')
        fn = sp.mod.find('%s::%s()' % (k.N, meth)); loc = sp.mod.loc_fn(fn); nm = k.N + '::' + meth
        rets = eng.call(S, fn, [els[1]])
        for T, r in rets:
            eng.ob(r == k.sh.cell(T, els[1].r, k.sh.nxt if meth == 'Next' else k.sh.prv), 'list-result', '%s returns the neighbour' % meth, T, where=loc, fn=nm)
            k.ok_list(T, h, 'the list', T.mon[('seq', 'this')], loc, nm)
        sp.absorb(eng, nm, len(rets))
    return run

def c14():
    out = []
    for cls in ('List', 'ListNoCopy', 'Queue', 'QueueNoCopy'):
        q = cls.startswith('Queue')
        ms = [('Push', None), ('Unshift', None), ('operator+=', None)]
        if not q: ms += [('InsertBefore', 'null'), ('InsertAfter', 'null'), ('InsertBefore', 'at'), ('InsertAfter', 'at')]
        for m, pos in ms:
            kinds = ['value', 'node', 'attached-next'] + ([] if q else ['attached-prev'])
            for kd in kinds: out.append(Case('%s::%s %s %s' % (cls, m, pos or '', kd), insert_case(cls, m, kd, pos)))
        for m in ('Shift',) + (() if q else ('Pop',)): out.append(Case('%s::%s' % (cls, m), take_case(cls, m)))
        if not q:
            for m in ('Detach', 'Remove'):
                for z in (0, 1): out.append(Case('%s::%s%s' % (cls, m, ' null' if z else ''), remove_case(cls, m, z)))
        for m in ('Empty', '~' + cls):
            for s in ('S', '', 'N', 'NN'): out.append(Case('%s::%s [%s]' % (cls, m, s), clear_case(cls, m, s)))
        if cls in ('List', 'Queue'):
            for s in ('S', '', 'N', 'NN', 'NNN'):
                out.append(Case('%s copy [%s]' % (cls, s), copy_case(cls, cls, s, '')))
                for mine in ('S', 'N'): out.append(Case('%s assign [%s] [%s]' % (cls, s, mine), copy_case(cls, 'operator=', s, mine)))
            out.append(Case('%s assign self' % cls, copy_case(cls, 'operator=', 'S', 'S', True)))
        for z in (0, 1):
            out.append(Case('%s append%s' % (cls, ' self' if z else ''), append_case(cls, z)))
            out.append(Case('%s ctor %d' % (cls, z), ctor_case(cls, z)))
            out.append(Case('%s CreateNode %d' % (cls, z), create_case(cls, z)))
        for m in ('First', 'Last', 'GetSize'): out.append(Case('%s::%s' % (cls, m), get_case(cls, m)))
        for m in ('Next',) + (() if q else ('Prev',)): out.append(Case('%sNode::%s' % (cls, m), step_case(cls, m)))
    return out
PROPS = {'C14': c14}
EXPLAIN = {'C14': 'shape analysis: the list is an arbitrary-length segment that is split on demand into explicit nodes; loops fold nodes back into segments'}
