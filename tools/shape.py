"""Shape domain: list segments of any length next to materialised nodes.
A segment s is a chain of n >= 0 nodes.  SegV(s,'f') is the address of its first node (of what follows it if it is empty),
SegV(s,'l') that of its last (of what precedes it if it is empty).  S.mon[('seg', s)] = (prev, next, n, sum of values)."""
from engine import *
from lin import *
import engine as E_

_sid = [0]
def newsid():
    _sid[0] += 1
    return 'n%d' % _sid[0]

class Shape:
    def __init__(self, eng, size, nxt, prv, val, vsize=8):
        self.eng = eng; self.size = size; self.nxt = nxt; self.prv = prv; self.val = val; self.vs = vsize
        self.heads = []          # (rid, first offset, last offset)
        eng.seg_cmp = self.seg_cmp; eng.seg_deref = self.seg_deref; eng.shape = self
        eng.head_hooks.append(self.at_head)
    # ---- construction
    def seg(self, S, prev, nxt, name='n', nonempty=False):
        s = newsid()
        n = V(newvar(name, 1 if nonempty else 0, BIGALLOC)); q = V(newvar('sum', None, None))
        S.mon[('seg', s)] = (prev, nxt, n, q)
        return s
    def node(self, S, prev, nxt, v=None, name='node'):
        r = S.new_region('heap', name, C(self.size)); r.tags = {'by': 'new'}
        r.cells[self.nxt] = (8, nxt)
        if self.prv is not None: r.cells[self.prv] = (8, prev)
        r.cells[self.val] = (self.vs, v if v is not None else V(newvar('value', 0, (1 << (8 * self.vs)) - 1)))
        self.eng.ptrcells.add(('ptrcell', r.rid, self.nxt))
        if self.prv is not None: self.eng.ptrcells.add(('ptrcell', r.rid, self.prv))
        return r
    # ---- substitution of values everywhere
    def sv(self, v, m):
        if isinstance(v, SegV): return m.get(v, v)
        if isinstance(v, PtrV):
            w = m.get(('r', v.r))
            if w is None: return v
            if isinstance(w, int): return PtrV(w, v.o)
            if v.o == ZERO: return w
            return ('segoff', w, v.o)
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'segoff':
                w = m.get(v[1])
                if w is None: return v
                if isinstance(w, PtrV): return PtrV(w.r, w.o + v[2])
                if isinstance(w, Lin): return w + v[2]
                return ('segoff', w, v[2])
            return tuple(self.sv(x, m) for x in v)
        if isinstance(v, AggV): return AggV([self.sv(x, m) for x in v.e])
        return v
    def subst(self, S, m):
        S.regs = {k: self.sv(v, m) for k, v in S.regs.items()}
        S.outer = tuple({k: self.sv(v, m) for k, v in d.items()} for d in S.outer)
        for rid, R in list(S.mem.items()):
            if R.kind == 'global': continue
            hit = {}
            for o, (s, v) in R.cells.items():
                if isinstance(v, (SegV, PtrV, tuple, AggV)):
                    w = self.sv(v, m)
                    if w is not v and w != v: hit[o] = (s, w)
            sym = tuple((o, s, self.sv(v, m)) for o, s, v in R.sym)
            if hit or sym != R.sym:
                R = S.w(rid); R.cells.update(hit); R.sym = sym
        for k, v in list(S.mon.items()):
            if isinstance(v, (SegV, PtrV, tuple, AggV)): S.mon[k] = self.sv(v, m)
    def track(self, S, sid, new):
        """rewrite segment sid in the recorded sequences"""
        for k, v in list(S.mon.items()):
            if isinstance(k, tuple) and k[0] == 'seq':
                out = []
                for x in v:
                    if x == ('E', sid): out += new
                    else: out.append(x)
                S.mon[k] = tuple(out)
    # ---- materialisation
    def mat(self, S, sv, extra):
        """resolve one segment end: list of (state, extra values)"""
        k = ('seg', sv.s)
        if k not in S.mon: raise AnalysisError('lost segment')
        prev, nxt, n, q = S.mon[k]
        out = []
        T = S.copy()
        try:
            T.st.eq(n); T.st.eq(q)
            if not n.t or T.st.feasible(n.vars()):
                del T.mon[k]
                self.track(T, sv.s, [])
                m = {SegV(sv.s, 'f'): nxt, SegV(sv.s, 'l'): prev}
                self.subst(T, m)
                out.append((T, [self.sv(x, m) for x in extra]))
        except Infeasible: pass
        T = S
        try:
            T.st.ge(n - 1)
            if n.t and not T.st.feasible(n.vars()): return out
        except Infeasible: return out
        x = V(newvar('value', 0, (1 << (8 * self.vs)) - 1))
        if sv.end == 'f':
            X = self.node(T, prev, SegV(sv.s, 'f'), x, 'node')
            p = PtrV(X.rid, ZERO)
            m = {SegV(sv.s, 'f'): p}
            X.cells[self.nxt] = (8, NULL)
            self.subst(T, m)
            T.w(X.rid).cells[self.nxt] = (8, SegV(sv.s, 'f'))
            T.mon[k] = (p, self.sv(nxt, m), n - 1, q - x)
            self.track(T, sv.s, [p, ('E', sv.s)])
        else:
            X = self.node(T, SegV(sv.s, 'l'), nxt, x, 'node')
            p = PtrV(X.rid, ZERO)
            m = {SegV(sv.s, 'l'): p}
            if self.prv is not None: X.cells[self.prv] = (8, NULL)
            self.subst(T, m)
            if self.prv is not None: T.w(X.rid).cells[self.prv] = (8, SegV(sv.s, 'l'))
            T.mon[k] = (self.sv(prev, m), p, n - 1, q - x)
            self.track(T, sv.s, [('E', sv.s), p])
        out.append((T, [self.sv(y, m) for y in extra]))
        return out
    def resolve(self, S, vals):
        """until no value is a segment end"""
        work = [(S, vals)]; out = []
        while work:
            S, vals = work.pop()
            i = next((i for i, v in enumerate(vals) if isinstance(v, SegV) or isinstance(v, tuple) and v and v[0] == 'segoff'), None)
            if i is None: out.append((S, vals)); continue
            sv = vals[i] if isinstance(vals[i], SegV) else vals[i][1]
            work += self.mat(S, sv, vals)
        return out
    def seg_cmp(self, S, pred, a, b):
        if a == b: return [(S, CondV(('const', pred == 'eq')))]
        out = []
        for T, (x, y) in self.resolve(S, [a, b]): out += self.eng.icmp(T, pred, x, y, ir.PTR)
        return out
    def seg_deref(self, S, p):
        out = []
        for T, (q,) in self.resolve(S, [p]): out += self.eng.deref(T, q, 'access')
        return out
    # ---- walking a list
    def cell(self, S, rid, off):
        c = S.mem[rid].cells.get(off)
        return c[1] if c is not None and c[0] == 8 else None
    def walk(self, S, head):
        """(sequence of elements, None) or (partial, error)"""
        rid, fo, lo = head
        cur = self.cell(S, rid, fo); last = self.cell(S, rid, lo)
        prev = NULL; seq = []; seen = set()
        def isnull(v): return isinstance(v, Lin) and S.st.norm(v) == NULL
        def same(a, b): return a == b or (isnull(a) and isnull(b))
        while True:
            if isnull(cur):
                if not same(last, prev): return seq, 'the last pointer does not point to the last node'
                return seq, None
            if isinstance(cur, PtrV):
                R = S.mem.get(cur.r)
                if R is None or R.freed: return seq, 'a released node is still linked'
                if cur.o != ZERO or R.kind != 'heap': return seq, 'a link does not point to a node'
                if cur.r in seen: return seq, 'the links form a cycle'
                seen.add(cur.r)
                if self.prv is not None and not same(self.cell(S, cur.r, self.prv), prev): return seq, 'the previous link of a node does not point to its predecessor'
                seq.append(cur); prev = cur; cur = self.cell(S, cur.r, self.nxt)
            elif isinstance(cur, SegV) and cur.end == 'f':
                if cur in seen: return seq, 'the links form a cycle'
                seen.add(cur)
                rp, rn, n, q = S.mon[('seg', cur.s)]
                if not same(rp, prev) and not (self.prv is None and (not isnull(rn) or S.st.entails(n - 1))): return seq, 'the previous link of a node does not point to its predecessor'
                seq.append(('E', cur.s)); prev = SegV(cur.s, 'l'); cur = rn
            else: return seq, 'a link is lost or undefined'
    def count(self, S, seq):
        n = ZERO; q = ZERO
        for x in seq:
            if isinstance(x, PtrV):
                n = n + 1; c = S.mem[x.r].cells.get(self.val) if x.r in S.mem else None
                if q is not None and c is not None and isinstance(c[1], Lin): q = q + c[1]
                else: q = None
            elif x[0] == 'E':
                r = S.mon[('seg', x[1])]; n = n + r[2]
                if q is not None: q = q + r[3]
            else:
                n = n + x[1]
                if q is not None: q = q + x[2]
        return n, q
    # ---- folding at loop heads
    def at_head(self, eng, S):
        live = eng.cur_live
        if live is not None: S.regs = {k: v for k, v in S.regs.items() if k in live}
        if not eng.peel: self.fold(S)
        return [S]
    def places(self, S):
        """(kind, holder, value) of every pointer held anywhere"""
        hd = {(r, o): k for r, fo, lo in self.heads for o, k in ((fo, 'F'), (lo, 'L'))}
        for k, v in S.regs.items(): yield ('pin', k, v)
        for d in S.outer:
            for k, v in d.items(): yield ('pin', k, v)
        nodes = self.nodes(S)
        for rid, R in S.mem.items():
            if R.kind == 'global': continue
            for o, (s, v) in R.cells.items():
                if (rid, o) in hd: yield (hd[(rid, o)], ('h', rid, o), v)
                elif rid in nodes and o == self.nxt: yield ('F', ('n', rid), v)
                elif rid in nodes and o == self.prv: yield ('L', ('n', rid), v)
                else: yield ('pin', rid, v)
            for o, s, v in R.sym: yield ('pin', rid, v)
        for k, v in S.mon.items():
            if isinstance(k, tuple) and k[0] == 'seg':
                yield ('L', ('s', k[1]), v[0]); yield ('F', ('s', k[1]), v[1])
            elif isinstance(k, tuple) and k[0] == 'seq': pass
            else: yield ('pin', k, v)
    def nodes(self, S):
        return {rid for rid, R in S.mem.items() if R.kind == 'heap' and not R.freed and R.size == C(self.size) and self.nxt in R.cells}
    def flat(self, v):
        if isinstance(v, (PtrV, SegV)): yield v
        elif isinstance(v, tuple):
            for x in v: yield from self.flat(x)
        elif isinstance(v, AggV):
            for x in v.e: yield from self.flat(x)
    def fold(self, S):
        changed = True
        while changed:
            changed = False
            nodes = self.nodes(S)
            fw = {}; bw = {}; pin = set()
            for kind, h, v in self.places(S):
                for x in self.flat(v):
                    key = ('r', x.r) if isinstance(x, PtrV) else x
                    if kind == 'pin' or (isinstance(x, PtrV) and x.o != ZERO): pin.add(key)
                    elif kind == 'F': fw.setdefault(key, []).append(h)
                    else: bw.setdefault(key, []).append(h)
            # released nodes nobody refers to
            for rid, R in list(S.mem.items()):
                if R.kind == 'heap' and R.freed and not any(('r', rid) in z for z in (pin, fw, bw)):
                    for k, v in list(S.mon.items()):
                        if isinstance(k, tuple) and k[0] == 'seq' and any(x == PtrV(rid, ZERO) for x in v):
                            S.mon[k] = tuple(('D', ONE, R.tags.get('v', ZERO)) if x == PtrV(rid, ZERO) else x for x in v)
                    del S.mem[rid]
            for rid in sorted(nodes):
                if ('r', rid) in pin: continue
                f = fw.get(('r', rid), []); b = bw.get(('r', rid), [])
                if len(f) != 1 or len(b) > 1: continue
                R = S.mem[rid]
                nx = R.cells[self.nxt][1]
                h = f[0]
                pv = NULL if h[0] == 'h' else PtrV(h[1], ZERO) if h[0] == 'n' else SegV(h[1], 'l')
                if self.prv is not None:
                    c = R.cells.get(self.prv)
                    if c is None or c[1] != pv: continue
                if isinstance(nx, Lin):
                    if nx != NULL or len(b) != 1 or b[0][0] != 'h': continue
                elif isinstance(nx, PtrV):
                    if nx.r not in nodes or (self.prv is not None and b != [('n', nx.r)]) or (self.prv is None and b): continue
                elif isinstance(nx, SegV):
                    if b != [('s', nx.s)]: continue
                else: continue
                x = R.cells.get(self.val)
                if x is None or not isinstance(x[1], Lin): x = (0, V(newvar('value', None, None)))
                s = newsid()
                # forward references become the first, backward ones the last node of the new segment
                self.redirect(S, h, rid, SegV(s, 'f'), True)
                for g in b: self.redirect(S, g, rid, SegV(s, 'l'), False)
                S.mon[('seg', s)] = (pv, nx, ONE, x[1])
                for k, v in list(S.mon.items()):
                    if isinstance(k, tuple) and k[0] == 'seq': S.mon[k] = tuple(('E', s) if y == PtrV(rid, ZERO) else y for y in v)
                del S.mem[rid]
                changed = True
                break
            if changed: continue
            segs = [k[1] for k in S.mon if isinstance(k, tuple) and k[0] == 'seg']
            for s in segs:
                p, nx, n, q = S.mon[('seg', s)]
                if not isinstance(nx, SegV) or nx.end != 'f': continue
                t = nx.s
                if S.mon[('seg', t)][0] != SegV(s, 'l'): continue
                if nx in pin or SegV(s, 'l') in pin or len(fw.get(nx, [])) != 1 or len(bw.get(SegV(s, 'l'), [])) != 1: continue
                if not self.adjacent(S, s, t): continue
                p2, n2, c2, q2 = S.mon[('seg', t)]
                del S.mon[('seg', t)]
                S.mon[('seg', s)] = (p, n2, n + c2, q + q2)
                m = {SegV(t, 'l'): SegV(s, 'l')}
                for k, v in list(S.mon.items()):
                    if isinstance(k, tuple) and k[0] == 'seq': S.mon[k] = tuple(y for y in v if y != ('E', t))
                self.subst(S, m)
                changed = True
                break
            if changed: continue
            for k, v in list(S.mon.items()):
                if isinstance(k, tuple) and k[0] == 'seq':
                    out = []
                    for y in v:
                        if out and isinstance(y, tuple) and y[0] == 'D' and isinstance(out[-1], tuple) and out[-1][0] == 'D': out[-1] = ('D', out[-1][1] + y[1], out[-1][2] + y[2])
                        else: out.append(y)
                    S.mon[k] = tuple(out)
        self.canon(S)
    def adjacent(self, S, s, t):
        for k, v in S.mon.items():
            if isinstance(k, tuple) and k[0] == 'seq':
                a = [i for i, y in enumerate(v) if y == ('E', s)]; b = [i for i, y in enumerate(v) if y == ('E', t)]
                if not a and not b: continue
                if len(a) != 1 or len(b) != 1 or b[0] != a[0] + 1: return False
        return True
    def redirect(self, S, h, rid, to, fwd):
        if h[0] == 'h': S.w(h[1]).cells[h[2]] = (8, to); self.eng.ptrcells.add(('ptrcell', h[1], h[2]))
        elif h[0] == 'n': S.w(h[1]).cells[self.nxt if fwd else self.prv] = (8, to)
        else:
            p, n, c, q = S.mon[('seg', h[1])]
            S.mon[('seg', h[1])] = (p, to, c, q) if fwd else (to, n, c, q)
    def canon(self, S):
        """names that do not depend on history"""
        order = []; seen = set()
        def visit(v):
            for x in self.flat(v):
                key = ('r', x.r) if isinstance(x, PtrV) else ('s', x.s)
                if key in seen: continue
                if isinstance(x, PtrV):
                    R = S.mem.get(x.r)
                    if R is None or R.kind != 'heap': continue
                    seen.add(key); order.append(key)
                    for o in sorted(R.cells): visit(R.cells[o][1])
                else:
                    seen.add(key); order.append(key)
                    r = S.mon.get(('seg', x.s))
                    if r: visit(r[1]); visit(r[0])
        for r, fo, lo in self.heads:
            if r in S.mem:
                for o in (fo, lo):
                    c = S.mem[r].cells.get(o)
                    if c: visit(c[1])
        for k in sorted(S.regs): visit(S.regs[k])
        for d in S.outer:
            for k in sorted(d): visit(d[k])
        for k in sorted(S.mon, key=repr):
            if not (isinstance(k, tuple) and k[0] in ('seg',)): visit(S.mon[k])
        m = {}; i = j = 0; rn = []; sn = {}
        for key in order:
            if key[0] == 'r':
                if S.mem[key[1]].size != C(self.size): continue
                i += 1; rn.append((key[1], -i))
            else:
                j += 1; sn[key[1]] = 'c%d' % j
        old = {r: S.mem.pop(r) for r, _ in rn}
        for r, t in rn:
            R = old[r].copy(); R.rid = t; R.name = 'node'
            E_._epoch[0] += 1; R.epoch = E_._epoch[0]
            S.mem[t] = R; m[('r', r)] = t
            for o in (self.nxt, self.prv):
                if o is not None: self.eng.ptrcells.add(('ptrcell', t, o))
        recs = {s: S.mon.pop(('seg', s)) for s in [k[1] for k in S.mon if isinstance(k, tuple) and k[0] == 'seg']}
        for s, r in recs.items(): S.mon[('seg', sn.get(s, s))] = r
        for s, t in sn.items():
            for e in 'fl': m[SegV(s, e)] = SegV(t, e)
        for k, v in list(S.mon.items()):
            if isinstance(k, tuple) and k[0] == 'seq': S.mon[k] = tuple(('E', sn.get(y[1], y[1])) if isinstance(y, tuple) and y[0] == 'E' else y for y in v)
        # simultaneous renaming: both maps go through fresh intermediate names
        mid = {}; back = {}
        for a, b in m.items():
            if isinstance(b, int): mid[a] = 10**9 + (-b); back[('r', 10**9 + (-b))] = b
            else: z = SegV('m' + b.s, b.end); mid[a] = z; back[z] = b
        self.subst(S, mid); self.subst(S, back)
