"""C07: UTF-8 conversion buffers.  C08: UTF-8 content."""
from spec import *
import itertools
NS = 'CubicleSoft::'; U64 = (1 << 64) - 1
UT = NS + 'UTF8::Util::'
RADIX = (2, 32, 64, 16, 4, 1 << 14)      # code point = f + 2e + 64b + 4096c + 65536w + 262144u
WGT = (1, 2, 64, 4096, 65536, 262144)
def boxes(lo, hi):
    """the interval as a list of boxes over the digits"""
    out = []
    def rec(i, lo, hi, top):
        if i < 0: out.append(tuple(top)); return
        w = WGT[i]; a, b = lo // w, hi // w; full = w - 1
        if lo % w == 0 and hi % w == full: out.append(tuple([(0, r - 1) for r in RADIX[:i]] + [(a, b)] + top)); return
        if a == b: rec(i - 1, lo % w, hi % w, [(a, a)] + top); return
        s, e = a, b
        if lo % w: rec(i - 1, lo % w, full, [(a, a)] + top); s += 1
        if hi % w != full: e -= 1
        if s <= e: out.append(tuple([(0, r - 1) for r in RADIX[:i]] + [(s, e)] + top))
        if hi % w != full: rec(i - 1, 0, hi % w, [(b, b)] + top)
    rec(5, lo, hi, [])
    return out
def kind(cp):
    if cp > 0x10FFFF or 0xD800 <= cp <= 0xDFFF or 0xFDD0 <= cp <= 0xFDEF or cp & 0xFFFE == 0xFFFE: return 'bad'
    if 0x300 <= cp <= 0x36F or 0x1DC0 <= cp <= 0x1DFF or 0x20D0 <= cp <= 0x20FF or 0xFE20 <= cp <= 0xFE2F: return 'comb'
    return 'ok'
def ulen(cp): return 1 if cp <= 0x7F else 2 if cp <= 0x7FF else 3 if cp <= 0xFFFF else 4
def allboxes():
    ed = sorted({0, 1, 0x80, 0x800, 0x300, 0x370, 0x1DC0, 0x1E00, 0x20D0, 0x2100, 0xD800, 0xDC00, 0xE000, 0xFDD0, 0xFDF0, 0xFE20, 0xFE30, 0xFFFE, 0x10000})
    out = []
    for lo, hi in zip(ed, ed[1:]):
        for b in boxes(lo, hi - 1): out.append((b, kind(lo), ulen(lo)))
    for u, w in (((0, 0), (1, 3)), ((1, 3), (0, 3)), ((4, 4), (0, 0))):
        for c, b, e, k in (((0, 14), (0, 63), (0, 31), 'ok'), ((15, 15), (0, 62), (0, 31), 'ok'), ((15, 15), (63, 63), (0, 30), 'ok'), ((15, 15), (63, 63), (31, 31), 'bad')): out.append((((0, 1), e, b, c, w, u), k, 4))
    return out
BOX = allboxes()
def box_of(cp): return next((b, k, l) for b, k, l in BOX if all(lo <= d <= hi for d, (lo, hi) in zip(digs(cp), b)))
def digs(cp):
    out = []
    for i, w in enumerate(WGT): out.append(cp // w % RADIX[i] if i < 5 else cp // w)
    return out
class CP:
    """a symbolic code point"""
    def __init__(self, name, box):
        self.box, self.kind, self.len = box
        self.d = [C(lo) if lo == hi else V(newvar('%s.%s' % (name, n), lo, hi)) for n, (lo, hi) in zip('febcwu', self.box)]
        f, e, b, c, w, u = self.d; self.low = f + e.scale(2)
        self.cp = self.low + b.scale(64) + c.scale(4096) + w.scale(65536) + u.scale(262144)
    def utf8(self, n=None):
        f, e, b, c, w, u = self.d; n = n or self.len
        if n == 1: return [self.cp]
        if n == 2: return [b + 0xC0, self.low + 0x80]
        if n == 3: return [c + 0xE0, b + 0x80, self.low + 0x80]
        return [u + 0xF0, w.scale(16) + c + 0x80, b + 0x80, self.low + 0x80]
    def nochar(self): return self.kind == 'bad' and (self.box[3:5] == ((13, 13), (0, 0)) and self.box[2][0] >= 32 or self.box[5][0] > 4 or self.box[5][0] == 4 and self.box[4][0] > 0)
    def utf16(self):
        """units; characters beyond the first plane are made by Pair"""
        return [self.cp]
    def units(self, w): return self.utf8() if w == 1 else self.utf16() if w == 2 else [self.cp]
class Pair(CP):
    """a code point given as a surrogate pair"""
    def __init__(self, name, kind_='ok'):
        # cp = 0x10000 + h*1024 + l;  h = 256u' + 64w' + 4c + g (w = w', u = u' after adding the offset is split by plane); l = 64bl + 2e + f
        self.kind = kind_; self.len = 4
        v = lambda n, lo, hi: C(lo) if lo == hi else V(newvar('%s.%s' % (name, n), lo, hi))
        self.v = v
    @staticmethod
    def variants():
        """(plane u, plane w as (lo, hi) of the code point; c; g; bl; e; kind)"""
        out = []
        for u, w in (((0, 0), (1, 3)), ((1, 3), (0, 3)), ((4, 4), (0, 0))):
            for c, g, bl, e, k in (((0, 14), (0, 3), (0, 15), (0, 31), 'ok'), ((15, 15), (0, 2), (0, 15), (0, 31), 'ok'), ((15, 15), (3, 3), (0, 14), (0, 31), 'ok'), ((15, 15), (3, 3), (15, 15), (0, 30), 'ok'), ((15, 15), (3, 3), (15, 15), (31, 31), 'bad')):
                out.append((u, w, c, g, bl, e, k))
        return out
    def fill(self, var):
        u, w, c, g, bl, e, k = var; v = self.v; self.kind = k
        u, w, c, g, bl, e, f = v('u', *u), v('w', *w), v('c', *c), v('g', *g), v('bl', *bl), v('e', *e), v('f', 0, 1)
        self.low = f + e.scale(2); b = g.scale(16) + bl
        self.d = [f, e, b, c, w, u]
        self.cp = self.low + b.scale(64) + c.scale(4096) + w.scale(65536) + u.scale(262144)
        h = u.scale(256) + w.scale(64) - 64 + c.scale(4) + g
        self.pair = [h + 0xD800, bl.scale(64) + self.low + 0xDC00]
        return self
    def utf16(self): return self.pair
class Raw:
    """source units that are no character by themselves: dropped"""
    def __init__(self, units): self.u = units; self.kind = 'bad'; self.len = 0
    def units(self, w): return self.u
    def utf8(self): return []
    def utf16(self): return []
def mk(name, what):
    if isinstance(what, str):
        if what == 'A': return CP(name, next(x for x in BOX if x[0] == boxes(1, 0x7F)[0] or x[1] == 'ok' and x[2] == 1 and x[0][1] != (0, 0)))
        if what == 'Z': return CP(name, (boxes(0, 0)[0], 'ok', 1))
    if isinstance(what, tuple) and what[0] == 'pair': return Pair(name).fill(what[1])
    if isinstance(what, tuple) and what[0] == 'raw': return Raw([C(x[0]) if x[0] == x[1] else V(newvar('%s.%d' % (name, i), *x)) for i, x in enumerate(what[1])])
    if isinstance(what, tuple) and what[0] == 'over':
        return Raw(CP(name, what[1]).utf8(what[2]))
    return CP(name, what)
def fill(S, r, units, w):
    for i, u in enumerate(units): r.cells[i * w] = (w, u)
def getunit(eng, T, p, i, w):
    l = eng.load(T.copy(), PtrV(p.r, p.o + i * w), ir.IntTy(8 * w)); return l[0][1] if l else None
def same(T, c, e, w):
    if not isinstance(c, Lin): return False
    d = T.st.norm(c - e)
    if d.isconst(): return d.c % (1 << (8 * w)) == 0
    return T.st.entails_eq(d)
def outputs(chars, w, cap, stop):
    """accepted outputs: (list of units per kept char); stop: a character that is not allowed ends the conversion"""
    res = []
    for mode in ('skip', 'stop'):
        out = []
        for c in chars:
            if c.kind == 'bad' or (c.kind == 'comb' and not out):
                if stop and not isinstance(c, Raw): break
                continue
            u = c.utf8() if w == 1 else c.utf16() if w == 2 else [c.cp]
            if cap is not None and len(out) + len(u) > cap:
                if mode == 'stop' or stop: break
                continue
            out += u
        res.append(out)
    return res
def conv_case(way, w, what, dest, lastpos=False):
    """way 'to': units of width w to UTF-8; 'from': UTF-8 to units of width w; dest: None (measure) or capacity relative to the full output"""
    def run(sp):
        eng = sp.engine(); S = State(); eng.unroll = {'': 40}
        cs = [mk('c%d' % i, x) for i, x in enumerate(what)]
        src = [u for c in cs for u in c.units(w if way == 'to' else 1)]; sw = w if way == 'to' else 1; dw = 1 if way == 'to' else w
        fullo = outputs(cs, dw, None, way == 'from')[0]; cap = None if dest is None else max(0, len(fullo) + dest)
        r = S.new_region('input', 'SrcData', C(len(src) * sw)); fill(S, r, src, sw)
        z = S.new_region('stackobj', 'DestDataSize', C(8)); z.cells[0] = (8, C(cap) if cap is not None else V(newvar('size', 0, U64)))
        d = NULL if cap is None else buf(S, 'DestData', C(cap * dw), 'output'); zp = PtrV(z.rid, ZERO); lp = NULL
        if way == 'to':
            if lastpos: lr = S.new_region('stackobj', 'LastPos', C(8)); lr.cells[0] = (8, C(777)); lp = PtrV(lr.rid, ZERO)
            sg = UT + 'ConvertToUTF8(void const*, unsigned long, unsigned long, unsigned char*, unsigned long&, unsigned long*)'; a = [PtrV(r.rid, ZERO), C(len(src)), C(w), d, zp, lp]
        else: sg = UT + 'ConvertFromUTF8(unsigned char const*, unsigned long, void*, unsigned long&, unsigned long)'; a = [PtrV(r.rid, ZERO), C(len(src)), d, zp, C(w)]
        fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); nm = sg.split('(')[0]
        rets = eng.call(S, fn, a); acc = outputs(cs, dw, cap, way == 'from')
        for T, _ in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            n = T.mem[z.rid].cells.get(0); n = T.st.norm(n[1]) if n and isinstance(n[1], Lin) else None
            ok = [o for o in acc if n is not None and n.isconst() and n.c == len(o)]
            ob(bool(ok), 'utf-size', 'the reported size is that of the converted characters, %s' % ('measured' if cap is None else 'written'))
            if cap is None or not ok: continue
            ob(any(all(same(T, getunit(eng, T, d, i, dw), e, dw) for i, e in enumerate(o)) for o in ok), 'utf-content', 'exactly the characters of the source that are allowed are written, each in full')
            if lastpos and w == 1:
                pos = 0; last = 777; out = 0
                for c in cs:
                    pos += len(c.units(1))
                    if c.kind == 'bad' or (c.kind == 'comb' and not out): continue
                    if out + c.len <= cap: out += c.len; last = pos
                x = T.mem[lr.rid].cells.get(0); ob(x is not None and isinstance(x[1], Lin) and T.st.entails_eq(x[1] - last), 'utf-last', 'the position after the last converted character is reported')
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run
def alloc_case(way, w, what, alt):
    def run(sp):
        eng = sp.engine(); S = State(); eng.unroll = {'': 40}; got = []
        cs = [mk('c%d' % i, x) for i, x in enumerate(what)]; sw = w if way == 'to' else 1; dw = 1 if way == 'to' else w
        src = [u for c in cs for u in c.units(sw)] + [ZERO]
        r = S.new_region('input', 'SrcData', C(len(src) * sw)); fill(S, r, src, sw)
        if sw == 1: r.nul = C(len(src) - 1)
        mgr = buf(S, 'AltMallocManager', C(8), 'input')
        def am(e, S, I, a, *x):
            e.ob(a[0] == mgr, 'utf-alloc', 'the allocation function gets its manager', S)
            q = S.new_region('heap', 'alt', S.st.norm(a[1])); q.tags = {'by': 'alt'}; return [(S, PtrV(q.rid, ZERO))]
        eng.models['altmalloc'] = am
        lp = [NULL] if way == 'to' else []
        sg = UT + ('ConvertToUTF8(void const*, unsigned long, unsigned long*, void*, void* (*)(void*, unsigned long))' if way == 'to' else 'ConvertFromUTF8(char const*, unsigned long, void*, void* (*)(void*, unsigned long))')
        fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); nm = sg.split('(')[0]
        rets = eng.call(S, fn, [PtrV(r.rid, ZERO), C(w)] + lp + ([mgr, FnV('altmalloc')] if alt else [NULL, NULL]))
        exp = outputs(cs, dw, None, way == 'from')[0] + [ZERO]
        for T, v in rets:
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
            ok = isinstance(v, PtrV) and T.mem[v.r].kind == 'heap' and T.st.entails_eq(v.o) and T.mem[v.r].tags.get('by') == ('alt' if alt else 'new[]') and not T.mem[v.r].freed
            ob(ok, 'utf-alloc', 'newly allocated memory is returned')
            if not ok: continue
            ob(T.st.entails(T.mem[v.r].size - len(exp) * dw), 'utf-alloc', 'the memory holds the whole text and its end')
            if not T.st.entails(T.mem[v.r].size - len(exp) * dw): continue
            ob(all(same(T, getunit(eng, T, v, i, dw), e, dw) for i, e in enumerate(exp)), 'utf-content', 'exactly the characters of the source that are allowed are returned, with a zero at the end')
        for T, v in rets:
            for rid, R in T.mem.items(): eng.ob(R.kind != 'heap' or (isinstance(v, PtrV) and v.r == rid), 'utf-alloc', 'nothing but the result is allocated', T, where=loc, fn=nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run
def any_case(way, w, null):
    """any source, any capacity"""
    def run(sp):
        eng = sp.engine(); S = State(); n = V(newvar('SrcDataSize', 0, 1 << 40)); cap = V(newvar('DestDataSize', 0, 1 << 40)); sw = w if way == 'to' else 1; dw = 1 if way == 'to' else w
        r = S.new_region('input', 'SrcData', n.scale(sw)); z = S.new_region('stackobj', 'DestDataSize', C(8)); z.cells[0] = (8, cap)
        d = NULL if null else buf(S, 'DestData', cap.scale(dw), 'output'); lr = S.new_region('stackobj', 'LastPos', C(8)); lr.cells[0] = (8, ZERO)
        if way == 'to': sg = UT + 'ConvertToUTF8(void const*, unsigned long, unsigned long, unsigned char*, unsigned long&, unsigned long*)'; a = [PtrV(r.rid, ZERO), n, C(w), d, PtrV(z.rid, ZERO), PtrV(lr.rid, ZERO)]
        else: sg = UT + 'ConvertFromUTF8(unsigned char const*, unsigned long, void*, unsigned long&, unsigned long)'; a = [PtrV(r.rid, ZERO), n, d, PtrV(z.rid, ZERO), C(w)]
        fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); nm = sg.split('(')[0]
        rets = eng.call(S, fn, a)
        for T, _ in rets:
            x = T.mem[z.rid].cells.get(0)
            if not null: eng.ob(x is not None and isinstance(x[1], Lin) and T.st.entails(x[1]) and T.st.entails(cap - x[1]), 'utf-size', 'the reported size never exceeds the capacity', T, where=loc, fn=nm)
        sp.exist(rets, 'returns', loc, nm, 'returns')
        sp.absorb(eng, nm, len(rets))
    return run
def badwidth_case(sg, mkargs):
    def run(sp):
        eng = sp.engine(); S = State(); fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); nm = sg.split('(')[0]
        for w in (0, 3, 8):
            S = State(); a = mkargs(S, C(w)); rets = eng.call(S, fn, a)
            for T, v in rets:
                eng.ob(v is None or (isinstance(v, Lin) and T.st.norm(v) == NULL), 'utf-alloc', 'an unknown width is refused', T, where=loc, fn=nm)
                for rid, R in T.mem.items(): eng.ob(R.kind != 'heap' or R.freed, 'utf-alloc', 'nothing stays allocated when a width is refused', T, where=loc, fn=nm)
        sp.exist(True, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, 1)
    return run

GOOD = [x for x in BOX if x[1] == 'ok']; PICK = {}
def pick():
    """one box of every encoded length and kind"""
    out = {}
    for b in BOX:
        if b[0] == boxes(0, 0)[0]: continue
        out.setdefault((b[1], b[2]), b)
    return out
PK = pick()
RAWS = [('stray continuation', [(0x80, 0xBF)]), ('invalid lead', [(0xF8, 0xFF)]), ('cut 2', [(0xC2, 0xDF)]), ('cut 3', [(0xE0, 0xEF)]), ('cut 3b', [(0xE0, 0xEF), (0x80, 0xBF)]), ('cut 4', [(0xF0, 0xF7)]), ('cut 4b', [(0xF0, 0xF7), (0x80, 0xBF)]), ('cut 4c', [(0xF0, 0xF7), (0x80, 0xBF), (0x80, 0xBF)])]
OVER = [(n, (b, 'bad', n), n) for n, hi in ((2, 0x7F), (3, 0x7FF), (4, 0xFFFF)) for b in boxes(0, hi)]
def nm_of(x):
    if isinstance(x, str): return x
    if x[0] in ('raw',): return 'raw%s' % (x[1],)
    if x[0] == 'pair': return 'pair%s' % (x[1],)
    if x[0] == 'over': return 'overlong%d %s' % (x[2], x[1][0])
    b = x[0]; lo = sum(l * w for (l, h), w in zip(b, WGT)); hi = sum(h * w for (l, h), w in zip(b, WGT)); return '%X..%X %s' % (lo, hi, x[1])
def sources(w):
    """all single characters and malformed pieces of a source of this width"""
    out = list(BOX)
    if w == 2:
        out = [b for b in BOX if b[2] < 4 and not (b[0][3] == (13, 13) and b[0][2][0] >= 32)] + [('pair', v) for v in Pair.variants()]
        out += [('raw', [(0xDC00, 0xDFFF)]), ('raw', [(0xD800, 0xDBFF)])]
    if w == 4: out += [(b, 'bad', 4) for b in boxes(0x110000, 0xFFFFFFFF)]
    if w == 1: out += [('raw', r) for _, r in RAWS] + [('over', b, n) for _, b, n in OVER] + [(b, 'bad', 4) for b in boxes(0x110000, 0x1FFFFF)]
    return out
def c08():
    out = []
    for w in (1, 2, 4):
        for x in sources(w):
            for ctx in ([x], ['A', x], ['A', x, 'A'], [x, x], ['Z', x]):
                if isinstance(x, tuple) and x[0] == 'raw' and len(ctx) == 2 and ctx[0] is x: continue
                out.append(Case('to %d: %s' % (w, ' | '.join(nm_of(y) for y in ctx)), conv_case('to', w, ctx, 5, lastpos=ctx != [x])))
        for x in wide(sources(1), w):
            for ctx in ([x], ['A', x], ['A', x, 'A']): out.append(Case('from %d: %s' % (w, ' | '.join(nm_of(y) for y in ctx)), conv_case('from', w, ctx, 5)))
    out += parser_cases()
    return out
def c07():
    out = []
    for w in (1, 2, 4):
        for null in (0, 1):
            out.append(Case('to %d any%s' % (w, ' measure' if null else ''), any_case('to', w, null))); out.append(Case('from %d any%s' % (w, ' measure' if null else ''), any_case('from', w, null)))
        ss = [v for k, v in PK.items() if not (w == 2 and (v[2] == 4 or kind_sur(v)))] + ([('pair', v) for v in Pair.variants()[:1] + Pair.variants()[4:5]] if w == 2 else [])
        if w == 1: ss += [('raw', r) for _, r in RAWS]
        for x in ss:
            for ctx in ([x], ['A', x], ['A', x, 'A'], [x, 'A', x]):
                for dest in (None, 0, -1, -2, -3, 3): out.append(Case('to %d dest %s: %s' % (w, dest, ' | '.join(nm_of(y) for y in ctx)), conv_case('to', w, ctx, dest)))
        for x in wide(list(PK.values()), w) + [('raw', r) for _, r in RAWS]:
            for ctx in ([x], ['A', x], ['A', x, 'A'], [x, 'A', x]):
                for dest in (None, 0, -1, -2, 3): out.append(Case('from %d dest %s: %s' % (w, dest, ' | '.join(nm_of(y) for y in ctx)), conv_case('from', w, ctx, dest)))
        for alt in (0, 1):
            for ctx in ([], ['A'], [PK['ok', 2], 'A'], ['A', PK['ok', 3]], [PK['ok', 3], PK['ok', 2]], ['A', PK['bad', 3], 'A'], ['A', ('pair', Pair.variants()[0]) if w == 2 else PK['ok', 4], 'A']):
                out.append(Case('alloc to %d alt %d: %s' % (w, alt, ' | '.join(nm_of(y) for y in ctx)), alloc_case('to', w, ctx, alt)))
            for ctx in ([], ['A'], [PK['ok', 2], 'A'], ['A', PK['ok', 3]], [PK['ok', 3], PK['ok', 2]], ['A', PK['bad', 3], 'A'], ['A'] + wide([PK['ok', 4]], w)[:1] + ['A']):
                out.append(Case('alloc from %d alt %d: %s' % (w, alt, ' | '.join(nm_of(y) for y in ctx)), alloc_case('from', w, ctx, alt)))
    def m1(S, w): r = S.new_region('input', 'SrcData', C(8)); r.cells[0] = (8, ZERO); r.nul = ZERO; return [PtrV(r.rid, ZERO), w, NULL, NULL, NULL]
    def m2(S, w): return m1(S, w)[:2] + [NULL, NULL]
    out.append(Case('alloc to bad width', badwidth_case(UT + 'ConvertToUTF8(void const*, unsigned long, unsigned long*, void*, void* (*)(void*, unsigned long))', m1)))
    out.append(Case('alloc from bad width', badwidth_case(UT + 'ConvertFromUTF8(char const*, unsigned long, void*, void* (*)(void*, unsigned long))', m2)))
    return out
def wide(l, w):
    if w != 2: return l
    out = [x for x in l if not (isinstance(x[0], tuple) and x[1] == 'ok' and x[2] == 4)]
    return out + ([('pair', v) for v in Pair.variants()] if len(out) < len(l) else [])
def kind_sur(v): return v[1] == 'bad' and v[2] == 3 and v[0][3] == (13, 13)

# ---------------------------------------------------------------- parsing
def parse(cs):
    """oracle: list of (char, next is combining) until the end; None at a piece that is no character"""
    out = []
    none = lambda c: isinstance(c, Raw) or c.nochar()
    if not cs or none(cs[0]) or cs[0].kind == 'comb': return out
    for i, c in enumerate(cs):
        nx = cs[i + 1] if i + 1 < len(cs) else None
        out.append((c, nx is not None and nx.kind == 'comb'))
        if nx is None or none(nx): break
    return out
def strsrc(S, cs):
    src = [u for c in cs for u in c.units(1)] + [ZERO]
    r = S.new_region('input', 'Str', C(len(src))); fill(S, r, src, 1); r.nul = C(len(src) - 1)
    return PtrV(r.rid, ZERO)
def next_case(what, ascii_=False):
    def run(sp):
        eng = sp.engine(); S = State(); eng.unroll = {'': 40}; cs = [mk('c%d' % i, x) for i, x in enumerate(what)]; p = strsrc(S, cs)
        cell = lambda n, sz: PtrV(S.new_region('stackobj', n, C(sz)).rid, ZERO)
        rc, nc, pos, size, comb = cell('ResultCP', 1 if ascii_ else 4), cell('NextCP', 4), cell('Pos', 8), cell('Size', 8), cell('HasCombiningCP', 1)
        S.w(pos.r).cells[0] = (8, ZERO)
        sg = UT + ('NextASCIICodePoint(char&, unsigned int&, char const*, unsigned long&, unsigned long&)' if ascii_ else 'NextCodePoint(unsigned int&, unsigned int&, char const*, unsigned long&, unsigned long&, bool&)')
        fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); nm = sg.split('(')[0]
        exp = parse(cs)
        if ascii_: exp = [(c, k) for c, k in exp if c.len == 1 and not k]
        cur = [S]
        for step in range(len(exp) + 1):
            nx = []
            for T0 in cur:
                for T1, v in eng.call(T0, fn, [rc, nc, p, pos, size] + ([] if ascii_ else [comb])):
                    for T, v in eng.toint(T1, v):
                        ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=nm)
                        ob(isinstance(v, Lin) and T.st.entails_eq(v - int(step < len(exp))), 'utf-parse', 'every character is reported, and the end')
                        if step == len(exp) or not (isinstance(v, Lin) and T.st.norm(v) == C(1)): continue
                        c, k = exp[step]
                        x = getunit(eng, T, rc, 0, 1 if ascii_ else 4); ob(isinstance(x, Lin) and same(T, x, c.cp, 1 if ascii_ else 4), 'utf-parse', 'the code point of the character is reported')
                        if not ascii_:
                            y = getunit(eng, T, comb, 0, 1); ob(isinstance(y, Lin) and T.st.entails_eq(y - int(k)), 'utf-parse', 'a following combining character is reported')
                        nx.append(T)
            cur = nx
        sp.exist(True, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, len(cur))
    return run
def strlen_case(what):
    def run(sp):
        eng = sp.engine(); S = State(); eng.unroll = {'': 40}; cs = [mk('c%d' % i, x) for i, x in enumerate(what)]; p = strsrc(S, cs)
        fn = sp.mod.find(UT + 'strlen(char const*)'); loc = sp.mod.loc_fn(fn); nm = UT + 'strlen'; n = sum(1 for c, k in parse(cs) if not k)
        rets = eng.call(S, fn, [p])
        for T, v in rets: eng.ob(isinstance(v, Lin) and T.st.entails_eq(v - n), 'utf-strlen', 'characters are counted without combining ones', T, where=loc, fn=nm)
        sp.exist(rets, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, len(rets))
    return run
def findcp_case(what, target, allow):
    """target: index of a character in the string, or a box of another code point"""
    def run(sp):
        eng = sp.engine(); S = State(); eng.unroll = {'': 40}; cs = [mk('c%d' % i, x) for i, x in enumerate(what)]; p = strsrc(S, cs)
        t = cs[target] if isinstance(target, int) else mk('t', target); rp = PtrV(S.new_region('stackobj', 'ResultPos', C(8)).rid, ZERO)
        fn = sp.mod.find(UT + 'FindCodePoint(unsigned long&, unsigned int, char const*, bool)'); loc = sp.mod.loc_fn(fn); nm = UT + 'FindCodePoint'
        rets = eng.call(S, fn, [rp, t.cp, p, C(allow)])
        for T0, v in rets:
            for T, v in eng.toint(T0, v):
                st = []
                for c, k in parse(cs):
                    d = T.st.norm(c.cp - t.cp); e = True if T.st.entails_eq(d) else False if T.st.entails_ne(d) else None
                    st.append(False if k and not allow else e)
                if not allow and t.kind == 'comb': st = [False]
                # the search stops at the first match
                want = None
                for e in st:
                    if e is True: want = True; break
                    if e is None: break
                else: want = False
                eng.ob(want is not None and isinstance(v, Lin) and T.st.entails_eq(v - int(want)), 'utf-find', 'a code point is found exactly if the string contains it', T, where=loc, fn=nm)
        sp.exist(rets, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, len(rets))
    return run
def comb_case(x):
    def run(sp):
        eng = sp.engine(); S = State(); c = mk('c', x); fn = sp.mod.find(UT + 'IsCombiningCodePoint(unsigned int)'); loc = sp.mod.loc_fn(fn); nm = UT + 'IsCombiningCodePoint'
        for T0, v in eng.call(S, fn, [c.cp]):
            for T, v in eng.toint(T0, v): eng.ob(isinstance(v, Lin) and T.st.entails_eq(v - int(c.kind == 'comb')), 'utf-comb', 'exactly the combining code points are recognised', T, where=loc, fn=nm)
        sp.exist(True, 'returns', loc, nm, 'returns'); sp.absorb(eng, nm, 1)
    return run
def parser_cases():
    out = []
    K1, K2, K3, K4 = PK['ok', 1], PK['ok', 2], PK['ok', 3], PK['ok', 4]; CB = [b for b in BOX if b[1] == 'comb']
    seqs = [[], ['A'], ['A', 'A'], ['A', 'A', 'A']] + [[x] for x in BOX if x[1] != 'bad' and x[0] != boxes(0, 0)[0]] + [['A', x] for x in BOX if x[1] != 'bad' and x[0] != boxes(0, 0)[0]] + [['A', CB[0], 'A'], [K3, CB[1], K2], ['A', CB[2], CB[0], 'A'], [K4, K4], [K2, K3, K4, 'A']]
    bad = [('over', b, n) for _, b, n in OVER] + [(b, 'bad', 4) for b in boxes(0x110000, 0x1FFFFF)] + [x for x in BOX if x[1] == 'bad']
    seqs += [c for x in bad for c in ([x], ['A', x], [K3, x, 'A'])]
    seqs += [['A', ('raw', r)] for _, r in RAWS] + [[('raw', r)] for _, r in RAWS] + [['A', ('raw', r), 'A'] for _, r in RAWS if r[-1][1] >= 0xC0 or len(r) > 1 or r[0][0] == 0x80]
    for s in seqs:
        n = ' | '.join(nm_of(x) for x in s)
        out.append(Case('next ' + n, next_case(s))); out.append(Case('ascii ' + n, next_case(s, True))); out.append(Case('strlen ' + n, strlen_case(s)))
    for s in ([], ['A'], ['A', 'A'], [K3, CB[0], 'A'], [K2, K3, K4], ['A', CB[0]]):
        for al in (0, 1):
            for t in list(range(len(s))) + ['A', K3, CB[0]]: out.append(Case('find %s in %s allow %d' % (t if isinstance(t, int) else nm_of(t), ' | '.join(nm_of(x) for x in s), al), findcp_case(s, t, al)))
    for x in BOX: out.append(Case('combining ' + nm_of(x), comb_case(x)))
    return out
PROPS = {'C07': c07, 'C08': c08}
