"""C04: integers to text."""
from spec import *
NS = 'CubicleSoft::'; U64 = (1 << 64) - 1
INT = NS + 'Convert::Int::'
U = 'unsigned long'
def digits(S, R, n, cls=None, neg=False):
    """a number of n digits in radix R: value and its digits, least significant first"""
    ds = []
    for i in range(n):
        lo, hi = (1 if i == n - 1 and n > 1 else 0), R - 1
        if i == n - 1: hi = min(hi, ((1 << 63) if neg else U64) // R ** i)
        if cls: lo, hi = (lo, min(hi, 9)) if cls[i] == 'l' else (max(lo, 10), hi)
        ds.append(V(newvar('digit%d' % i, lo, hi)))
    num = ZERO; f = 1
    for d in ds: num = num + d.scale(f); f *= R
    lim = (1 << 63) if neg else U64
    if f - 1 > lim: S.st.ge(C(lim) - num)
    if neg: S.st.ge(num - 1)
    S.mon['$digits'] = S.mon.get('$digits', ()) + ((num, ds, R),)
    return num, ds
def text_at(eng, T, buf, i):
    c = T.mem[buf.r].cells.get(i)
    return c[1] if c is not None and c[0] == 1 else None
def expect_text(eng, T, b, exp, ob):
    """exp: list of Lin bytes; a terminating zero is added"""
    R = T.mem[b.r]
    for i, e in enumerate(exp + [ZERO]):
        c = text_at(eng, T, b, i)
        if c is None:
            l = eng.load(T.copy(), PtrV(b.r, C(i)), ir.IntTy(8)); c = l[0][1] if l else None
        what = 'the text ends with a zero byte' if i == len(exp) else 'byte %d of the text is the digit, sign or separator that belongs there' % i
        ob(isinstance(c, Lin) and (T.st.entails_eq(c - e) or (T.st.norm(c).isconst() and T.st.norm(e).isconst() and (T.st.norm(c).c - T.st.norm(e).c) % 256 == 0)), 'int-text', what)
def tostring_case(R, n, sep, slack, neg=False, signed=False, cls=None):
    def run(sp):
        eng = sp.engine(); S = State(); eng.unroll = {'': 90}
        sg = INT + 'ToString(char*, unsigned long, %s, char, unsigned long)' % ('long' if signed else U)
        fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn)
        num, ds = digits(S, R, n, cls, neg)
        if signed and not neg:
            S.st.ge(C((1 << 63) - 1) - num)
        s = V(newvar('Separator', 1, 127)) if sep else ZERO
        exp = []
        for i in range(n - 1, -1, -1):
            d = ds[i]; hi = bool(cls and cls[i] == 'h')
            exp.append((d, hi))
            if sep and i and i % 3 == 0: exp.append((s, None))
        ln = len(exp) + (1 if neg else 0); size = ln + 1 + slack
        b = buf(S, 'Result', C(size), 'output')
        rets = eng.call(S, fn, [b, C(size), -num if neg else num, s, C(R)])
        for T0, r0 in rets:
          for T, r in eng.toint(T0, r0):
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=sg)
            ok = slack >= 0 and size >= 2
            ob(isinstance(r, Lin) and T.st.entails_eq(r - int(ok)), 'int-result', 'the conversion succeeds exactly if the text fits')
            if not ok: continue
            tx = [C(45)] if neg else []
            for d, hi in exp:
                if hi is None: tx.append(d)
                elif R <= 10 or T.st.entails(C(9) - d): tx.append(d + 48)
                elif T.st.entails(d - 10): tx.append(d + 55)
                else: ob(False, 'int-text', 'digits above nine are told apart'); break
            else: expect_text(eng, T, b, tx, ob)
        sp.exist(rets, 'returns', loc, sg, 'returns')
        sp.absorb(eng, '%s radix %d, %d digits' % (sg, R, n), len(rets))
    return run
def radix_case(R, signed=False):
    def run(sp):
        eng = sp.engine(); S = State(); sg = INT + 'ToString(char*, unsigned long, %s, char, unsigned long)' % ('long' if signed else U)
        fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn); n = V(newvar('Size', 0, 1 << 40)); b = buf(S, 'Result', n, 'output')
        r_ = C(R) if R is not None else V(newvar('Radix', 37, U64))
        rets = eng.call(S, fn, [b, n, V(newvar('Num', -(1 << 63) if signed else 0, (1 << 63) - 1 if signed else U64)), V(newvar('Separator', 0, 127)), r_])
        for T0, r0 in rets:
            for T, r in eng.toint(T0, r0): eng.ob(isinstance(r, Lin) and T.st.entails_eq(r), 'int-result', 'an impossible radix is refused', T, where=loc, fn=sg)
        sp.exist(rets, 'returns', loc, sg, 'returns'); sp.absorb(eng, sg, len(rets))
    return run
def bounds_case(sg, R=None, fs=False, signed=False):
    """any size, number, separator: nothing outside the buffer is touched"""
    def run(sp):
        eng = sp.engine(); S = State(); fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn)
        n = V(newvar('Size', 0, 1 << 40)); b = buf(S, 'Result', n, 'output'); num = V(newvar('Num', -(1 << 63) if signed else 0, (1 << 63) - 1 if signed else U64))
        if fs: u, _ = cstr(S, 'BytesUnit', hi=1 << 30); a = [V(newvar('NumFrac', 0, U64)), V(newvar('NumSeparator', 0, 127)), V(newvar('DecimalSeparator', 0, 127)), V(newvar('UnitSeparator', 0, 127)), u]
        else: a = [V(newvar('Separator', 0, 127)), C(R) if R else V(newvar('Radix', 2, 36))]
        rets = eng.call(S, fn, [b, n, num] + a)
        sp.exist(rets, 'returns', loc, sg, 'returns'); sp.absorb(eng, sg, len(rets))
    return run
UNITS = [(0, None), (10, 'K'), (20, 'M'), (30, 'G'), (40, 'T'), (50, 'P'), (60, 'E')]
def fs_case(k, frac, nd, sep, usep, slack, neg=False, unit='bytes', signed=False):
    """a value shown in unit k with nd digits before the decimal separator"""
    sh, ch = UNITS[k]; div = 1 << sh
    def run(sp):
        eng = sp.engine(); S = State(); eng.unroll = {'': 90}
        sg = INT + 'ToFilesizeString(char*, unsigned long, %s, unsigned long, char, char, char, char const*)' % ('long' if signed else U)
        fn = sp.mod.find(sg); loc = sp.mod.loc_fn(fn)
        # the whole numbers shown in this unit
        if frac:
            lo = 0 if k == 0 else 1024 if k == 1 else 1000 << (10 * (k - 1)); hi = 1023 if k == 0 else (1000 << sh) - 1
        else: lo = 0 if k == 0 else div; hi = (1 << (sh + 10)) - 1
        hi = min(hi, (1 << 63) if neg else (1 << 63) - 1 if signed else U64); lo = max(lo, 1) if neg else lo
        qlo, qhi = (10 ** (nd - 1) if nd > 1 else 0), 10 ** nd - 1
        lo, hi = max(lo, qlo * div), min(hi, (qhi + 1) * div - 1)
        if lo > hi: return
        ds = [V(newvar('digit%d' % i, 1 if i == nd - 1 and nd > 1 else 0, 9)) for i in range(nd)]; num = V(newvar('rest', 0, div - 1)) if div > 1 else ZERO
        for i, d in enumerate(ds): num = num + d.scale(div * 10 ** i)
        S.st.ge(num - lo); S.st.ge(C(hi) - num); nf = frac if k > 1 else 0
        s = V(newvar('NumSeparator', 1, 127)) if sep else ZERO; us = V(newvar('UnitSeparator', 1, 127)) if usep else ZERO; dec = V(newvar('DecimalSeparator', 1, 127))
        tail = ([us] if usep else []) + [C(ord(x)) for x in ((ch + 'B') if ch else unit)]
        ln = nd + (1 if sep and nd > 3 else 0) + (nf + 1 if nf else 0) + len(tail) + (1 if neg else 0)
        size = ln + 1 + slack
        b = buf(S, 'Result', C(size), 'output'); ur = S.new_region('input', 'BytesUnit', C(len(unit) + 1))
        for i, x in enumerate(unit): ur.cells[i] = (1, C(ord(x)))
        ur.cells[len(unit)] = (1, ZERO); ur.nul = C(len(unit))
        rets = eng.call(S, fn, [b, C(size), -num if neg else num, C(frac), s, dec, us, PtrV(ur.rid, ZERO)])
        for T0, r0 in rets:
          for T, r in eng.toint(T0, r0):
            ob = lambda c, rule, msg: eng.ob(c, rule, msg, T, where=loc, fn=sg)
            need = 5 + len(unit) + (1 if neg else 0)
            if slack < 0: ob(isinstance(r, Lin) and T.st.entails_eq(r), 'int-result', 'a text that does not fit is refused'); continue
            if size >= need: ob(isinstance(r, Lin) and T.st.entails_eq(r - 1), 'int-result', 'a text that fits is produced')
            if not (isinstance(r, Lin) and T.st.norm(r) == C(1)): continue
            # digits before and after the decimal separator
            pos = 0; val = ZERO; bad = False
            get = lambda i: (eng.load(T.copy(), PtrV(b.r, C(i)), ir.IntTy(8)) or [(None, None)])[0][1]
            def lit(e, what):
                nonlocal pos, bad
                c = get(pos); pos += 1
                ok = isinstance(c, Lin) and T.st.entails_eq(c - e); ob(ok, 'size-text', what); bad |= not ok
            def dig():
                nonlocal pos, val, bad
                c = get(pos); pos += 1
                ok = isinstance(c, Lin) and T.st.entails(c - 48) and T.st.entails(C(57) - c); ob(ok, 'size-text', 'a digit stands where a digit belongs'); bad |= not ok
                if ok: val = val.scale(10) + c - 48
            if neg: lit(C(45), 'a negative size starts with a minus sign')
            for i in range(nd):
                if sep and i and (nd - i) % 3 == 0: lit(s, 'the digits are grouped by three')
                dig()
            if nf:
                lit(dec, 'the decimal separator follows the whole number')
                for i in range(nf): dig()
            for x in tail: lit(x, 'the unit follows the number')
            lit(ZERO, 'the text ends with a zero byte')
            if bad: continue
            d10 = 10 ** nf
            ob(T.st.entails(num.scale(d10) - val.scale(div)), 'size-value', 'the number shown, in its unit, is not more than the size')
            ob(T.st.entails((val + 1).scale(div) - num.scale(d10) - 1), 'size-value', 'the number shown, in its unit, is the size rounded down to the last digit')
        sp.exist(rets, 'returns', loc, sg, 'returns')
        sp.absorb(eng, '%s unit %s, %d digits, %d decimals' % (sg, ch, nd, frac), len(rets))
    return run
def ndig(R, lim):
    n = 0
    while R ** n <= lim: n += 1
    return n
def c04():
    out = []
    add = lambda nm, f, **k: out.append(Case(nm, f, **k))
    for R in (2, 3, 7, 8, 10):
        mx = ndig(R, U64)
        ns = range(1, mx + 1) if R in (2, 8, 10) else (1, 2, 4, mx)
        if R == 2: ns = (1, 2, 3, 4, 6, 7, 8, 33, 63, 64)
        for n in ns:
            for sep in (0, 1):
                for sl in (0, -1, 3): add('ToString radix %d, %d digits, sep %d, slack %d' % (R, n, sep, sl), tostring_case(R, n, sep, sl))
    for R in (11, 16, 23, 36):
        mx = ndig(R, U64)
        for n in (1, 2, 3, 4, 7, mx):
            pats = [''.join(x) for x in itertools.product('lh', repeat=n)] if n <= 2 else ['l' * n, 'h' * n, ('lh' * n)[:n]] + ['l' * i + 'h' + 'l' * (n - 1 - i) for i in (0, n - 1)]
            for c in sorted(set(pats)):
                if n == mx and (R ** (n - 1)) * (10 if c[-1] == 'h' else 1) > U64: continue
                for sep in (0, 1): add('ToString radix %d, digits %s, sep %d' % (R, c, sep), tostring_case(R, n, sep, 0, cls=c))
    for n in range(1, 20):
        for neg in (0, 1):
            for sep in (0, 1):
                for sl in (0, -1): add('ToString signed %d digits, negative %d, sep %d, slack %d' % (n, neg, sep, sl), tostring_case(10, n, sep, sl, bool(neg), True))
    for R in (0, 1, 37, None):
        for sg in (0, 1): add('ToString radix %s signed %d' % (R, sg), radix_case(R, sg))
    for sg in ('long', U):
        for R in (None, 2, 10, 36): add('ToString bounds %s %s' % (sg, R), bounds_case(INT + 'ToString(char*, unsigned long, %s, char, unsigned long)' % sg, R, signed=sg == 'long'))
        add('ToFilesizeString bounds %s' % sg, bounds_case(INT + 'ToFilesizeString(char*, unsigned long, %s, unsigned long, char, char, char, char const*)' % sg, fs=True, signed=sg == 'long'))
    for k in range(7):
        for frac in (0, 1, 2, 3):
            for nd in (1, 2, 3, 4):
                for sep, us in ((0, 1), (1, 0), (1, 1)) if frac in (0, 2) else ((0, 1),):
                    for sl in (0, -1, 10) if (sep, us) != (1, 1) else (0,):
                        add('ToFilesizeString unit %d, %d decimals, %d digits, sep %d/%d, slack %d' % (k, frac, nd, sep, us, sl), fs_case(k, frac, nd, sep, us, sl))
            for neg in (0, 1): add('ToFilesizeString signed unit %d, %d decimals negative %d' % (k, frac, neg), fs_case(k, frac, 1, 1, 1, 9, bool(neg), signed=True))
    return out
import itertools
PROPS = {'C04': c04}
