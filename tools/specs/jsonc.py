"""Serializer calls on buffers, keys, values and separators of a given length: the exact text is known.
Complements json.py, whose entry points leave the lengths open."""
from spec import *
import models
from specs import conv
J = 'CubicleSoft::JSON::Serializer'; U = 'unsigned long'
RF, RN, OF, ON, AF, AN, ST = range(7)
NAMES = ['RootFirst', 'RootNext', 'ObjectFirst', 'ObjectNext', 'ArrayFirst', 'ArrayNext', 'Str']
NEXT = {RF: RN, OF: ON, ON: ON, AF: AN, AN: AN}
# classes of source bytes: lowest, highest
CLS = {'z': (0, 0), 'c': (1, 7), 'v': (11, 11), 'w': (14, 15), 'x': (16, 25), 'y': (26, 31), 'b': (8, 8), 't': (9, 9), 'n': (10, 10), 'f': (12, 12), 'r': (13, 13),
       'q': (34, 34), 's': (92, 92), '/': (47, 47), 'a': (48, 91), ' ': (32, 33), '-': (35, 46), 'p': (93, 127), 'U': (128, 255)}
TWO = {'b': 98, 't': 116, 'n': 110, 'f': 102, 'r': 114, 'q': 34, 's': 92}

def chars(nm, pat): return [(k, C(CLS[k][0]) if CLS[k][0] == CLS[k][1] else V(newvar('%s%d' % (nm, i), *CLS[k]))) for i, k in enumerate(pat)]
def escaped(cs, slashes):
    """list of alternatives per byte"""
    out = []
    for k, v in cs:
        if k in TWO: out += [[C(92)], [C(TWO[k])]]
        elif k == '/': out += ([[C(92)]] if slashes else []) + [[C(47)]]
        elif k in 'zcvwxy':
            out += [[C(92)], [C(117)], [C(48)], [C(48)], [C(48 if k in 'zcvw' else 49)]]
            d = v - (0 if k in 'zcvw' else 16)
            out.append([d + 48] if k in 'zcx' else [d + 55, d + 87])
        else: out.append([v])
    return out
def region(S, nm, bs, zero, kind='input'):
    r = S.new_region(kind, nm, C(len(bs) + (1 if zero else 0)))
    for i, b in enumerate(bs): r.cells[i] = (1, b)
    if zero: r.cells[len(bs)] = (1, ZERO); r.nul = C(len(bs))
    return PtrV(r.rid, ZERO)

def case(want, m, mode, key=None, val=None, esc=0, ks=2, vs=2, slack=0, full=False, num=None, prec=None, nul=False, wrap=False):
    """m: method; key, val: patterns of byte classes or None; num: (digits, negative)"""
    def f(sp):
        eng = sp.engine(); S = State(); eng.unroll = {'': 90}
        t = obj(eng, S, J); p = 2; root = mode in (RF, RN); d = 0 if root else 1; D = d + 1 if full else d + 2
        K = chars('key', key) if key is not None else None; W = chars('val', val) if val is not None else None
        tx = None; fin = None; args = [t]
        if K is not None: args.append(region(S, 'Key', [v for _, v in K], True))
        elif not m.startswith('End') and not wrap and m not in ('Append', 'Appendn'): args.append(NULL)
        kind = {'StartObject': '{', 'StartArray': '[', 'StartStr': '"', 'EndObject': '}', 'EndArray': ']', 'EndStr': '"'}.get(m)
        sg = {'StartObject': 'char const*', 'StartArray': 'char const*', 'StartStr': 'char const*', 'AppendNull': 'char const*', 'AppendTrue': 'char const*, bool', 'AppendFalse': 'char const*, bool',
              'AppendInt': 'char const*, long', 'AppendUInt': 'char const*, ' + U, 'AppendDouble': 'char const*, double, ' + U, 'AppendStr': 'char const*, char const*', 'AppendStrn': 'char const*, char const*, ' + U,
              'Append': 'char const*', 'Appendn': 'char const*, ' + U}.get(m, '')
        if wrap: sg = sg.split(', ', 1)[1]
        name = {'AppendTrue': 'AppendBool', 'AppendFalse': 'AppendBool', 'AppendStrn': 'AppendStr', 'Appendn': 'Append'}.get(m, m)
        if kind: tx = [[C(ord(kind))]]
        elif m == 'AppendNull': tx = [[C(x)] for x in b'null']
        elif m in ('AppendTrue', 'AppendFalse'): tx = [[C(x)] for x in (b'true' if m == 'AppendTrue' else b'false')]; args.append(C(int(m == 'AppendTrue')))
        elif m in ('AppendInt', 'AppendUInt'):
            n, neg = num; v, ds = conv.digits(S, 10, n, None, neg)
            if m == 'AppendInt' and not neg: S.st.ge(C((1 << 63) - 1) - v)
            tx = ([[C(45)]] if neg else []) + [[x + 48] for x in reversed(ds)]; args.append(-v if neg else v)
        elif m == 'AppendDouble':
            fv = FpV('val'); pr = V(newvar('precision', 0, 5000)); args += [fv, pr]; new = [V(newvar('num%d' % i, 43, 101)) for i in range(num)]; tx = [[x] for x in new]
            def snp(e, T0, I, a):
                g = models.lit(e, T0, a[2]); out = []
                g = g.decode('latin1') if isinstance(g, bytes) else g
                e.ob(g in ('%1.*g', '%.*g') and len(a) == 5 and a[4] == fv and isinstance(a[3], Lin) and T0.st.entails_eq(a[3] - pr), 'json-number', 'the number is written in general notation with the given precision', T0)
                for T, n_ in e.uval(T0, a[1], 64):
                    for X, q in e.deref(T, a[0], 'write'):
                        if not e.bounds(X, q, n_, 'snprintf write'): continue
                        e.ob(X.st.entails(n_ - 775), 'json-number', 'there is room for every number: sign, 767 significant digits, point and exponent', X)
                        e.havoc(X, q, n_); o = X.st.norm(q.o); n_ = X.st.norm(n_)
                        if not o.isconst() or not n_.isconst(): raise AnalysisError('snprintf into an unknown place')
                        l = new[:max(0, n_.c - 1)]
                        for i, b in enumerate(l + [ZERO]): X.w(q.r).cells[o.c + i] = (1, b)
                        X.w(q.r).nul = C(o.c + len(l)); out.append((X, C(len(new))))
                return out
            eng.models['snprintf'] = snp
        elif m in ('AppendStr', 'AppendStrn'):
            tx = escaped(W, esc)
            if mode != ST: tx = [[C(34)]] + tx + [[C(34)]]
            if nul: args.append(NULL)
            else: args.append(region(S, 'Val', [v for _, v in W], m == 'AppendStr'))
            if m == 'AppendStrn': args.append(C(len(W)))
        else:
            tx = [[v] for _, v in W]
            args.append(NULL if nul else region(S, 'Val', [v for _, v in W], m == 'Append'))
            if m == 'Appendn': args.append(C(len(W)))
        raw = m in ('Append', 'Appendn')
        KS = [V(newvar('ks%d' % i, 1, 127)) for i in range(ks)]; VS = [V(newvar('vs%d' % i, 1, 127)) for i in range(vs)]
        pre = []
        if not raw and not m.startswith('End') and mode != ST:
            if mode in (ON, AN): pre += [[x] for x in VS]
            if K is not None: pre += [[C(34)]] + escaped(K, esc) + [[C(34)]] + [[x] for x in KS]
        exp = pre + tx
        N = p + len(exp) + slack
        modes = S.new_region('heap', 'MxModes', C(D * 4))
        ms = ([] if root else [RN]) + [mode]
        for i in range(D): modes.cells[i * 4] = (4, C(ms[i]) if i < len(ms) else V(newvar('mode', 0, 6)))
        mp = PtrV(modes.rid, ZERO)
        old = [V(newvar('old%d' % i, 1, 127)) for i in range(p)]
        if N < p: return
        b = buf(S, 'buffer', C(N + 1), 'obuf'); B = S.w(b.r)
        for i, x in enumerate(old + [ZERO]): B.cells[i] = (1, x)
        for fl, v in (('MxModes.ptr', mp), ('MxModes.Size', C(D)), ('MxModeDepth', C(d)), ('MxBuffer', b), ('MxBufferSize', C(N)), ('MxBufferPos', C(p)), ('MxEscapeSlashes', C(esc)),
                      ('MxKeySplitter', region(S, 'KeySplitter', KS, True)), ('MxKeySplitterLen', C(ks)), ('MxValSplitter', region(S, 'ValSplitter', VS, True)), ('MxValSplitterLen', C(vs))): setf(eng, S, t, J, fl, v)
        if raw: allowed = True
        elif m.startswith('End'): allowed = mode in {'EndObject': (OF, ON), 'EndArray': (AF, AN), 'EndStr': (ST,)}[m]
        elif m in ('AppendStr', 'AppendStrn') and mode == ST: allowed = True
        else: allowed = mode in NEXT and (key is not None) == (mode in (OF, ON))
        if nul or (full and m.startswith('Start')): allowed = False
        fit = slack >= 0; maybe = m == 'AppendTrue' and slack == 0
        fn = sp.mod.find(J + '::%s(%s)' % (name, sg)); loc = sp.mod.loc_fn(fn); nm = J + '::' + name
        if m == 'AppendDouble':
            rets = []
            for k, c in (('nan', ('nan', 0)), ('inf', ('inf', 1)), ('inf', ('inf', -1)), ('finite', ('fin', 0))):
                X = S.copy(); X.mon['fp'] = k; X.mon[('$fp', 'val')] = c; rets += eng.call(X, fn, args)
        else: rets = eng.call(S, fn, args)
        seen = set(); n = 0
        for T0, rv in rets:
            for T, r in eng.toint(T0, eng.cond(rv, T0)):
                try: eng.saturate(T)
                except Infeasible: continue
                if T.st.cons and not T.st.feasible(): continue
                n += 1
                def ob(g, c, rule, msg):
                    if g in want: eng.ob(c, rule, msg, T, where=loc, fn=nm)
                g = lambda fl: getf(eng, T, t, J, fl)
                cell = lambda i: (eng.find_cell(T, T.mem[b.r], C(i), 1))
                eq = lambda x, y: isinstance(x, Lin) and (T.st.entails_eq(x - y) or (T.st.norm(x).isconst() and T.st.norm(y).isconst() and (T.st.norm(x).c - T.st.norm(y).c) % 256 == 0))
                ob('mem', g('MxBuffer') == b and eq(g('MxBufferSize'), C(N)) and g('MxModes.ptr') == mp and eq(g('MxModes.Size'), C(D)), 'json-config-kept', 'the buffer and its size are kept')
                ob('mem', all(eq(cell(i), x) for i, x in enumerate(old)), 'json-kept', 'the text already produced is kept')
                md = lambda i: (T.mem[modes.rid].cells.get(i * 4) or (0, None))[1]
                bad = m == 'AppendDouble' and T.mon.get('fp') in ('nan', 'inf')
                if r == ZERO:
                    seen.add(0)
                    ob('auto', not (allowed and fit and not bad) or maybe, 'json-allowed-call', 'a call that is allowed here and fits in the buffer succeeds')
                    ob('mem', eq(g('MxBufferPos'), C(p)) and eq(g('MxModeDepth'), C(d)), 'json-failed-call', 'a failed call leaves the position and depth unchanged')
                    ob('mem', all(eq(md(i), C(x)) for i, x in enumerate(ms)), 'json-failed-call', 'a failed call leaves the mode unchanged')
                    ob('mem', eq(cell(p), ZERO), 'json-failed-call', 'a failed call leaves the text terminated')
                    continue
                seen.add(1)
                ob('num', not bad, 'json-number', 'a number that JSON cannot represent is refused')
                ob('auto', allowed, 'json-grammar', 'the call is rejected here')
                ob('mem', fit, 'json-pos-in-buffer', 'a call whose text does not fit fails')
                if bad or not allowed or not fit: continue
                grp = 'num' if m in ('AppendInt', 'AppendUInt', 'AppendDouble') or wrap or raw else 'esc'
                ob(grp, eq(g('MxBufferPos'), C(p + len(exp))), 'json-length', 'separator, key and value are written exactly once and in full')
                for i, alt in enumerate(exp):
                    x = cell(p + i)
                    ob('auto' if i < len(pre) and (i < vs and mode in (ON, AN)) else grp if i >= len(pre) else 'esc', any(eq(x, a) for a in alt), 'json-text', 'byte %d of the text written is the one that belongs there' % i)
                ob('mem', eq(cell(p + len(exp)), ZERO), 'json-terminated', 'the text is terminated at the current position')
                if raw: e = ms
                elif m.startswith('Start'): e = ms[:-1] + [NEXT[mode], {'{': OF, '[': AF, '"': ST}[kind]]
                elif m.startswith('End'): e = ms[:-1]
                else: e = ms[:-1] + [NEXT.get(mode, mode)]
                ob('auto', eq(g('MxModeDepth'), C(len(e) - 1)), 'json-depth', 'the nesting level is the one after this call')
                ob('auto', all(eq(md(i), C(x)) for i, x in enumerate(e)), 'json-transition', 'the state after the call leads to the right separator')
        if 'auto' in want: sp.exist((1 in seen) if allowed and fit and not maybe else (0 in seen) or maybe, 'json-allowed-call' if allowed else 'json-grammar', loc, nm, 'the call %s' % ('can succeed' if allowed and fit else 'is refused'))
        sp.absorb(eng, nm, n)
    return f
def cases(want, part):
    out = []; have = set()
    def add(m, mode, **k):
        nm = '%s %s %s' % (m, NAMES[mode], ' '.join('%s=%s' % (a, b) for a, b in sorted(k.items())))
        if nm not in have: have.add(nm); out.append(Case('text: ' + nm, case(want, m, mode, **k), budget=20))
    vals = {'StartObject': {}, 'StartArray': {}, 'StartStr': {}, 'AppendNull': {}, 'AppendTrue': {}, 'AppendFalse': {}, 'AppendStr': {'val': 'aq'}, 'AppendStrn': {'val': 'za'}, 'AppendInt': {'num': (2, True)}, 'AppendUInt': {'num': (1, False)}, 'AppendDouble': {'num': 3}}
    if part == 'grammar':
        for m, v in vals.items():
            for mode in range(7):
                for key in (None, 'a'):
                    for slack in (0, -1): add(m, mode, key=key, slack=slack, **v)
            if m.startswith('Start'):
                for mode, key in ((RF, None), (OF, 'a'), (AN, None)): add(m, mode, key=key, slack=3, full=True)
        for m in ('EndObject', 'EndArray', 'EndStr'):
            for mode in range(7):
                for slack in (0, -1, 2): add(m, mode, slack=slack)
        for vs, ks in ((0, 0), (1, 3)):
            for mode, key in ((ON, 'a'), (AN, None), (OF, '')):
                for m in ('StartArray', 'AppendNull', 'AppendStr'):
                    for slack in (0, -1): add(m, mode, key=key, vs=vs, ks=ks, slack=slack, **vals[m])
    if part == 'esc':
        for m in ('AppendStr', 'AppendStrn'):
            for k in CLS:
                if k == 'z' and m == 'AppendStr': continue
                for mode in (AF, ST):
                    for slack in (0, -1): add(m, mode, val=k, slack=slack)
            for pat in ('', '/', 'a/', '//', 'qs', 'nt', 'ac', 'Uy', 'bfr'):
                for esc in (0, 1):
                    for mode in (RF, ST):
                        for slack in (0, -1): add(m, mode, val=pat, esc=esc, slack=slack)
        for k in CLS:
            if k != 'z':
                for slack in (0, -1): add('AppendNull', OF, key=k, slack=slack); add('StartStr', ON, key=k, slack=slack)
        for pat in ('', '/', 'q/', 'aa'):
            for esc in (0, 1): add('AppendTrue', OF, key=pat, esc=esc, slack=1); add('AppendFalse', ON, key=pat, esc=esc); add('AppendFalse', ON, key=pat, esc=esc, slack=-1)
    if part == 'num':
        for m, mode, key in (('AppendInt', AF, None), ('AppendUInt', AN, None), ('AppendInt', ON, 'a'), ('AppendUInt', OF, 'q')):
            for n in ((1, 2, 3, 10, 18, 19, 20) if key is None else (1, 5, 19)):
                for neg in ((False, True) if m == 'AppendInt' else (False,)):
                    if n == 20 and m == 'AppendInt': continue
                    for slack in (0, -1): add(m, mode, key=key, num=(n, neg), slack=slack)
        for mode, key in ((RF, None), (AN, None), (OF, 'a'), (ON, 's')):
            for n in (1, 3, 24):
                for slack in (0, -1): add('AppendDouble', mode, key=key, num=n, slack=slack)
        for m in ('AppendTrue', 'AppendFalse', 'AppendInt', 'AppendUInt', 'AppendDouble', 'AppendStr', 'AppendStrn'):
            for mode in (RF, RN, OF, ON, AF, AN, ST):
                for slack in (0, -1): add(m, mode, wrap=True, slack=slack, **vals[m])
        for m, n, neg in (('AppendUInt', 20, False), ('AppendInt', 19, False), ('AppendInt', 19, True), ('AppendInt', 3, False)): add(m, AN, wrap=True, num=(n, neg))
        for m in ('Append', 'Appendn'):
            for pat in ('', 'a', 'qU', 'nac'):
                for mode in (RF, ON, ST):
                    for slack in (0, -1, 2):
                        if not pat and slack < 0: continue
                        add(m, mode, val=pat, slack=slack)
        for mode in (AF, ST):
            add('AppendStr', mode, val='', nul=True); add('AppendStrn', mode, val='', nul=True); add('Appendn', mode, val='', nul=True)
    return out
