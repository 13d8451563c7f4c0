"""C01-C03: the JSON serializer."""
from spec import *
J = 'CubicleSoft::JSON::Serializer'
RF, RN, OF, ON, AF, AN, ST = range(7)
NAMES = ['RootFirst', 'RootNext', 'ObjectFirst', 'ObjectNext', 'ArrayFirst', 'ArrayNext', 'Str']

def esc_classes():
    two = {8: 'b', 9: 't', 10: 'n', 12: 'f', 13: 'r', 34: '"', 92: '\\'}
    out = []
    def slash(eng, S): return C(1) + eng.escflag
    edges = sorted(two) + [47]
    lo = 0
    for k in sorted(set(edges) | {0x20}):
        if k == 0x20:
            if lo < 0x20: out.append((lo, 0x1f, C(6), 'u'))
            lo = 0x20; continue
        if lo <= k - 1: out.append((lo, k - 1, C(6) if lo < 0x20 else C(1), 'u' if lo < 0x20 else 'raw'))
        if k == 47: out.append((47, 47, slash, 'slash'))
        else: out.append((k, k, C(2), ('e', ord(two[k]))))
        lo = k + 1
    out.append((lo, 255, C(1), 'raw'))
    return out

def modes_init(eng, S, r, off, ty):
    """entry 0 is a root mode, the others are not"""
    out = []
    for lo, hi, c in ((RF, RN, ('eq', off)), (OF, ST, ('ge', off - 4))):
        for T in eng._assume(S.copy(), c, True) if not off.isconst() else ([S.copy()] if (off.c == 0) == (lo == RF) else []):
            key = ('modes', r.rid, r.epoch, off, lo)
            v = INIT.get(key)
            if v is None: v = INIT[key] = V(newvar('mode', lo, hi))
            out.append((T, v))
    return out

class JCase:
    """one abstract initial state of a serializer"""
    def __init__(self, sp, buffer=True, mode=None, check=('bounds', 'emit')):
        eng = self.eng = sp.engine(); eng.unroll = {}
        S = self.S = State()
        self.this = obj(eng, S, J)
        t = self.this
        D = self.D = S.fresh('MaxDepth', 1, BIGALLOC // 4)
        m = S.new_region('heap', 'MxModes', D.scale(4)); m.tags = {'initfn': 'modes'}
        eng.initfns['modes'] = modes_init
        self.modes = PtrV(m.rid, ZERO)
        setf(eng, S, t, J, 'MxModes.ptr', self.modes); setf(eng, S, t, J, 'MxModes.Size', D)
        d = self.d = S.fresh('depth', 0, None); S.st.ge(D - d - 1)
        setf(eng, S, t, J, 'MxModeDepth', d)
        if buffer:
            N = self.N = S.fresh('BufferSize', 0, BIGALLOC)
            self.buf = buf(S, 'buffer', N + 1, 'obuf')
            p = self.p = S.fresh('pos', 0, None); S.st.ge(N - p)
        else:
            N = self.N = ZERO; p = self.p = ZERO; self.buf = NULL
        setf(eng, S, t, J, 'MxBuffer', self.buf); setf(eng, S, t, J, 'MxBufferSize', N); setf(eng, S, t, J, 'MxBufferPos', p)
        e = self.esc = S.fresh('EscapeSlashes', 0, 1); eng.escflag = e
        setf(eng, S, t, J, 'MxEscapeSlashes', e)
        eng.classes['esc'] = esc_classes(); eng.maxcost = {'esc': 6, 'copy': 1}; eng.classes['copy'] = [(0, 255, C(1), 'raw')]
        for nm in ('Key', 'Val'):
            q, n = cstr(S, nm + 'Splitter', 'input')
            S.w(q.r).tags = {'prefix': 'copy'}
            setf(eng, S, t, J, 'Mx%sSplitter' % nm, q); setf(eng, S, t, J, 'Mx%sSplitterLen' % nm, n)
            if nm == 'Key': self.ksl = n
            else: self.vsl = n
        self.mode = mode
        if mode is not None:
            if mode in (RF, RN): S.st.eq(d)
            else: S.st.ge(d - 1)
            d = S.st.norm(d)
            R = S.w(m.rid)
            if d.isconst(): R.cells[0] = (4, C(mode))
            else: R.sym = ((d.scale(4), 4, C(mode)),)
        eng.hooks_store.append(self.on_store)
        self.writes = 0
        eng.hooks_classify.append(self.on_char)
        eng.head_hooks.append(lambda e, S: [S] if self.sync(e, S) else [S])
    # --- invariants of stores
    def on_store(self, eng, S, r, off, sz, v):
        if r.rid == self.modes.r:
            ok = isinstance(v, Lin)
            if ok:
                z = S.st.norm(off)
                in_root = S.st.entails(v) and S.st.entails(C(RN) - v)
                in_rest = S.st.entails(v - OF) and S.st.entails(C(ST) - v)
                ok = (in_root and S.st.entails_eq(z)) or (in_rest and S.st.entails(z - 4))
            eng.ob(ok, 'json-mode-stack', 'mode stack: a root mode may only sit at depth 0 and a nested mode only above it', S)
        elif isinstance(self.buf, PtrV) and r.rid == self.buf.r:
            ok = S.st.entails(off - self.p)
            eng.ob(ok, 'json-prefix-kept', 'bytes emitted by earlier calls are not modified', S)
            S.mon['wrote'] = True
    # --- emission of one character
    def on_char(self, eng, S, r, off, v, k, info):
        self.sync(eng, S)
        p = getf(eng, S, self.this, J, 'MxBufferPos')
        S.mon['cur'] = (r.rid, off, v, info, p)
    def sync(self, eng, S):
        cur = S.mon.pop('cur', None)
        if cur is None or not isinstance(self.buf, PtrV): return True
        rid, off, v, info, p0 = cur
        p1 = getf(eng, S, self.this, J, 'MxBufferPos')
        if not isinstance(p1, Lin) or not isinstance(p0, Lin): return True
        d = S.st.norm(p1 - p0)
        if S.st.entails_eq(d): return True
        esc = S.st.norm(self.esc)
        if info == 'raw': exp = [v]
        elif info == 'slash':
            if S.st.entails_eq(esc): exp = [C(47)]
            elif S.st.entails_eq(esc - 1): exp = [C(92), C(47)]
            else: return True
        elif info == 'u':
            hi = None
            exp = [C(92), C(117), C(48), C(48), None, None]
        else: exp = [C(92), C(info[1])]
        ok = S.st.entails_eq(d - len(exp))
        eng.ob(ok, 'json-escape', 'a character is not emitted as its JSON escape sequence (length)', S)
        if not ok: return True
        R = S.mem[self.buf.r]
        for i, x in enumerate(exp):
            c = eng.find_cell(S, R, S.st.norm(p0 + i), 1)
            if x is None:
                # hex digits of a control character
                if c is None: continue
                if not isinstance(c, Lin): continue
                lo, hi = S.st.minof(v), S.st.maxof(v)
                ok = True
                if i == 4:
                    ok = (S.st.entails(C(15) - v) and S.st.entails_eq(c - 48)) or (S.st.entails(v - 16) and S.st.entails_eq(c - 49)) or not (S.st.entails(C(15) - v) or S.st.entails(v - 16))
                else:
                    for k in (0, 16):
                        T = S.copy()
                        try: T.st.ge(v - k); T.st.ge(C(k + 15) - v)
                        except Infeasible: continue
                        if not T.st.feasible(v.vars()): continue
                        if T.st.entails(C(k + 9) - v): ok = ok and T.st.entails_eq(c - (v - k + 48))
                        elif T.st.entails(v - k - 10): ok = ok and (T.st.entails_eq(c - (v - k - 10 + 65)) or T.st.entails_eq(c - (v - k - 10 + 97)))
                eng.ob(ok, 'json-escape', 'a control character is not emitted as its hexadecimal escape', S)
                continue
            if c is None: continue
            ok = isinstance(c, Lin) and (S.st.norm(c) == S.st.norm(x) or S.st.entails_eq(c - x))
            eng.ob(ok, 'json-escape', 'a character is not emitted as its JSON escape sequence (byte %d is %s, expected %s)' % (i, eng.show(S, c) if isinstance(c, Lin) else c, eng.show(S, x)), S)
        return True

def at(eng, S, R, off):
    return eng.find_cell(S, R, S.st.norm(off), 1)

def prefix_len(c, eng, S, mode, key):
    """expected separator and key bytes"""
    n = ZERO
    if mode in (ON, AN): n = n + c.vsl
    if key is not None: n = n + 2 + eng.ghost_get(S, key[0].r, key[1]) + c.ksl
    return n

METHODS = {
    'StartObject(char const*)': ('open', OF, 123), 'StartArray(char const*)': ('open', AF, 91), 'StartStr(char const*)': ('open', ST, 34),
    'EndObject()': ('close', (OF, ON), 125), 'EndArray()': ('close', (AF, AN), 93), 'EndStr()': ('close', (ST,), 34),
    'AppendNull(char const*)': ('lit', b'null'), 'AppendBool(char const*, bool)': ('bool', 0), 'AppendBool(char const*, bool) true': ('bool', 1),
    'AppendInt(char const*, long)': ('num',), 'AppendUInt(char const*, unsigned long)': ('num',), 'AppendDouble(char const*, double, unsigned long)': ('num',),
    'AppendStr(char const*, char const*)': ('str',), 'AppendStr(char const*, char const*, unsigned long)': ('strn',),
}
NEXT = {RF: RN, OF: ON, ON: ON, AF: AN, AN: AN}

def one_method(sp, want, m, k, fn, mode, haskey, buffer):
    m = m.replace(' true', '')
    c = JCase(sp, buffer, mode)
    eng, S = c.eng, c.S
    entry = '%s::%s mode=%s key=%s buffer=%s' % (J, m, NAMES[mode], haskey, buffer)
    args = [c.this]
    key = None
    if k[0] != 'close':
        if haskey:
            q, n = cstr(S, 'Key', 'input'); S.w(q.r).tags = {'prefix': 'esc'}
            args.append(q); key = (q, n)
        else: args.append(NULL)
    payload = None
    if k[0] == 'bool':
        b = C(k[1]); args.append(b)
    elif k[0] == 'num':
        if 'double' in m: args += [FpV(opaque('fp')), S.u('Precision', 64)]
        else: args.append(S.s('Val', 64) if ' long' in m and 'unsigned' not in m else S.u('Val', 64))
    elif k[0] == 'str':
        q, n = cstr(S, 'Val', 'input'); S.w(q.r).tags = {'prefix': 'esc'}; args.append(q); payload = (q, n)
    elif k[0] == 'strn':
        n = S.fresh('Size', 0, BIGALLOC); q = buf(S, 'Val', n, 'input'); S.w(q.r).tags = {'prefix': 'esc'}
        args += [q, n]; payload = (q, n)
    # is the call allowed in this mode?
    if k[0] == 'close': allowed = mode in k[1]
    elif k[0] in ('str', 'strn') and mode == ST: allowed = True
    else: allowed = mode in NEXT and haskey == (mode in (OF, ON))
    eng.ins = None
    try: rets = eng.call(S, fn, args)
    except Infeasible: raise AnalysisError('infeasible state escaped')
    n = 0
    w = sp.mod.loc_fn(fn)
    def ob(g, ok, rule, msg, T):
        if g in want: eng.ob(ok, rule, '%s (mode %s, %s key)' % (msg, NAMES[mode], 'with' if haskey else 'without'), T, where=w, fn=J + '::' + m)
    ok_seen = False
    for T0, rv in rets:
        for T, r in eng.toint(T0, eng.cond(rv, T0)):
            n += 1
            c.sync(eng, T)
            try: eng.saturate(T)
            except Infeasible: continue
            if T.st.cons and not T.st.feasible(): continue
            p1 = getf(eng, T, c.this, J, 'MxBufferPos'); d1 = getf(eng, T, c.this, J, 'MxModeDepth'); N1 = getf(eng, T, c.this, J, 'MxBufferSize')
            st = T.st
            same_cfg = st.entails_eq(N1 - c.N) and getf(eng, T, c.this, J, 'MxBuffer') == c.buf and getf(eng, T, c.this, J, 'MxModes.ptr') == c.modes
            ob('mem', same_cfg, 'json-config-kept', 'the buffer, its size and the mode stack storage are kept', T)
            ob('mem', st.entails(p1) and st.entails(c.N - p1), 'json-pos-in-buffer', 'the position stays inside the buffer', T)
            ob('mem', st.entails(d1) and st.entails(c.D - d1 - 1), 'json-depth-in-stack', 'the mode depth stays inside the mode stack', T)
            cur = eng.find_cell(T, T.mem[c.modes.r], st.norm(c.d.scale(4)), 4)
            if r == ZERO:
                ob('mem', st.entails_eq(p1 - c.p) and st.entails_eq(d1 - c.d), 'json-failed-call', 'a failed call leaves the position and depth unchanged', T)
                ob('mem', isinstance(cur, Lin) and st.entails_eq(cur - mode), 'json-failed-call', 'a failed call leaves the current mode unchanged', T)
                ob('mem', 'wrote' not in T.mon, 'json-failed-call', 'a failed call emits nothing', T)
                if allowed and buffer and k[0] != 'num':
                    need = prefix_len(c, eng, T, mode, key)
                    extra = {'open': C(1), 'close': C(1), 'lit': C(4), 'bool': C(5)}.get(k[0])
                    if extra is None:
                        extra = eng.ghost_get(T, payload[0].r, payload[1]) + (0 if mode == ST else 2)
                    if k[0] == 'close' or mode == ST: need = ZERO
                    try: eng.saturate(T)
                    except Infeasible: continue
                    e = c.p + need + extra - c.N - 1
                    full = st.entails(e)
                    if not full and k[0] == 'open':
                        X = T.copy()
                        full = not eng._assume(X, ('ge', c.D - c.d - 2), True) or X.st.entails(e)
                    ob('auto', full, 'json-allowed-call', 'a call that is allowed in this mode and fits in the buffer must succeed', T)
                continue
            ok_seen = True
            ob('auto', allowed, 'json-grammar', 'the call must be rejected in this mode', T)
            ob('mem', buffer, 'json-no-buffer', 'a call cannot succeed without a buffer', T)
            if not allowed or not buffer: continue
            R = T.mem[c.buf.r]
            z = at(eng, T, R, p1)
            ob('mem', isinstance(z, Lin) and st.norm(z) == ZERO, 'json-terminated', 'the output is NUL terminated at the current position', T)
            # mode transition
            if k[0] == 'open':
                ob('auto', st.entails_eq(d1 - c.d - 1), 'json-depth', 'opening a container goes one level deeper', T)
                top = eng.find_cell(T, T.mem[c.modes.r], st.norm((c.d + 1).scale(4)), 4)
                ob('auto', isinstance(top, Lin) and st.entails_eq(top - k[1]), 'json-transition', 'the new level starts in the right mode', T)
            elif k[0] == 'close':
                ob('auto', st.entails_eq(d1 - c.d + 1), 'json-depth', 'closing a container goes one level up', T)
            else: ob('auto', st.entails_eq(d1 - c.d), 'json-depth', 'appending a value keeps the depth', T)
            if k[0] != 'close':
                nm = NEXT.get(mode, mode)
                ob('auto', isinstance(cur, Lin) and st.entails_eq(cur - nm), 'json-transition', 'after a value the mode becomes %s' % NAMES[nm], T)
            # emitted bytes
            need = prefix_len(c, eng, T, mode, key) if k[0] != 'close' and mode != ST else ZERO
            s0 = c.p + need
            def byte(o, v, what):
                x = at(eng, T, R, o)
                ob('esc', isinstance(x, Lin) and st.entails_eq(x - v), 'json-text', what, T)
            try: eng.saturate(T)
            except Infeasible: continue
            if key is not None and mode != ST:
                kp = c.p + (c.vsl if mode in (ON, AN) else ZERO)
                byte(kp, 34, 'a key starts with a quote')
                byte(kp + 1 + eng.ghost_get(T, key[0].r, key[1]), 34, 'a key ends with a quote')
            if k[0] in ('open', 'close'):
                ob('esc', st.entails_eq(p1 - s0 - 1), 'json-length', 'separator, key and bracket are emitted exactly once', T)
                byte(p1 - 1, k[2], 'the bracket or quote is emitted')
            elif k[0] == 'lit':
                ob('esc', st.entails_eq(p1 - s0 - 4), 'json-length', 'separator, key and literal are emitted exactly once', T)
                for i, ch in enumerate(k[1]): byte(s0 + i, ch, 'the literal is null')
            elif k[0] == 'bool':
                for X in eng._assume(T.copy(), ('eq', b - 1), True):
                    ob('esc', X.st.entails_eq(p1 - s0 - 4), 'json-length', 'true is four characters', X)
                    for i, ch in enumerate(b'true'):
                        x = at(eng, X, X.mem[c.buf.r], s0 + i); ob('esc', isinstance(x, Lin) and X.st.entails_eq(x - ch), 'json-text', 'the literal is true', X)
                for X in eng._assume(T.copy(), ('eq', b), True):
                    ob('esc', X.st.entails_eq(p1 - s0 - 5), 'json-length', 'false is five characters', X)
                    for i, ch in enumerate(b'false'):
                        x = at(eng, X, X.mem[c.buf.r], s0 + i); ob('esc', isinstance(x, Lin) and X.st.entails_eq(x - ch), 'json-text', 'the literal is false', X)
            elif k[0] in ('str', 'strn'):
                g = eng.ghost_get(T, payload[0].r, payload[1])
                try: eng.saturate(T)
                except Infeasible: continue
                q = 0 if mode == ST else 2
                ob('esc', st.entails_eq(p1 - s0 - g - q), 'json-length', 'every character of the value is emitted exactly once with its escape', T)
                if q:
                    byte(s0, 34, 'a string value starts with a quote'); byte(p1 - 1, 34, 'a string value ends with a quote')
            elif k[0] == 'num':
                ob('esc', st.entails(p1 - s0 - 1), 'json-length', 'separator, key and number are emitted', T)
    if allowed and buffer:
        if 'auto' in want: sp.exist(ok_seen, 'json-allowed-call', w, J + '::' + m, 'the call never succeeds in mode %s' % NAMES[mode])
    sp.absorb(eng, entry, n)

def method_cases(want):
    out = []
    for m, k in METHODS.items():
        for mode in range(7):
            for haskey in ((False, True) if k[0] != 'close' else (False,)):
                for buffer in (True, False):
                    def f(sp, m=m, k=k, mode=mode, haskey=haskey, buffer=buffer):
                        one_method(sp, want, m, k, sp.mod.find(J + '::' + m.replace(' true', '')), mode, haskey, buffer)
                    out.append(Case('%s mode=%s key=%s buffer=%s' % (m, NAMES[mode], haskey, buffer), f, peel=2, budget=15, only=None if 'mem' in want else ('json-',)))
    return out

def inv(c, eng, T, ob, what):
    """the representation invariant every method may rely on"""
    st = T.st
    p1 = getf(eng, T, c.this, J, 'MxBufferPos'); d1 = getf(eng, T, c.this, J, 'MxModeDepth'); N1 = getf(eng, T, c.this, J, 'MxBufferSize'); b = getf(eng, T, c.this, J, 'MxBuffer')
    ob(st.entails(p1) and st.entails(N1 - p1), 'json-pos-in-buffer', what + ': the position is inside the buffer', T)
    ob(st.entails(d1) and st.entails(c.D - d1 - 1), 'json-depth-in-stack', what + ': the mode depth is inside the mode stack', T)
    return p1, d1, N1, b
def mode_at(c, eng, T, d):
    x = eng.find_cell(T, T.mem[c.modes.r], T.st.norm(d.scale(4)), 4)
    if x is None:
        l = eng.load(T, PtrV(c.modes.r, d.scale(4)), ir.IntTy(32))
        x = l[0][1] if len(l) == 1 else None
    return x

def x_ctor(sp):
    eng = sp.engine(); S = State()
    t = obj(eng, S, J)
    fn = sp.mod.find(J + '::Serializer(bool, char const*, char const*, unsigned long)')
    w = sp.mod.loc_fn(fn)
    ks, kn = cstr(S, 'KeySplitter'); vs, vn = cstr(S, 'ValSplitter')
    D = S.fresh('MaxDepth', 0, BIGALLOC // 4)
    rets = eng.call(S, fn, [t, CondV(('eq', S.fresh('esc', 0, 1))), ks, vs, D])
    for T, _ in rets:
        def ob(ok, rule, msg): eng.ob(ok, rule, msg, T, where=w, fn=J + '::Serializer')
        g = lambda f: getf(eng, T, t, J, f)
        mp = g('MxModes.ptr')
        ob(isinstance(mp, PtrV), 'json-ctor', 'the mode stack is allocated')
        if not isinstance(mp, PtrV): continue
        ob(T.st.entails_eq(T.mem[mp.r].size - g('MxModes.Size').scale(4)) and T.st.entails(g('MxModes.Size') - 1), 'json-ctor', 'the mode stack holds at least the root mode and its size is the one recorded')
        x = eng.find_cell(T, T.mem[mp.r], ZERO, 4)
        ob(x == C(RF), 'json-ctor', 'a new serializer expects the root value')
        ob(g('MxBuffer') == NULL and g('MxBufferSize') == ZERO and g('MxBufferPos') == ZERO and g('MxModeDepth') == ZERO, 'json-ctor', 'a new serializer has no buffer')
        ob(T.st.entails_eq(g('MxKeySplitterLen') - kn) and T.st.entails_eq(g('MxValSplitterLen') - vn) and g('MxKeySplitter') == ks and g('MxValSplitter') == vs, 'json-ctor', 'splitters and their lengths belong together')
    sp.exist(rets, 'json-ctor', w, J, 'the constructor never returns')
    sp.absorb(eng, J + '::Serializer()', len(rets))
def simple(name, args_of, post, mode=None, buffer=True):
    def f(sp):
        c = JCase(sp, buffer, mode); eng, S = c.eng, c.S
        fn = sp.mod.find(J + '::' + name); w = sp.mod.loc_fn(fn)
        ctx = {}
        args = [c.this] + args_of(c, eng, S, ctx)
        rets = eng.call(S, fn, args)
        for T0, rv in rets:
            for T, r in (eng.toint(T0, eng.cond(rv, T0)) if name.startswith(('Append', 'Finish')) else [(T0, rv)]):
                try: eng.saturate(T)
                except Infeasible: continue
                if T.st.cons and not T.st.feasible(): continue
                post(c, eng, T, r, ctx, lambda ok, rule, msg, T: eng.ob(ok, rule, msg, T, where=w, fn=J + '::' + name))
        sp.exist(rets, 'json-total', w, J + '::' + name, 'the call never returns')
        sp.absorb(eng, J + '::' + name, len(rets))
    return f
def p_reset(c, eng, T, r, ctx, ob):
    p1, d1, N1, b = inv(c, eng, T, ob, 'Reset')
    ob(T.st.entails_eq(p1) and T.st.entails_eq(d1), 'json-reset', 'Reset starts over at position and depth 0', T)
    x = mode_at(c, eng, T, ZERO)
    ob(isinstance(x, Lin) and T.st.entails_eq(x - RF), 'json-reset', 'Reset expects the root value again', T)
    ob(T.st.entails_eq(N1 - c.N) and b == c.buf, 'json-reset', 'Reset keeps the buffer', T)
def a_setbuf(c, eng, S, ctx):
    n = S.fresh('NewSize', 0, BIGALLOC); b = buf(S, 'newbuffer', n); ctx['n'] = n; ctx['b'] = b
    return [b, n]
def p_setbuf(c, eng, T, r, ctx, ob):
    p1, d1, N1, b = inv(c, eng, T, ob, 'SetBuffer')
    ok = (b == ctx['b'] and T.st.entails(ctx['n'] - N1 - 1)) or (b == NULL and T.st.entails_eq(N1))
    ob(ok, 'json-setbuffer', 'the usable size leaves room for the terminator inside the given buffer', T)
    ob(T.st.entails_eq(p1), 'json-setbuffer', 'a new buffer is filled from its start', T)
    if b == ctx['b']: ob(T.st.entails_eq(ctx['n'] - N1 - 1), 'json-setbuffer', 'all of the given buffer but the terminator is usable', T)
    else: ob(T.st.entails_eq(ctx['n']), 'json-setbuffer', 'a non-empty buffer is used', T)
def a_append(c, eng, S, ctx):
    n = S.fresh('Size', 0, BIGALLOC); q = buf(S, 'Val', n, 'input'); S.w(q.r).tags = {'prefix': 'copy'}; ctx['n'] = n
    return [q, n]
def p_append(c, eng, T, r, ctx, ob):
    p1, d1, N1, b = inv(c, eng, T, ob, 'Append')
    st = T.st
    ob(st.entails_eq(d1 - c.d), 'json-depth', 'raw content keeps the depth', T)
    if r == ZERO:
        ob(st.entails_eq(p1 - c.p), 'json-failed-call', 'a failed call emits nothing', T)
        ob(st.entails(c.p + ctx['n'] - c.N - 1) or c.buf == NULL, 'json-allowed-call', 'raw content that fits is accepted', T)
    else:
        ob(st.entails_eq(p1 - c.p - ctx['n']), 'json-length', 'raw content is emitted exactly once', T)
        if isinstance(c.buf, PtrV):
            z = at(eng, T, T.mem[c.buf.r], p1)
            ob(isinstance(z, Lin) and st.norm(z) == ZERO, 'json-terminated', 'the output is NUL terminated at the current position', T)
def p_finish(c, eng, T, r, ctx, ob):
    p1, d1, N1, b = inv(c, eng, T, ob, 'Finish')
    if r == ZERO: ob(T.st.entails(d1 - 1), 'json-finish', 'Finish only fails while something is still open', T)
    else: ob(T.st.entails_eq(d1), 'json-finish', 'after Finish nothing is open', T)
def a_calc(sized, ak):
    def f(c, eng, S, ctx):
        if sized:
            n = S.fresh('Size', 0, BIGALLOC); q = buf(S, 'Val', n, 'input')
        else: q, n = cstr(S, 'Val')
        S.w(q.r).tags = {'prefix': 'esc'}; ctx['p'] = (q, n)
        ctx['k'] = C(ak)
        return [q] + ([n] if sized else []) + [C(ak)]
    return f
def p_calc(mode):
    def f(c, eng, T, r, ctx, ob):
        q, n = ctx['p']
        g = eng.ghost_get(T, q.r, n)
        try: eng.saturate(T)
        except Infeasible: return
        base = r - g - (0 if mode == ST else 2)
        for X in eng._assume(T.copy(), ('eq', ctx['k'] - 1), True): ob(X.st.entails_eq(base - c.ksl), 'json-size', 'the size of a key is its escaped length plus quotes and splitter', X)
        for X in eng._assume(T.copy(), ('eq', ctx['k']), True): ob(X.st.entails_eq(base), 'json-size', 'the size of a string is its escaped length plus quotes', X)
    return f
def extra(which):
    out = []
    if which == 'C01':
        out.append(Case('constructor', x_ctor))
        out.append(Case('SetBuffer', simple('SetBuffer(unsigned char*, unsigned long)', a_setbuf, p_setbuf)))
        for b in (True, False):
            out.append(Case('Reset buffer=%s' % b, simple('Reset()', lambda c, e, S, x: [], p_reset, buffer=b)))
            out.append(Case('Append buffer=%s' % b, simple('Append(char const*, unsigned long)', a_append, p_append, buffer=b)))
            out.append(Case('Finish buffer=%s' % b, simple('Finish()', lambda c, e, S, x: [], p_finish, buffer=b)))
    if which == 'C03':
        for mode in (OF, ST):
            for ak in (0, 1):
                out.append(Case('CalculateStrSize mode=%s %d' % (NAMES[mode], ak), simple('CalculateStrSize(char const*, bool)', a_calc(False, ak), p_calc(mode), mode=mode), budget=15))
                out.append(Case('CalculateStrSize sized mode=%s %d' % (NAMES[mode], ak), simple('CalculateStrSize(char const*, unsigned long, bool)', a_calc(True, ak), p_calc(mode), mode=mode), budget=15))
    return out
from specs import jsonc
PROPS = {
    'C01': lambda: method_cases({'mem'}) + extra('C01') + jsonc.cases({'mem'}, 'grammar') + jsonc.cases({'mem'}, 'esc') + jsonc.cases({'mem'}, 'num'),
    'C02': lambda: method_cases({'auto'}) + jsonc.cases({'auto'}, 'grammar'),
    'C03': lambda: method_cases({'esc'}) + extra('C03') + jsonc.cases({'esc'}, 'grammar') + jsonc.cases({'esc'}, 'esc'),
    'C30': lambda: jsonc.cases({'num', 'auto', 'esc'}, 'num'),
}
