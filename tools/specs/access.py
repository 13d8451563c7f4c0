"""Members that only read or set one thing: accessors, shortcuts and thin wrappers, added to the property they belong to."""
from spec import *
NS = 'CubicleSoft::'
W = {1: 1, 2: 16, 4: 32, 8: 64}

def fields(eng, S, t, cls, ptrs):
    """give every field a value of its own"""
    out = {}
    for f, (o, s, bt) in (eng.mod.dtypes.get(cls) or {}).items():
        if f.startswith('_vptr') or f == 'MxModes' or s not in W: continue
        if f in ptrs: r = S.new_region('input', f, V(newvar(f + '.size', 64, 1 << 20))); v = PtrV(r.rid, V(newvar(f + '.off', 0, 32)))
        else: v = V(newvar(f, 0, (1 << W[s]) - 1))
        S.w(t.r).cells[o] = (s, v); out[f] = v
    return out
def same(T, a, b, bits=64):
    if isinstance(b, PtrV): return isinstance(a, PtrV) and a.r == b.r and T.st.entails_eq(a.o - b.o)
    return isinstance(a, Lin) and isinstance(b, Lin) and (T.st.entails_eq(a - b) or any(T.st.entails_eq(a - b + d) for d in (1 << bits, -(1 << bits))))
def getter(cls, meth, field, ptrs=(), base=None):
    """meth returns the field (or what `field` says) and changes nothing"""
    def f(sp):
        eng = sp.engine(); S = State(); t = obj(eng, S, cls); fs = fields(eng, S, t, cls, ptrs); nm = cls.split('<')[0] + '::' + meth.split('(')[0]
        fn = sp.mod.find((cls if base is None else base) + '::' + meth); loc = sp.mod.loc_fn(fn); n = 0
        want = field(eng, S, fs) if callable(field) else fs[field]
        for T, rv in eng.call(S, fn, [t]):
            for U_, r in (eng.toint(T, eng.cond(rv, T)) if not isinstance(rv, (Lin, PtrV)) else [(T, rv)]):
                n += 1
                eng.ob(same(U_, r, want, 64), 'accessor', 'the value asked for is returned', U_, where=loc, fn=nm)
                for k, v in fs.items(): eng.ob(same(U_, getf(eng, U_, t, cls, k), v), 'accessor-const', 'asking changes nothing (%s)' % k, U_, where=loc, fn=nm)
        sp.exist(n > 0, 'accessor', loc, nm, 'the accessor returns'); sp.absorb(eng, nm, n)
    return Case('accessor: %s::%s' % (cls.replace(NS, ''), meth), f)
def setter(cls, meth, mk, post, ptrs=()):
    """mk(eng,S,fs) -> args; post(args, fs) -> {field: value after}; every other field is kept"""
    def f(sp):
        eng = sp.engine(); S = State(); t = obj(eng, S, cls); fs = fields(eng, S, t, cls, ptrs); nm = cls.split('<')[0] + '::' + meth.split('(')[0]
        fn = sp.mod.find(cls + '::' + meth); loc = sp.mod.loc_fn(fn); args = mk(eng, S, fs); want = dict(fs); want.update(post(eng, S, args, fs)); n = 0
        for T, rv in eng.call(S, fn, [t] + args):
            n += 1
            for k, v in want.items(): eng.ob(same(T, getf(eng, T, t, cls, k), v), 'setter', 'the setting is the one given and no other changes (%s)' % k, T, where=loc, fn=nm)
        sp.exist(n > 0, 'setter', loc, nm, 'the setter returns'); sp.absorb(eng, nm, n)
    return Case('setter: %s::%s' % (cls.replace(NS, ''), meth), f)

# JSON
J = NS + 'JSON::Serializer'; JP = ('MxBuffer', 'MxKeySplitter', 'MxValSplitter')
def jmode(meth, fn_):
    def mk(mode):
        def f(sp):
            eng = sp.engine(); S = State(); t = obj(eng, S, J); fields(eng, S, t, J, JP); r = S.new_region('heap', 'MxModes', C(12))
            for i in range(3): r.cells[i * 4] = (4, C(mode if i == 1 else (mode + 3) % 7))
            for fl, v in (('MxModes.ptr', PtrV(r.rid, ZERO)), ('MxModes.Size', C(3)), ('MxModeDepth', C(1))): setf(eng, S, t, J, fl, v)
            fn = sp.mod.find(J + '::' + meth + '()'); loc = sp.mod.loc_fn(fn); nm = J + '::' + meth; n = 0
            for T, rv in eng.call(S, fn, [t]):
                for X, v in eng.toint(T, eng.cond(rv, T) if not isinstance(rv, Lin) else rv):
                    n += 1; eng.ob(X.st.entails_eq(v - fn_(mode)), 'accessor', 'the current state is reported', X, where=loc, fn=nm)
            sp.exist(n > 0, 'accessor', loc, nm, 'the accessor returns'); sp.absorb(eng, nm, n)
        return f
    return [Case('accessor: %s mode %d' % (meth, m), mk(m)) for m in range(7)]
def text(eng, S, fs): p, n = cstr(S, 'text'); S.mon['len'] = n; return [p]
def json_():
    return [getter(J, 'GetBuffer() const', 'MxBuffer', JP), getter(J, 'GetCurrPos() const', 'MxBufferPos', JP), getter(J, 'GetBufferSize() const', 'MxBufferSize', JP),
            setter(J, 'ResetPos()', lambda e, S, fs: [], lambda e, S, a, fs: {'MxBufferPos': ZERO}, JP),
            setter(J, 'SetEscapeSlashes(bool)', lambda e, S, fs: [V(newvar('EscapeSlashes', 0, 1))], lambda e, S, a, fs: {'MxEscapeSlashes': a[0]}, JP),
            setter(J, 'SetKeySplitter(char const*)', text, lambda e, S, a, fs: {'MxKeySplitter': a[0], 'MxKeySplitterLen': S.mon['len']}, JP),
            setter(J, 'SetValSplitter(char const*)', text, lambda e, S, a, fs: {'MxValSplitter': a[0], 'MxValSplitterLen': S.mon['len']}, JP)] + \
        jmode('GetCurrMode', lambda m: m) + jmode('IsKeyRequired', lambda m: int(m in (2, 3)))

def hash_():
    out = []; N = NS + 'OrderedHashNode<long>'; P = ('PrevHashNode', 'NextHashNode', 'PrevListNode', 'NextListNode', 'StrKey')
    for m, f in (('PrevHash', 'PrevHashNode'), ('NextHash', 'NextHashNode'), ('PrevList', 'PrevListNode'), ('NextList', 'NextListNode'), ('GetStrKey', 'StrKey'), ('GetIntKey', 'IntKey')): out.append(getter(N, m + '()', f, P))
    for c in ('OrderedHash<long>', 'OrderedHashNoCopy<long>'):
        for m, f in (('FirstList', 'FirstListNode'), ('LastList', 'LastListNode'), ('GetListSize', 'NumListNodes'), ('GetHashSize', 'HashSize'), ('RawHash', 'HashNodes')):
            out.append(getter(NS + c, m + '() const', f, ('HashNodes', 'FirstListNode', 'LastListNode')))
    return out
def packed_():
    out = []
    for v in ('VerifValue', 'long'):
        N = NS + 'PackedOrderedHashNode<%s>' % v
        out += [getter(N, 'GetIntKey()', 'IntKey', ('StrKey',)), getter(N, 'GetStrKey()', 'StrKey', ('StrKey',))]
        for c in ('PackedOrderedHash', 'PackedOrderedHashNoCopy'):
            for m, f in (('GetSize', 'NumUsed'), ('GetNextPos', 'NextNodePos'), ('GetHashSize', 'NumNodes')): out.append(getter(NS + c + '<%s>' % v, m + '()', f, ('ArrayNodes', 'HashNodes')))
    return out
def os_call(label, cls, meth, mkargs, name, check, ret, rule):
    """a member that makes exactly one system call with the right arguments and reports its outcome"""
    def f(sp):
        eng = sp.engine(); S = State(); nm = cls + '::' + meth.split('(')[0]; fn = sp.mod.find(cls + '::' + meth); loc = sp.mod.loc_fn(fn); args = mkargs(eng, S)
        def m(e, T, I, a):
            e.ob(T.mon.get('calls', 0) == 0, rule, '%s is called once' % name, T); T.mon['calls'] = T.mon.get('calls', 0) + 1
            e.ob(check(e, T, args, a), rule, '%s is given the right arguments' % name, T)
            out = []
            for x in ret: A = T.copy(); A.mon['ret'] = x if not callable(x) else x(A); out.append((A, C(A.mon['ret']) if isinstance(A.mon['ret'], int) else A.mon['ret']))
            return out
        eng.models[name] = m; n = 0
        for T, rv in eng.call(S, fn, args):
            n += 1; eng.ob(T.mon.get('calls') == 1, rule, '%s is called' % name, T, where=loc, fn=nm)
            if isinstance(rv, Lin): eng.ob(same(T, rv, T.mon.get('ret')), rule, 'the outcome is passed on', T, where=loc, fn=nm)
            elif rv is not None:
                for X, v in eng.toint(T, eng.cond(rv, T)): eng.ob(isinstance(v, Lin) and X.st.entails_eq(v - (1 if X.mon.get('ret') == 0 else 0)), rule, 'success is reported if and only if the call succeeded', X, where=loc, fn=nm)
        sp.exist(n > 0, rule, loc, nm, 'the call returns'); sp.absorb(eng, nm, n)
    return Case('call: %s' % label, f)
def symlink_():
    F = NS + 'UTF8::File'; mk = lambda e, S: [cstr(S, 'Src')[0], cstr(S, 'Dest')[0]]
    return [os_call('File::Symlink', F, 'Symlink(char const*, char const*)', mk, 'symlink', lambda e, T, g, a: same(T, a[0], g[1]) and same(T, a[1], g[0]), (0, -1), 'symlink')]
def filepos_():
    F = NS + 'UTF8::File'; return [getter(F, 'GetCurrPos() const', 'MxCurrPos'), getter(F, 'GetMaxPos() const', 'MxMaxPos')]
def shm_():
    M = NS + 'Sync::SharedMem'; P = ('MxMem', 'MxMemInternal')
    return [getter(M, 'First()', 'MxFirst', P), getter(M, 'GetSize()', 'MxSize', P), getter(M, 'RawData()', 'MxMem', P)]
def tlsmv_():
    M = NS + 'Sync::TLS::MixedVar'
    return [getter(M, 'GetTLS()', 'MxTLS', ('MxTLS', 'MxStr')), setter(M, 'SetTLS(CubicleSoft::Sync::TLS*)', lambda e, S, fs: [PtrV(S.new_region('input', 'tls', 4).rid, ZERO)], lambda e, S, a, fs: {'MxTLS': a[0]}, ('MxTLS', 'MxStr'))]
def tls_():
    T_ = NS + 'Sync::TLS'
    mk = lambda e, S: [obj(e, S, T_)]
    def mk2(e, S): t = obj(e, S, T_); setf(e, S, t, T_, 'MxKey', V(newvar('key', 0, 1023))); S.mon['key'] = getf(e, S, t, T_, 'MxKey'); return [t]
    return [os_call('TLS::TLS', T_, 'TLS()', mk, 'pthread_key_create', lambda e, T, g, a: same(T, a[0], g[0]) and a[1] == NULL, (0,), 'tls-key'),
            os_call('TLS::~TLS', T_, '~TLS()', mk2, 'pthread_key_delete', lambda e, T, g, a: same(T, a[0], T.mon['key']), (0,), 'tls-key')]
def ids_():
    A = NS + 'Environment::AppInfo'
    return [os_call('AppInfo::GetCurrentProcessID', A, 'GetCurrentProcessID()', lambda e, S: [], 'getpid', lambda e, T, g, a: True, (lambda T: V(newvar('pid', 1, 1 << 30)),), 'ids'),
            os_call('AppInfo::GetCurrentThreadID', A, 'GetCurrentThreadID()', lambda e, S: [], 'pthread_self', lambda e, T, g, a: True, (lambda T: V(newvar('tid', 1, 1 << 62)),), 'ids')]
EXTRA = {'C30': json_, 'C15': hash_, 'C17': packed_, 'C12': symlink_, 'C11': filepos_, 'C25': shm_, 'C06': tlsmv_, 'C27': tls_}
