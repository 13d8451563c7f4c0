"""LLVM IR front end: compiles /repo's current sources to IR and parses it."""
import os, re, subprocess, sys, glob, tempfile, shutil, bisect
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = 'clang++-18'
LLVM = '/usr/lib/llvm-18/bin/'
FLAGS = ['-std=c++0x', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-exceptions',
         '-fno-discard-value-names', '-S', '-emit-llvm', '-w', '-pthread']


class AnalysisError(Exception):
    pass


def sources():
    out = []
    for d, sub, files in os.walk(REPO):
        sub[:] = [s for s in sub if not s.startswith('.') and s != '_build']
        for f in sorted(files):
            if f.endswith('.cpp') and f != 'test_suite.cpp':
                out.append(os.path.join(d, f))
    return sorted(out)


def build(workdir):
    """compile every library source of the repo and the template driver, link, run sroa; return text"""
    srcs = sources() + [os.path.join(HERE, 'driver.cpp')]
    def comp(i_s):
        i, s = i_s
        o = os.path.join(workdir, 'm%d.ll' % i)
        p = subprocess.run([CLANG] + FLAGS + ['-I', REPO, s, '-o', o], capture_output=True, text=True)
        if p.returncode:
            return s, p.stderr
        return o, None
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, enumerate(srcs)))
    for o, err in res:
        if err is not None:
            raise AnalysisError('cannot compile %s:\n%s' % (o, err))
    linked = os.path.join(workdir, 'all.ll')
    subprocess.run([LLVM + 'llvm-link', '-S', '-o', linked] + [o for o, _ in res], check=True)
    out = os.path.join(workdir, 'opt.ll')
    subprocess.run([LLVM + 'opt', '-S', '-passes=sroa', linked, '-o', out], check=True)
    with open(out, encoding='latin1') as f:
        return f.read(), srcs


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'bits', 'elems', 'n', 'el', 'name', 'packed', '_size', '_align', '_offs')
    def __init__(self, k, **kw):
        self.k = k
        self._size = None
        for a, b in kw.items():
            setattr(self, a, b)
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.bits
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'named': return '%' + self.name
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.elems))
        return self.k

PTR = Ty('ptr'); VOID = Ty('void'); LABEL = Ty('label'); META = Ty('metadata')
_int = {}
def IntTy(b):
    if b not in _int: _int[b] = Ty('int', bits=b)
    return _int[b]
FLT = {'float': Ty('fp', bits=32), 'double': Ty('fp', bits=64), 'x86_fp80': Ty('fp', bits=128)}

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")|
 (?P<loc>%(?:"(?:[^"])*"|[-\w.$]+))|
 (?P<glob>@(?:"(?:[^"])*"|[-\w.$]+))|
 (?P<meta>![\w.]*)|
 (?P<num>0x[0-9A-Fa-fKLMHR]+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|
 (?P<word>[A-Za-z_][\w.]*)|
 (?P<attr>\#\d+)|
 (?P<p>\.\.\.|[()\[\]{}<>,=*|:])
)''', re.X)

def tokenize(s):
    toks = []
    i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise AnalysisError('cannot tokenize IR: %r' % s[i:i + 80])
        i = m.end()
        k = m.lastgroup
        toks.append((k, m.group(k)))
    return toks

def unq(s):
    if len(s) > 1 and s[1] == '"': return s[2:-1]
    return s[1:]


class P:
    """token stream parser"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def nxt(self):
        x = self.t[self.i]; self.i += 1; return x
    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'word'):
            self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise AnalysisError('IR parse: expected %r at %r' % (v, self.t[self.i:self.i + 8]))
    def type(self):
        k, v = self.nxt()
        if k == 'word':
            if v == 'ptr': ty = PTR
            elif v == 'void': ty = VOID
            elif v == 'label': ty = LABEL
            elif v == 'metadata': ty = META
            elif v in FLT: ty = FLT[v]
            elif re.fullmatch(r'i\d+', v): ty = IntTy(int(v[1:]))
            else: raise AnalysisError('IR type ' + v)
        elif k == 'loc': ty = Ty('named', name=unq(v))
        elif v == '[':
            n = int(self.nxt()[1]); self.exp('x'); el = self.type(); self.exp(']')
            ty = Ty('arr', n=n, el=el)
        elif v == '{':
            el = []
            while not self.acc('}'):
                el.append(self.type()); self.acc(',')
            ty = Ty('struct', elems=el, packed=False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.nxt(); el = []
                while not self.acc('}'):
                    el.append(self.type()); self.acc(',')
                self.exp('>')
                ty = Ty('struct', elems=el, packed=True)
            else:
                n = int(self.nxt()[1]); self.exp('x'); el = self.type(); self.exp('>')
                ty = Ty('arr', n=n, el=el)
        else: raise AnalysisError('IR type token %r' % (v,))
        # function type
        if self.peek()[1] == '(' and ty is not PTR or (self.peek()[1] == '(' and ty is PTR):
            save = self.i
            try:
                self.nxt(); args = []; 
                while not self.acc(')'):
                    if self.acc('...'): continue
                    args.append(self.type()); self.skip_attrs(); self.acc(',')
                ty = Ty('fn', el=ty, elems=args)
            except AnalysisError:
                self.i = save
        return ty
    ATTR1 = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
             'returned', 'immarg', 'inreg', 'nofree', 'writable', 'dead_on_unwind', 'allocptr', 'allocalign'}
    ATTRP = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'align'}
    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in self.ATTR1: self.i += 1
            elif k == 'word' and v in self.ATTRP:
                self.i += 1
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        z = self.nxt()[1]
                        if z == '(': d += 1
                        elif z == ')':
                            d -= 1
                            if d == 0: break
                elif v == 'align': self.i += 1
            else: return
    def value(self, ty):
        k, v = self.nxt()
        if k == 'loc': return ('r', unq(v))
        if k == 'glob': return ('g', unq(v))
        if k == 'num':
            if ty is not None and ty.k == 'fp': return ('f', v)
            return ('c', int(v))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'inrange'): self.i += 1
                self.exp('('); t = self.type(); self.exp(','); ops = []
                while True:
                    while self.peek()[1] in ('inrange',): self.i += 1
                    ot = self.type(); ops.append((ot, self.value(ot)))
                    if not self.acc(','): break
                self.exp(')')
                return ('gep', t, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('('); t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub'):
                while self.peek()[1] in ('nuw', 'nsw'): self.i += 1
                self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t = self.type(); b = self.value(t); self.exp(')')
                return ('cbin', v, t, a, b)
            if v == 'asm':
                while self.peek()[0] != 'str': self.i += 1
                a = self.nxt()[1]; self.exp(','); b = self.nxt()[1]
                return ('asm', a, b)
            raise AnalysisError('IR value word %s' % v)
        if k == 'str': return ('str', v)
        if k == 'meta':
            # metadata operand, skip to balanced
            d = 0
            while self.i < len(self.t):
                z = self.peek()
                if z[1] == '(' : d += 1
                elif z[1] == ')':
                    if d == 0: break
                    d -= 1
                elif z[1] == ',' and d == 0: break
                self.i += 1
            return ('meta', v)
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.nxt(); el = []
                while not self.acc('}'):
                    t = self.type(); el.append((t, self.value(t))); self.acc(',')
                self.exp('>'); return ('agg', el)
            el = []
            while not self.acc(close):
                t = self.type(); el.append((t, self.value(t))); self.acc(',')
            return ('agg', el)
        raise AnalysisError('IR value token %r in %r' % (v, self.t))


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'fn', 'bb')
    def __repr__(self): return '%s = %s %r' % (self.res, self.op, self.a)


class Block:
    def __init__(self, name): self.name = name; self.ins = []; self.succ = []; self.pred = []


class Fn:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []; self.dbg = None; self.rty = None
        self.vararg = False; self.internal = False


CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGW = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg'}


class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.fns = {}; self.decls = {}; self.md = {}; self.alias = {}
        self.parse(text)
        self._demangle()
        self._debug()

    # -------- parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                nm, rest = L.split(' = type ', 1)
                if rest.strip() == 'opaque': self.types[unq(nm)] = None
                else: self.types[unq(nm)] = P(tokenize(rest), self).type()
            elif L.startswith('@'):
                self.parse_global(L)
            elif L.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self.parse_fn(L, lines[i + 1:j])
                i = j
            elif L.startswith('declare '):
                m = re.search(r'@("[^"]+"|[-\w.$]+)\(', L)
                self.decls[unq('@' + m.group(1))] = L
            elif L.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', L)
                if m: self.md[int(m.group(1))] = m.group(2)
            i += 1

    def parse_global(self, L):
        m = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)', L)
        name = unq('@' + m.group(1)); rest = m.group(2)
        rest = re.sub(r'(, !dbg !\d+)+', '', rest)
        if ' alias ' in rest:
            t = re.search(r'ptr @("[^"]+"|[-\w.$]+)\s*$', rest)
            self.alias[name] = unq('@' + t.group(1)); return
        m2 = re.search(r'\b(global|constant)\b (.*)', rest)
        if not m2: return
        body = re.sub(r', (comdat(\(.*?\))?|align \d+|section "[^"]*")', '', m2.group(2))
        p = P(tokenize(body), self)
        ty = p.type()
        init = None
        if 'external ' not in rest[:m2.start()] + ' ' and p.i < len(p.t):
            init = p.value(ty)
        self.globals[name] = (ty, init, m2.group(1) == 'constant')

    def parse_fn(self, head, body):
        m = re.search(r'@("[^"]+"|[-\w.$]+)\(', head)
        f = Fn(unq('@' + m.group(1)))
        f.internal = ' internal ' in head
        pre = head[7:m.start()]
        toks = tokenize(pre)
        # return type is the last type in pre
        p = P([t for t in toks], self)
        rty = None
        while p.i < len(p.t):
            k, v = p.peek()
            if k == 'word' and (v in P.ATTR1 or v in P.ATTRP): p.skip_attrs(); continue
            if (k == 'word' and (v in ('ptr', 'void') or v in FLT or re.fullmatch(r'i\d+', v))) or k == 'loc' or v in '[{<':
                rty = p.type()
            else: p.i += 1
        f.rty = rty
        # params
        i = m.end(); d = 1; j = i
        while d:
            c = head[j]
            if c == '(': d += 1
            elif c == ')': d -= 1
            elif c == '"':
                j = head.index('"', j + 1)
            j += 1
        p = P(tokenize(head[i:j - 1]), self)
        while p.i < len(p.t):
            if p.acc('...'):
                f.vararg = True; break
            t = p.type(); p.skip_attrs()
            k, v = p.nxt(); f.params.append((unq(v), t)); p.acc(',')
        md = re.search(r'!dbg !(\d+)', head[j:])
        f.dbg = int(md.group(1)) if md else None
        cur = Block('entry'); first = True
        f.entry = None
        k = 0
        joined = []
        while k < len(body):
            L = body[k]
            if L.rstrip().endswith('[') and ' switch ' in ' ' + L.strip()[:8] + ' ' or L.lstrip().startswith('switch '):
                acc = L
                while ']' not in body[k]:
                    k += 1; acc += ' ' + body[k]
                L = acc
            joined.append(L); k += 1
        for L in joined:
            if not L.strip() or L.lstrip().startswith(';'): continue
            if not L.startswith(' '):
                mm = re.match(r'("[^"]*"|[-\w.$]+):', L)
                nm = mm.group(1).strip('"')
                if first and not cur.ins: cur = Block(nm)
                else: cur = Block(nm)
                if f.entry is None: f.entry = nm
                f.blocks[nm] = cur; f.order.append(nm); first = False
                continue
            if f.entry is None:
                f.entry = 'entry'; f.blocks['entry'] = cur; f.order.append('entry')
            if 'llvm.dbg.' in L or 'llvm.lifetime' in L or 'llvm.experimental.noalias' in L: continue
            ins = self.parse_ins(L)
            ins.fn = f; ins.bb = cur.name
            cur.ins.append(ins)
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            else: b.succ = []
        for b in f.blocks.values():
            for s in set(b.succ): f.blocks[s].pred.append(b.name)
        self.fns[f.name] = f

    def parse_ins(self, L):
        I = Ins(); I.res = None; I.dbg = None; I.ty = None; I.a = None
        m = re.search(r', !dbg !(\d+)', L)
        if m:
            I.dbg = int(m.group(1)); L = L[:m.start()] + re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', L[m.end():])
        L = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', L)
        p = P(tokenize(L), self)
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            I.res = unq(p.nxt()[1]); p.nxt()
        while p.peek()[1] in ('tail', 'musttail', 'notail'): p.i += 1
        op = p.nxt()[1]
        I.op = op
        def flags():
            while p.peek()[0] == 'word' and p.peek()[1] in FLAGW: p.i += 1
        if op in BIN:
            flags(); I.ty = p.type(); a = p.value(I.ty); p.exp(','); b = p.value(I.ty); I.a = (a, b)
        elif op in ('icmp', 'fcmp'):
            flags(); pred = p.nxt()[1]; I.ty = p.type(); a = p.value(I.ty); p.exp(','); b = p.value(I.ty); I.a = (pred, a, b)
        elif op in CASTS:
            flags(); t = p.type(); v = p.value(t); p.exp('to'); I.ty = p.type(); I.a = (t, v)
        elif op == 'fneg':
            flags(); I.ty = p.type(); I.a = (p.value(I.ty),)
        elif op == 'load':
            while p.peek()[1] in ('volatile', 'atomic'): p.i += 1
            I.ty = p.type(); p.exp(','); t = p.type(); I.a = (p.value(t),)
        elif op == 'store':
            while p.peek()[1] in ('volatile', 'atomic'): p.i += 1
            I.ty = p.type(); v = p.value(I.ty); p.exp(','); t = p.type(); I.a = (v, p.value(t))
        elif op == 'alloca':
            I.ty = p.type(); n = None
            if p.acc(','):
                if p.peek()[1] != 'align':
                    t = p.type(); n = p.value(t)
            I.a = (n,)
        elif op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'): p.i += 1
            I.ty = p.type(); ops = []
            while p.acc(','):
                t = p.type(); ops.append((t, p.value(t)))
            I.a = ops
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.nxt(); I.a = (unq(p.nxt()[1]),)
            else:
                t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = unq(p.nxt()[1]); p.exp(','); p.exp('label'); b = unq(p.nxt()[1])
                I.a = (c, a, b)
        elif op == 'switch':
            t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = unq(p.nxt()[1]); p.exp('['); cs = []
            I.ty = t
            while not p.acc(']'):
                tt = p.type(); c = p.value(tt); p.exp(','); p.exp('label'); cs.append((c[1], unq(p.nxt()[1])))
            I.a = (v, d, cs)
        elif op == 'ret':
            t = p.type(); I.ty = t; I.a = (None if t is VOID else p.value(t),)
        elif op == 'phi':
            flags(); I.ty = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(I.ty); p.exp(','); b = unq(p.nxt()[1]); p.exp(']'); inc.append((v, b))
                if not p.acc(','): break
            I.a = inc
        elif op == 'select':
            flags(); t = p.type(); c = p.value(t); p.exp(','); I.ty = p.type(); a = p.value(I.ty); p.exp(','); p.type(); b = p.value(I.ty)
            I.a = (c, a, b)
        elif op == 'call':
            flags()
            p.skip_attrs()
            while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc'): p.i += 1
            p.skip_attrs()
            t = p.type()
            if t.k == 'fn': t = t.el
            I.ty = t
            callee = p.value(t)
            p.exp('('); args = []
            while not p.acc(')'):
                at = p.type(); p.skip_attrs(); args.append((at, p.value(at))); p.acc(',')
            I.a = (callee, args)
        elif op in ('unreachable', 'fence'): pass
        elif op == 'extractvalue':
            t = p.type(); v = p.value(t); idx = []
            while p.acc(','): idx.append(int(p.nxt()[1]))
            I.ty = t; I.a = (v, idx)
        elif op == 'insertvalue':
            t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); v2 = p.value(t2); idx = []
            while p.acc(','): idx.append(int(p.nxt()[1]))
            I.ty = t; I.a = (v, t2, v2, idx)
        elif op == 'cmpxchg':
            while p.peek()[1] in ('weak', 'volatile'): p.i += 1
            t = p.type(); ptr = p.value(t); p.exp(','); t = p.type(); c = p.value(t); p.exp(','); t = p.type(); nw = p.value(t)
            I.ty = t; I.a = (ptr, c, nw)
        elif op == 'atomicrmw':
            while p.peek()[1] in ('volatile',): p.i += 1
            o = p.nxt()[1]; t = p.type(); ptr = p.value(t); p.exp(','); t = p.type(); v = p.value(t)
            I.ty = t; I.a = (o, ptr, v)
        elif op == 'freeze':
            I.ty = p.type(); I.a = (p.value(I.ty),)
        else:
            raise AnalysisError('IR op %s: %s' % (op, L))
        return I

    # -------- layout
    def size(self, t):
        if t.k == 'int': return max(1, (t.bits + 7) // 8) if t.bits != 128 else 16
        if t.k == 'ptr': return 8
        if t.k == 'fp': return t.bits // 8
        if t.k == 'arr': return t.n * self.size(t.el)
        if t.k == 'named': return self.size(self.types[t.name])
        if t.k == 'struct':
            self.layout(t); return t._size
        raise AnalysisError('size of %r' % t)
    def align(self, t):
        if t.k == 'int': return min(16, self.size(t))
        if t.k == 'ptr': return 8
        if t.k == 'fp': return t.bits // 8
        if t.k == 'arr': return self.align(t.el)
        if t.k == 'named': return self.align(self.types[t.name])
        if t.k == 'struct': self.layout(t); return t._align
        raise AnalysisError('align of %r' % t)
    def layout(self, t):
        if t._size is not None: return
        off = 0; al = 1; offs = []
        for e in t.elems:
            a = 1 if t.packed else self.align(e)
            off = (off + a - 1) // a * a
            offs.append(off); off += self.size(e); al = max(al, a)
        t._offs = offs; t._align = al; t._size = (off + al - 1) // al * al
    def resolve(self, t):
        while t.k == 'named': t = self.types[t.name]
        return t
    def fieldoff(self, t, i):
        t = self.resolve(t); self.layout(t); return t._offs[i], t.elems[i]

    # -------- names and debug info
    def _demangle(self):
        names = list(self.fns) + list(self.alias)
        out = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.bydem = {}
        for n in names: self.bydem.setdefault(self.dem[n], []).append(n)
        ext = [n for n in self.decls if n.startswith('_Z')]
        out = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(ext), capture_output=True, text=True).stdout.split('\n')
        self.dem.update(zip(ext, out))
    def _mdfields(self, i):
        s = self.md.get(i, '')
        d = {}
        for m in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+)', s): d[m.group(1)] = m.group(2)
        return s, d
    def _debug(self):
        self._loc = {}
        # struct members: name -> {field: (offset bytes, size bytes, basetype)}
        self.dtypes = {}; self.csizes = {}
        comps = {}
        for i, s in self.md.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in s or 'DICompositeType(tag: DW_TAG_class_type' in s or 'DICompositeType(tag: DW_TAG_union_type' in s:
                comps[i] = s
        self.qcache = {}
        for i, s in comps.items():
            m = re.search(r'elements: !(\d+)', s)
            if not m: continue
            els = [int(x) for x in re.findall(r'!(\d+)', self.md.get(int(m.group(1)), ''))]
            fields = {}
            for e in els:
                es, d = self._mdfields(e)
                if 'DIDerivedType(tag: DW_TAG_member' in es and 'DIFlagStaticMember' not in es and 'name' in d:
                    fields[d['name'].strip('"')] = (int(d.get('offset', '0')) // 8, int(d.get('size', '0')) // 8, d.get('baseType'))
                elif 'DW_TAG_inheritance' in es:
                    fields['<base%s>' % d.get('offset', '0')] = (int(d.get('offset', '0')) // 8, 0, d.get('baseType'))
            q = self.qual(i)
            if fields: self.dtypes.setdefault(q, fields)
            ms = re.search(r'[ (]size: (\d+)', s)
            if ms and q not in self.csizes: self.csizes[q] = int(ms.group(1)) // 8
    def qual(self, i):
        if i in self.qcache: return self.qcache[i]
        s, d = self._mdfields(i)
        nm = d.get('name', '"?"').strip('"')
        sc = d.get('scope')
        r = nm
        if sc and sc.startswith('!'):
            j = int(sc[1:])
            js = self.md.get(j, '')
            if 'DINamespace' in js or 'DICompositeType' in js or 'DISubprogram' in js: r = self.qual(j) + '::' + nm
        self.qcache[i] = r
        return r
    def loc_fn(self, f):
        for b in f.order:
            for i in f.blocks[b].ins:
                l = self.loc(i.dbg)
                if l[0] != '?' and l[1]: return l
        return ('?', 0)
    def csize(self, cls):
        if cls not in self.csizes: raise AnalysisError('class not found: ' + cls)
        return self.csizes[cls]
    def dtypename(self, ref):
        i = int(ref[1:])
        while True:
            s, d = self._mdfields(i)
            if 'DICompositeType' in s: return self.qual(i)
            if 'baseType' not in d: return d.get('name', '?').strip('"')
            i = int(d['baseType'][1:])
    def loc(self, dbg):
        """(file relative to repo, line)"""
        if dbg is None: return ('?', 0)
        if dbg in self._loc: return self._loc[dbg]
        s, d = self._mdfields(dbg)
        line = int(d.get('line', 0))
        f = '?'
        sc = d.get('scope')
        while sc:
            ss, dd = self._mdfields(int(sc[1:]))
            if 'file' in dd and dd['file'].startswith('!'):
                fs, fd = self._mdfields(int(dd['file'][1:])); f = fd.get('filename', '?').strip('"'); break
            sc = dd.get('scope')
        if f.startswith(REPO + '/'): f = f[len(REPO) + 1:]
        f = os.path.normpath(f)
        self._loc[dbg] = (f, line)
        return self._loc[dbg]
    def find(self, dem):
        """mangled name of a function by demangled name (prefix up to parameters allowed); errors when absent"""
        c = self.bydem.get(dem)
        if not c:
            c = [n for d, ns in self.bydem.items() for n in ns if d.split('(')[0] == dem and '(' not in dem]
        c = sorted(set(self.alias.get(x, x) for x in (c or [])))
        c = [x for x in c if x in self.fns]
        # constructors: C1/C2 duplicates
        if len(c) > 1:
            c2 = [x for x in c if re.search(r'[CD]2E', x)]
            if c2: c = c2[:1] if len(c2) == 1 else c2
        if not c: raise AnalysisError('anchor not found: %s' % dem)
        if len(c) > 1: raise AnalysisError('anchor ambiguous: %s -> %s' % (dem, c))
        return self.fns[c[0]]
    def findall(self, prefix):
        return [self.fns[n] for d, ns in self.bydem.items() if d.startswith(prefix) for n in ns if n in self.fns]


_mod = None
def load(cache=None):
    global _mod
    if _mod is None:
        wd = tempfile.mkdtemp(prefix='verif-ir-')
        try:
            text, srcs = build(wd)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        _mod = Module(text)
        _mod.srcs = srcs
    return _mod

if __name__ == '__main__':
    import time
    t = time.time(); m = load(); print(time.time() - t, len(m.fns), len(m.types))
    if len(sys.argv) > 1:
        for d in sorted(m.bydem):
            if sys.argv[1] in d: print(d)
