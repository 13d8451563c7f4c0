"""C31: calls share no hidden state.  A flow-insensitive may-write analysis over the whole library (derivation of every
pointer from parameters, static variables, locals and fresh memory; summaries per function to a fixpoint) and a list of
C library functions that keep or change state of the process."""
import re, os
from spec import *
import ir

WR = dict(memcpy=(0,), memmove=(0,), memset=(0,), strcpy=(0,), strncpy=(0,), strcat=(0,), strncat=(0,), stpcpy=(0,), mempcpy=(0,), bzero=(0,), explicit_bzero=(0,),
    sprintf=(0,), snprintf=(0,), vsprintf=(0,), vsnprintf=(0,), read=(1,), pread=(1,), fread=(0,), fgets=(0,), getcwd=(0,), readlink=(1,), realpath=(1,), stat=(1,), lstat=(1,), fstat=(1,),
    gettimeofday=(0,), clock_gettime=(1,), gmtime_r=(1,), localtime_r=(1,), pthread_mutex_init=(0,), pthread_mutex_lock=(0,), pthread_mutex_trylock=(0,), pthread_mutex_unlock=(0,),
    pthread_mutex_destroy=(0,), pthread_cond_init=(0,), pthread_cond_signal=(0,), pthread_cond_broadcast=(0,), pthread_cond_wait=(0, 1), pthread_cond_timedwait=(0, 1), pthread_cond_destroy=(0,),
    pthread_key_create=(0,), pthread_mutexattr_init=(0,), pthread_condattr_init=(0,), swab=(1,), wcscpy=(0,), wmemcpy=(0,), sem_post=(0,), sem_wait=(0,), free=(0,), realloc=(0,), _ZdlPv=(0,), _ZdaPv=(0,))
RET0 = {'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'strncat', 'stpcpy', 'mempcpy', 'memchr', 'strchr', 'strrchr', 'strstr', 'strpbrk', 'rawmemchr', 'getcwd', 'fgets', 'realloc'}
BAD = [(re.compile('^(' + r + ')$'), t) for r, t in (
    (r'strtok|localtime|gmtime|ctime|asctime|tmpnam|getlogin|ttyname|inet_ntoa|gethostbyname|gethostbyaddr|ecvt|fcvt|gcvt|l64a|ptsname|crypt|setkey|encrypt|hsearch|hcreate|mblen|mbtowc|wctomb', 'keeps its result in memory that all calls share'),
    (r's?rand|s?random|initstate|setstate|[del]rand48|[nmj]rand48|srand48|lcong48|seed48', 'uses a random sequence that the whole process shares'),
    (r'getpwent|setpwent|endpwent|getgrent|setgrent|endgrent', 'walks a list that the whole process shares'),
    (r'setlocale|uselocale|setenv|putenv|unsetenv|clearenv|tzset', 'changes the environment or locale of the process'),
    (r'f?chdir|chroot', 'changes the current directory of the process'),
    (r'signal|sigaction|sigprocmask|pthread_sigmask|sigaltstack|siginterrupt|alarm|setitimer|timer_settime', 'changes the signal handling of the process'),
    (r'set(res|re|e)?[ug]id|setgroups|setrlimit|nice|setpriority|mlockall|prctl|mallopt|sched_setscheduler|sched_setaffinity|pthread_setcancelstate|pthread_setcanceltype|setpgid|setsid', 'changes a setting of the process'),
    (r'(quick_|_)?exit|_Exit|abort|raise|kill|_ZSt9terminatev|pthread_exit|atexit|at_quick_exit|fork|vfork|exec[vlpe]+|system|popen|daemon', 'ends, starts or signals a process'),
    (r'_ZNSt6locale6globalERKS_|_ZSt15set_new_handlerPFvvE|_ZSt13set_terminatePFvvE|dup2|dup3|closefrom|close_range', 'changes a setting of the process'),
    (r'printf|puts|putchar|perror|fprintf|vprintf|vfprintf|fputs|fputc|fwrite|v?syslog|openlog|v?warnx?|v?errx?', 'writes where the caller did not ask it to'))]
STREAM = re.compile(r'^(stdout|stderr|stdin|_ZSt[0-9]w?(cout|cerr|clog|cin))$')

class Effects:
    def __init__(self, mod):
        self.m = mod; self.fns = [f for f in mod.fns.values() if self.inrepo(f)]
        self.wr = {f.name: set() for f in mod.fns.values()}     # what a call may write through: ('p', i) or ('g', name)
        self.ret = {f.name: set() for f in mod.fns.values()}    # what a returned pointer may point into
        self.esc = {f.name: set() for f in mod.fns.values()}    # (a, b): a pointer into b may be stored in memory of a
        self.sites = {}; self.stores = 0; self.calls = 0
        ch = True
        while ch:
            ch = False
            for f in mod.fns.values():
                if self.once(f): ch = True
        self.stores = self.calls = 0
        for f in self.fns: self.once(f, True)
    def inrepo(self, f):
        l = self.m.loc_fn(f)[0]
        return l[:1] not in '?/.' and os.path.isfile(os.path.join(ir.REPO, l)) and not f.name.startswith(('_GLOBAL__', '__cxx_global'))
    def mutable(self, g):
        g = self.m.alias.get(g, g)
        if g in self.m.fns or g.startswith('_ZGV'): return False
        d = self.m.globals.get(g)
        return d is not None and not d[2]
    def guarded(self, f):
        """blocks in which a static variable is initialised once: guard variable -> blocks between acquire and release"""
        out = {}
        for b in f.blocks.values():
            for i in b.ins:
                if i.op in ('call', 'invoke') and i.a[0] == ('g', '__cxa_guard_acquire'):
                    g = i.a[1][0][1]
                    nx = [s for s in b.succ]; todo = nx[:1]; seen = set()
                    while todo:
                        x = todo.pop()
                        if x in seen: continue
                        seen.add(x)
                        if any(j.op in ('call', 'invoke') and j.a[0] == ('g', '__cxa_guard_release') for j in f.blocks[x].ins): continue
                        todo += f.blocks[x].succ
                    if g[0] == 'g': out.setdefault('_Z' + g[1][4:], set()).update(seen)
        return out
    def once(self, f, record=False):
        m = self.m
        roots = {}; cont = {}
        for k, (n, t) in enumerate(f.params): roots[n] = {('p', k)}
        guard = self.guarded(f)
        def rv(v):
            if not isinstance(v, tuple): return set()
            if v[0] == 'r': return roots.get(v[1], set())
            if v[0] == 'g': return {('g', v[1])} if self.mutable(v[1]) else set()
            if v[0] == 'gep': return set().union(*[rv(x) for _, x in v[2]])
            if v[0] == 'cast': return rv(v[3])
            if v[0] == 'cbin': return rv(v[3]) | rv(v[4])
            if v[0] == 'agg': return set().union(set(), *[rv(x) for _, x in v[1]])
            return set()
        new = [False]
        def upd(d, k, s):
            o = d.setdefault(k, set())
            if not s <= o: o |= s; new[0] = True
        def close(s):
            """what memory reached from these may point to"""
            out = set(); todo = list(s)
            while todo:
                r = todo.pop()
                if r in out: continue
                out.add(r); todo += cont.get(r, ())
            return out
        def ext(s): return {r for r in s if r[0] in 'pgd'}
        def deep(s):
            """what pointers found in this memory may point into: ('d', k) is memory reached through parameter k"""
            out = set()
            for r in s:
                if r[0] in 'pd': out.add(('d', r[1]))
                if r[0] == 'g': out.add(r)
                c = cont.get(r, set())
                out |= {x for x in c if x[0] in 'ag'}
            return out
        wr = set(); ret = set(); esc = set()
        def write(i, b, s):
            for r in s:
                if r[0] == 'g' and b in guard.get(r[1], ()): continue
                if r[0] in 'pgd':
                    wr.add(r)
                    if record and r[0] == 'g': self.sites.setdefault((f.name, 'w', r[1]), i)
                    if record and r[0] != 'g': self.sites.setdefault((f.name, r[0], r[1]), i)
        def put(i, b, dst, val):
            for r in dst:
                upd(cont, r, val)
                for v in ext(val):
                    if r[0] in 'pgd' and v != r:
                        esc.add((r, v))
                        if record and v[0] == 'g': self.sites.setdefault((f.name, 'e', v[1]), i)
        while True:
            new[0] = False
            for bn in f.order:
                for i in f.blocks[bn].ins:
                    o = i.op
                    if o == 'alloca': upd(roots, i.res, {('a', i.res)})
                    elif o == 'getelementptr': upd(roots, i.res, rv(i.a[0][1]))
                    elif o in ir.CASTS: upd(roots, i.res, rv(i.a[1]))
                    elif o == 'phi': upd(roots, i.res, set().union(*[rv(v) for v, p in i.a]))
                    elif o == 'select': upd(roots, i.res, set().union(set(), *[rv(v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], ir.Ty) else v) for v in i.a]))
                    elif o in ('add', 'sub', 'and', 'or'): upd(roots, i.res, rv(i.a[0]) | rv(i.a[1]))
                    elif o == 'load':
                        s = rv(i.a[0])
                        if i.ty.k in ('ptr', 'struct', 'named', 'arr'):
                            upd(roots, i.res, deep(s))
                    elif o in ('extractvalue', 'insertvalue', 'freeze'):
                        s = set()
                        for x in i.a if isinstance(i.a, (tuple, list)) else ():
                            if isinstance(x, tuple):
                                s |= rv(x) if x and isinstance(x[0], str) else set().union(set(), *[rv(y) for y in x if isinstance(y, tuple)])
                        upd(roots, i.res, s)
                    elif o == 'store':
                        s = rv(i.a[1]); write(i, bn, s)
                        if record: self.stores += 1
                        put(i, bn, s, rv(i.a[0]) if i.ty.k in ('ptr', 'struct', 'named', 'arr') else set())
                    elif o in ('atomicrmw', 'cmpxchg'):
                        for x in i.a:
                            if isinstance(x, tuple): write(i, bn, rv(x))
                        if record: self.stores += 1
                    elif o == 'ret':
                        if i.a and i.a[0] is not None:
                            for x in i.a:
                                if isinstance(x, tuple): ret.update(ext(close(rv(x if isinstance(x[0], str) else x[1]))))
                    elif o in ('call', 'invoke'):
                        cal = i.a[0]; args = [rv(v) for t, v in i.a[1]]
                        if record: self.calls += 1
                        n = m.alias.get(cal[1], cal[1]) if cal[0] == 'g' else None
                        if n in m.fns and n is not None:
                            def sub(r): return {r} if r[0] == 'g' else set() if r[1] >= len(args) else args[r[1]] if r[0] == 'p' else deep(args[r[1]])
                            for r in self.wr[n]:
                                if r[0] != 'g': write(i, bn, sub(r))
                            for a, b in self.esc[n]:
                                for d in [sub(a)]: put(i, bn, d, sub(b))
                            if i.res: upd(roots, i.res, set().union(set(), *[sub(r) for r in self.ret[n]]))
                            wr.update(r for r in self.wr[n] if r[0] == 'g')
                        elif n is not None:
                            base = n.split('.')[1] if n.startswith('llvm.') else n
                            if n.startswith('llvm.threadlocal.address'): upd(roots, i.res, args[0])
                            for k in WR.get(base, ()):
                                if k < len(args): write(i, bn, args[k])
                            if base in ('memcpy', 'memmove') and len(args) > 1:
                                put(i, bn, args[0], deep(args[1]))
                            if i.res and base in RET0: upd(roots, i.res, args[0])
                            elif i.res and base in ('malloc', '_Znwm', '_Znam', 'calloc'): upd(roots, i.res, {('a', i.res)})
            if not new[0]: break
        ch = False
        for d, s in ((self.wr, wr), (self.ret, ret), (self.esc, esc)):
            if not s <= d[f.name]: d[f.name] |= s; ch = True
        return ch

    def reach(self, names):
        """functions from which one of these is called"""
        out = set(names); ch = True
        while ch:
            ch = False
            for f in self.m.fns.values():
                if f.name not in out and any(i.op in ('call', 'invoke') and i.a[0][0] == 'g' and self.m.alias.get(i.a[0][1], i.a[0][1]) in out for b in f.blocks.values() for i in b.ins): out.add(f.name); ch = True
        return out
    def once_init(self, f):
        """guarded initialisations whose value belongs to the first call only: (instruction, variable, why)"""
        g = self.guarded(f)
        if not g: return
        now = self.reach(NOW)
        for var, blocks in g.items():
            own = {i.res for b in blocks for i in f.blocks[b].ins if i.res}
            for b in blocks:
                for i in f.blocks[b].ins:
                    if i.op == 'br': continue
                    if i.op in ('call', 'invoke') and i.a[0][0] == 'g' and self.m.alias.get(i.a[0][1], i.a[0][1]) in now: yield i, var, 'from what %s returns at that time' % self.m.dem.get(i.a[0][1], i.a[0][1])
                    for x in flat(i.a):
                        if x[0] == 'r' and x[1] not in own and x[1] in self.defs(f): yield i, var, 'from values of that call'
    def defs(self, f):
        """registers that depend on the call"""
        return {n for n, t in f.params} | {i.res for b in f.blocks.values() for i in b.ins if i.res and i.op != 'alloca'}

STDFD = (('c', 0), ('c', 1), ('c', 2))
FDCALL = {'write', 'dprintf', 'writev', 'close', 'ftruncate', 'lseek', 'fcntl', 'ioctl', 'fchmod', 'fchown', 'flock'}
NOW = {'pthread_self', 'getpid', 'gettid', 'time', 'clock_gettime', 'gettimeofday', 'clock', 'getuid', 'geteuid', 'getgid', 'getcwd', 'realpath', 'stat', 'lstat', 'open', 'readlink', 'getenv'}
def flat(a):
    if isinstance(a, tuple) and len(a) == 2 and a[0] in ('r', 'g') and isinstance(a[1], str): yield a
    elif isinstance(a, (tuple, list)):
        for x in a: yield from flat(x)

_eff = None
def eff():
    global _eff
    if _eff is None: _eff = Effects(module())
    return _eff

def params(d):
    """parameter types of a demangled signature"""
    d = re.sub(r'\) const$', ')', d)
    if not d.endswith(')'): return []
    j = len(d) - 1; n = 0
    while j >= 0:
        n += (d[j] in ')>') - (d[j] in '(<')
        if n == 0: break
        j -= 1
    out = []; cur = ''; n = 0
    for c in d[j + 1:-1]:
        n += (c in '(<') - (c in ')>')
        if c == ',' and n == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

def gname(m, g):
    """readable name of a static variable"""
    import subprocess
    try: return m.dem.get(g) or subprocess.run(['c++filt', g], capture_output=True, text=True).stdout.strip() or g
    except OSError: return g

def group(files):
    def run(sp):
        E = eff(); m = sp.mod
        for f in E.fns:
            file = m.loc_fn(f)[0]
            if file not in files: continue
            d = m.dem.get(f.name, f.name); sp.fns.add(d); sp.paths += 1
            for k, i in E.sites.items():
                if k[0] != f.name: continue
                where = m.loc(i.dbg) if i.dbg else m.loc_fn(f)
                g = gname(m, k[2]) if k[1] in 'we' else ''
                if k[1] == 'w': sp.fact(False, 'static-write', where, d, 'writes the static variable %s, which all calls and threads share' % g)
                if k[1] == 'e': sp.fact(False, 'static-share', where, d, 'hands out memory of the static variable %s, which all calls and threads share' % g)
            for r in sorted(E.ret[f.name]):
                if r[0] == 'g' and (f.name, 'w', r[1]) not in E.sites and any(k[2] == r[1] and k[1] == 'w' for k in E.sites):
                    sp.fact(False, 'static-share', m.loc_fn(f), d, 'returns memory of the static variable %s, which all calls and threads share' % gname(m, r[1]))
            for i, var, why in E.once_init(f):
                sp.fact(False, 'static-init', m.loc(i.dbg) if i.dbg else m.loc_fn(f), d, 'the static variable %s keeps, for all later calls and threads, a value that the first call computes %s' % (gname(m, var), why))
            if re.search(r'\) const$', d) and f.params:
                me = [n for n, t in f.params].index('this') if 'this' in [n for n, t in f.params] else -1
                bad = {('p', me), ('d', me)} & E.wr[f.name]
                i = E.sites.get((f.name, 'p', me)) or E.sites.get((f.name, 'd', me))
                sp.fact(not bad, 'const-write', m.loc(i.dbg) if bad and i is not None and i.dbg else m.loc_fn(f), d, 'a const operation writes to its object')
            ps = params(d); nm = [n for n, t in f.params[:2]]; off = nm.index('this') + 1 if 'this' in nm else 0
            for k, t in enumerate(ps):
                if len(f.params) == len(ps) + off and re.search(r' const\s*[*&]$', t):
                    bad = ('p', k + off) in E.wr[f.name]; i = E.sites.get((f.name, 'p', k + off))
                    sp.fact(not bad, 'const-write', m.loc(i.dbg) if bad and i is not None and i.dbg else m.loc_fn(f), d, 'writes to its argument %d, which it was only given to read' % (k + 1))
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op not in ('call', 'invoke'): continue
                    n = i.a[0][1] if i.a[0][0] == 'g' else None
                    where = m.loc(i.dbg) if i.dbg else m.loc_fn(f)
                    if n is None: continue
                    t = next((t for r, t in BAD if n not in m.fns and r.match(n)), None)
                    if n == 'umask' and not file.startswith('sync/'): t = 'changes the file mode mask of the process'
                    if n in FDCALL and i.a[1] and i.a[1][0][1] in STDFD: t = 'uses a standard stream of the process'
                    sp.fact(t is None, 'process-state', where, d, '%s %s' % (n, t))
                    for ty, v in i.a[1]:
                        if isinstance(v, tuple) and v[0] == 'g' and STREAM.match(v[1]): sp.fact(False, 'process-state', where, d, 'uses the stream %s of the process' % v[1])
            sp.fact(True, 'static-write', m.loc_fn(f), d, '')
    return run
def cases():
    E = eff(); by = {}
    for f in E.fns: by.setdefault(E.m.loc_fn(f)[0], 0)
    out = [Case(x, group({x}), 0) for x in sorted(by)]
    return out

PROPS = {'C31': cases}
RULES = {'C31': ['static-write: no function writes a variable of static storage duration, thread-local ones included, outside its guarded initialisation',
    'static-share: no function returns or stores a pointer into such a variable', 'static-init: no variable of static storage duration is initialised on first use with a value that depends on that call, its thread or its time',
    'const-write: no const member function writes memory of its object, directly or through its pointers',
    'process-state: no call of a C library function that keeps or changes state of the process']}
EXPLAIN = {'C31': 'interprocedural may-write analysis of the LLVM IR of the current source: every store, every call and the derivation of every pointer'}
