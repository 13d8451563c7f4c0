"""Shared helpers of the property specifications."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, engine, models, lin
from engine import *
from lin import *

_mod = None
def module():
    global _mod
    if _mod is None: _mod = ir.load()
    return _mod

class Spec:
    """collects obligations of one property over many entry points"""
    def __init__(self, pid, peel=0, budget=None):
        self.pid = pid
        self.mod = module()
        self.peel = peel; self.budget = budget; self.peel1 = False; self.only = None; self.light = False; self.ends = False
        self.obl = {}; self.viol = {}
        self.fns = set(); self.entries = []; self.paths = 0; self.unknown = set()
        self.notes = []; self.engs = []; self.truncated = False; self.exists = {}
    def engine(self):
        e = Engine(self.mod)
        e.peel = self.peel; e.peel1 = self.peel1
        if self.ends: e.ends = True; e.rank = None if self.peel else {}
        if self.budget: e.deadline = lin.DEADLINE[0] = min(time.time() + self.budget, lin.STOP[0])
        self.engs.append(e)
        return e
    def absorb(self, e, entry, n):
        if self.only:
            e.obl = {k: v for k, v in e.obl.items() if k[0].startswith(self.only)}
            e.viol = {k: v for k, v in e.viol.items() if k[0].startswith(self.only)}
        for k, ok in e.obl.items(): self.obl[k] = self.obl.get(k, True) and ok
        for k, v in e.viol.items():
            v.entry = entry
            self.viol.setdefault(k, v)
        self.fns |= {self.mod.dem.get(f, f) for f in e.fns_seen}
        self.entries.append(entry); self.paths += n
        self.unknown |= e.unknown_calls
        self.truncated |= e.truncated
        e.obl = {}; e.viol = {}
    def absorb_all(self, entry):
        for e in self.engs:
            if e.obl or e.viol: self.absorb(e, entry, 0)
    def exist(self, ok, rule, where, fn, msg):
        """some behaviour must be possible: decided on the over-approximation only"""
        k = (rule, where, fn)
        if not self.peel:
            self.obl[k] = self.obl.get(k, True) and bool(ok)
            if not ok:
                v = Violation(rule, where, fn, msg, ()); v.entry = fn
                self.exists.setdefault(v.key(), v)
    def fact(self, ok, rule, where, fn, msg, trace=()):
        k = (rule, where, fn)
        self.obl[k] = self.obl.get(k, True) and bool(ok)
        if not ok:
            v = Violation(rule, where, fn, msg, trace); v.entry = fn
            self.viol.setdefault(v.key(), v)

class Case:
    """one entry point of the analysis: fn(spec) analyses it and records obligations"""
    def __init__(self, name, fn, peel=3, budget=60, only=None, light=False):
        self.only = only; self.light = light; self.name = name; self.fn = fn; self.peel = peel; self.budget = budget; self.ends = False

def vdict(v):
    return dict(rule=v.rule, file=v.where[0], line=v.where[1], fn=v.fn, msg=v.msg, entry=getattr(v, 'entry', '?'),
                trace=['%s:%d %s' % (t[0][0], t[0][1], t[1]) for t in v.trace])
def decide_ends(pid, case, scale):
    """does the entry point end: ranking of every loop on the fixpoint, then a search for states that come round again"""
    t0 = time.time(); err = None; rank = {}; q = None
    sp = Spec(pid, 0, case.budget * scale); sp.only = case.only; sp.ends = True
    try: case.fn(sp)
    except AnalysisError as e: err = str(e)
    except RecursionError as e: err = 'recursion limit'
    for e in sp.engs:
        for k, l in (e.rank or {}).items(): rank[k] = rank.get(k, True) and all(l)
    fns = set(sp.fns) | {sp.mod.dem.get(f, f) for e in sp.engs for f in e.fns_seen}
    open_ = [k for k in rank if not rank[k]]
    if open_ and err is None:
        s2 = Spec(pid, 0, case.budget * scale); s2.only = case.only; s2.ends = s2.peel1 = True
        try:
            case.fn(s2); r2 = {}
            for e in s2.engs:
                for k, l in (e.rank or {}).items(): r2[k] = r2.get(k, True) and all(l)
            for k in open_: rank[k] = r2.get(k, False)
        except (AnalysisError, RecursionError): pass
    viol = {}; e2 = None; paths = sp.paths
    for light in tuple(case.light or ()) + (False,):
        q = Spec(pid, case.peel * (2 if scale > 1 else 1), case.budget * scale); q.only = case.only; q.ends = True; q.light = light
        try: case.fn(q)
        except AnalysisError as e: e2 = str(e)
        except RecursionError as e: e2 = 'recursion limit'
        q.absorb_all(case.name); paths += q.paths; fns |= q.fns
        if q.viol: break
    und = [dict(rule='progress', file=k[0][0], line=k[0][1], fn=k[1], msg='no quantity was found that moves one way on every way round', entry=case.name, trace=[]) for k in rank if not rank[k]]
    v = [vdict(x) for x in q.viol.values()]
    n = len(rank) + 1
    return dict(case=case.name, obligations=n, discharged=n - len(und) - bool(v) - (not v and bool(err or e2)), entries=[case.name], fns=sorted(fns), paths=paths, unknown=sorted(q.unknown | sp.unknown), undecided=und, viol=v,
        verdict='violated' if v else 'bounded' if err or und else 'proved', error=err or e2 if err or und else None, wall=round(time.time() - t0, 2))
def decide(pid, case, scale=1):
    """analyse one entry point.  First a fixpoint over all loops; what that cannot prove is re-analysed with the
    loops peeled, and only what is still violated there is an alarm."""
    t0 = time.time()
    if case.ends and t0 <= lin.STOP[0]: return decide_ends(pid, case, scale)
    if t0 > lin.STOP[0]:
        return dict(case=case.name, obligations=0, entries=[], fns=[], paths=0, unknown=[], undecided=[], viol=[], verdict='skipped', error='out of time', discharged=0, wall=0)
    sp = Spec(pid, 0, case.budget * scale); sp.only = case.only
    err = None
    try: case.fn(sp)
    except AnalysisError as e: err = str(e)
    except RecursionError as e: err = 'recursion limit'
    r = dict(case=case.name, obligations=len(sp.obl), entries=sp.entries, fns=sorted(sp.fns), paths=sp.paths, unknown=sorted(sp.unknown), undecided=[], viol=[], verdict='proved', error=err)
    if err is None:
        r['viol'] = [vdict(v) for v in sp.exists.values()]
    if sp.viol and err is None:
        # second strategy: the first iteration of every loop apart.  Both are over-approximations, so an obligation
        # that one of them discharges holds
        s2 = Spec(pid, 0, case.budget * scale); s2.peel1 = True; s2.only = case.only
        try:
            case.fn(s2)
            bad = {k[:3] for k in s2.viol}
            sp.viol = {k: v for k, v in sp.viol.items() if k[:3] in bad}
        except (AnalysisError, RecursionError): pass
    if err is not None or sp.viol:
        und = [vdict(v) for v in sp.viol.values()]
        # where the environment has many choices, a run with the plain ones comes first: any subset of behaviours is
        # enough to find a violation
        for light in tuple(case.light or ()) + (False,):
            q = Spec(pid, case.peel * (2 if scale > 1 else 1), case.budget * scale)
            e2 = None; q.only = case.only; q.light = light
            try: case.fn(q)
            except AnalysisError as e: e2 = str(e); q.truncated = True
            except RecursionError as e: e2 = 'recursion limit'; q.truncated = True
            q.absorb_all(case.name)
            if q.viol: break
        r['viol'] += [vdict(v) for v in q.viol.values()]
        if err is not None:
            r['obligations'] = len(q.obl); r['entries'] = q.entries; r['paths'] = q.paths
        r['fns'] = sorted(sp.fns | q.fns)
        r['verdict'] = 'violated' if r['viol'] else 'bounded' if q.truncated else 'proved'
        r['peel'] = q.peel; r['peel_error'] = e2
        if r['verdict'] == 'bounded': r['undecided'] = und
    elif r['viol']: r['verdict'] = 'violated'
    r['discharged'] = r['obligations'] - len({(v['rule'], v['file'], v['line'], v['fn']) for v in r['viol'] + r['undecided']})
    r['wall'] = round(time.time() - t0, 2)
    return r

def obj(eng, S, cls, name='this', kind='obj'):
    """object of a class, fields unset (symbolic)"""
    sz = eng.mod.csize(cls)
    r = S.new_region(kind, name, sz)
    return PtrV(r.rid, ZERO)
def foff(mod, cls, path):
    off = 0
    parts = path.split('.')
    for i, p in enumerate(parts):
        d = mod.dtypes.get(cls)
        if d is None or p not in d: raise AnalysisError('no field %s in %s' % (p, cls))
        o, s, bt = d[p]
        off += o
        if i + 1 < len(parts): cls = mod.dtypename(bt)
    return off, s
def setf(eng, S, p, cls, path, v):
    o, s = foff(eng.mod, cls, path)
    S.w(p.r).cells[o] = (s, v)
def getf(eng, S, p, cls, path):
    o, s = foff(eng.mod, cls, path)
    c = S.mem[p.r].cells.get(o)
    if c is None or c[0] != s: return None
    return c[1]
def cstr(S, name, kind='input', lo=0, hi=BIGALLOC):
    r = S.new_region(kind, name, None)
    n = V(newvar(name + '.len', lo, hi)); r.nul = n; r.size = n + 1
    return PtrV(r.rid, ZERO), n
def buf(S, name, size, kind='input'):
    r = S.new_region(kind, name, size)
    return PtrV(r.rid, ZERO)
