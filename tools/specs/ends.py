"""C32: every call ends.  All entry points of all other properties, twice: a fixpoint over every loop in which each way
round must move some machine quantity strictly one way (or ask the environment anew), and an exploration of the first
rounds in which no state may come round again - where an end of file and an error other than an interruption last."""
import importlib
from spec import *

MODS = ('json', 'sync2', 'cont', 'hash', 'packed', 'arrays', 'conv', 'utf', 'mixed', 'tls', 'find', 'osx', 'guard', 'fs', 'path', 'env')

def cases():
    from specs import access
    seen = {}; out = []
    for m in MODS:
        M = importlib.import_module('specs.' + m)
        for pid in M.PROPS:
            for c in M.PROPS[pid]() + (access.EXTRA[pid]() if pid in access.EXTRA else []):
                if seen.setdefault((m, c.name), pid) != pid: continue
                d = Case(pid + ' ' + c.name, c.fn, 3, 20, only=('no-progress',), light=c.light); d.ends = True
                out.append(d)

    return out

PROPS = {'C32': cases}
RULES = {'C32': ['progress: in every loop, every way round strictly increases or strictly decreases a register, a memory cell, a pointer or a sum or difference of two of them, without wrapping (lexicographically), or asks the operating system anew',
    'no-progress: no loop comes round to the state it was in, and no function calls itself in the state it was called in, when the environment does not change; an end of file and an error other than EINTR and EAGAIN last']}
EXPLAIN = {'C32': 'ranking-function synthesis on the fixpoint of every loop of the LLVM IR of the current source and search for states that come round again'}
