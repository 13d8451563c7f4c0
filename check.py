#!/usr/bin/env python3
"""python3 check.py <property id> [--list] [--case SUBSTR] [-v]: decide one property on /repo's current source."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import multiprocessing as mp

SPECS = ['json', 'sync2', 'cont', 'hash', 'packed', 'arrays', 'conv', 'utf', 'mixed', 'tls', 'find', 'osx', 'guard', 'fs', 'path', 'env', 'effects', 'defaults', 'ends']
FLOORS = os.path.join(HERE, 'tools', 'floors.json')

def find(pid):
    for m in SPECS:
        mod = importlib.import_module('specs.' + m)
        if pid in mod.PROPS: return mod
    raise SystemExit('unknown property ' + pid)

_cases = None
def work(a):
    i, pid, scale = a
    import spec
    try: return spec.decide(pid, _cases[i], scale)
    except Exception as e:
        return dict(case=_cases[i].name, crash=traceback.format_exc())

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                out.append(dict(x.split('=', 1) for x in l[7:].split(' | ')[0].split()) | {'text': l.split(' | ', 1)[1].strip()})
    return out

def main():
    global _cases
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    flt = sys.argv[sys.argv.index('--case') + 1] if '--case' in sys.argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    t0 = time.time()
    import spec, lin
    m = find(pid)
    lin.lib()
    lin.STOP[0] = t0 + (14400 if tier == 'thorough' else 600)
    spec.module()
    _cases = m.PROPS[pid]()
    from specs import access
    if pid in access.EXTRA: _cases += access.EXTRA[pid]()
    if '--list' in sys.argv:
        for c in _cases: print(c.name)
        return 0
    idx = [i for i, c in enumerate(_cases) if flt is None or flt in c.name]
    scale = 4 if tier == 'thorough' else 1
    nproc = min(os.cpu_count() or 1, 8)
    res = []
    with mp.get_context('fork').Pool(nproc, maxtasksperchild=6) as pool:
        for r in pool.imap_unordered(work, [(i, pid, scale) for i in idx], chunksize=1):
            res.append(r)
            if verbose:
                print('%-70s %s %.1fs obl=%d %s' % (r['case'][:70], r.get('verdict', 'CRASH'), r.get('wall', 0), r.get('obligations', 0), (r.get('error') or '')[:100]), flush=True)
                for u in r.get('undecided', [])[:4] + r.get('viol', [])[:4]: print('     %s:%d %s %s' % (u['file'], u['line'], u['rule'], u['msg'][:150]))
    crash = [r for r in res if 'crash' in r]
    if crash:
        for r in crash[:2]: print('INTERNAL ERROR in case %s\n%s' % (r['case'], r['crash'][-300:]), file=sys.stderr)
        if len(crash) == len(res): return 2
        res = [r for r in res if 'crash' not in r]
    kf = known()
    viol = {}; found = {}
    for r in res:
        for v in r['viol']:
            k = next((k for k in kf if k['property'] == pid and k['rule'] == v['rule'] and k['fn'] == v['fn'].replace(' ', '')), None)
            if k: found[k['text']] = 1
            else: viol.setdefault((v['rule'], v['file'], v['line'], v['fn'], v['msg']), v)
    for t in found: print('KNOWN-FINDING: property=%s %s' % (pid, t))
    n = sum(r['obligations'] for r in res); d = sum(r['discharged'] for r in res)
    fns = sorted({f for r in res for f in r['fns']})
    if flt is None:
        fl = json.load(open(FLOORS)).get(pid) if os.path.exists(FLOORS) else None
        if fl and len(res) < fl['entries']:
            print('coverage below the confirmed floor: %d entry points analysed, %d expected' % (len(res), fl['entries'])); return 2
    ver = {}
    for r in res: ver[r['verdict']] = ver.get(r['verdict'], 0) + 1
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(time.time() - t0, 2),
      coverage=dict(explanation=getattr(m, 'EXPLAIN', {}).get(pid, 'abstract interpretation of the LLVM IR that clang emits for the current source') +
            '. Each entry point below was analysed over all its paths with loops solved by a widening fixpoint (verdict proved); an entry whose fixpoint leaves obligations open is re-analysed with peeled loops and is then "bounded" unless the peeled analysis terminated.',
        entry_points=len(res), verdicts=ver, obligations=n, discharged=d, functions_analysed=len(fns), functions=fns,
        rules=sorted(getattr(m, 'RULES', {}).get(pid, [])), undecided=[x for r in res for x in r['undecided']][:40],
        undecided_count=sum(len(r['undecided']) for r in res), internal_errors=[r['case'] for r in crash], havocked_externals=sorted({u for r in res for u in r['unknown']}),
        analysis_errors=sorted({r['error'] for r in res if r['error']}), samples=[dict(case=r['case'], verdict=r['verdict'], obligations=r['obligations'], paths=r['paths'], wall=r['wall']) for r in res[:12]],
        violations=list(viol.values())[:40]))
    if flt is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d entry points (%s), %d functions, %d obligations, %d discharged, %.0f s' % (pid, len(res), ', '.join('%d %s' % (c, v) for v, c in sorted(ver.items())), len(fns), n, d, time.time() - t0))
    if viol:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as f:
            for v in sorted(viol.values(), key=lambda v: (v['file'], v['line'])):
                f.write('%s:%d: [%s] %s: %s\n    entry: %s\n' % (v['file'], v['line'], v['rule'], v['fn'], v['msg'], v['entry']))
                for t in v['trace']: f.write('    branch %s\n' % t)
        for v in list(sorted(viol.values(), key=lambda v: (v['file'], v['line'])))[:12]:
            print('  %s:%d: [%s] %s: %s' % (v['file'], v['line'], v['rule'], v['fn'].split('(')[0], v['msg'][:200]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

if __name__ == '__main__': sys.exit(main())
