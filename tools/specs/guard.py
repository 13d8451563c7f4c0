"""C29: scope guards and owners of handles."""
import subprocess, re
from spec import *
NS = 'CubicleSoft::'; SY = NS + 'Sync::'
GUARD = {SY + 'Mutex::AutoUnlock': (SY + 'Mutex', 'Unlock'), SY + 'Semaphore::AutoUnlock': (SY + 'Semaphore', 'Unlock'),
         SY + 'ReadWriteLock::AutoReadUnlock': (SY + 'ReadWriteLock', 'ReadUnlock'), SY + 'ReadWriteLock::AutoWriteUnlock': (SY + 'ReadWriteLock', 'WriteUnlock')}
OPS = ['Lock', 'Unlock', 'ReadLock', 'WriteLock', 'ReadUnlock', 'WriteUnlock']
NOCOPY = {'sync/sync_mutex.h': [SY + 'Mutex', SY + 'Mutex::AutoUnlock'], 'sync/sync_semaphore.h': [SY + 'Semaphore', SY + 'Semaphore::AutoUnlock'], 'sync/sync_event.h': [SY + 'Event'],
          'sync/sync_readwritelock.h': [SY + 'ReadWriteLock', SY + 'ReadWriteLock::AutoReadUnlock', SY + 'ReadWriteLock::AutoWriteUnlock'], 'sync/sync_sharedmem.h': [SY + 'SharedMem'],
          'sync/sync_tls.h': [SY + 'TLS', SY + 'TLS::AutoFree'], 'security/security_csprng.h': [NS + 'Security::CSPRNG'], 'templates/shared_lib.h': [NS + 'SharedLib::ModuleUtil'],
          'utf8/utf8_file_dir.h': [NS + 'UTF8::File', NS + 'UTF8::Dir']}
# classes that own memory and promise deep copies: copying must stay possible (its depth is C05, C06, C14 to C18)
COPY = {'templates/detachable_list.h': [NS + 'List<long>'], 'templates/detachable_queue.h': [NS + 'Queue<long>'], 'templates/detachable_ordered_hash.h': [NS + 'OrderedHash<long>'],
        'templates/packed_ordered_hash.h': [NS + 'PackedOrderedHash<long>'], 'templates/cache.h': [], 'templates/static_vector.h': [NS + "StaticVector<long>"], "templates/static_2d_array.h": [NS + "Static2DArray<long>"], 'sync/sync_tls.h': [SY + 'TLS::MixedVar']}
def guard_case(g):
    cls, op = GUARD[g]
    def run(sp):
        eng = sp.engine(); S = State(); mod = sp.mod; S.mon['log'] = ()
        lock = obj(eng, S, cls, 'lock'); t = obj(eng, S, g, 'guard')
        def stub(nm):
            def f(e, S, I, a):
                all_ = nm == 'Unlock' and cls.endswith('Mutex') and not (isinstance(a[1], Lin) and S.st.entails_eq(a[1]))
                S.mon['log'] += ((nm, isinstance(a[0], PtrV) and a[0].r == lock.r and S.st.entails_eq(a[0].o), all_),); return [(S, V(newvar('ret', 0, 1)))]
            return f
        for o in OPS: eng.stubs[cls + '::' + o] = stub(o)
        n = 0; short = g.split('::')[-1]; ct = mod.find('%s::%s(%s*)' % (g, short, cls)); dt = mod.find('%s::~%s()' % (g, short)); loc = mod.loc_fn(ct); ld = mod.loc_fn(dt)
        for T, _ in eng.call(S, ct, [t, lock]):
            eng.ob(T.mon['log'] == (), 'guard-ctor', 'creating a guard neither locks nor unlocks', T, where=loc, fn=g)
            for X, _ in eng.call(T, dt, [t]):
                n += 1; log = X.mon['log']
                eng.ob(len(log) == 1 and log[0][0] == op and log[0][1], 'guard-release', 'destroying a guard undoes its kind of lock of its object exactly once', X, where=ld, fn=g + '::~' + short)
                eng.ob(not any(l[2] for l in log), 'guard-release', 'a guard undoes one lock, not all of them', X, where=ld, fn=g + '::~' + short)
        sp.exist(n, 'returns', loc, g, 'returns'); sp.absorb(eng, g, n)
    return run
def syntax(code):
    for _ in range(3):
        p = subprocess.run([ir.CLANG, '-std=c++0x', '-fsyntax-only', '-w', '-x', 'c++', '-I', ir.REPO, '-'], input=code, capture_output=True, text=True)
        if p.returncode == 0 or p.returncode == 1 and 'error:' in p.stderr: break
    else: raise AnalysisError('the compiler failed: %s' % p.stderr[:200])
    return p.returncode == 0, p.stderr
def witness_case(hdr, cls, copy):
    """programs that must or must not compile"""
    def run(sp):
        inc = '#include <type_traits>\n#include <utility>\n#include <cstddef>\n#include <cstdint>\n#include <cstdlib>\n#include <cstring>\n#include <new>\n#include "%s"\n' % hdr; loc = (hdr, 0)
        ok, err = syntax(inc + '%s *verif_p;\n' % cls)
        if not ok: raise AnalysisError('%s does not compile: %s' % (hdr, err[:200]))
        for line in open(os.path.join(ir.REPO, hdr), errors='replace').read().split('\n'):
            loc = (hdr, loc[1] + 1)
            if re.match(r'\s*class %s\b' % re.escape(cls.split('::')[-1].split('<')[0]), line): break
        for what, code in (('copied', 'void verif_f(%s &A) { %s B(A); }\n' % (cls, cls)), ('assigned', 'void verif_f(%s &A, %s &B) { A = B; }\n' % (cls, cls)),
                           ('moved into another', 'void verif_f(%s &A) { %s B(std::move(A)); }\n' % (cls, cls)), ('passed by value', 'void verif_g(%s A); void verif_f(%s &A) { verif_g(A); }\n' % (cls, cls))):
            ok, err = syntax(inc + code)
            sp.fact(ok == copy, 'copy' if copy else 'no-copy', loc, cls, ('an object that owns memory can be %s' if copy else 'an object that owns a handle or a lock cannot be %s') % what)
        sp.fns.add(cls); sp.entries.append(cls); sp.paths += 4
    return run
def c29():
    return [Case('guard ' + g, guard_case(g)) for g in GUARD] + [Case('no copy ' + c, witness_case(h, c, False)) for h in NOCOPY for c in NOCOPY[h]] + [Case('copy ' + c, witness_case(h, c, True)) for h in COPY for c in COPY[h]]
PROPS = {'C29': c29}
