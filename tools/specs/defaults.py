"""C34: arguments that are left out.  Witness programs, compiled but not run: a call that leaves arguments out and one
that spells them out must be the same call in the compiler's intermediate representation."""
import os, re, subprocess, tempfile
from spec import *
import ir
N = 'CubicleSoft::'
# header, object type or None, parameters of the witness, short call, full call, meaning
T = []
def t(hdr, cls, par, short, full, what): T.append((hdr, cls, par, short, full, what))
def m(hdr, cls, par, meth, req, opt, what):
    """every way to leave out trailing arguments of O.meth or cls::meth"""
    for k in range(len(opt)):
        t(hdr, cls, par, '%s(%s)' % (meth, ', '.join(req + opt[:k])), '%s(%s)' % (meth, ', '.join(req + opt)), what)
def o(hdr, cls, par, meth, req, opt, what): m(hdr, cls, (cls + ' &O' + (', ' + par if par else '')), 'O.' + meth, req, opt, what)
def c(hdr, cls, par, req, opt, what):
    for k in range(len(opt)): t(hdr, cls, 'void *P' + (', ' + par if par else ''), 'new (P) %s%s' % (cls, '(%s)' % ', '.join(req + opt[:k])), 'new (P) %s(%s)' % (cls, ', '.join(req + opt)), what)
s = N + 'Sync::'; NUL = '(const char *)NULL'; INF = '0xFFFFFFFFU'
for cl, h in (('Mutex', 'mutex'), ('Semaphore', 'semaphore')): o('sync/sync_%s.h' % h, s + cl, '', 'Lock', [], [INF], 'a lock waits for as long as it takes')
o('sync/sync_event.h', s + 'Event', '', 'Wait', [], [INF], 'a wait waits for as long as it takes')
for k in ('ReadLock', 'WriteLock'): o('sync/sync_readwritelock.h', s + 'ReadWriteLock', '', k, [], [INF], 'a lock waits for as long as it takes')
o('sync/sync_mutex.h', s + 'Mutex', '', 'Unlock', [], ['false'], 'an unlock undoes one lock')
o('sync/sync_semaphore.h', s + 'Semaphore', '', 'Unlock', [], ['(int *)NULL'], 'an unlock adds one unit and reports nothing')
o('sync/sync_mutex.h', s + 'Mutex', '', 'Create', [], [NUL], 'an object without a name'); o('sync/sync_readwritelock.h', s + 'ReadWriteLock', '', 'Create', [], [NUL], 'an object without a name')
o('sync/sync_semaphore.h', s + 'Semaphore', '', 'Create', [], [NUL, '1'], 'a semaphore without a name and with one unit'); o('sync/sync_event.h', s + 'Event', '', 'Create', [], [NUL, 'false', 'false'], 'an automatic event without a name, not signaled')
o('sync/sync_tls.h', s + 'TLS', '', 'ThreadInit', [], ['15'], 'blocks of up to 32 KB are kept for reuse'); o('sync/sync_tls.h', s + 'TLS', 'void *D, size_t Z', 'realloc', ['D', 'Z'], ['true'], 'freed blocks are kept for reuse')
o('sync/sync_tls.h', s + 'TLS', 'void *D', 'dup_malloc', ['D'], ['true'], 'freed blocks are kept for reuse')
o('sync/sync_tls.h', s + 'TLS', 'void *D', 'free', ['D'], ['true'], 'freed blocks are kept for reuse')
for w, ty in (('U', 'std::uint64_t'), ('', 'std::int64_t')):
    m('convert/convert_int.h', N + 'Convert::Int', 'char *B, size_t Z, %s V' % ty, N + 'Convert::Int::ToString', ['B', 'Z', 'V'], ["'\\0'", '10'], 'decimal, without separators')
    m('convert/convert_int.h', N + 'Convert::Int', 'char *B, size_t Z, %s V' % ty, N + 'Convert::Int::ToFilesizeString', ['B', 'Z', 'V'], ['2', "'\\0'", "'.'", "' '", '"bytes"'], 'two decimals after a dot, a space before the unit')
    for h, cl in (('sync/sync_tls.h', s + 'TLS::MixedVar'), ('templates/static_mixed_var.h', N + 'StaticMixedVar<char[64]>')):
        m(h, cl, 'char *B, size_t Z, %s V' % ty, cl + '::IntToString', ['B', 'Z', 'V'], ['10'], 'decimal')
        for k in ('Prepend', 'Append'): o(h, cl, ty + ' V', k + w.replace('U', 'UInt' if w else '') if w else k + 'Int', ['V'], ['10'], 'decimal')
for h, cl in (('sync/sync_tls.h', s + 'TLS::MixedVar'), ('templates/static_mixed_var.h', N + 'StaticMixedVar<char[64]>')):
    for k in ('Prepend', 'Append'): o(h, cl, 'double V', k + 'Double', ['V'], ['16'], 'sixteen digits')
f = N + 'UTF8::File'; d = N + 'UTF8::Dir'; F = 'utf8/utf8_file_dir.h'
o(F, f, 'const char *A, int L', 'Open', ['A', 'L'], [f + '::ShareBoth', '0666'], 'shared, readable and writable as far as the mask allows')
m(F, f, 'char *B, size_t Z, const char *A', f + '::GetPlatformFilename', ['B', 'Z', 'A'], ['false'], 'only safe names')
m(F, f, 'char *B, size_t Z, const char *A, const char *C', f + '::GetAbsoluteFilename', ['B', 'Z', 'A', 'C'], ['false'], 'no slash is added')
m(F, f, f + '::FileStat &R, const char *A', f + '::Stat', ['R', 'A'], ['false'], 'links are followed')
m(F, f, 'const char *A, char *&R, size_t &Z', f + '::LoadEntireFile', ['A', 'R', 'Z'], ['(void *)NULL', '(void *(*)(void *, size_t))NULL', '(void (*)(void *, void *))NULL'], 'memory comes from new[]')
m(F, d, 'const char *A', d + '::Mkdir', ['A'], ['0777', 'false'], 'one directory, usable as far as the mask allows'); m(F, d, 'const char *A', d + '::Rmdir', ['A'], ['false'], 'only an empty directory is removed')
U = 'utf8/utf8_util.h'; u = N + 'UTF8::Util'; al = ['(void *)NULL', '(void *(*)(void *, size_t))NULL']
m(U, u, 'const void *A, size_t W', u + '::ConvertToUTF8', ['A', 'W'], ['(size_t *)NULL'] + al, 'memory comes from new[]'); m(U, u, 'const char *A, size_t W', u + '::ConvertFromUTF8', ['A', 'W'], al, 'memory comes from new[]')
m(U, u, 'const void *A, size_t W, std::uint8_t *D, size_t &Z', u + '::ConvertToUTF8', ['A', 'W', 'W', 'D', 'Z'], ['(size_t *)NULL'], 'nothing else is reported'); m(U, u, 'size_t &R, std::uint32_t K, const char *A', u + '::FindCodePoint', ['R', 'K', 'A'], ['false'], 'only a whole character is found')
a = N + 'UTF8::AppInfo'
for k in ('GetSystemAppStorageDir', 'GetCurrentUserAppStorageDir'): m('utf8/utf8_appinfo.h', a, 'char *B, size_t &Z', a + '::' + k, ['B', 'Z'], [NUL], 'nothing is appended or tried in addition')
j = N + 'JSON::Serializer'; J = 'json/json_serializer.h'
c(J, j, '', [], ['false', '": "', '", "', '512'], 'slashes are not escaped, a space follows colons and commas, 512 levels')
for k in ('StartObject', 'StartArray', 'StartStr', 'AppendNull'): o(J, j, '', k, [], [NUL], 'no key')
o(J, j, 'double V', 'AppendDouble', ['V'], ['16'], 'sixteen digits'); o(J, j, 'const char *V', 'CalculateStrSize', ['V'], ['false'], 'a value, not a key'); o(J, j, 'const char *V, size_t Z', 'CalculateStrSize', ['V', 'Z'], ['false'], 'a value, not a key')
for cl in ('OrderedHash<int>', 'OrderedHashNoCopy<int>'): o('templates/detachable_ordered_hash.h', N + cl, '', 'Empty', [], ['true', 'false'], 'the nodes are deleted, the key stays')

m('sync/sync_util.h', None, s + 'Util::UnixEventWrapper &W, bool A, bool B', s + 'Util::InitUnixEvent', ['W', 'A', 'B'], ['false'], 'an event that is not signaled')
c('sync/sync_tls.h', s + 'TLS::MixedVar', '', [], ['(%s *)NULL' % (s + 'TLS')], 'no allocator is attached')
o(F, f, '', 'LineInput', [], ['1024', '(void *)NULL', '(void *(*)(void *, void *, size_t))NULL'], 'memory comes from new[]')
o(J, j, 'const char *K, double V', 'AppendDouble', ['K', 'V'], ['100'], 'every digit there is')
for h, cl, n in (('detachable_ordered_hash', 'OrderedHash<int>', '23'), ('detachable_ordered_hash', 'OrderedHashNoCopy<int>', '23'), ('packed_ordered_hash', 'PackedOrderedHash<int>', '8'), ('packed_ordered_hash', 'PackedOrderedHashNoCopy<int>', '8')):
    c('templates/%s.h' % h, N + cl, '', [], [n, '5381'], 'a small hash with the usual key')
P = 'templates/fast_find_replace.h'
o(P, N + 'FastFind<char>', '', 'FindNext', [], ['true'], 'matches are compared in full'); o(P, N + 'FastReplace<char>', '', 'FindNext', [], ['true'], 'matches are compared in full')
o(P, N + 'FastFind<char>', '', 'SkipMatch', [], ['0'], 'the search goes on right after the match')
o(P, N + 'FastReplace<char>', 'const char *D, size_t Z', 'SetData', ['D', 'Z'], ['(char *)NULL', '0'], 'the result goes to memory of its own'); o(P, N + 'FastReplace<char>', 'const char *D, size_t Z', 'Replace', ['D', 'Z'], ['0'], 'nothing after the match is skipped')

PRE = '#include <new>\n#include <cstdint>\n#include <cstdlib>\n#include <cstring>\n#include "%s"\n'
def lower(hdr, pairs, opt):
    """the IR of the witnesses of one header: {(i, 'short'/'full'): text}; None where one does not compile"""
    src = PRE % hdr
    for i, x in enumerate(pairs):
        for k in (0, 1): src += 'extern "C" auto verif_%d_%d(%s) -> decltype(%s) { return %s; }\n' % (i, k, x[2], x[3 + k], x[3 + k])
    with tempfile.TemporaryDirectory() as d:
        o = os.path.join(d, 'w.ll'); a = [ir.CLANG, '-std=c++0x', '-S', '-emit-llvm', '-w', '-fno-exceptions', '-I', ir.REPO, '-x', 'c++', '-', '-o', o] + opt
        for _ in range(2):
            r = subprocess.run(a, input=src, capture_output=True, text=True)
            if r.returncode == 0: break
        if r.returncode: return None
        return bodies(open(o).read())
def bodies(txt):
    out = {}; lit = dict(re.findall(r'^(@\S+) = (?:private|internal) .*?constant (.*?),? align', txt, re.M))
    for k, b in re.findall(r'^define [^@]*@verif_(\d+_\d)\([^\n]*\{\n(.*?)^\}', txt, re.M | re.S):
        b = re.sub(r', !\w+ !\d+|, !\w+ !\w+|#\d+', '', b); b = re.sub(r';[^\n]*', '', b)
        b = re.sub(r'@\.str[.\d]*', lambda z: 'c' + lit.get(z.group(0), z.group(0)), b)
        names = {}
        b = re.sub(r'%(?!"?(?:class|struct|union)\.)[\w.]+|^[\w.]+(?=:)', lambda z: '%' + str(names.setdefault(z.group(0).lstrip('%'), len(names))), b, flags=re.M)
        out[k] = b
    return out
CONST = re.compile(r'(?<=[ (])(-?\d+|true|false|null|c\[[^\n"]*"[^\n"]*"|0x[0-9A-F]+|-?\d\.\d+e[+-]\d+)(?=[,) \n])')
def judge(a, b):
    """True: the same call; False: the same call with other values; None: cannot be told"""
    if a == b: return True
    ca = [x.split('(')[0] for x in re.findall(r'@\w+\(', a)]; cb = [x.split('(')[0] for x in re.findall(r'@\w+\(', b)]
    if ca == cb and CONST.sub('K', a) == CONST.sub('K', b): return False
    return None
MEMO = {}
def both(hdr, opt):
    key = (hdr, tuple(opt))
    if key not in MEMO: MEMO[key] = lower(hdr, [x for x in T if x[0] == hdr], opt)
    return MEMO[key]
def witness(hdr, i, x):
    def f(sp):
        und = AnalysisError('the call %s cannot be compared with %s' % (x[3], x[4])); r = None
        for opt in (['-O0'], ['-O1']):
            g = both(hdr, opt); k = i
            if g is None: g = lower(hdr, [x], opt); k = 0
            if g is None or '%d_0' % k not in g or '%d_1' % k not in g: raise und
            r = judge(g['%d_0' % k], g['%d_1' % k])
            if r is not None: break
        if r is None: raise und
        sp.fact(r, 'default-value', (hdr, line(hdr, x)), x[3].replace('new (P) ', '').split('(')[0].replace(N, ''), 'with its arguments left out, %s means %s: %s' % (x[3], x[4], x[5]))
        sp.fns.add(x[3].split('(')[0]); sp.entries.append(x[3]); sp.paths += 2
    return f
def line(hdr, x):
    n = re.split(r'[.:]', re.sub(r'<[^>]*>|^new \(P\) ', '', x[3]).split('(')[0].strip())[-1]
    try:
        for k, t in enumerate(open(os.path.join(ir.REPO, hdr), errors='replace'), 1):
            if re.search(r'\b%s\(' % re.escape(n), t): return k
    except OSError: pass
    return 1
def cases():
    out = []; cnt = {}
    for x in T:
        i = cnt.get(x[0], 0); cnt[x[0]] = i + 1
        out.append(Case('%s | %s' % (x[3].replace(N, ''), x[2].replace(N, '')), (lambda sp, h=x[0], i=i, x=x: witness(h, i, x)(sp))))
    return out
PROPS = {'C34': cases}
