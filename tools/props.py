#!/usr/bin/env python3
"""The properties and the manifest: writes ../properties.jsonl and ../MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); TOP = os.path.dirname(HERE)
P = []; NA = {}; NOTE = {}; TECH = {}
AI = 'abstract interpretation of LLVM IR (pointer regions x linear inequalities, widening fixpoint)'
TS = 'interprocedural typestate analysis over LLVM IR (abstract interpretation, effect models of the OS calls)'
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=AI, note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
    TECH[id] = tech; NOTE[id] = note
def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech); NA[id] = reason

J = ['json/json_serializer.cpp', 'json/json_serializer.h']
p('C01', 'JSON serializer stays inside its buffer and a failed call has no effect',
  'Whatever is appended to a JSON serializer, in whatever order, it never writes outside the buffer it was given (the terminating zero byte included) and never reads outside the strings it was given. The text is zero terminated after every successful call and the reported position never exceeds the buffer. A call that reports failure leaves the position, the nesting level and the text already produced unchanged.',
  ['inputs', 'histories'], 'every serializer state (mode, depth, position, buffer size, escaping and splitter settings), every method and every argument',
  'the tests serialize a few documents into buffers that are large enough; buffer-size boundaries times content times mode are unbounded',
  J, [('space is reserved before anything is written', 'json/json_serializer.cpp InternalAppendNextPrefix, AppendStr, CalculateStrSize')], [('MxBufferPos, MxBufferSize, MxModeDepth', 'position, capacity, nesting', 'json/json_serializer.h')], ['GetCurrPos', 'GetBuffer', 'return values'])
p('C02', 'JSON serializer only accepts calls that keep the document well-formed',
  'A JSON serializer accepts a value, a key, the start or the end of an object, array or split string only where JSON allows it: a key exactly for values inside objects, an end only for the innermost open element of that kind, nothing but raw text inside a split string. Every accepted call writes exactly the separators, brackets and key that the position requires, and moves to the state in which the next separator will be right.',
  ['inputs', 'histories'], 'every mode of the serializer, every method, key present or absent',
  'the number of call sequences is unbounded; the tests run two or three of them', J, [('mode stack', 'json/json_serializer.cpp')], [('MxModes', 'mode per nesting level', 'json/json_serializer.h')], ['return values', 'produced text'])
p('C03', 'JSON strings are escaped and their computed size is the size written',
  'Every byte of a string that JSON requires to be escaped (quote, backslash, control characters, and slash when asked for) is written as its escape sequence and every other byte as itself. The size that the serializer computes for a string in advance is exactly the number of bytes that it then writes for it, quotes and requested splitter included.',
  ['inputs'], 'every byte value, every string, both settings of slash escaping', 'the tests escape a handful of strings', J, [('InternalAppendChar / CalculateStrSize', 'json/json_serializer.cpp')], (), ['CalculateStrSize', 'produced text'])

p('C30', 'JSON numbers, raw text and keyless calls are written in full, settings apply',
  'An integer given to the JSON serializer appears as exactly its decimal digits, with a minus sign if it is negative, over the whole 64-bit range; a number with a fraction is written with the precision asked for and is never cut short, and one that JSON cannot represent (infinite or not a number) is refused. Raw text is copied unchanged. A call without a key does exactly what the call with no key does. The separators and the escaping setting take effect as given, and asking for the position, buffer, size or state reports what holds and changes nothing.',
  ['inputs'], 'every 64-bit integer, every class of floating-point value and precision, every state and buffer size',
  'the tests append two or three small numbers, and only look at documents that fit', J, [('IntToString, AppendInt, AppendUInt, AppendDouble, Append', 'json/json_serializer.cpp'), ('inline keyless calls, setters and getters', 'json/json_serializer.h')], (), ['produced text', 'return values', 'GetCurrPos, GetCurrMode, IsKeyRequired'])

ALL = ['json/json_serializer.cpp', 'json/json_serializer.h', 'convert/convert_int.cpp', 'utf8/utf8_util.cpp', 'utf8/utf8_file_dir.cpp', 'utf8/utf8_appinfo.cpp', 'utf8/utf8_mixed_var.h', 'sync/sync_util.cpp', 'sync/sync_tls.cpp', 'security/security_csprng.cpp', 'environment/environment_appinfo.cpp',
       'templates/cache_util.h', 'templates/detachable_list_util.h', 'templates/detachable_ordered_hash_util.h', 'templates/detachable_queue_util.h', 'templates/packed_ordered_hash_util.h', 'templates/fast_find_replace_util.h', 'templates/static_mixed_var.h', 'templates/static_vector.h', 'templates/static_2d_array.h', 'templates/shared_lib.h']
p('C31', 'Calls share no hidden state and leave the settings of the process alone',
  'The library keeps no state outside the objects and memory it is given: what a call does never depends on what another call, on another object or in another thread, did before it. No operation keeps results or scratch data in static (or per-thread static) variables or hands out memory that calls share; operations that are const, and arguments that are only given to be read, are never written to. No operation changes settings of the process (current directory, locale, environment, signals, identity, file mode mask outside the creation of named objects), ends it, or writes to its standard streams. So, the account lookups of the C library aside, separate objects can be used from separate threads without coordination.',
  ['schedules', 'histories'], 'every function of the library, every interleaving of calls on separate objects', 'hidden sharing shows only when two calls overlap in an unlucky way', ALL, [('all functions', 'whole library')], (), ['results of calls that overlap or follow each other'],
  'interprocedural may-write (effect and escape) analysis over LLVM IR', 'Sound for direct stores and for pointers followed through parameters, results and local memory; C library functions that are not listed are assumed not to keep state. ')
p('C32', 'Every call ends',
  'Every operation of the library ends, whatever its arguments, the contents of its object and the outcome of the calls it makes to the operating system, lasting ends of file and lasting errors included: no loop comes back to a state it was in before and no function calls itself for ever. The only calls that may take unlimited time are waits that were asked for.',
  ['inputs', 'histories', 'fault_sequences'], 'every loop of every function, from every state and for every argument of the entry points of the other properties', 'inputs and environment conditions under which a loop does not end are not among the samples', ALL, [('all loops', 'whole library')], (), ['the call returns'],
  'ranking-function synthesis on the widening fixpoint of every loop, and search for states that recur (abstract interpretation of LLVM IR)', 'Loops that ask the operating system anew on every way round (interrupted calls, rejected random values, directory entries) are taken to end when its answers change; loops that peel without a recurring state but without a ranking are listed as undecided. ')

p('C33', 'Time, process and thread are reported as the system has them',
  'The time of day is the number of microseconds since the beginning of 1970 that the system clock shows, exact for every time (far beyond the year 2038) and every fraction of a second, and zero only when the clock cannot be read; the process and thread identifiers are those of the calling process and thread, in full width.',
  ['inputs', 'fault_sequences'], 'every value of the system clock and every identifier', 'a test sees one time and one process', ['environment/environment_appinfo.cpp', 'sync/sync_util.cpp'], [('GetUnixMicrosecondTime, GetCurrentThreadID, GetCurrentProcessID', 'environment/environment_appinfo.cpp, sync/sync_util.cpp')], (), ['return values'])

p('C34', 'Arguments that are left out take their plain, documented meaning',
  'A call that leaves trailing arguments out is the same call as the one that spells out their documented defaults: locks and waits without a time limit wait forever; objects without a name are private, a semaphore has one unit and an event is automatic and not signaled; an unlock undoes one lock; numbers are decimal and without separators; files are opened shared with mode 0666 and directories made with mode 0777 and not recursively; only an empty directory is removed; unsafe names are refused, links are followed, no slash is added; memory comes from new[]; JSON slashes are not escaped, keys are absent, 512 levels are allowed.',
  ['inputs'], 'every way of leaving trailing arguments out, for every value of the others', 'tests mostly spell arguments out, and a wait that would be endless cannot be tested', ['sync/sync_mutex.h', 'sync/sync_event.h', 'sync/sync_semaphore.h', 'sync/sync_readwritelock.h', 'sync/sync_tls.h', 'utf8/utf8_file_dir.h', 'utf8/utf8_util.h', 'utf8/utf8_appinfo.h', 'json/json_serializer.h', 'convert/convert_int.h', 'templates/static_mixed_var.h', 'templates/packed_ordered_hash_util.h', 'templates/detachable_ordered_hash_util.h', 'templates/fast_find_replace_util.h'], [('the declarations with default arguments', 'sync/*.h, utf8/*.h, json/json_serializer.h, convert/convert_int.h, templates/*.h')], (), ['return values'])

S = ['sync/sync_util.cpp', 'sync/sync_util.h', 'sync/sync_mutex.cpp', 'sync/sync_semaphore.cpp', 'sync/sync_event.cpp', 'sync/sync_readwritelock.cpp', 'sync/sync_sharedmem.cpp']
p('C21', 'Synchronisation calls release every internal lock on every way out',
  'Whatever a synchronisation object operation returns, success, failure or timeout, the calling thread no longer holds any lock internal to the object, never unlocks one it does not hold, never locks one twice and never sleeps while holding another internal lock. An operation that fails half-way gives back the internal tokens it took.',
  ['schedules', 'fault_sequences'], 'every operation, every outcome of every call to the threading library and the clock, every state other threads may have left',
  'the failing outcomes of the threading calls do not happen in tests', S, [('lock/unlock pairing', 'sync/sync_util.cpp')], (), ['a later call by any thread does not hang'], TS)
p('C22', 'Shared state of synchronisation objects is only touched under its lock',
  'The count of a semaphore, the signaled state and number of waiters of an event, the owner and recursion count of a mutex and the reader count of a reader-writer lock are only read or written by a thread that holds the lock which protects them.',
  ['schedules'], 'every interleaving of every pair of operations on one object', 'races need particular interleavings; the tests use at most two threads', S, [('mutex of the object', 'sync/sync_util.cpp, sync/sync_mutex.cpp')], (), ['no lost updates'], TS)
p('C23', 'Semaphore units and event signals are neither lost nor invented',
  'A successful semaphore wait takes exactly one unit that was there, a failed one takes none, a release adds one unless the semaphore is at its maximum, and the count never leaves the range zero to maximum. A wait on an event only succeeds while the event is signaled, consumes the signal of an automatic event and leaves that of a manual one, and a release or fire always wakes the waiters that can proceed. A wait that is woken without a unit or signal goes on waiting.',
  ['schedules', 'histories'], 'every state the other threads may produce at every acquisition of the lock and every spurious wakeup', 'spurious wakeups and lost wakeups cannot be provoked by the tests', S[:2], [('wait loops', 'sync/sync_util.cpp WaitForUnixSemaphore, WaitForUnixEvent')], (), ['return values', 'GetVal'], TS)
p('C24', 'Waits block exactly as long as they were told to',
  'A wait of zero milliseconds never blocks, an infinite wait never times out, and any other wait sleeps until the time at which it was called plus the given number of milliseconds, with a deadline whose parts are always in range. A multi-stage wait never waits longer in total than it was told to.',
  ['inputs', 'schedules'], 'every waiting time from 0 to infinite, every current time', 'the tests use a few waiting times and cannot see the deadline', S, [('deadline arithmetic', 'sync/sync_util.cpp')], (), ['blocking time'], TS)

p('C25', 'Named objects are set up once, shared by all and torn down by the last user',
  'Creating a named synchronisation object or shared memory block either joins the existing one without disturbing its state or initialises it exactly once, before any other user can see it; its internal locks are then shared between processes and its data lies inside the mapping. Every successful creation takes one reference and every destruction gives back exactly one; failures leave no mapping, descriptor, lock or changed file mode mask behind. An object of its own (without a name) destroys each of its mutexes and conditions before it frees their memory. Objects of different kinds use different names.',
  ['schedules', 'histories', 'fault_sequences'], 'every outcome of shm_open, ftruncate and mmap, every state in which other processes may have left the object, every name and size',
  'needs several processes racing at creation and failing system calls', S, [('InitUnixNamedMem, UnmapUnixNamedMem, ConnectToUnix*', 'sync/sync_util.cpp'), ('Create and destructors', 'sync/sync_*.cpp')], [('RefCount', 'users of a named object', 'sync/sync_util.cpp')], ['Create', 'state of the shared object'], TS)
p('C26', 'Mutexes exclude and nest; reader-writer locks admit readers or one writer',
  'A mutex lock succeeds at once for the thread that owns it and otherwise only by taking the single unit of the mutex; ownership and nesting count follow, only the owner can unlock, and the unit is given back exactly when the last lock is undone or all are undone together. A reader-writer lock grants reading only while counted and writing only while no reader is counted and no other writer holds it; each unlock undoes exactly its own kind of lock and a failed lock leaves no trace.',
  ['schedules', 'histories'], 'every owner, nesting count and number of readers, every result of every inner wait', 'the interleavings and failing inner waits are not reachable from the tests', S, [('Mutex::Lock, Mutex::Unlock', 'sync/sync_mutex.cpp'), ('ReadWriteLock', 'sync/sync_readwritelock.cpp')], [('MxOwnerID, MxCount', 'owner and nesting', 'sync/sync_mutex.h')], ['Lock', 'Unlock', 'ReadLock', 'WriteLock'], TS)

SH = 'abstract interpretation of LLVM IR with a list-segment shape domain (fold/unfold, tracked membership sequences)'
FT = 'abstract interpretation of LLVM IR with an ownership and value-lifetime typestate over enumerated table shapes and uninterpreted keys and hashes'
p('C14', 'Lists and queues link exactly the nodes put into them, in order',
  'After any sequence of operations a detachable list or queue consists of exactly the nodes that were added and not removed, in the order the operations define, linked consistently in both directions, with the first and last node and the size right. Adding, moving or detaching a node touches no other relation; a detached node belongs to no list; destroying or emptying releases every node once; a copy has its own nodes with the same values in the same order; a failed operation changes nothing.',
  ['inputs', 'histories'], 'lists and queues of every length, every node position, every operation, self-assignment included',
  'the number of operation sequences and lengths is unbounded; the tests run a few short ones', ['templates/detachable_list_util.h', 'templates/detachable_list.h', 'templates/detachable_queue_util.h', 'templates/detachable_queue.h'],
  [('ListNode / QueueNode linking', 'templates/detachable_list_util.h, templates/detachable_queue_util.h')], [('FirstNode, LastNode, NumNodes', 'ends and size', 'templates/detachable_list_util.h')], ['First/Last/Next/Prev', 'GetSize', 'Pop', 'Shift'], SH)
p('C15', 'Detachable ordered hash finds every key, keeps order and owns its nodes',
  'After any sequence of operations a detachable ordered hash finds exactly the keys that are in it, integer and text keys kept apart and text keys compared in full, whatever their hash values; iteration visits every entry once in insertion order in both directions. Every node is in the bucket of its hash, also after resizing. Keys are copied or owned as documented, every node and key is released exactly once, a copy shares nothing with its source, detached nodes stay usable.',
  ['inputs', 'histories'], 'every key, every collision pattern of hash values, every operation; tables up to three entries and two bucket counts are enumerated, contents and lengths are symbolic',
  'collision patterns and operation histories are unbounded; the tests have few keys', ['templates/detachable_ordered_hash_util.h', 'templates/detachable_ordered_hash.h', 'templates/detachable_ordered_hash.cpp'],
  [('hash chains and order list', 'templates/detachable_ordered_hash_util.h')], [('HashNodes, FirstNode, LastNode, NumUsed', 'buckets, order and size', 'templates/detachable_ordered_hash_util.h')], ['Find', 'First/Next', 'GetSize', 'Detach'], FT,
  'The number of nodes per table is enumerated up to three; hash values, key contents and key lengths are unrestricted. ')
p('C17', 'Packed ordered hash finds every key, keeps order and owns keys and values',
  'After any sequence of operations a packed ordered hash finds exactly the keys that are in it, integer and text keys kept apart and text keys compared in full, whatever their hash values; positions and iteration follow insertion order and skip removed entries. Growing or compacting changes no entry. Every stored value is constructed once and destroyed once, every key is released once, a copy shares nothing with its source and hashes like it, and nothing is accessed outside the table.',
  ['inputs', 'histories'], 'every key, every collision pattern, every arrangement of used and removed entries; tables up to four entries are enumerated, contents are symbolic',
  'arrangements and histories are unbounded; the tests have few keys and only trivial value types', ['templates/packed_ordered_hash_util.h', 'templates/packed_ordered_hash.h', 'templates/packed_ordered_hash.cpp'],
  [('index chains in one array', 'templates/packed_ordered_hash_util.h')], [('ArrayNodes, HashNodes, NextNodePos, NumUsed', 'entries, buckets, next free position, size', 'templates/packed_ordered_hash_util.h')], ['Find', 'Get', 'Next/Prev', 'GetSize'], FT,
  'The table size is enumerated up to four entries (eight after growth); hash values, key contents and key lengths are unrestricted. ')

CI = ['convert/convert_int.cpp', 'convert/convert_int.h']
p('C04', 'Integers and file sizes are converted to exactly the right text or refused',
  'Converting an integer to text produces exactly its digits in the given radix, most significant first, with a minus sign for negative numbers and, if asked, a separator between groups of three digits, followed by a zero byte. A file size is shown in the largest fitting unit, rounded down to the given number of decimals (none for bytes and kilobytes). If the text does not fit into the buffer or the radix is not 2 to 36 the call fails. Nothing outside the buffer is ever written.',
  ['inputs'], 'every 64-bit number, signed or unsigned, every radix, separator, buffer size and number of decimals',
  'the tests convert a few numbers into large buffers', CI, [('Int::ToString, Int::ToFilesizeString', 'convert/convert_int.cpp')], (), ['result text', 'return value'], AI,
  'Exact digits are decided per radix (2, 3, 7, 8, 10, 11, 16, 23, 36), number of digits and slack; bounds for every radix and size. ')
U8 = ['utf8/utf8_util.cpp', 'utf8/utf8_util.h']
p('C07', 'UTF-8 conversions stay inside their buffers and report exact sizes',
  'Converting text to or from UTF-8 never reads outside the source and never writes outside the destination, whatever bytes or characters the source has (truncated sequences, unpaired surrogates, no terminating zero) and however small the destination is; a character is written completely or not at all. The size measured without a destination is the size written with one, and the versions that allocate return a block of exactly that size. Scanning and validating stop at the end of the text.',
  ['inputs'], 'every source text of every length and character width, every destination size', 'malformed text times truncation points times buffer sizes is unbounded', U8,
  [('ConvertToUTF8, ConvertFromUTF8, NextCodePoint', 'utf8/utf8_util.cpp')], (), ['destination size reported', 'returned block'], AI)
p('C08', 'UTF-8 text is decoded and encoded exactly, and invalid text is recognised',
  'Every allowed code point is encoded as its one shortest valid UTF-8 sequence and decoded back to itself, as surrogate pairs where characters are 16 bits wide. Overlong sequences, surrogates, code points above the maximum, stray continuation bytes and truncated sequences are recognised as invalid and never decoded as a code point. Characters are counted so that combining code points belong to the character before them. Conversion from UTF-8 stops at a code point that is not allowed.',
  ['inputs'], 'every code point and every byte sequence up to the longest encoded form, at every position relative to the end', 'a million code points times malformed variants; the tests have a few strings', U8,
  [('encoding and decoding tables', 'utf8/utf8_util.cpp'), ('IsCombiningCodePoint', 'utf8/utf8_util.cpp')], (), ['decoded code points', 'encoded bytes'], AI)
p('C16', 'Fixed vectors and 2D arrays keep their elements and own their memory',
  'A static vector or two-dimensional array holds exactly as many elements as it was created with, each at its own position and default constructed; a copy has equal elements and shares nothing with its source, assignment (self-assignment included) makes the target an independent equal copy whatever its size was, and two arrays are equal exactly if their sizes and all their elements are. Every element is constructed once and destroyed once, the storage is released once and nothing is accessed outside it.',
  ['inputs', 'histories'], 'every operation, every relation of the sizes of two arrays (empty included); small sizes enumerated, element contents symbolic', 'the tests use trivial element types and a few sizes',
  ['templates/static_vector.h', 'templates/static_2d_array.h'], [('allocation, copy and comparison', 'templates/static_vector.h, templates/static_2d_array.h')], (), ['operator[]', 'GetSize', 'operator==', 'destructors run'], FT)
p('C18', 'The cache returns a value only for the key it was inserted with',
  'Looking up a key in a cache succeeds exactly if the last entry inserted into the slot of its hash key was inserted with an equal key and was not removed since, and yields the value inserted with it; inserting replaces only the entry of its own slot, removing only the entry with its key, emptying all of them. Every key and value is constructed once and destroyed once, a copy holds the same entries and shares nothing with its source, and no slot outside the cache is touched.',
  ['inputs', 'histories'], 'every operation with every hash key, key and value on every arrangement of used and unused slots', 'the tests insert a few keys of trivial types',
  ['templates/cache_util.h', 'templates/cache.h', 'templates/cache.cpp'], [('slot of a hash key', 'templates/cache_util.h')], [('Nodes, NumNodes', 'slots', 'templates/cache_util.h')], ['Find', 'Exists', 'Remove'], FT)

MV = ['templates/static_mixed_var.h']
p('C05', 'Static mixed variables hold exactly what was set, inside a fixed buffer',
  'A static mixed variable never reads or writes outside its fixed buffer or the strings it is given. Setting it to text stores that text up to the capacity, zero terminated, and the size is the number of bytes stored. Appending keeps the text before it and adds as much as fits; prepending and inserting happen completely or not at all. Integers and doubles are appended as their exact text, UTF-8 is never cut inside a character, and reading the variable as another kind gives its stored value or a defined default.',
  ['inputs', 'histories'], 'every content and type of the variable, every argument, every relation between text size and capacity',
  'capacity boundaries times contents times operation sequences are unbounded; the tests use short texts', MV, [('SetStr, AppendStr, PrependStr, AppendInt, AppendDouble, AppendUTF8', 'templates/static_mixed_var.h')], [('MxStr, MxStrPos, MxMode', 'text, size, kind', 'templates/static_mixed_var.h')], ['GetStr', 'GetSize', 'return values'], AI,
  'Two capacities (8 and 64 bytes) are instantiated. ')
p('C06', 'Dynamic mixed variables hold exactly what was set and own their text',
  'A thread-local mixed variable holds exactly the text it was set to plus what was appended, prepended, removed or replaced since, zero terminated and with its exact size, inside the block it owns, which grows as needed without losing contents. Copies and assignments (self-assignment included) are equal to and independent of their source. Every block is released exactly once and the text of one variable is never reached through another.',
  ['inputs', 'histories'], 'every content, kind, size and reserve of the variable, every argument and operation', 'growth boundaries times operation sequences are unbounded',
  ['sync/sync_tls.cpp', 'sync/sync_tls.h'], [('MixedVar growth and ownership', 'sync/sync_tls.cpp')], [('MxStr, MxStrPos, MxStrSize', 'text, size, reserve', 'sync/sync_tls.h')], ['GetStr', 'GetSize'], AI)
p('C19', 'Searching finds exactly the matches and replacing changes exactly those',
  'Searching for a pattern returns the first position at or after the start at which the pattern occurs, and repeated searching every further non-overlapping one, for any element type that has equality; when there is none it says so. Replacing exchanges exactly the matches from left to right, at most as many as the limit, and leaves everything else as it was; the result is built in place or in a block of its own with exact size. With a fixed buffer a result that does not fit is cut to its leading part. Nothing outside the data, pattern and result is accessed.',
  ['inputs'], 'every equality pattern of pattern and data elements for small sizes, symbolic contents, lengths and replacement sizes; skip tables and cursors for every size', 'texts and patterns (self-overlapping ones above all) are unbounded',
  ['templates/fast_find_replace.h', 'templates/fast_find_replace_util.h'], [('skip table and scan', 'templates/fast_find_replace_util.h FastFind'), ('replacement', 'templates/fast_find_replace.h FastReplace')], (), ['Find, FindNext', 'ReplaceAll results'], AI,
  'Match correctness is decided by enumerating equality patterns of short data; memory bounds by fixpoint. ')
p('C27', 'The thread-local allocator hands out every block to one user at a time',
  'Every block that the thread-local allocator returns has room for the requested size, is in nobody else\'s use, and is cached or released exactly once after it is freed; resizing keeps the contents up to the smaller size, and a request that fails leaves the old block untouched. Without a thread cache requests fail instead of touching memory. Ending the thread releases every cached block and the cache itself.',
  ['inputs', 'histories', 'fault_sequences'], 'every requested size and every old size class, cached or not, every state of the cache, every failing allocation', 'size boundaries times cache states times allocation failures are unbounded',
  ['sync/sync_tls.cpp', 'sync/sync_tls.h'], [('malloc, realloc, free, ThreadInit, ThreadEnd', 'sync/sync_tls.cpp')], [('size byte before each block', 'size class', 'sync/sync_tls.cpp'), ('queues per size class', 'cached blocks', 'sync/sync_tls.cpp')], ['returned pointers', 'contents'], TS)

p('C20', 'Library functions are called only when found, while their library is open',
  'A call through a shared library runs exactly the named function of the named library, once, with the arguments given, and hands back its result; if the library cannot be opened or does not have the function the call reports failure, nothing is called and the result variable is left alone. A module opens its library at most once, on first use, keeps it open as long as it exists and closes it once when it is destroyed; a function that was found stays callable.',
  ['histories', 'fault_sequences'], 'every order of loading and calling up to three operations on two functions of one module, every failing outcome of opening and looking up', 'failing loads and lookups and their order are not sampled by the tests',
  ['templates/shared_lib.h', 'templates/shared_lib_util.h'], [('ModuleUtil::Load, FunctionUtil::LoadFuncPtr', 'templates/shared_lib.h'), ('Call, CallVoid, CallOnce, CallOnceVoid', 'templates/shared_lib_util.h')], [('module handle, function pointer', 'loaded or not', 'templates/shared_lib.h')], ['return values', 'functions called'], TS)
p('C28', 'Random bytes fill the whole buffer and random integers are in range and unbiased',
  'Asking for random bytes either fills every byte of the buffer, and nothing outside it, from the random device or reports failure; short reads and interrupted calls are continued. A random integer lies between its bounds, both included and in either order, every number of the range equally likely, at the cost of few rejected values, or the call reports failure. The device is opened once and closed once with the generator. The time in microseconds is exactly the seconds and microseconds of the clock.',
  ['inputs', 'fault_sequences'], 'every size, every sequence of short, interrupted and failing reads, every pair of bounds', 'short and interrupted reads do not happen in tests; the range of bounds is 2^128',
  ['security/security_csprng.cpp', 'security/security_csprng.h', 'environment/environment_appinfo.cpp'], [('read loop', 'security/security_csprng.cpp GetBytes'), ('mask and reject', 'security/security_csprng.cpp GetInteger')], [('MxURandom', 'descriptor', 'security/security_csprng.h')], ['return value', 'buffer', 'Result'], AI,
  'Range membership is decided for every width; equal likelihood at 390 widths (all bit lengths, their edges and interior points). ')
p('C29', 'Scope guards undo exactly one lock and handle owners cannot be copied',
  'A scope guard undoes its kind of lock on its own object exactly once when it goes out of scope, and nothing when it is created. Objects that own a handle, a lock, a mapping or a cached block (synchronisation objects, guards, files, directories, modules, the random generator, the thread-local allocator) can be neither copied nor assigned, moved or passed by value, so that no handle is ever released twice; the containers that promise copies stay copyable.',
  ['inputs', 'histories'], 'every program that uses the classes', 'that a program does not compile cannot be seen by running the tests',
  ['sync/sync_mutex.h', 'sync/sync_semaphore.h', 'sync/sync_readwritelock.h', 'sync/sync_event.h', 'sync/sync_sharedmem.h', 'sync/sync_tls.h', 'utf8/utf8_file_dir.h', 'templates/shared_lib.h', 'security/security_csprng.h'], [('denied copy operations', 'class declarations'), ('guard destructors', 'sync/sync_*.cpp')], (), ['compilation', 'unlock calls'], 'compile-fail witnesses and typestate analysis of the guards')

FD = ['utf8/utf8_file_dir.cpp', 'utf8/utf8_file_dir.h']
p('C09', 'File names are checked first and only the named file is affected',
  'Every file and directory operation that takes a name checks and normalises it first and fails, without asking the operating system for anything, if the name is empty, too long, not UTF-8 or has a forbidden character. An operation acts on exactly the file or directory that was named, with exactly the owner, group, permissions and times given, and reports success exactly if the operating system did it. Parent directories are created only when asked for, and success means that the directory itself was created. Status is that of the link if asked for and of its target otherwise.',
  ['inputs', 'fault_sequences'], 'every name, every operation, every failing system call', 'names and failing system calls are unbounded; the tests use a few files', FD,
  [('GetPlatformFilename, GetAbsoluteFilename', 'utf8/utf8_file_dir.cpp'), ('Chmod, Chown, Chgrp, Delete, Stat, SetFileTimes, Mkdir, Dir::Open', 'utf8/utf8_file_dir.cpp')], (), ['return values', 'file system'], TS)
p('C10', 'Files are opened as requested, locked, and closed exactly once',
  'A file object has at most one descriptor, opened with the requested flags and not inherited by other programs, and closes it exactly once: when closed, reopened, destroyed or when opening fails halfway. An open file is locked, shared if sharing is allowed for both reading and writing and exclusively otherwise, without waiting; if the lock is not available opening fails. Reading needs read access, writing write access. A request that makes no sense is refused and opening fails only if the name, the request or the operating system does not allow it.',
  ['inputs', 'histories', 'fault_sequences'], 'every access mode and sharing mode, open and closed file objects, every failing system call', 'lock conflicts and failing calls are not provoked by the tests', FD,
  [('File::Open, File::Close', 'utf8/utf8_file_dir.cpp')], [('MxFile, MxRead, MxWrite', 'descriptor and access', 'utf8/utf8_file_dir.h')], ['return values', 'descriptors open'], TS)
p('C11', 'Reads and writes transfer and count every byte and keep the position',
  'Reading and writing transfer bytes in order, never more than asked for, and report exactly how many were transferred; interrupted and short transfers are not mistaken for failures or for the end, a write that reports success wrote everything and an error is never reported as success. The position of the file object is that of the file after every operation, successful or not; the known size grows with writes beyond the end. Seeking goes exactly to the requested place relative to start, end or current position, limited to the file, for every offset. Using a file that is not open, or not open for that purpose, fails.',
  ['inputs', 'fault_sequences'], 'every position, size and amount, every sequence of short, interrupted and failing transfers', 'offsets beyond 4 GB, short and interrupted transfers do not happen in tests', FD,
  [('Read, Write, Seek, UpdateMaxPos', 'utf8/utf8_file_dir.cpp')], [('MxCurrPos, MxMaxPos', 'position and size', 'utf8/utf8_file_dir.h')], ['data', 'counts', 'GetCurrPos, GetMaxPos'], TS)
p('C12', 'Copying, moving, loading and removing lose no data and follow no links',
  'A copy that reports success has the contents of the source to its end and nothing more, with its permissions; a file is never copied onto itself, a target that another program has locked is left alone, and the source is not changed. Moving removes the source only after it was renamed or copied completely. Loading returns all of the file in one block from the right allocator, or nothing and no memory. Removing a directory with its contents touches nothing outside of it: links are removed, never followed, and the directory itself and its parent are not mistaken for contents. No descriptor or directory handle is left open.',
  ['inputs', 'fault_sequences', 'histories'], 'every file size, every sequence of short, interrupted and failing transfers, every kind of directory entry and name length', 'failing transfers, links and name length limits are not covered by the tests', FD,
  [('Copy, Move, LoadEntireFile', 'utf8/utf8_file_dir.cpp'), ('Rmdir, Rmdir_RecurseInternal', 'utf8/utf8_file_dir.cpp')], (), ['file system', 'returned block'], TS,
  'The length of the directory name in the recursive removal is enumerated at the small and the limiting values. ')

p('C13', 'Names are normalised exactly; paths and lines are complete and terminated',
  'A file name is accepted exactly if it is not empty, fits, is valid UTF-8 and has no forbidden character, and keeps its meaning; its parts (path, file name, extensions) are located exactly. The absolute form of a name means the same as the name in its base directory, has no ".", ".." or empty parts, starts with a slash and ends with one only if asked to. Link targets, resolved and current directories, the name and directory of the program and storage directories are returned completely, terminated and with their exact size, or refused; a name that fits is not refused, nothing is written outside the buffer and no memory is lost. Reading a line returns the text up to the line feed, carriage return or both, wherever the reads happened to be split, in one block of the right allocator, and the next read starts right behind it.',
  ['inputs', 'fault_sequences'], 'every character class at every position of short names, every arrangement of slashes, dots and line ends of short names and texts, every buffer size around the limit, every failing system call; memory bounds for every length', 'names, buffer sizes and read boundaries are unbounded; the tests use a few', FD + ['utf8/utf8_appinfo.cpp', 'utf8/utf8_appinfo.h'],
  [('GetPlatformFilename, GetPlatformFilenameInfo, GetAbsoluteFilename, LineInput, Realpath, Readlink', 'utf8/utf8_file_dir.cpp'), ('AppInfo', 'utf8/utf8_appinfo.cpp')], (), ['returned text', 'reported size', 'GetCurrPos'], AI,
  'Exact texts are decided for names of up to five and lines of up to four characters with symbolic letters. ')

na('C60', 'Waiting threads are served fairly', 'A thread waiting on a mutex, semaphore, event or reader-writer lock is eventually served as long as the object keeps being released.', ['schedules'],
   'every schedule', 'liveness over infinite schedules', S, [('condition variables', 'sync/sync_util.cpp')], 'liveness depends on the scheduler and on the wake-up order of the threading library; no static argument over this source decides it')
na('C61', 'Hash functions spread keys evenly', 'The hash functions distribute the keys of a hash table evenly, also under adversarial keys.', ['inputs'], 'every key set', 'statistical quantity', ['templates/shared_lib.h', 'templates/detachable_ordered_hash.h'], [('djb2/siphash', 'templates')], 'a statistical quality of outputs, not a property of constructs in the source')
na('C62', 'Named objects survive the crash of a process', 'When a process dies while holding a named synchronisation object, the others recover.', ['crash_points'], 'every crash point', 'the library makes no provision for it', S, [('shared memory', 'sync/sync_util.cpp')], 'the code documents no robust-mutex protocol: the property does not hold by design (a crashed holder leaves the object locked), so there is nothing to decide')
na('C63', 'Random bytes are unpredictable', 'The bytes of the random generator are cryptographically unpredictable.', ['inputs'], 'every output', 'quality of the operating system source', ['security/security_csprng.cpp'], [('/dev/urandom', 'security/security_csprng.cpp')], 'unpredictability is a property of the operating system device, outside this source')

def main():
    ids = [x['id'] for x in P]; assert len(set(ids)) == len(ids)
    P.sort(key=lambda x: x['id'])
    for x in P: assert len(x['title']) <= 80, x['title']
    with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    base = ('Every entry point is analysed from an arbitrary state that satisfies the stated class invariant, over all paths; loops by widening fixpoint. Obligations the fixpoint leaves open are re-analysed with peeled loops; those entries are reported as bounded in the evidence. '
            'Trusted: clang\'s front end, the analyser in tools/, the effect models of libc/OS calls in tools/models.py. ')
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[dict(property=x['id'], quick_cmd='python3 check.py ' + x['id'], thorough_cmd='python3 check.py %s --thorough' % x['id'], technique=TECH[x['id']], level='other', level_note=base + NOTE[x['id']]) for x in P if x['id'] not in NA],
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
    json.dump(m, open(os.path.join(TOP, 'MANIFEST.json'), 'w'), indent=1)
main()
