"""writes /verif/properties.jsonl (kept as a script so that long statements stay editable)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech], **({'observe_at': observe} if observe else {}), hook_needed=None)))


H = 'lib/h/ce/'
p('P01', 'Pool queues keep their order and never disturb each other',
  '''A queue in a pool holds exactly the items put into it and not yet removed: an appended item comes after, and a head-inserted item before, everything then in that queue; removal takes the head; head and tail show the two ends; and it reports empty exactly when nothing is left.
  An operation on one queue, or on nodes allocated directly, never changes the contents of another queue or of a node somebody else holds. Removing from an empty queue is refused and changes nothing.''',
  ['histories'], 'every history of append/insert/remove/alloc/free/reset on any number of queues sharing a pool of any capacity',
  'No test exercises pool.h at all; order after wrap-around through the shared free list depends on the whole history.',
  [H + 'pool.h'], [('circular list per queue, tail pointer', H + 'pool.h append_tail/insert_head/remove_head'), ('free list threaded through next[]', H + 'pool.h alloc_index/free_index')], ['results, head/tail/is_empty, drained contents'])
p('P02', 'Pool nodes are conserved: all N-1 usable, none handed out twice',
  '''A pool of N slots has exactly N-1 usable nodes (index 0 means none): allocating a node or adding an item to a queue succeeds exactly when fewer than N-1 nodes are in use by all queues and direct holders together, whatever the history of frees, removals and resets.
  A node that is handed out is in use by nobody else, and freeing node 0 does nothing. A refused operation returns false or 0 and leaves every queue and node as it was.''',
  ['histories'], 'every history up to and past exhaustion, for every capacity including 1, 2 and the largest one the index type allows',
  'No test exercises pool.h; leaks and double hand-outs only show after particular free/alloc/remove sequences.',
  [H + 'pool.h'], [('high-water mark and free list', H + 'pool.h alloc_index/free_index'), ('removal returns the head node to the free list', H + 'pool.h remove_head')])
p('B01', 'A bulk list behaves as a bounded sequence',
  '''A bulk list of capacity N is a sequence: append adds at the end, unordered removal moves the last item into the gap, ordered removal closes the gap keeping the order, resize and append_n change the length and keep the remaining prefix, clear empties it, and copying or assigning gives an equal, independent list.
  Every operation that would exceed the capacity or names a position outside the list returns false and changes nothing; size, capacity, room, iteration, indexing, back and spans all agree with the sequence.''',
  ['histories'], 'every history of operations on any number of lists, including self assignment and assignment between lists of any two lengths, at every capacity',
  'Two tests run one short fixed scenario each.',
  [H + 'ce.h'], [('size and data kept in step', H + 'ce.h bulk'), ('assign_items / construct_at / destroy_at', H + 'ce.h')])
p('B02', 'Bulk lists construct and destroy every element exactly once',
  '''An element of a bulk list is constructed before it is first used, destroyed exactly once when it leaves the list (removal, shrink, clear, assignment from a shorter list, end of life of the list), and never assigned to, read or destroyed while not alive.
  This holds also for element types that cannot be default constructed, and refused operations construct and destroy nothing that stays behind.''',
  ['histories'], 'every history of operations and copies on lists of a type with observable lifetime',
  'The lifetime of elements is counted nowhere in the tests.',
  [H + 'ce.h'], [('construct_at/destroy_at/construct_copy/assign_items', H + 'ce.h'), ('remove_at destroys the vacated slot', H + 'ce.h bulk::remove_at')])
p('Q01', 'The priority queue always hands out a smallest item',
  '''head and dequeue give an item such that no item in the queue is smaller, dequeue removes exactly that item, and enqueue adds exactly one item; so the multiset of items in the queue is always what was enqueued and not yet dequeued, and the queue is empty exactly when that is empty.
  Enqueue succeeds exactly while fewer than N items are queued and otherwise returns false and changes nothing.''',
  ['histories'], 'every history of enqueue/dequeue with any items, including duplicates, at every capacity',
  'No test covers min_priority_queue.', [H + 'ce.h'], [('heap_raise/heap_lower', H + 'ce.h'), ('min_priority_queue', H + 'ce.h')])
p('S01', 'Bitset bits are independent',
  '''Each index of a bitset holds what was last written to it, by set/reset of that index, set(index, value), or the whole-set set/reset; writing one index changes no other, an index outside the bitset fails its check before anything is touched, and storage around the bitset is never touched, for sizes that are and are not multiples of 8.''',
  ['histories'], 'every history of set/reset operations over every index of bitsets of any size',
  'No test covers bitset.', [H + 'ce.h'], [('byte index and bit mask', H + 'ce.h bitset')])
p('S02', 'Skip and trim keep a span inside its data',
  '''skip(s, n) is the span without its first min(n, size) items and trim(s, n) the span without its last min(n, size) items; so any chain of skips and trims with any counts, however large, yields a sub-span of the original or an empty span, never one reaching outside it. Going from begin to end of a span, const or not, visits exactly its items in order.''',
  ['inputs', 'histories'], 'every sequence of skip/trim with any counts up to the largest size_t',
  'No test covers span skip/trim.', [H + 'ce.h'], [('saturating size arithmetic', H + 'ce.h span skip/trim')])
p('D01', 'A dictionary is a bounded map',
  '''find(key) gives a slot exactly when the key has been bound, and the slot (also reached by indexing) holds the value most recently bound to that key; binding a key again replaces its value in place, and slots of other keys and their values are never affected.
  A new key is refused (nil) exactly when all N-1 slots are taken, changing nothing; keys may be any value, 0 included, and keys laid out in the search-tree prefix are found exactly like the rest.
  Indexing by a key that is not bound or by a slot that is not taken fails its check; and every slot holds exactly one live value at all times: binding destroys the value it replaces and constructs the new one.''',
  ['histories', 'configurations'], 'every history of bind/find over any keys, any capacity, and any length of the sorted search-tree prefix',
  'One test binds two keys.', [H + 'dictionary.h'], [('tree scan then linear scan', H + 'dictionary.h find'), ('slot allocation', H + 'dictionary.h bind')])
p('T01', 'Sorting yields the sorted permutation',
  '''insertion_sort and intro_sort leave exactly the original items, in non-descending order, for every input: any length including 0 and 1, duplicates, already sorted, reversed, and any cutoff; nothing outside the range is read or written.''',
  ['inputs'], 'every input array and every cutoff between insertion and partitioning',
  'One test sorts random arrays of one shape.', [H + 'sort.h'], [('median-of-3 partition', H + 'sort.h partition/median'), ('insertion below the cutoff', H + 'sort.h insertion_sort')])
p('T02', 'Binary searches return the exact boundary',
  '''On a sorted range lower_bound returns the first position whose item is not less than the key and upper_bound the first whose item is greater than the key, or the end if there is none, for every length, duplicates and keys below, between and above all items.''',
  ['inputs'], 'every sorted range and every key', 'No test covers the bounds.', [H + 'sort.h'], [('halving with step + 1', H + 'sort.h lower_bound/upper_bound')])
p('Z01', 'Z-order codes preserve both coordinates',
  '''z_encode maps every pair of 32 bit signed coordinates to a distinct 64 bit code whose even bits order exactly as x and odd bits exactly as y, so a code grows whenever both coordinates grow; z_inside(lo, hi, z) is true exactly when both coordinates of z lie between those of lo and hi, bounds included.''',
  ['inputs'], 'every pair of int32 coordinates and every box', 'The test draws a few random points in a small range.', [H + 'zorder.h'], [('bit spreading', H + 'zorder.h z_expand/z_encode'), ('per-axis compare', H + 'zorder.h z_inside')])
p('Z02', 'A z-order range query misses nothing inside the box',
  '''Given codes in ascending order, z_query outputs, in the same order and each at most once, a subset of them that includes every code inside the box, for every box up to the whole plane and any data; anything else it outputs lies at most 2^16 code steps outside the box's own code range, it writes at most as many entries as there are data, and terminates.''',
  ['inputs'], 'every sorted data set and every box, including boxes touching the limits of the plane and duplicate codes', 'One test draws uniform random points and small boxes.', [H + 'zorder.h'], [('box splitting with a pending-span stack', H + 'zorder.h z_query/z_split'), ('skip ahead by binary search', H + 'zorder.h z_lower_bound')])
p('K01', 'Clock ticks never drift',
  '''After any sequence of polls the tick count of a clock is exactly floor(timestamps elapsed since reset * Fn / (frequency * Fd)), and each elapsed() returns the increase since the previous poll: no tick is lost or invented by polling often, irregularly, or by rounding, for any rates and any timestamps (within the 64 bit range of the products).''',
  ['histories', 'configurations'], 'every sequence of timestamps and every pair of frequencies', 'A test reads the real clock once and checks monotonicity.', [H + 'clock.h'], [('residual carried between polls', H + 'clock.h elapsed')])
p('K02', 'Time conversions at the OS boundary are exact',
  '''monotonic_timestamp is the monotonic OS clock reading in units of 1/monotonic_frequency seconds, exactly, for every reading (0 if the OS refuses); sleep_ns asks the OS for exactly the requested time split into whole seconds and a valid nanosecond remainder. On Windows the counter and its frequency are passed through unchanged, and sleeps are whole milliseconds: none for 0, otherwise at least one and within a millisecond of the request, and at least the longest possible (2^32 - 2 ms) where the request exceeds it.''',
  ['inputs', 'fault_sequences'], 'every seconds/nanoseconds reading, OS failure, and every requested duration', 'A test checks that two readings differ.', ['lib/os_posix.cpp', 'lib/os_win32.cpp'], [('timespec conversion', 'lib/os_posix.cpp monotonic_timestamp/sleep_ns'), ('millisecond conversion', 'lib/os_win32.cpp monotonic_timestamp/sleep_ns')])
p('O01', 'Files are opened, mapped and released exactly as asked',
  '''On Windows open_file asks the OS for exactly the file its UTF-8 path names (each code point as its UTF-16 units, zero terminated), read only and existing, and succeeds exactly when the OS does; map_span of a file or of a path yields exactly the file's bytes (map_span<T>: the whole T items of them) or, when the OS refuses any step or the file is empty, false and an empty span; close_file and unmap_span release exactly what was opened or mapped, once. No handle, mapping object or view is left behind by any success or refusal at any step, and no file is created or changed; virtual_alloc gives zeroed memory or null when refused, and debug_out passes its text through unchanged. The POSIX layer, which has no files, refuses every one of these and leaves spans empty.''',
  ['fault_sequences', 'histories', 'inputs'], 'every history of open/map/unmap/close with any OS call refused, every code point in a path', 'There is no test of files.', ['lib/os_win32.cpp', 'lib/os_posix.cpp', H + 'ce.h'], [('open_file, map_span, unmap_span, to_utf16', 'lib/os_win32.cpp'), ('refusals', 'lib/os_posix.cpp'), ('map_span<T>', H + 'ce.h')])
p('M01', 'thread_mutex excludes',
  '''At most one thread holds a constructed thread_mutex at any time: acquire returns only once the caller holds it, try_acquire returns true exactly when it took a mutex nobody held and otherwise returns false without blocking or taking anything, and release lets exactly one waiting or later thread in; mutexes are independent of each other.''',
  ['schedules', 'histories'], 'every interleaving of acquire/try/release by any number of threads on any number of mutexes', 'The mutex test runs free-running threads.', ['lib/mutex_std.cpp', H + 'mutex.h'], [('std::mutex in opaque storage', 'lib/mutex_std.cpp')])
p('M02', 'thread_shared_mutex admits many readers or one writer',
  '''A constructed thread_shared_mutex is held at any time by any number of shared holders or by exactly one exclusive holder, never both: shared acquires are granted alongside other shared holders, exclusive acquires only when nobody holds it; the try variants report success exactly when they took it (and fail without blocking while an incompatible holder is in), and each release ends exactly one holding of its kind.''',
  ['schedules', 'histories'], 'every interleaving of exclusive/shared acquire/try/release by any number of threads', 'The mutex test runs free-running threads.', ['lib/mutex_std.cpp', H + 'mutex.h'], [('std::shared_mutex in opaque storage', 'lib/mutex_std.cpp')])
p('A01', 'Atomic operations have exact sequential results',
  '''On an atomic of any supported type (integers of every width, floating point, pointers and small structs), load returns the current value, store and exchange replace it, exchange and the fetch operations return the previous value, fetch_add/sub/xor/and/or install exactly the wrapped or typed result, and compare_exchange succeeds and installs exactly when the value equals the expected one, otherwise leaving the value and storing the actual value into expected.''',
  ['histories', 'inputs'], 'every history of operations with any operands, per type', 'The test performs each operation once or twice on fixed values.', [H + 'atomic_std.h'], [('std::atomic forwarding', H + 'atomic_std.h'), ('compare-exchange loop polyfill for fetch_add/sub', H + 'atomic_std.h')])
p('A02', 'Concurrent atomic operations take effect one at a time',
  '''Under any interleaving every atomic operation takes effect at a single instant: no concurrent fetch_add/sub/xor/and/or, exchange, store or compare_exchange is lost or half applied, including the polyfilled ones when another thread changes the value in the middle.
  What a thread wrote before an atomic store or update is seen by every thread that reads that store or update, and all atomic operations appear in one order consistent with each thread.''',
  ['schedules'], 'every interleaving of operations by any number of threads', 'The test is single threaded.', [H + 'atomic_std.h'], [('seq_cst std::atomic operations', H + 'atomic_std.h'), ('retry loop', H + 'atomic_std.h atomic_fetch_add/sub')])
p('L01', 'lziii streams decode exactly',
  '''For every well formed encoded stream, size() is the exact decoded length and decode() reproduces exactly the bytes the format describes: literals, and copies of 3 to 18 bytes from 1 to 4096 bytes back, including copies that overlap their own output; decode reads only the stream and writes only the destination.''',
  ['inputs'], 'every well formed stream of control bytes, literals and spans', 'One fixed stream is decoded.', [H + 'lziii.h'], [('control bit walk', H + 'lziii.h size/decode'), ('byte by byte copy', H + 'lziii.h decode')])
p('E01', 'base64 text decodes to the exact bytes',
  '''For every byte string, decoding its base64 text (with or without = padding) gives exactly that string, and the size computed from the text is exactly its length, at run time and in constant evaluation; the input is read only up to its end.''',
  ['inputs'], 'every byte string', 'No test covers base64.', [H + 'ce.h'], [('6 bit to 8 bit regrouping', H + 'ce.h base64::decode'), ('non overflowing size', H + 'ce.h base64::size')])
p('H01', 'CRC32 is the same however the data is sliced or fed',
  '''For any polynomial, crc32 of a byte string equals the bit-serial reflected CRC of its bits with the standard inversions; feeding the same bytes as 8, 32 or 64 bit little-endian words gives the same value, and continuing from the crc of a prefix over the rest gives the crc of the whole.''',
  ['inputs'], 'every byte string, every way to cut it into pieces and word sizes, any initial crc, any polynomial', 'Static checks cover one string each.', [H + 'ce.h'], [('sliced lookup tables generated at compile time', H + 'ce.h detail::crc32'), ('crc32 overloads', H + 'ce.h')])
p('H02', 'FNV-1a hashes match their definition and compose',
  '''fnv1a32, fnv1a64 and the text form equal the FNV-1a recurrence over the little-endian bytes of the data for elements of any width; hashing in pieces, each continuing from the previous hash, equals hashing at once.''',
  ['inputs'], 'every data sequence of 8/16/32/64 bit elements, every split and basis', 'One static check of one string.', [H + 'ce.h'], [('byte loop', H + 'ce.h hash::fnv1a')])
p('R01', 'Random generators follow their published recurrences',
  '''From any state each generator (xoroshiro64**, xoroshiro128++, PCG32) outputs exactly the published sequence: next, next32 and next64 agree with it and with each other and advance the state exactly once per word, seed data stands for a state made of its hashes (the CRC32C of its first half and of all of it, its FNV-1a and the FNV-1a continued over it again, or PCG's number seeding of its FNV-1a), and seeding, from any data including none, never leaves xoroshiro64** in its dead all-zero state.''',
  ['histories', 'inputs'], 'every state and seed and any mix of calls', 'Tests compare a few outputs from one state.', [H + 'ce.h'], [('next/next32/next64', H + 'ce.h namespace random'), ('seed from crc/fnv', H + 'ce.h seed')])
p('R02', 'Bounded random numbers are in range and unbiased',
  '''next_ranged(g, n) and next_unbiased(g, n) return a value below n for every n > 0, namely floor(n*w/2^32) of a generator word w: next_ranged takes the next word, next_unbiased the first one for which n*w mod 2^32 is not below 2^32 mod n, so that exactly the same number of words maps to each value in [0, n). Both leave the generator advanced by exactly the words they consumed.''',
  ['inputs', 'histories'], 'every bound n in 1..2^32-1 and every sequence of generator words', 'Not tested; bias is invisible to sampling.', [H + 'ce.h'], [('multiply-shift with rejection', H + 'ce.h next_unbiased/next_ranged')])
p('X01', 'Integers print as exact decimal',
  '''to_text of any integer of any width, signed or unsigned, writes exactly its canonical decimal digits (a minus sign only for negatives, no leading zeros), returns the end of the text, and writes nothing beyond the longest text of that type.''',
  ['inputs'], 'every value of every integer type', 'The test prints a few values.', ['lib/to_text.cpp', 'lib/to_text_from_integer.h'], [('fixed point digit extraction', 'lib/to_text_from_integer.h')])
p('X02', 'Composite text is the concatenation of its parts',
  '''to_text of several values, arrays, vectors, bools, chars, enums and null pointers writes exactly the documented form of each part in order (arrays and vectors as [a, b, ...], char arrays as their text up to their NUL or size), and as_string of any arguments holds exactly that concatenation, NUL terminated, within its computed size: C strings contribute at most 1024 characters each (a lone C string all of them, a null one #<nil>), and arrays of anything but char are shown by their address.''',
  ['inputs'], 'every combination of argument types and values, including char arrays without NUL, empty and over-long strings', 'Tests print a few fixed combinations.', [H + 'ce.h'], [('to_text overloads', H + 'ce.h'), ('measure', H + 'ce.h measure/as_string')])
p('X03', 'Floating point numbers print as the shortest text that reads back',
  '''to_text and as_string of a float or double write the shortest decimal text that, read back to the nearest number of the same type, gives exactly the number, sign of zero included; of the texts that short the one closest to the number, in plain form unless the form with an exponent (one digit, point and further digits if any, e, sign, two digits at least) is shorter.
  Infinities print as inf and -inf, a NaN as nan with or without a sign. At most 32 characters are written, and an array or vector of floats prints its elements the same way.''',
  ['inputs'], 'every float and every double', 'Tests print two doubles and compare nothing.', ['lib/to_text.cpp', H + 'ce.h'], [('conversion', 'lib/to_text.cpp CE_USER_TO_TEXT_FROM_IEEE754'), ('arrays and vectors', H + 'ce.h to_text_n')])
p('G01', 'Log keys split exactly at top level commas',
  '''The key names made from the argument text of a log statement are exactly its arguments, in order, each without surrounding blanks: a comma separates arguments only outside parentheses, brackets, braces and quoted strings or characters (with escapes), the last one keeps the rest of the text, a comma that ends the text separates nothing, and every other byte, UTF-8 included, is kept (text with digit separators or raw strings excepted).''',
  ['inputs'], 'every argument text and argument count', 'One test logs a handful of expressions.', [H + 'ce.h'], [('balance and quote tracking scanner', H + 'ce.h names')])
p('G02', 'Checks and logs report exactly what happened, once',
  '''A log statement calls the log hook exactly once with its numeric level, its keys and the text of each argument in order; CE_ASSERT, CE_VERIFY and CE_REJECT evaluate their condition exactly once, stay silent when it does not fail (CE_REJECT fails when it is true, the others when it is false), evaluating no argument then, and on failure report kind, file and line, condition text, argument text and each argument value once to the log and once to the error hook, breaking only if the hook asks; CE_VERIFY and CE_REJECT yield the condition; CE_ERROR always reports.
  The default handlers print every part in order, and no message is dropped, duplicated or reordered.''',
  ['histories', 'inputs'], 'every mix of statements, levels, argument types and hook answers', 'Tests only run passing asserts and print to the console.', [H + 'ce.h', 'lib/os.cpp', 'lib/os_posix.cpp'], [('CE_LOG/CE_AFFIRM macros, call_error_hook, call_log_hook', H + 'ce.h'), ('os::log/os::error', 'lib/os.cpp')])
p('G03', 'Checks and logs compiled out change nothing else',
  '''With the error level 0, CE_ASSERT, CE_VERIFY and CE_REJECT still evaluate their condition exactly once and yield it, evaluate none of their arguments, report nothing and never break; with the log level 0, log statements report nothing and evaluate nothing; each setting leaves the other's statements as they are, and CE_ERROR reports and breaks in every configuration.  Every statement that compiles with both levels on compiles in each.''',
  ['histories', 'configurations'], 'every mix of statements, conditions and arguments in each of the configurations a user can choose', 'Tests are built in one configuration.', [H + 'ce.h'], [('CE_ERROR_LEVEL, CE_AFFIRM', H + 'ce.h'), ('CE_LOG_LEVEL, CE_LOG_EX, CE_PP_WHEN', H + 'ce.h')])
p('I01', 'Reflection visits every bound field once, in order, in place',
  '''Visiting a value through io calls, in order, for each bound class: enter, then name and value of each bound field, then leave; fixed arrays and vectors of 3 or more are visited as arrays of exactly their length, 2-vectors as a class of x and y, lists as variable arrays of their size (a size the visitor changes is the size visited), types bound as another type exactly as that type, and anything else as one atom; each atom is the live storage, so what a reading visitor stores is what a writing visitor later sees.''',
  ['inputs', 'programs'], 'every nesting of bound classes, arrays, lists and vectors with any values', 'One test prints one value.', [H + 'io.h'], [('io::item/items', H + 'io.h'), ('reflection specialisations', H + 'io.h')])
p('I02', 'Bound field names are exact',
  '''CE_IO_BIND gives each field exactly its own name: the names are the comma separated identifiers in order, without blanks wherever those occur (around names, before or after commas), UTF-8 names included, each NUL terminated.''',
  ['inputs'], 'every list of identifiers and every placement of blanks', 'One test binds one list.', [H + 'io.h'], [('names_t scanner', H + 'io.h names_t')])
p('I03', 'Enum names convert both ways',
  '''For every enumerator with a value in 0..255 that no other enumerator shares, nameof gives its unqualified name and as_enum of that name gives it back; any value without an enumerator gives "???", and any text that is not exactly an enumerator's name gives the caller's fallback, for enums wherever they are declared (in a class template: once instantiated). nameof<T>() of a fundamental, class or enum type declared in named scopes (none of them a template, anonymous, inline or a function) is its qualified name.''',
  ['inputs', 'programs'], 'every value 0..255 and beyond and every text, for any enum', 'A test checks a few values of small enums.', [H + 'nameof.h'], [('binary split over values', H + 'nameof.h nameof_enum/as_enum'), ('exact match', H + 'nameof.h same')])
p('V01', 'Simulation of simplicity puts every point in exactly one triangle',
  '''For any two different vectors exactly one of inside(a, b) and inside(b, a) holds, for equal ones neither, and it agrees with the sign of the cross product whenever that is not zero.
  For any triangulation of a region by non-degenerate triangles, every point in its interior (on edges and vertices of the triangles too) is inside exactly one triangle by the three-sided test, for all coordinates whose differences fit 32 bits; a point elsewhere is inside at most one.''',
  ['inputs'], 'every triangulation and every query point', 'One test samples a small grid on one mesh.', [H + 'math.h'], [('symbolic perturbation tie breaks', H + 'math.h inside')])
p('V02', 'Range tests agree with exact geometry',
  '''in_range_rr, and its line, edge, ray and segment forms, are true exactly when the squared distance from the point to the disc centre, line, edge (where the point's projection must fall on the edge), ray or segment is less than rr, decided exactly for all coordinates below 2^30 in magnitude and rr below 2^62; ab_less_cd(a,b,c,d) is exactly a*b < c*d over the integers for all 64 bit values.''',
  ['inputs'], 'every point, radius and direction', 'One test checks a few products.', [H + 'math.h'], [('128 bit compare', H + 'math.h ab_less_cd'), ('projection cases', H + 'math.h in_range_rr_*')])
p('V03', 'Point in polygon equals the winding number',
  '''in_polygon returns the winding number of the closed polygon around the point (as a size_t, so clockwise is 2^64 minus its count) for every point not on the boundary, for any polygon: convex or not, self-crossing, either orientation, repeated vertices, any starting vertex; fewer than one vertex gives 0.''',
  ['inputs'], 'every polygon and point with coordinate differences that fit the type', 'Not covered by the tests.', [H + 'ce.h'], [('signed crossing accumulation', H + 'ce.h in_polygon_xy')])
p('V04', 'Vector arithmetic is componentwise and products are exact',
  '''Vector +, -, *, / and their assigning forms act on each component alone, == holds exactly when all components are equal and != exactly when it does not; sqrx, dotx and crossx of 32 bit integer vectors are the exact 64 bit integer values whenever those fit.''',
  ['inputs'], 'every pair of vectors', 'Only a few are exercised indirectly.', [H + 'ce.h'], [('vec operators, sqrx/dotx/crossx', H + 'ce.h namespace math')])
p('N01', 'Integer square root, hypot and angle conversion are exact to rounding',
  '''isqrt(v) is the square root of v >= 0 rounded to nearest, and hypot(x, y) the length of (x, y) rounded to nearest, exactly for squares below 2^50 and within 1/2 + 2^-20 of the true root beyond, up to the largest root that fits; isqrt is monotone; and degrees_to_angle(d) is d/360 of the full 2^31 turn, truncated towards zero, modulo 2^32.''',
  ['inputs'], 'every argument in range', 'Tests sample a few values.', [H + 'math.h'], [('sse double square root', H + 'math.h isqrt/hypot'), ('degrees_to_angle', H + 'math.h')])
p('N02', 'Rotations and polar form are right to the last units',
  '''With angles in units of 2^-31 turn (the 32 bit range is two turns), cordic::rotate of a vector whose length fits in 31 bits, and to_cartesian, cos_2pi and sin_2pi for any length, give the exactly rotated vector within 2 units per coordinate; to_polar, polar_mag, polar_ang, atan2_2pi and cordic::vector give the length within 1 unit and, except for the zero vector, the direction within 2 units of 2^-31 turn (counted on from the angle given to cordic::vector); and turning by a further quarter turn is exact: it swaps the coordinates of the result and negates one, without rounding.''',
  ['inputs'], 'every vector up to length 2^31 - 3 and every angle', 'Tests print a few values.', [H + 'math.h'], [('cordic rotation and vectoring', H + 'math.h')])
p('N03', 'Intersections of lines are exact',
  '''intersect of the lines through two pairs of points is refused exactly when their directions are parallel (or one has none) and otherwise yields the intersection point, exact to truncation towards the first point of the first line in each coordinate, whenever that fits; and muldiv(v, n, d) is v * n / d in each coordinate, truncated towards zero, computed without loss for every v, n and d whose result fits (with a 64 bit d of 0 it is v).''',
  ['inputs'], 'every two lines with 32 bit coordinates', 'Tests do not reach it.', [H + 'math.h'], [('intersect, muldiv', H + 'math.h')])
p('N04', 'normal gives the unit vector',
  '''normal(v) of a vector of floats whose length lies between 2^-50 and 2^62 has the direction of v and length one: each component is that of v / |v| within a factor of 1 +- 2^-11, with the sign of the component of v, zero where that is zero, and all three components share the same factor to within 2^-20.''',
  ['inputs'], 'every vector of that length, of components of any sign and relative size', 'No test calls it.', [H + 'math.h'], [('reciprocal square root', H + 'math.h normal')])
p('U01', 'Compile time tools compute what their names say',
  '''The type tools answer for every type and list of types what their names say: remove_reference, _const, _volatile, _cv, _cvref and _pointer strip exactly that from the outermost layer; select_t, cond_t, car_t, cdr_t and types pick from a list; are_same_v, is_same_v, has_v, is_ptr and is_enum decide; best_pass_by_value_t is the type itself if trivially copyable and at most 16 bytes, otherwise a reference to const; sequence_t<T, N> is 0 .. N-1 in order, and items and items_v hold their values in order.
  get<N> yields field N of any aggregate or tuple of one to four fields; CE_COUNTOF and CE_COUNTOF_ARGS count array elements and arguments; CE_PP_GET_n, CE_PP_WHEN, CE_PP_MAP and CE_PP_JOIN expand to the n-th argument, the chosen branch, the macro applied to each of eight arguments in order, and the joined token; is_constructible_with<T, Ts...> is true exactly when T can be brace initialised with objects of the types Ts; as_cast reinterprets the bits; rgba converts to the array of its channels; and the ascii classes hold for exactly the characters of their class among all 256.''',
  ['inputs'], 'every type, list of types, sequence length, aggregate and character', 'Compiled tests use a handful of types; get<N> of an aggregate did not even compile.', [H + 'ce.h'],
  [('type lists and removal traits', H + 'ce.h items .. best_pass_by_value_t'), ('index sequences', H + 'ce.h detail::sequence'), ('aggregate access', H + 'ce.h detail::crack'), ('preprocessor tools', H + 'ce.h CE_PP_*'), ('character classes', H + 'ce.h ascii')])
p('C01', 'The mesh is always a triangulation of the whole square',
  '''After any history of point and edge insertions, successful or refused, the triangles of the mesh are non-degenerate and equally oriented, tile the world square exactly once without gaps or overlaps, and neighbour links are mutual: each triangle edge inside the square is shared by exactly two triangles and each boundary edge belongs to exactly one.''',
  ['histories'], 'every history of insert_point / insert_edge with any coordinates', 'One test inserts a fixed picture.', [H + 'cdt.h'], [('split/flip keep twins and winding', H + 'cdt.h')])
p('C02', 'Point insertion is exact, idempotent and all or nothing',
  '''insert_point succeeds exactly when the point, rounded down to the even grid, is a vertex already or lies strictly inside the square with room left, and then those coordinates are a vertex; inserting the coordinates of an existing vertex changes nothing; a refusal (outside the square, on its boundary, no room) changes nothing; insert_edge inserts its two ends the same way, changes nothing when the first is refused, and succeeds only if both are vertices; and no insertion makes two vertices at the same place, or moves, drops or renumbers a vertex.''',
  ['histories'], 'every history, including duplicates, points on edges, boundary and out-of-range points and exhausted capacity', 'One fixed picture.', [H + 'cdt.h'], [('locate then split face or edge', H + 'cdt.h insert')])
p('C03', 'Without constraints the mesh is Delaunay',
  '''After any sequence of point insertions into a mesh without constrained edges, no vertex lies strictly inside the circumcircle of any triangle.''',
  ['histories'], 'every sequence of points, including collinear, cocircular and clustered ones', 'One fixed picture, not checked for the Delaunay property.', [H + 'cdt.h'], [('edge legalisation by in-circle test', H + 'cdt.h')])
p('C04', 'Inserted edges are present and stay constrained',
  '''When insert_edge succeeds, its two end points are connected in the mesh by a chain of constrained edges, and everything it constrained hangs together with that chain; an edge already in the mesh, one that a single flip of an unconstrained edge gives, and a straight line of mesh edges become constrained as they are, with nothing else; the first edge of a mesh stays within a few grid steps of the segment asked for; once an edge is constrained it stays so: later insertions may split it, but its whole length remains covered by constrained edges; and inserting points constrains nothing new.''',
  ['histories'], 'every history of point and edge insertions, with crossing, overlapping and touching edges', 'One fixed picture.', [H + 'cdt.h'], [('constraint flag carried through split and flip', H + 'cdt.h')])
p('C05', 'Locating and flood filling give the right triangles',
  '''Locating any point strictly inside the square, from any hint, yields the one triangle containing it, points on edges and vertices included (ties go to one and the same triangle whatever the hint), and a point that no triangle contains yields 0; flood filling from a triangle gives the value to exactly the triangles reachable from it, without crossing a constrained edge, through triangles that do not carry the value yet, and changes nothing else, however many triangles there are.''',
  ['histories', 'inputs'], 'every mesh reached by any history, every query point and starting triangle', 'One fixed picture.', [H + 'cdt.h'], [('oriented walk', H + 'cdt.h locate'), ('fill', H + 'cdt.h')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
