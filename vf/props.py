"""The property catalogue: the single source of properties.jsonl and of the
MANIFEST entries (run `python3 -m vf emit`)."""

P = {}


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P[id] = dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=list(over), text=qtext),
                 why_tests_cant=why,
                 anchors=dict(files=list(files),
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mech],
                              observe_at=list(observe), hook_needed=None))


CE = 'lib/h/ce/ce.h'

prop('C01', 'bulk: capacity is never exceeded and refused operations change nothing',
     "A bulk<N,T> never holds more than N items and never touches an item slot outside [0,N); append succeeds "
     "exactly when there is room, append_n(n) exactly when room() >= n, resize(n) exactly when n <= N and "
     "remove_at(i) exactly when i < size, for every size_t argument including huge ones. A refused operation "
     "returns false and leaves the size and every item exactly as they were; an accepted one returns true and leaves "
     "exactly the documented size (size+1, size+n, n, size-1, and 0 after clear; the source's size after a copy or assignment). "
     "room() and capacity(), the spans and the iterators agree with that size.",
     ['inputs', 'histories'],
     'every element type, capacity N, reachable size and every size_t argument, one operation at a time from any reachable state (so every history)',
     'The tests run a handful of fixed sequences on one or two capacities with small arguments; they never pass arguments near SIZE_MAX '
     'and never look at the items after a refused call.',
     [CE], [('bulk::resize/append_n/append/remove_at/clear guards', CE + ' struct bulk'), ('assign_items', CE)],
     [('size', 'number of live items', CE + ' struct bulk')], ['return values', 'size', 'items'])

prop('C02', 'bulk: every item is constructed once and destroyed once',
     "In a bulk<N,T> the live objects are exactly the items at indices [0,size): every operation (construction, copy construction, "
     "assignment including self-assignment, resize, append, append_n, remove_at in both modes, clear, destruction) constructs only on storage with no live object, "
     "assigns and destroys only live objects, and leaves exactly the items below the new size alive. No object is leaked, "
     "destroyed twice or used before construction, whatever T's constructors and destructors do.",
     ['inputs', 'histories'],
     'every reachable state and every operation, for element types with user-provided construction, copy, assignment and destruction',
     'The tests use one instrumented element type on one history; lifetimes at other sizes, indices and in self-assignment are not looked at.',
     [CE], [('construct_at / destroy_at / construct_copy / assign_items', CE)], [], ['constructor, destructor and assignment calls on item storage'])

prop('C03', 'bulk: item values and their order are preserved by every operation',
     "append puts the new item at index size and leaves all other items alone; ordered remove_at(i) keeps the order of the remaining items (items above i "
     "move down by one); unordered remove_at(i) moves only the last item into slot i; resize, append_n and clear keep the surviving items in place. "
     "Copy construction and assignment leave the destination with items equal, index by index, to the source, and never modify the source.",
     ['inputs', 'histories'],
     'every capacity, reachable size, index and element value',
     'The tests check a few values at fixed indices after a fixed sequence.',
     [CE], [('bulk::remove_at<Ordered>', CE), ('bulk::append', CE), ('assign_items', CE), ('construct_copy', CE)], [], ['item values'])

prop('C04', 'pool: indices are handed out at most once until they are freed',
     "alloc_index of a pool<N,T> returns the most recently freed index if any index is free, otherwise the next never-used index, and 0 (nil) exactly when all N-1 usable "
     "indices are taken; it never returns an index outside [1,N-1] other than nil and never one that is currently allocated. free_index of a non-nil index makes it "
     "the next index to be handed out, free_index(nil) does nothing, and reset makes all N-1 indices available again; none of them touches item storage or other links.",
     ['inputs', 'histories'],
     'every reachable pool state (free list, high-water mark) and every index',
     'The tests fill one small queue; free-list reuse and exhaustion at capacity are not reached.',
     ['lib/h/ce/pool.h'], [('alloc_index/free_index/reset', 'lib/h/ce/pool.h')],
     [('next[0]', 'head of the free list', 'lib/h/ce/pool.h'), ('size', 'high-water mark', 'lib/h/ce/pool.h')], ['returned indices', 'links'])

prop('C05', 'pool queues: FIFO/LIFO order, no loss, and failure changes nothing',
     "append_tail adds the item behind the current tail, insert_head puts it in front of the current head, and remove_head unlinks exactly the current head and gives "
     "its node back to the pool; on an empty queue, remove_head returns false and changes nothing, and when the pool is exhausted the two inserts return false and change neither the queue, "
     "any link nor any item. head() and tail() always name the first and last item, and operations on one queue never alter links or items of nodes that are in another queue.",
     ['inputs', 'histories'],
     'every reachable pool and queue state, any number of queues sharing one pool, every item',
     'Two tests each perform one fixed short sequence on a single queue.',
     ['lib/h/ce/pool.h'], [('circular singly linked list through next[], queue_t::tail', 'lib/h/ce/pool.h')], [], ['head()/tail()', 'return values'])

prop('C06', 'dictionary: a bound name is found, an unbound one is not',
     "In a dictionary<N,T,K> starting from zero-initialised state, find(n) returns the slot whose name equals n if n was bound and nil otherwise, for every key value including "
     "K{} (zero). bind(n) of a bound name reuses its slot, replacing the value by destroying the old object and constructing the new one exactly once; bind of a new name takes a fresh slot "
     "without disturbing any other binding, and returns nil, changing nothing, exactly when all N-1 usable slots are taken. operator[] by pointer or name refers to that same slot.",
     ['inputs', 'histories'],
     'every key value, every reachable dictionary state, every capacity',
     'The only test binds a few non-zero names; zero keys, rebinding and a full dictionary are never reached.',
     ['lib/h/ce/dictionary.h'], [('find linear scan', 'lib/h/ce/dictionary.h'), ('bind slot allocation', 'lib/h/ce/dictionary.h')],
     [('names[], size', 'bound names; slot 0 is reserved as nil', 'lib/h/ce/dictionary.h')], ['find()', 'bind()', 'operator[]'])

prop('C07', 'min_priority_queue and heap steps keep exactly the enqueued items',
     "enqueue succeeds exactly when size < N and then adds exactly the given item, dequeue returns the item head() shows and removes exactly that one, and neither loses, duplicates or invents "
     "any other item; a refused enqueue changes nothing. All heap accesses stay inside [0,size] of the storage, and every sift terminates.",
     ['inputs', 'histories'],
     'every capacity, reachable size, item values and comparison outcomes',
     'No test uses the priority queue.',
     [CE], [('heap_raise/heap_lower', CE), ('min_priority_queue', CE)], [], ['items as a multiset', 'size'])

prop('C08', 'Sorting permutes in place within its bounds',
     "intro_sort, insertion_sort, partition and median, on any range and any comparison outcomes of the element type, only read and write elements of the given range and leave "
     "there a permutation of the input items: none lost, none duplicated. Every call terminates, recursing only on strictly smaller sub-ranges.",
     ['inputs'],
     'every range length, element type and comparison behaviour (also inconsistent operator<)',
     'The tests sort a few random or fixed arrays of small length; lengths above the insertion-sort threshold with adversarial orders are not covered.',
     ['lib/h/ce/sort.h'], [('insertion_sort', 'lib/h/ce/sort.h'), ('median/partition/intro_sort', 'lib/h/ce/sort.h')], [], ['the array'])

prop('C09', 'Binary searches return the partition point',
     "On an ascending range, lower_bound (and the z-order lower bound) returns the first position whose element is not less than k, and upper_bound the first whose element is greater than k, "
     "for every length including 0 and with duplicates. Only elements inside the range are read and the result always lies within [begin,end].",
     ['inputs'],
     'every sorted range, every length and key',
     'No test calls these searches with more than one probe value.',
     ['lib/h/ce/sort.h', 'lib/h/ce/zorder.h'], [('lower_bound/upper_bound', 'lib/h/ce/sort.h'), ('z_lower_bound', 'lib/h/ce/zorder.h')], [], ['returned pointer'])

prop('C10', 'Integer to text is the exact shortest decimal',
     "to_text of any integer of any built-in width and signedness writes exactly its decimal representation: '-' for negative values, then digits without superfluous leading zeros, most "
     "significant first, whose value is the number; it returns the end of what it wrote and writes nothing past it.",
     ['inputs'],
     'all 2^8..2^64 values of each of the ten integer types',
     'The tests convert a few values; the multiply-shift reciprocals and digit tables must be right for all 2^64 inputs.',
     ['lib/to_text.cpp', 'lib/to_text_from_integer.h'], [('to_text_from_integer', 'lib/to_text_from_integer.h'), ('digits_00_99', 'lib/to_text_from_integer.h')], [], ['the text buffer', 'returned end pointer'])

prop('C11', 'as_string never overflows its buffer and is always terminated',
     "For every argument list of integers, chars, bools, enums, pointers, string literals, char arrays and C strings, as_string writes only inside its own buffer, reads at most the N chars of a char[N] argument "
     "(terminated or not), never dereferences a null C string, truncates over-long C strings, and terminates the text inside the buffer.",
     ['inputs'],
     'every argument value, string length and argument combination',
     'Tests format a couple of short values; the longest representation of every type against its reserved size is never exercised.',
     [CE], [('measure<T>', CE), ('to_text_s / to_text_m', CE), ('as_string', CE)], [], ['as_string::as'])

prop('C12', 'CRC-32C is the bit-serial definition at every data width',
     "crc32 over bytes, 32-bit words and 64-bit words, and crc32c of a literal, compute exactly the bit-serial reflected CRC with polynomial 0x82f63b78 (initial and final inversion) of the "
     "little-endian byte sequence, so all widths agree and splitting a buffer at any point and continuing from the intermediate value gives the same result. Any other polynomial parameter gives that polynomial's CRC.",
     ['inputs'],
     'every buffer, length, split point and seed value',
     'A few compile-time examples exist (disabled by default); table entries and slicing order for other data are not covered.',
     [CE], [('crc32<T> for uint64_t/uint32_t/uint8_t', CE), ('detail::crc32_table', CE)], [], ['returned value'])

prop('C13', 'FNV-1a hashes follow the published recurrence',
     "fnv1a32/fnv1a64 over arrays of 1-, 2-, 4- or 8-byte integers and fnv1a of a string fold every byte exactly once, low byte first and in array order, as h = (h xor byte) * prime with the "
     "published 32/64-bit prime and offset basis (or the caller's basis), and read nothing outside the given elements (or the terminator).",
     ['inputs'], 'every buffer, element width, length and basis', 'Only one literal is ever checked, and only when an optional macro is defined.',
     [CE], [('hash::fnv1a', CE)], [], ['returned value'])

prop('C14', 'Random generators follow their published recurrences',
     "xoroshiro64**, xoroshiro128++ and the 64-bit-state PCG-XSH-RR generator advance their state and compute their output exactly by the published recurrences (constants, rotation amounts, operand order, output from the old state); "
     "next32/next64 are built from whole steps, and seeding is a pure function of the seed bytes (or seed value) that is the documented hash of the data.",
     ['inputs', 'histories'], 'every state and seed', 'The tests compare a few outputs for one seed (and do not check state transitions for others).',
     [CE], [('random::xoroshiro64ss / xoroshiro128pp / pcg32_64_t', CE)], [], ['state and output'])

prop('C15', 'Ranged random numbers are below n, and the unbiased one rejects',
     "next_ranged(g,n) and next_unbiased(g,n) return a value in [0,n) for every n > 0, derived by multiply-high from one generator output and advancing the generator by exactly the outputs they consumed. "
     "next_unbiased accepts an output r exactly when the low 32 bits of n*r are at least 2^32 mod n, so that each result is produced by the same number of 32-bit outputs.",
     ['inputs', 'histories'], 'every n in [1,2^32) and every generator state', 'No test calls these functions; bias cannot be seen by sampling small n.',
     [CE], [('next_ranged / next_unbiased', CE)], [], ['returned value', 'generator state'])

prop('C16', 'base64 sizes and decodes exactly',
     "size(n) is floor(3n/4) without overflow for every n, size(text) counts exactly the leading base64 alphabet characters, and decode writes exactly the requested bytes, each assembled from the six-bit values of the "
     "right two characters of the standard alphabet, reading only the characters those bytes need. The character classification predicates accept exactly their sets for every char value.",
     ['inputs'], 'every text, size and char value (including negative chars)', 'No test decodes base64.',
     [CE], [('base64::size/decode', CE), ('ascii::is_*', CE)], [], ['decoded bytes'])

prop('C17', 'lziii size and decode walk the stream identically',
     "On any stream, size() and decode() consume the same control, literal and span bytes and agree on the number of decoded bytes per token (1 for a literal, high nibble of the second span byte + 3 for a span); "
     "a literal writes its byte, a span copies byte by byte from offset low-nibble*256 + first byte - 4096 relative to the write position, so overlapping copies repeat. A control byte is fetched exactly once per eight tokens, low bit first.",
     ['inputs'], 'every encoded stream', 'The lziii test has no assertions on decoding.',
     ['lib/h/ce/lziii.h'], [('lziii::size / lziii::decode', 'lib/h/ce/lziii.h')], [], ['size', 'decoded bytes'])

prop('C18', 'z-order encoding interleaves exactly and its box test is exact',
     "z_encode maps (x,y) to the 64-bit interleave of the bits of x and y offset by 2^31 (x in the even, y in the odd bits), so it is a bijection that is monotone in each coordinate; "
     "z_inside(lo,hi,z) holds exactly when both coordinates of z lie between those of lo and hi inclusive; z_split cuts a box at the highest bit in which its corners differ: jo is hi with that bit cleared and the lower bits of the same coordinate set, ji is lo with that bit set and the lower bits of the same coordinate cleared (both without their low 16 bits), and it reports whether more than 2^16 codes lie between them.",
     ['inputs'], 'all 2^64 coordinate pairs and boxes', 'The zorder test asserts nothing.',
     ['lib/h/ce/zorder.h'], [('z_expand / z_encode / z_inside / z_split', 'lib/h/ce/zorder.h')], [], ['returned values'])

prop('C19', 'z-order queries stay inside their memory and inside the data',
     "z_query on any ascending data and any box lo <= hi reads only elements of the data, writes only the result entries it counts (one per returned element, never more than there are data elements, each copied from the data), and never leaves "
     "its internal work stack, whatever the nesting depth of box splits.",
     ['inputs'], 'every sorted data set and box', 'The zorder test runs random boxes and checks nothing; deep split nests need special boxes.',
     ['lib/h/ce/zorder.h'], [('spans work stack, z_split depth bound', 'lib/h/ce/zorder.h')], [], ['memory accesses'])

prop('C20', 'Geometric predicates widen before multiplying and are consistent',
     "sqrx, dotx, crossx, inside, ab_less_cd and the in_range/ball_hits predicates on 32-bit coordinates of magnitude up to 2^29 compute their products and sums in 64 bits (128 bits for ab_less_cd) with no intermediate overflow, and equal the exact mathematical expression. "
     "inside(a,b) is antisymmetric and total: for a != b exactly one of inside(a,b) and inside(b,a) holds, and inside(a,a) is false; off ties it is exactly a x b < 0.",
     ['inputs'], 'all coordinate pairs in range, ties included', 'The tests try a few vectors.',
     [CE, 'lib/h/ce/math.h'], [('dotx/sqrx/crossx', CE), ('inside, ab_less_cd, in_range_rr*', 'lib/h/ce/math.h')], [], ['returned values'])

prop('C21', 'clock never drifts: elapsed ticks plus residual equal elapsed time exactly',
     "Each elapsed() call converts the time since the previous call to ticks with no rounding loss: ticks*frequency*Fd + new residual = elapsed*Fn + old residual, with the residual always in [0, frequency*Fd); "
     "the tick counter grows by exactly the returned ticks, the reference timestamp becomes the one just read, current() returns that counter, and reset() starts from zero ticks and zero residual.",
     ['inputs', 'histories'], 'every sequence of timestamps and every frequency (absent 64-bit overflow of the scaled remainder)', 'The one timing test runs half a second of wall clock and is excluded as flaky.',
     ['lib/h/ce/clock.h'], [('clock::elapsed/current/reset', 'lib/h/ce/clock.h')], [], ['returned ticks', 'residual'])

prop('C22', 'Atomic operations are single sequentially consistent operations',
     "Every atomic operation on an atomic<T> performs its documented effect as exactly one indivisible, sequentially consistent access of that object (add/sub on types without native support by a compare-exchange loop that retries on the freshly observed value), returns the prior value, and touches nothing else. "
     "compare_exchange stores only on equality, reports success exactly then, and otherwise writes the observed value to `expected`; a new atomic holds the value given, or a zero T when none is, and atomics cannot be copied or moved.",
     ['schedules', 'inputs'], 'every interleaving with other threads, every T supported', 'The atomic test is single threaded.',
     ['lib/h/ce/atomic_std.h', 'lib/h/ce/atomic.h'], [('atomic_load/store/exchange/compare_exchange/fetch_*', 'lib/h/ce/atomic_std.h')], [], ['memory operations on the object'])

prop('C23', 'Each mutex operation is exactly the matching lock operation on its own mutex',
     "acquire, try_acquire and release (exclusive and shared) on a thread_mutex or thread_shared_mutex perform exactly one corresponding lock operation of the corresponding mode on that very mutex object on every path; try variants never block and report exactly whether the lock was obtained; construct and "
     "destroy begin and end that object's lifetime exactly once.",
     ['schedules'], 'every schedule of threads using the locks', 'The mutex tests are single threaded and never check exclusion or the try result under contention.',
     ['lib/mutex_std.cpp', 'lib/h/ce/mutex.h'], [('reinterpret_cast to std::mutex/std::shared_mutex and forward', 'lib/mutex_std.cpp')], [], ['calls to the lock implementation'])

prop('C24', 'Assertion macros evaluate once, report exactly on failure, and yield the test',
     "CE_VERIFY, CE_REJECT and CE_ASSERT evaluate their condition exactly once and, where they have a value, yield exactly its truth; the log hook and then the error hook run exactly once each when the condition is false (for CE_REJECT: when it is true) and not at all otherwise, with the condition text, location and each extra argument in order, and the debugger trap "
     "executes exactly when the error hook returns true. With the error level set to 0 the condition is still evaluated once and yielded, and nothing is reported; the default hook asks for a break exactly at level 0, reads only the entries it is given, and prints the location, the condition and the text of every extra argument once and in order.",
     ['configurations', 'inputs'], 'every condition, argument list, hook result and error level configuration', 'A failing assertion is never exercised by a test (it would trap).',
     [CE, 'lib/os.cpp'], [('CE_AFFIRM/_CE_ERROR/call_error_hook', CE), ('os::error', 'lib/os.cpp')], [], ['hook calls', 'value'])

prop('C25', 'Logging reports every argument once, in order, and respects the level',
     "CE_LOG calls the log hook exactly once with the macro's level, the argument count, and one (name, text) pair per argument in order after the level entry, terminated by a null pair; CE_LOG_MSG passes the concatenated message; with logging disabled the hook is not called and the arguments are not evaluated. "
     "The default log hook reads exactly the given entries, prints every one in order as L: { \"name\": \"text\", ... }, and never indexes outside its level table for any level value.",
     ['configurations', 'inputs'], 'every level, argument list and configuration', 'The tests log a few lines and check no output.',
     [CE, 'lib/os.cpp'], [('CE_LOG_EX/call_log_hook', CE), ('os::log', 'lib/os.cpp')], [], ['hook calls', 'debug output calls'])

prop('C26', 'Reflection visits every member once, in order, with balanced events',
     "Walking a reflected object emits properly nested enter/leave events: an array or container emits enter, exactly its items in index order, and leave with the same size; a class emits enter, then for each bound member in declaration order its name followed by its value, then leave. "
     "A container's size may be set by the enter hook and the walk then covers exactly that many items; nothing outside the object is touched.",
     ['inputs', 'programs'], 'every nesting of arrays, lists, vectors and bound classes, every size', 'The io test prints one structure without checking the event sequence.',
     ['lib/h/ce/io.h'], [('io::item/items, reflection<T>', 'lib/h/ce/io.h')], [], ['visitor callbacks'])

prop('C27', 'nameof and as_enum agree for every enumerator value in [0,256)',
     "For any enum, nameof(v) is the enumerator's unqualified identifier for each named value in [0,256) and \"???\" for every other value, including negative and large ones; as_enum(text) returns the value whose identifier equals the text exactly (no prefixes, no extensions) "
     "and the given default otherwise, reading no further than the text's terminator. nameof<T>() is the name of a class or enumeration type, spelled without its class-key.",
     ['inputs', 'programs'], 'every enum, value and text', 'The test names a few enumerators.',
     ['lib/h/ce/nameof.h'], [('nameof_enum/as_enum binary split over [0,256)', 'lib/h/ce/nameof.h')], [], ['returned strings and values'])

prop('C28', 'bitset: each index names its own bit and nothing else changes',
     "set, reset and set-to-value of an index < N change exactly the bit that operator[] reads for that index and no other bit, set() and reset() change all N bits, and no operation touches storage outside the object; asserts fire exactly for index >= N.",
     ['inputs', 'histories'], 'every N, index and prior content', 'No test uses bitset.',
     [CE], [('bitset byte/bit addressing', CE)], [], ['operator[]'])

prop('C29', 'cdt: a constrained edge is never flipped away',
     "No operation of the triangulation ever flips an edge that is marked constrained; marking an edge constrained marks both of its sides, and inserting a point on a constrained edge leaves all resulting pieces constrained on both sides, while points inserted in faces create only unconstrained new edges.",
     ['inputs', 'histories'], 'every mesh state and every sequence of point and edge insertions', 'The cdt test inserts fixed data and checks only one location query.',
     ['lib/h/ce/cdt.h'], [('flip/try_flip/can_flip guards', 'lib/h/ce/cdt.h'), ('constrain_edge, insert_point_at_node flag inheritance', 'lib/h/ce/cdt.h')], [('es[].c', 'constrained flag per half edge', 'lib/h/ce/cdt.h')], ['edges()'])

prop('C30', 'cdt: twins stay reciprocal and faces stay consistent through every update',
     "After every flip and every point insertion each interior half edge's twin's twin is itself, twins carry the same constrained flag, twins share the same two end points, and the faces created or changed have exactly the corner points that the flip or split requires; edges and faces not involved are unchanged. The faces a split makes inherit the data of the face that was split, a flip keeps the data of both faces, marking an edge and filling change no link, and reset leaves two proper faces spanning the whole 16-bit grid.",
     ['inputs', 'histories'], 'every mesh state satisfying the same invariants, every edge, face position and capacity', 'No test inspects the mesh topology.',
     ['lib/h/ce/cdt.h'], [('do_flip', 'lib/h/ce/cdt.h'), ('insert_point_at_node', 'lib/h/ce/cdt.h')], [('es[].e, es[].p', 'twin link and opposite corner', 'lib/h/ce/cdt.h')], ['operator[](edge_id_t/face_id_t)'])

prop('C31', 'cdt: capacity is respected and traversals stay inside the mesh',
     "Point insertion at capacity is refused without changing the mesh; every insertion writes only the new vertex's own slots and existing mesh slots; insert_point refuses only outside the mesh, at capacity or on the border; points are rounded down to even positions of the scaled grid; the edge and face views visit exactly the real edges and faces of the mesh (never the reserved leading ones), report their end points, neighbours, flags and data, and end; and fill never overruns its internal work stack however large the region.",
     ['inputs', 'histories'], 'every mesh size up to capacity, every region shape', 'The test mesh is tiny; capacity and deep fills are never reached.',
     ['lib/h/ce/cdt.h'], [('insert_point_at_node capacity check', 'lib/h/ce/cdt.h'), ('fill_ex q[256] bound', 'lib/h/ce/cdt.h'), ('edge_view/face_view', 'lib/h/ce/cdt.h')], [], ['return values', 'memory'])

prop('C37', 'cdt: faces stay proper clockwise and every changed edge is tested for Delaunay',
     "Inserting a point splits a face in three or the two faces at an edge in four, each a proper clockwise triangle, and then every edge opposite the new vertex is put to the in-circle test; a flip happens exactly when the edge is unconstrained and the vertex across it is strictly inside the circle of the face, and then the four edges around are tested again. "
     "The in-circle test is exact (the sign of the full determinant, with no overflow) for all 16-bit coordinates. A trial flip (try_flip) happens exactly when the edge is unconstrained and the two faces form a strictly convex quadrangle.",
     ['inputs', 'histories'], 'every mesh state, edge and position', 'The cdt test checks one location query; predicates are exact or not for every coordinate, not for a sample.',
     ['lib/h/ce/cdt.h'], [('incircle, flip, do_flip, can_flip', 'lib/h/ce/cdt.h'), ('insert_point_at_node', 'lib/h/ce/cdt.h')], [], ['operator[](face_id_t)', 'return values'])

prop('C38', 'cdt: located faces contain the point; segments and fills are complete',
     "A face returned by locate or found for an insertion contains the given point (on its border at most), from any hint. insert_edge reports success only when the whole segment from p to q is covered by a chain of constrained edges that begins at p and ends at q, each marked along the line to the end point or to a rounded crossing point with an edge that could not be flipped away (a constraint, or an edge of a quadrangle that is not convex). "
     "fill gives its value to the face given and to exactly the faces reached from it across unconstrained edges by way of faces that did not have the value, changes nothing else, and is a no-op for nil.",
     ['inputs', 'histories'], 'every mesh, point, hint, segment and region', 'One query is tested; no test fills or inspects inserted segments.',
     ['lib/h/ce/cdt.h'], [('locate, locate_insertion_node', 'lib/h/ce/cdt.h'), ('insert_edge, split_constraint', 'lib/h/ce/cdt.h'), ('fill, fill_ex', 'lib/h/ce/cdt.h')], [], ['return values', 'edges()', 'face data'])

prop('C39', 'Vector operators are componentwise and winding numbers are exact',
     "For vectors of two and three components + - * / and their assignment forms act on each component (the assignment forms change and return their left operand, also when the right operand is that vector or one of its components), == holds exactly when every component agrees and != is its negation, also against a scalar; muldiv with 32-bit operands is the truncated exact quotient b*n/d per component; intersect reports no intersection exactly for parallel lines (and then gives the first point); "
     "an rgba read as an array gives r, g, b, a in order; in_polygon is the winding number of the polygon around the point: one edge at a time, +1 or -1 for each edge that changes sides of the point's horizontal and passes strictly on the counted side, 0 for no points, reading only the n points given.",
     ['inputs'], 'every component value, every point count and polygon', 'No test calls them; the winding number depends on every edge of arbitrary polygons.',
     [CE, 'lib/h/ce/math.h'], [('vec operators, in_polygon_xy', CE), ('muldiv, intersect', 'lib/h/ce/math.h')], [], ['return values'])

prop('C47', 'The text of a value that is not a number has exactly its documented form',
     "to_text writes a char as itself, a bool as #<T> or #<F>, an enum as #<enum N> with the number of its underlying type, nullptr and null pointers (C strings included) as #<nil>, any other pointer as #<ptr N>, a C string or char array as its characters up to the terminator or the end of the array, arrays and vectors as their elements in order between [ and ] separated by a comma and a space, an unknown type as #<ref N> with its address, and several values one after the other; the pointer returned is the end of what was written and nothing after it is touched.",
     ['inputs'], 'every value of every kind in the harness; arrays and vectors of the harness sizes, C strings up to six characters', 'The tests log some numbers and literals and compare no text of pointers, enums, arrays or vectors.',
     [CE], [('to_text, to_text_p, to_text_s, to_text_n', CE)], [], ['text written', 'pointer returned'])

prop('C32', 'The library never allocates and keeps no mutable global state',
     "No function of the library calls a heap allocator or deallocator, throws, or reads or writes mutable static storage, so it is usable before main, from any thread, and with no heap; ce.h itself includes nothing.",
     ['programs', 'schedules'], 'every function and template of the library', 'Tests cannot see an allocation or hidden static that happens on an unexercised path.',
     [CE, 'lib'], [('placement new through a private tag type', CE)], [], ['call graph', 'globals'])

prop('C33', 'Geometry and triangulation are bit-exact integer computations',
     "The triangulation, z-order, ranged predicates, CORDIC rotation and angle conversion use only integer arithmetic at run time, so the same inputs give bit-identical results on every platform and build; none of them depends on addresses, time, or uninitialised memory.",
     ['configurations', 'inputs'], 'every input and platform', 'A test run on one platform cannot show platform independence.',
     ['lib/h/ce/cdt.h', 'lib/h/ce/math.h', 'lib/h/ce/zorder.h'], [('integer-only arithmetic', 'lib/h/ce/cdt.h')], [], ['results'])

prop('C34', 'Compile-time facilities mean what they say for every argument',
     "sequence_t<T,N> is exactly items<T,0,1,...,N-1>, CE_COUNTOF and CE_COUNTOF_ARGS give exact counts (CE_COUNTOF rejects pointers), the type traits and pack utilities give the answers their names state, get<I> returns member I of a tuple, and every public member of the public templates can be instantiated for a type meeting its needs.",
     ['programs'], 'every type and constant argument', 'Templates are only checked for the arguments the tests happen to use; members never called are never even compiled.',
     [CE], [('sequence, types, items, has, are_same, remove_*, tuple/get', CE)], [], ['compilation'])

prop('C35', 'span skip and trim keep a valid sub-range',
     "skip(s,n) and trim(s,n) return exactly the last / first size-n elements of s when n < size and an empty span inside s otherwise, for every n; begin/end delimit exactly those elements, and bulk's make_span covers exactly its live items.",
     ['inputs'], 'every size and n up to SIZE_MAX', 'No test calls skip or trim.',
     [CE], [('span::skip/trim', CE)], [], ['returned span'])

prop('C36', 'OS layer: valid requests to the system and honest failure reports',
     "sleep_ns passes the system a normalised time (0 <= nanoseconds < 10^9) that is exactly the requested duration; the monotonic timestamp is seconds*10^9+nanoseconds of the raw monotonic clock in units of the reported frequency, and debug_out writes exactly the text's bytes once and ignores null. "
     "map_span reports failure exactly when it leaves an empty span and unmap_span always leaves one, so a false result never comes with a stale pointer or size.",
     ['inputs', 'fault_sequences'], 'every duration, clock value and failure of the system calls', 'Tests call the timestamp once or twice.',
     ['lib/os_posix.cpp'], [('sleep_ns, monotonic_timestamp, map_span', 'lib/os_posix.cpp')], [], ['arguments of system calls', 'returned values'])

# ---- properties this family does not decide here -------------------------------------------------
prop('C40', 'The triangulation is Delaunay away from constraints and a valid partition',
     "After any sequence of insertions the triangles tile the domain without overlap, every constrained segment inserted is covered by constrained edges, and every unconstrained edge satisfies the Delaunay condition.",
     ['histories'], 'every insertion history', 'The cdt test checks one location query.',
     ['lib/h/ce/cdt.h'], [('incircle/flip/insert_edge', 'lib/h/ce/cdt.h')])
prop('C41', 'locate returns the one triangle containing the point',
     "locate returns the unique face that contains the query point (with the tie-breaking rule on edges and vertices), from any hint, and always terminates.",
     ['inputs'], 'every mesh, point and hint', 'One query is tested.',
     ['lib/h/ce/cdt.h'], [('locate walk', 'lib/h/ce/cdt.h')])
prop('C42', 'CORDIC, isqrt and hypot are accurate to their documented precision',
     "CORDIC rotation and vectoring, isqrt and hypot return the mathematically exact value rounded to within one unit for all inputs in range.",
     ['inputs'], 'all inputs', 'Sampled angles only.',
     ['lib/h/ce/math.h'], [('cordic_n', 'lib/h/ce/math.h')])
prop('C43', 'z_query returns every point in the box',
     "For ascending data, z_query returns every data element whose coordinates lie in the box (at the query's resolution).",
     ['inputs'], 'every data set and box', 'No assertion in the test.',
     ['lib/h/ce/zorder.h'], [('z_query', 'lib/h/ce/zorder.h')])
prop('C44', 'Floating-point to text round-trips',
     "to_text of a float or double yields text that reads back as the same value.",
     ['inputs'], 'every float and double', 'Not tested.',
     ['lib/to_text.cpp'], [('std::to_chars', 'lib/to_text.cpp')])
prop('C45', 'Sorted output is in ascending order',
     "After intro_sort or insertion_sort with a strict weak order, no element is less than its predecessor.",
     ['inputs'], 'every input', 'A few arrays.',
     ['lib/h/ce/sort.h'], [('insertion_sort/partition', 'lib/h/ce/sort.h')])
prop('C46', 'dequeue always returns a minimum',
     "Dequeue returns an item that no other queued item is less than.",
     ['histories'], 'every history of enqueue and dequeue', 'No test uses the queue.',
     [CE], [('heap_raise/heap_lower', CE)])

NA = {
    'C40': 'Planarity and the Delaunay condition are global geometric facts about runtime coordinates (sign of a degree-4 determinant over an unbounded mesh); no abstraction in reach bounds them. The structural clauses (constraint guard, twin reciprocity, topology of each update) are claimed as C29, C30, C31, C37 and C38.',
    'C41': 'That a located face contains the point is claimed in C38; uniqueness and termination need global planarity of the mesh and a geometric progress argument for the walk over runtime coordinates.',
    'C42': 'Numerical accuracy of 32 data-dependent rounding steps and of hardware square roots: a runtime-value bound outside any sound static argument we could build; only integer-only determinism (C33) is claimed.',
    'C43': 'Completeness of the skip logic relies on the geometry of arbitrary Morton ranges at reduced resolution; only memory safety and provenance (C19) are claimed.',
    'C44': 'Delegated to std::to_chars of the C++ runtime, which is not source in this repository.',
    'C45': 'Sortedness and permutation (C08 covers the permutation) need an invariant over all pairs of elements under an opaque strict order at every partition step; the relational domain tracks positions of items, not the order relation between arbitrary elements, so ordering of the result is not decided.',
    'C46': 'The heap minimum rests on a quantified invariant (every node no smaller than its parent) across path-dependent swaps; the abstract domain tracks item positions (C07), not comparisons between all pairs of nodes.',
}
