#!/usr/bin/env python3
"""Writes properties.jsonl. One P(...) per property."""
import json, os
OUT = []
def P(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = observe or ['return values and contents visible through the public API', 'heap (AddressSanitizer)']
    a['hook_needed'] = hook
    OUT.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
L = 'src/libzt/'
P('C01', 'Hash table is a faithful map for every operation history',
  'After any sequence of set, get and delete, a lookup returns exactly the datum most recently stored under an equal key and not since deleted, and NULL with ENOENT otherwise; setting an existing key is refused with 1 unless duplicates were allowed, in which case the newest duplicate shadows older ones until it is deleted. Iteration visits every entry exactly once, stops at and returns the first non-zero callback result, and tolerates deletion of the visited entry; copying transfers every entry without replacing what is there. This holds for every size hint, flag combination, hash function (colliding and 64-bit ones included) and key type, without touching memory outside the table, and destroying the table releases everything.',
  ['histories', 'inputs', 'configurations'], 'all set/delete sequences up to a depth over a few keys x hash functions x key types x size hints x flags; all boundary hash values x large hints',
  'The test fills two tables once and never deletes, collides, or varies hints and flags.',
  [L+'zt_table.c', L+'zt_table.h', L+'zt_hash.h'], [('chained buckets indexed by masked hash', L+'zt_table.c:zt_table_set/get/del'), ('bucket sizing from hint', L+'zt_table.c:zt_table_init')])
P('C02', 'Set operations compute exact set algebra',
  'Union, intersection and difference add to the result set exactly the elements mathematics says, whatever the result set already holds, and leave both operands unchanged; subset, equality and membership answer exactly. Insert returns 1 and changes nothing for an element equal to a member; removing a member (as inserted) returns 0 and removes exactly it, removing a non-member reports failure and changes nothing, and the length always equals the number of members. Destroy runs the destructor once per remaining member and releases everything.',
  ['inputs', 'histories'], 'all pairs of subsets A,B and initial result sets R over a small universe x element kinds; all insert/remove histories up to a depth',
  'The tests combine one pair of sets into an empty result and never remove.',
  [L+'zt_set.c', L+'zt_set.h'], [('per-element callbacks over the backing table', L+'zt_set.c'), ('length counter', L+'zt_set.c:zt_set_insert/remove')])
P('C03', 'Ordered tree stays sorted, balanced and complete under any history',
  'After any sequence of insertions and removals the tree holds exactly the inserted and not yet removed nodes, in-order traversal yields them in strictly increasing order, find returns the node with an equal key or NULL, nearest-find, minimum, maximum and successor agree with the order, and a duplicate insertion returns the node already present and changes nothing. The tree is a valid red-black tree at every step: black root, no red node with a red child, equal black height on every path, consistent parent links. Removing visited nodes during safe iteration visits every node exactly once.',
  ['histories'], 'every permutation of insertions of up to N distinct keys followed by every removal order, and all mixed insert/remove histories up to a depth',
  'The test inserts ten values in one random order and removes two; rebalancing cases depend on the whole history.',
  [L+'zt_tree.c', L+'zt_tree.h'], [('insert fixup / rotations', L+'zt_tree.c:zt_rbt_insert'), ('delete fixup', L+'zt_tree.c:zt_rbt_remove')])
P('C04', 'Intrusive list, stack and queue keep exact order and links',
  'For any sequence of insertions at either end, removals, resets and joins (empty lists included), forward iteration yields exactly the expected elements in order, backward iteration yields the reverse, and a removed element is no longer reachable from the list and can be inserted again. A stack returns elements in LIFO order and a queue in FIFO order, peek on a non-empty container shows the element the next pop or dequeue returns, and the emptiness test is exact; popping or dequeuing an empty container never corrupts it.',
  ['histories'], 'all operation sequences up to a depth over two lists and a few elements',
  'Tests push ten elements and pop them; no joins, replacements, mid-list removals or operations on empty containers.',
  [L+'zt_list.h', L+'zt_stack.h', L+'zt_queue.h'], [('circular doubly linked list primitives', L+'zt_list.h')])
P('C05', 'Cons-list operations preserve content and order',
  'Building, indexing (nth, nth tail), pushing, popping, reversing (in place and copying), splitting, merging and sorting cons lists of any length (zero included) yields exactly the list the operation denotes; reverse is an involution, merge and sort yield an ordered permutation of their input for any "greater than" comparison. Freeing releases every cell exactly once.',
  ['inputs'], 'every list over a small alphabet up to a length x every operation and index',
  'The only test reverses a two-element list.',
  [L+'zt_llist.h', L+'zt_llist.c'], [('recursive/iterative cell walks', L+'zt_llist.h')])
P('C06', 'Fixed-element array: bounds, contents and copies',
  'An array of n elements of any size returns from get exactly what the last put or set at that index stored, resizing preserves the common prefix and adopts the new length, shortening the length keeps the remaining elements, a copy of any length holds the common prefix and shares no storage with the original, and length and element size report what was requested. No operation touches memory outside the array or leaks, including resizing to zero and replacing the data.',
  ['histories', 'inputs'], 'all operation sequences up to a depth x element sizes x lengths (zero included)',
  'Tests put, get, grow and copy one int array once.',
  [L+'zt_array.c', L+'zt_array.h'], [('flat storage, length, element size', L+'zt_array.c')])
P('C07', 'Byte stream reads back exactly what was written',
  'Any sequence of typed writes (raw items, 8/16/32/64-bit integers, float, double) followed by a rewind and the same sequence of typed reads returns the same values, with or without endian flipping and on clones; flipping stores every multi-byte item byte-reversed, item by item. Reads never go past what was written, rewind returns to the start, truncating drops the content but keeps the position (a later write fills the gap with zeros), emptiness is exact, and clones are independent of the original.',
  ['histories', 'inputs'], 'all sequences up to a depth of typed writes, reads, seeks, truncations and appends x endianness, boundary values',
  'One fixed sequence is tested, and endian flipping only for single bytes.',
  [L+'zt_bstream.c', L+'zt_bstream.h'], [('cursor and growing buffer', L+'zt_bstream.c'), ('_copy_data endian swap', L+'zt_bstream.c')])
P('C08', 'Growable buffer is an exact FIFO of bytes',
  'After any sequence of adds, vector adds, drains, expansions and resets, the buffer holds exactly the bytes added and not yet drained, in order, and its reported length is their count; a negative or oversized drain empties it. No operation reads or writes outside the allocated storage, and freeing the buffer releases it.',
  ['histories', 'inputs'], 'all sequences up to a depth of add(size)/drain(size)/iov/expand/reset with boundary sizes around the growth thresholds',
  'The tests add and drain a handful of bytes, far below the first reallocation, and never add after a drain.',
  [L+'zt_buf.c', L+'zt_buf.h'], [('top/buf/len/max bookkeeping', L+'zt_buf.c')])
P('C09', 'Pointer array: order, removal and bounds',
  'After any sequence of add, delete, move and get operations a pointer array holds exactly the expected multiset of pointers, its count is exact, valid indices return the stored pointer and every other index returns NULL or an error without touching memory. Deleting an element removes every occurrence it claims to and reports whether it did, growth preserves all elements, and freeing with a callback visits each element once.',
  ['histories'], 'all operation sequences up to a depth over a few pointers and indices, crossing the growth threshold',
  'The array is only exercised indirectly by string splitting: adds and reads.',
  [L+'zt_ptr_array.c', L+'zt_ptr_array.h'], [('array of pointers with count and size', L+'zt_ptr_array.c')])
P('C10', 'Memory pools never hand out overlapping or lost elements',
  'For any sequence of allocations and releases every live element of a pool is distinct, non-overlapping, of the full element size and keeps its contents until released; released elements are reused and pages are only returned when none of their elements is live. The statistics are always exact: pages = page allocations - page frees, free pages counts exactly the pages with no live element. A pool with live elements refuses to be destroyed, otherwise destruction releases all memory, and named lookup finds exactly the live pools. When memory runs out at any point the operation returns NULL and leaves the pool consistent.',
  ['histories', 'configurations'], 'all alloc/release/release-free-pages/destroy histories up to a depth x element counts, sizes and release policies',
  'There is no memory pool test at all.',
  [L+'zt_mem.c', L+'zt_mem.h'], [('free-element list and per-page counters', L+'zt_mem.c:zt_mem_pool_alloc/release'), ('release test callback', L+'zt_mem.c')])
P('C11', 'Pool groups serve every size from a fitting pool',
  'A pool group serves each request from the pool with the smallest element size that fits, whatever order the pools were described in (by count or terminated by a descriptor without a name), and reports failure when none fits; elements of different pools never overlap, and release returns an element to the pool it came from. Destroying a group reports failure if and only if elements are still live, and a group that cannot be created leaves nothing behind. Heaps return a data area of the requested size that stays intact until destroyed.',
  ['histories', 'configurations'], 'all descriptor orders x all alloc/release histories up to a depth x request sizes',
  'No test touches pool groups or heaps.',
  [L+'zt_mem.c', L+'zt_mem.h'], [('size search over pools', L+'zt_mem.c:zt_mem_pool_group_alloc')])
P('C12', 'Hierarchical allocations are freed exactly once',
  'For any sequence of allocations, sub-allocations, duplications and destroys in an easy memory pool hierarchy, every live allocation is distinct and writable over its full size, destroying a pool frees it and everything below it exactly once, and leaves parents and siblings intact. After all roots are destroyed nothing remains allocated.',
  ['histories'], 'all histories up to a depth of create/sub-create/allocate/destroy in a pool tree',
  'There is no test for this allocator.',
  [L+'zt_ez_mempool.c', L+'zt_ez_mempool.h'], [('pool tree links', L+'zt_ez_mempool.c')])
P('C13', 'Garbage collector never frees a reachable object',
  'An object that is protected, or reachable from a protected object through references the mark callback reports, is never released by any incremental or full collection, provided the mutator registers and links objects as documented (each new object is made reachable before the next registration; stores are announced with a mark). This holds for every interleaving of mutator steps and collection increments, including protecting and unprotecting in the middle of a scan.',
  ['histories', 'schedules'], 'all mutator histories up to a depth (register, link, unlink, protect, unprotect, collect, disable/enable) x marks-per-scan and allocs-before-scan settings',
  'The test runs one history with full collections only; incremental scans interleave with the mutator in ways no fixed test covers.',
  [L+'zt_gc.c', L+'zt_gc.h'], [('tricolour lists and scan pointer', L+'zt_gc.c:zt_gc_scan'), ('root protection', L+'zt_gc.c:zt_gc_protect/unprotect')])
P('C14', 'Garbage collector releases every garbage object exactly once',
  'Whatever the history, once an object is unreachable a bounded number of full collections (three: the first may only finish a scan in progress) releases it, no object is ever released twice, and destroying the collector releases every object it still manages exactly once together with its own memory. While collection is disabled nothing is released.',
  ['histories'], 'all mutator histories up to a depth followed by full collections and destruction',
  'The test checks release counts along a single history.',
  [L+'zt_gc.c', L+'zt_gc.h'], [('white list release after scan', L+'zt_gc.c:release/scan'), ('zt_gc_destroy', L+'zt_gc.c')])
P('C15', 'Base-N encoding is exact and decoding inverts it',
  'Encoding any byte string in base 16, 32, 32hex, 64 or 64url produces exactly the RFC 4648 text (padding included unless suppressed), reports its exact length (allocated text is NUL-terminated as well), and decoding that text returns the original bytes, with or without padding. A size-only query reports a size sufficient for the operation, and supplying exactly the needed output space succeeds.',
  ['inputs', 'configurations'], 'all byte strings up to a length over a boundary alphabet, all 1- and 2-byte strings completely, every alphabet x flags',
  'Tests use the RFC vectors and one block.',
  [L+'zt_base.c', L+'zt_base.h'], [('bit-group conversion tables', L+'zt_base.c:zt_base_encode/decode')])
P('C16', 'Malformed or undersized base-N decoding is rejected safely',
  'For every input text the decoder, ignoring blanks, tabs, carriage returns, newlines and the padding character wherever they stand, either accepts it exactly when the remaining characters all belong to the alphabet and their number is possible for an encoding, yielding exactly the bytes they denote, or returns an error; it never reads outside the input and never writes outside the announced output size. A too small output buffer is reported as such together with the size needed, and nothing is written.',
  ['inputs', 'configurations'], 'all texts up to a length over an alphabet of valid, padding, invalid and high-bit characters x every output buffer size x alphabets',
  'Only a few malformed inputs are tested and never with tight buffers.',
  [L+'zt_base.c'], [('input validation and output bound', L+'zt_base.c:zt_base_decode')])
P('C17', 'String slicing, joining and mapping are exact for every index',
  'For every string (empty included) and every pair of slice positions, negative positions counting from the end, positions outside the string clamped to it, in either order, substring, duplicate, concatenation (of two or of many), reverse and character mapping return a fresh NUL-terminated string equal to the selected slice transformed accordingly; length and position queries agree with the slice. Mapping changes exactly the listed characters for all 255 byte values.',
  ['inputs'], 'all strings up to a length over a small alphabet (with high bytes) x all index pairs',
  'Tests use a few literal strings and positions.',
  [L+'zt_cstr.c', L+'zt_cstr.h'], [('IDXLEN/CONVERT slice normalisation', L+'zt_cstr.c')])
P('C18', 'String search and comparison agree with their definition',
  'For every string, slice and pattern: find/rfind return the first/last position at which the (non-empty) pattern occurs completely inside the slice or -1; upto/rupto/any/rany return the first/last position of a member character or -1, and chr/rchr the first/last position of the character or 0; compare has the sign of a byte-wise lexicographic comparison of the slices with shorter prefixes first. No call reads outside its strings.',
  ['inputs'], 'all strings and patterns up to a length over a two/three letter alphabet x all index pairs',
  'Tests probe a single string with whole-string slices.',
  [L+'zt_cstr.c'], [('scan loops', L+'zt_cstr.c')])
P('C19', 'In-place trimming keeps exactly the right text',
  'For every string, chomp removes one trailing line terminator and nothing else; strip removes the leading blanks and tabs and the trailing blanks, tabs and newlines, keeping a single newline if the trailing run held one; both work in place and touch no memory outside the string. The trailing span function returns the length of the longest suffix made only of the given characters, its complement the position of the last of the given characters (or the length).',
  ['inputs'], 'all strings up to a length over letters, blanks, CR and LF x all small character sets',
  'One literal is tested.',
  [L+'zt_cstr.c'], [('zt_cstr_chomp/strip/rspn/rcspn', L+'zt_cstr.c')])
P('C20', 'Splitting, cutting and tokenising lose and invent nothing',
  'Splitting any string on any separator set yields exactly its maximal non-empty separator-free pieces in order; cutting yields exactly the suffixes starting at (keep) or after each occurrence of the delimiter, one at the very end excepted; tokenising yields the text (without one trailing delimiter) and its prefixes before each delimiter that is not its first character, from the longest to the shortest. The input is never modified and freeing the result releases everything.',
  ['inputs'], 'all strings up to a length over separators and letters x separator sets x keep flag',
  'One literal path is tested.',
  [L+'zt_cstr.c', L+'zt_ptr_array.c'], [('zt_cstr_split/cut/tok', L+'zt_cstr.c')])
P('C21', 'Integers and binary data convert to text and back exactly',
  'For every int the display length equals the length of its decimal text, and the integer-to-text routine writes that text at the offset, NUL-terminated, if and only if it fits in the buffer, else it fails writing nothing outside. Binary-to-hex followed by hex-to-binary is the identity, hex-to-binary accepts exactly even-length hexadecimal text and reports EINVAL otherwise, and both respect the given lengths.',
  ['inputs'], 'all ints in windows around every power of ten and the extremes x all offsets and buffer sizes; all hex texts up to a length x all output sizes',
  'Tests use comfortable buffers and a few values.',
  [L+'zt_cstr.c'], [('zt_cstr_itoa, zt_cstr_int_display_len', L+'zt_cstr.c'), ('zt_binary_to_hex/zt_hex_to_binary', L+'zt_cstr.c')])
P('C22', 'Path name helpers agree with POSIX path splitting',
  'For every non-empty path, base name and directory name equal what POSIX basename/dirname define, an exact suffix is removed from a base name only when it is a proper suffix, joining two paths puts exactly one separator between them, and the absolute-path test is exact (paths that start with "./" count as absolute). Results never exceed the given buffer and are NUL-terminated, truncated if necessary.',
  ['inputs'], 'all paths up to a length over separators, dots and letters x all buffer sizes x suffixes',
  'Tests check about ten fixed paths with PATH_MAX buffers.',
  [L+'zt_cstr.c', L+'zt_path.c'], [('zt_cstr_basename/dirname/path_append/abspath', L+'zt_cstr.c')])
P('C23', 'Formatted output equals C printf for the supported conversions',
  'For every combination of supported flags, width, precision and conversion (d, u, o, x, c, s, p, e, f, g) and every value, the formatter produces the text C printf produces, apart from its documented deviations (default precision, the # flag, pointers as plain hexadecimal, no effect of + and blank on unsigned conversions). Literal text and escaped percent and tilde characters pass through exactly.',
  ['inputs'], 'all format specifications from flags x widths x precisions x conversions x boundary values; all short format strings of literals and escapes',
  'A dozen literals are tested.',
  [L+'zt_format.c', L+'zt_format.h'], [('conversion table and padding', L+'zt_format.c:cvt_*, zt_fmt_puts/putd')])
P('C24', 'Formatter sinks deliver every character, count them, and stay in bounds',
  'The same format and arguments deliver the same characters to every sink (callback, stream, bounded buffer, allocated string); the bounded form never writes outside its buffer, always terminates it and returns the number of characters stored, the allocated form is exactly terminated, and every other form returns the number of characters produced. Registered conversions receive exactly the flags, width, precision and argument they should.',
  ['inputs', 'configurations'], 'all short formats x sinks x all buffer sizes around the output length',
  'Only large buffers are tested and return values are not checked.',
  [L+'zt_format.c'], [('insert/append sinks with growth', L+'zt_format.c')])
P('C25', 'Checked integer arithmetic: exact result or abort, never wrong',
  'For every pair of operands of every supported integer type, add, subtract, multiply and divide (where offered for the type) return the mathematically exact result when it is representable in the type, and abort with an assertion otherwise (division by zero included), in builds with assertions enabled. No representable result is refused.',
  ['inputs'], 'all 65536 operand pairs for the char types; all pairs of boundary values for wider types',
  'Tests check a few representable results and cannot check aborts.',
  [L+'zt_int.h', L+'zt_assert.h'], [('precondition assertions', L+'zt_int.h')])
P('C26', 'IPv4 network table finds a stored network containing the query exactly when one exists',
  'After any sequence of insertions, searching an address or network returns a stored network containing the whole query if and only if one exists; the default route (0.0.0.0/0) matches everything once stored. Dotted-quad texts with an optional prefix length (more than 32 counts as 32) parse to exactly their network and broadcast addresses, and other text is either a legacy inet_aton form or rejected, without reading outside it. Several tables can coexist independently, and destroying a table releases everything it holds.',
  ['histories', 'inputs'], 'all sequences of up to k insertions from a set of nested/adjacent networks of all prefix lengths x all queries; all short address texts',
  'The ipv4 suite is not even registered with the test runner.',
  [L+'zt_ipv4_tbl.c', L+'zt_ipv4_tbl.h'], [('per-prefix-length hash buckets', L+'zt_ipv4_tbl.c')])
P('C27', 'Configuration files are read exactly as written',
  'For every well-formed file made of blocks, comments, blank lines and variable = value lines (quoted or bare), every variable reads back in its block with exactly the written value and type (integer, float, boolean, string; text that names an existing block.variable is a reference to it), later assignments override earlier ones, comments and blanks are ignored, and variables absent from the file are reported absent. Malformed files never crash, overrun, hang or leak.',
  ['inputs'], 'all files of up to k lines from a line alphabet, and all short lines over a character alphabet',
  'One fixed file is read.',
  [L+'zt_cfg/cfg_ini.c', L+'zt_cfg/cfg_private.c', L+'zt_cfg.c'], [('line parser', L+'zt_cfg/cfg_ini.c:file_parse'), ('type guessing', L+'zt_cfg/cfg_ini.c')])
P('C28', 'Configuration values set and referenced resolve consistently',
  'Whatever sequence of sets and gets is made, a set stores its value exactly as if its text stood in the file, a get with the right type returns the value last stored for that block and variable, a get with another type or for an unknown name fails with -1, and a variable that refers to block.variable yields the current value of its target. Reference cycles terminate, and closing releases all memory.',
  ['histories'], 'all set/get histories up to a depth over a few blocks, variables, types and references',
  'Tests perform one set and a dozen gets.',
  [L+'zt_cfg/cfg_private.c'], [('cfg_discover_type, cfg_get/cfg_set', L+'zt_cfg/cfg_private.c')])
P('C29', 'Option parsing consumes exactly the options on the command line',
  'For every argument vector made of short options (clustered, with separate or attached values), long options (with = or separate value) and operands, each option handler runs once per occurrence in order with exactly the value the user wrote, parsing stops at the first operand or at a failing handler and reports how many arguments it consumed. Unknown options, missing values and bad values are reported through the error callback, never by a crash, even if that callback returns; a handler may itself process another vector without any effect on the outer one; the text of an error states its code and the whole message, whatever its length, and the default handler prints it and ends the program with the code. Invalid option tables are refused before anything is parsed, unless the caller brings its own validation (which is then the only one), and the help text lists every option completely, whatever the length of its texts.',
  ['inputs'], 'all argument vectors of up to k words from a word alphabet covering every option form',
  'One argument vector is parsed.',
  [L+'zt_opts.c', L+'zt_opts.h'], [('zt_opt_process_args', L+'zt_opts.c')])
P('C30', 'UUID text forms round-trip and reject everything else',
  'For every UUID value and each text format (standard, short, base62, hashable base62) printing and then parsing returns the same value, printed text has exactly the documented length and alphabet and is accepted by the validity test. Text that is not a valid form (length, alphabet, separators, base62 halves below 2^64) is rejected by both parser and validity test without reading outside the string, and printing into a caller buffer never writes past its size and succeeds whenever it is large enough, otherwise it reports the size needed. Comparing two UUIDs gives zero exactly if all bytes are equal and otherwise orders them byte-wise.',
  ['inputs'], 'boundary UUID values (all single-byte and carry patterns) x formats; all single-character corruptions, truncations and extensions of valid texts x buffer sizes',
  'Tests round-trip random and tabulated values and never feed malformed text or tight buffers.',
  [L+'zt_uuid.c', L+'zt_uuid.h'], [('zt_uuid_fillstr/fromstr/isvalid', L+'zt_uuid.c'), ('base62 conversion', L+'zt_uuid.c')])
P('C31', 'Generated UUIDs are well-formed, reproducible or distinct as promised',
  'Name-based UUIDs are a pure function of namespace and name (equal to RFC 4122 SHA-1 UUIDs in byte order of the library) and carry version 5 and the RFC variant; random UUIDs carry version 4 and the RFC variant. Random UUIDs generated by any number of threads, in any interleaving, and by a process and the processes forked from it at any point, are pairwise distinct.',
  ['schedules', 'inputs'], 'all interleavings (bounded preemptions at memory-access granularity) of up to three threads generating UUIDs; all short programs of generating, forking and starting threads; all short names x namespaces',
  'Tests generate UUIDs in one thread.',
  [L+'zt_uuid.c', L+'zt_random.c'], [('per-thread random state and its seeding', L+'zt_uuid.c:zt_uuid4')])
P('C32', 'SHA-1 is exact for every message however it is fed',
  'For every message the digest equals the FIPS 180 SHA-1 digest, independent of how the message is split into update calls and of alignment, and the caller\'s data is never modified. Digest-to-text and text-to-digest are exact inverses, text is NUL-terminated, and malformed text is not accepted silently.',
  ['inputs', 'histories'], 'all message lengths across several block boundaries x all two- and three-way chunkings x alignments',
  'Four vectors are tested, fed whole or bytewise.',
  [L+'zt_sha1.c', L+'zt_sha1.h'], [('block buffering', L+'zt_sha1.c:zt_sha1_update'), ('padding', L+'zt_sha1.c:zt_sha1_finalize')])
P('C33', 'Random generator reproduces MT19937 and stays in range',
  'For every seed the integer stream is exactly the reference MT19937 stream, independent streams do not influence each other under any interleaving of draws and reseeds, seeding by array matches the reference initialisation, and floating results lie in the documented interval. The same seed always gives the same stream. A generator used before it was seeded seeds itself with the time, says so in the log, and works from then on.',
  ['histories', 'inputs'], 'all boundary seeds and seed arrays up to a length x several state regenerations; all interleavings of draws on two generators up to a depth',
  'One seed is compared to a table.',
  [L+'zt_random.c', L+'zt_random.h'], [('state regeneration', L+'zt_random.c')])
P('C34', 'Thread pool runs every job exactly once and always shuts down',
  'For every interleaving of producers, worker threads and consumers, each item put into the pool is processed exactly once, each result is delivered exactly once to the output side, and no result is invented or lost before shutdown. Stopping or joining the pool terminates under every schedule (no deadlock, no lost wake-up), everything put in before the stop is still processed and delivered (by a single worker in the order it was put in), all started threads work at the same time when there is work for them, the finalize callback gets every non-null result of an output worker exactly once, and no schedule has a data race on pool state. A pool whose threads cannot all be made says so when it is started, and such a pool, or one that was never started, can still be stopped.',
  ['schedules'], 'all thread interleavings up to a preemption bound of small pool scenarios, under a controlled scheduler plugged in through the public callback interface',
  'There is no thread pool test; races and lost wake-ups only show under specific schedules.',
  [L+'zt_threads.c', L+'zt_threads.h', L+'zt_threads/zt_threads_pthreads.c'], [('condition variables and kill flags', L+'zt_threads.c'), ('callback seam', L+'zt_threads.c:zt_threads_set_*_callbacks')])
P('C35', 'A log line carries exactly the requested parts and levels',
  'For every combination of format options, level, threshold and message, a logger emits one line per message at or above its threshold (and has written it out when the call returns) and nothing otherwise, containing exactly the requested parts (date, level, system name, program name, pid, debug position) in their documented order followed by the message verbatim (and, for the error forms, the text of the error number) and a newline. Message arguments, host, program, file and function names containing format characters are reproduced literally, and long messages are not cut or overrun. The logging macros act as one statement, and their forms for argument lists do what the plain forms do.',
  ['inputs', 'configurations'], 'all option masks x levels x thresholds x message/program-name alphabet',
  'Tests check eight masks with one message and a benign program name.',
  [L+'zt_log.c', L+'zt_log/log_private.c', L+'zt_log/log_file.c', L+'zt_log/log_stderr.c'], [('format string assembly', L+'zt_log/log_private.c:log_gen_fmt'), ('level filter', L+'zt_log.c')])
P('C36', 'Concurrent logging keeps lines whole and debug info per thread',
  'When several threads log concurrently through one logger, in every interleaving each message appears exactly once as an uninterrupted line with its own date, and debug positions announced by a thread are attached only to its own messages. First use from several threads initialises shared state exactly once, and no interleaving has a data race on it.',
  ['schedules'], 'all interleavings up to a preemption bound, at memory-access granularity, of two or three threads logging',
  'The threaded test runs threads almost sequentially and only compares positions.',
  [L+'zt_log.c', L+'zt_log/log_private.c', L+'zt_log/log_file.c'], [('per-thread debug info', L+'zt_log.c:zt_log_set_debug_info'), ('single stream write per line', L+'zt_log/log_file.c')])
P('C37', 'Pid file is complete or the call fails',
  'If writing a pid file succeeds the file exists with exactly the decimal process id and the documented permissions; under every sequence of interrupted, short or failing system calls the call either retries to that complete state or reports failure, and interruptions of write and close alone never make it fail. It never reports success for a partial file, never loops forever, never leaks a descriptor and never closes one it does not own.',
  ['fault_sequences'], 'all answer sequences of creat/write/close (success, short by any amount, interrupted, error) up to a depth',
  'The test performs one fault-free write.',
  [L+'zt_daemon.c'], [('retry loops', L+'zt_daemon.c:zt_writepid')])
P('C38', 'Directory creation is exact, terminating and race-tolerant',
  'Creating a directory with the create-parents flag makes every missing component and nothing else and succeeds if and only if the directory exists afterwards (an existing one is success); without the flag it creates only the last component; every directory it makes has the requested mode less the umask. Under every sequence of system call failures, and when another process creates components concurrently, it terminates, reports success only if the directory exists, and never removes or replaces anything.',
  ['fault_sequences', 'inputs'], 'all initial file system states over a small path universe x all paths x all failure injections up to a depth, on a virtual file system',
  'The test creates one three-level path in an empty directory.',
  [L+'zt_path.c'], [('mkdir retry after creating the parent', L+'zt_path.c:zt_mkdir')])
P('C39', 'Time value arithmetic is exact and normalised',
  'For every pair of normalised time values, comparison orders them chronologically, the sum and the difference (second minus first) are exact with the microsecond part in 0..999999, swapping the operands negates the difference, and adding then subtracting the same value is the identity, whichever operands alias the destination. Timing a function runs it exactly the requested number of times, returns its last result and yields the user and system time the system accounted for it, less the overhead found by the last calibration; elapsed times and the printed report state exactly these figures, their sum, the name and the number of calls.',
  ['inputs'], 'all pairs from a boundary set of seconds and microseconds x aliasing patterns; all small repeat counts x scripted accounting before, after and while calibrating; all boundary results x report forms',
  'One pair of nearly equal current times is tested.',
  [L+'zt_time.c', L+'zt_time.h'], [('carry/borrow handling', L+'zt_time.c'), ('getrusage before and after, calibration', L+'zt_time.c:zt_time')])
P('C40', 'Test framework reports every result truthfully',
  'For every arrangement of suites and tests, each selected test runs exactly once between its suite\'s setup and teardown, a failing assertion is counted as one failure without affecting the others, assertions are counted exactly, the exit result is zero if and only if all selected tests passed, name selection (suite or suite.test) on the command line runs exactly the named suites or tests, and asking for help or a listing runs nothing. An exception that leaves a C++ test is reported as that, with its text, and neither ends the run nor skips a teardown. Tests can be registered and released, and suites and tests run, in any order. Releasing the unit frees everything.',
  ['inputs', 'histories'], 'all arrangements of up to k suites and tests with pass/fail/assert outcomes x selections',
  'The framework is used by the tests but failing paths are never run.',
  [L+'zt_unit.c', L+'zt_unit.h'], [('exception-style assert via setjmp', L+'zt_unit.c'), ('result accounting', L+'zt_unit.c')])
P('C41', 'Exit handlers run once each in reverse order',
  'Every handler registered for exit runs exactly once with its own data, in reverse order of registration, however many are registered, whether or not handlers register or do work themselves, and also when several threads register handlers at the same time.',
  ['histories'], 'all registration counts and handler kinds up to a depth, each in its own process; all interleavings of registrations by up to three threads',
  'Nothing tests exit handlers.',
  [L+'zt_atexit.c', L+'zt_atexit.h'], [('handler list walked at exit', L+'zt_atexit.c')])
P('C42', 'Hash functions are exactly FNV-1 family and chainable',
  'For every byte string the 32- and 64-bit buffer and string hashes equal the published FNV-1a value (a start value of 0 selecting the standard offset basis), the string form equals the buffer form on the same bytes, and hashing a concatenation equals hashing its pieces in turn with the previous value as start. Reducing a hash to n bits gives a value below 2^n for every n up to 31.',
  ['inputs'], 'all byte strings up to a length (all bytes for short ones) x all split points; all boundary hash values x all bit counts',
  'No hash test exists.',
  [L+'zt_hash.c', L+'zt_hash.h'], [('xor-multiply loop', L+'zt_hash.c'), ('ZT_HASH_*_MASK', L+'zt_hash.h')])
P('C43', 'Hex dump shows every byte of its input',
  'For every byte string a hex dump prints one row per 16-byte line with the correct offset, every byte in hexadecimal at its column and its printable character, and nothing else, for every length and every byte value.',
  ['inputs'], 'all lengths across several rows x fill patterns covering every byte value at every column',
  'No test covers it.',
  [L+'zt_cstr.c'], [('row assembly', L+'zt_cstr.c:zt_hexdump')])
P('C44', 'Program name and path are resolved correctly',
  'For every argv[0] and working directory, the program path is the absolute directory part for absolute or relative invocations and the first PATH directory that contains the program for bare names, every PATH component (the last included, empty ones meaning the current directory) being searched in order; programs found in none yield the current directory. The base directory search returns the longest prefix of the path, cut at separators, in which an entry with the given name exists, or NULL, and terminates for every path.',
  ['inputs', 'configurations'], 'all argv[0] forms x PATH lists x which directories contain the program; all short paths x names',
  'The PATH search test is disabled in the suite.',
  [L+'zt_progname.c', L+'zt_path.c'], [('_proc_path/PATH walk', L+'zt_progname.c'), ('zt_find_basedir', L+'zt_path.c')])
P('C45', 'Portable locks, conditions and threads keep their contract under every schedule',
  'Over the pthread backend, at most one thread holds a lock at any time, a blocking lock is eventually taken and a non-blocking one never waits and succeeds exactly when the lock is free; a signal wakes a waiter and a broadcast all of them, a waiter holds the lock again when it returns, a wait with a time limit lasts until that limit (to the microsecond, carries included) or a wake-up and says which of the two it was; joining a thread yields what it returned or ended with, a detached or killed thread ends without anybody waiting for it, a thread that cannot be made is reported, and no memory is left behind. Tables of user callbacks are taken only when complete, are then called with exactly the arguments given, and every operation without a table is a harmless no-op.',
  ['schedules', 'inputs'], 'all interleavings up to a preemption bound of scenarios with up to three threads, all time-out points; all combinations of clock and limit from boundary sets; all subsets of callbacks',
  'The suite does not test the thread layer at all; mutual exclusion and wake-ups are schedule properties.',
  [L+'zt_threads.c', L+'zt_threads.h', L+'zt_threads/zt_threads_pthreads.c'], [('lock, condition and thread wrappers', L+'zt_threads/zt_threads_pthreads.c'), ('callback tables', L+'zt_threads.c:zt_threads_set_*_callbacks')])
P('C46', 'Failed allocations and assertions never let the program go on; wrappers and macros compute what they say',
  'For every element size and count, zt_malloc, zt_mallocs, zt_calloc, zt_callocs, zt_realloc and zt_strdup return a block with room for all of it (zeroed, or keeping the old contents, or an exact copy) or log what failed and abort; a product that does not fit in size_t and a failing allocator are such failures, and the old block of a failed reallocation is intact. zt_free releases once and clears the pointer. An assertion evaluates its condition exactly once (never, when assertions are compiled out), does nothing when it holds, and otherwise logs one error naming the condition, the file without directories, line and function, then aborts, goes on or returns (the given value) as its name says; zt_abort logs at critical level and aborts. MIN, MAX, ABS, CLAMP, CEILING, FLOOR, the bit, indentation, array and structure macros give their documented value for every argument, expressions and operands of different widths included; the waiting macro waits for exactly the microseconds its argument comes to, evaluated once, whatever the variables around it are called.',
  ['inputs', 'faults'], 'all boundary counts (around every power of two and every overflow point) x element sizes x failing allocation; all assertion forms x values x build modes; message texts of boundary lengths; all small operand combinations of the macros',
  'Tests never make an allocation fail or overflow and never let an assertion fire.',
  [L+'zt_malloc.c', 'src/zt.h', L+'zt_assert.c', L+'zt_assert.h', L+'zt_macros.h', L+'zt_time.h'], [('allocation wrappers', L+'zt_malloc.c'), ('assertion macros and messages', L+'zt_assert.h')])
P('C47', 'A daemon is completely detached, or nothing goes on',
  'If zt_daemonize succeeds, exactly one process returns from it, with 0: not the caller, in a new session that it does not lead, with the requested working directory (unchanged if none was given) and file mask, with every descriptor below the limit closed except 0, 1 and 2, which are /dev/null open for reading and writing; the caller exits with status 0. If fork, setsid, getrlimit or chdir fails anywhere, no process returns; the caller exits unsuccessfully if it could not fork. It terminates for every descriptor limit, an unlimited one included.',
  ['faults', 'configurations'], 'all combinations of working directory, mask, descriptor limit, open descriptors and session state; every single failing system call',
  'No test calls it: the process would be lost to the test program.',
  [L+'zt_daemon.c'], [('zt_daemonize', L+'zt_daemon.c')])
P('C48', 'Diagnostic displays show the true state',
  'Whatever was done to a memory pool, a pool group or a garbage collector before, displaying it changes nothing, does not crash and shows its true state: a pool display states the very figures the statistics report and the exact number of free elements, lists (if asked) every free element and no element in use exactly once and every page with its number of free elements, at the requested indentation; displays of a group or of all pools contain every pool; a heap display lists every managed object exactly once, in the list (black, grey, white) that iteration reports for it, marked as protected exactly if it is.',
  ['histories'], 'all short operation histories of one to three pools or a group, and of a collector with up to 35 objects x all display forms and indentations',
  'No test calls any of the display functions.',
  [L+'zt_mem.c', L+'zt_gc.c'], [('zt_mem_pool_display, zt_mem_pool_group_display, zt_mem_pools_display', L+'zt_mem.c'), ('zt_gc_print_heap', L+'zt_gc.c')])
P('C49', 'Separate values can be used by separate threads',
  'Threads that each work on values of their own (arrays, buffers, streams, trees, collectors, hierarchical pools, configurations, strings, texts, digests, generators, UUID texts, encoders, argument vectors, files and directories), or that only read a common one (table, set, network table, configuration, tree, sequence), do not affect each other under any schedule: every thread gets exactly the results it would get alone, and no memory is accessed by two threads at once without synchronisation. Excepted are the parts that share one pool by design: changing tables, sets and network tables, and memory pools themselves.',
  ['schedules'], 'every pair of 30 scripts that use one part of the library each, with different or the same data, in two (three) threads, all schedules up to a preemption bound',
  'Tests use the library from one thread; a variable shared by accident cannot be seen there.',
  [L+'zt_array.c', L+'zt_base.c', L+'zt_bstream.c', L+'zt_buf.c', L+'zt_cstr.c', L+'zt_cfg/cfg_private.c', L+'zt_cfg/cfg_ini.c', L+'zt_ez_mempool.c', L+'zt_format.c', L+'zt_gc.c', L+'zt_hash.c', L+'zt_opts.c', L+'zt_path.c', L+'zt_ptr_array.c', L+'zt_sha1.c', L+'zt_time.c', L+'zt_tree.c', L+'zt_uuid.c', L+'zt_random.c', L+'zt_ipv4_tbl.c', L+'zt_set.c', L+'zt_table.c'], [('zt_gc_destroy', L+'zt_gc.c'), ('zt_opt_process_args', L+'zt_opts.c'), ('zt_cfg_get', L+'zt_cfg.c')])
P('C50', 'Running out of memory ends an operation in an orderly way',
  'Whichever memory request made during an operation is refused, and also if every later request (those for reporting it included) is refused too, the operation ends in one of three ways: the process is ended through abort or exit after a message was written, the operation reports a failure, or it succeeds with the right result. After a reported failure the values involved hold what they held before (operations on several elements may have done some of them), nothing is leaked, no file is left open, no element, piece, option value or queued work is silently lost, and the same operation succeeds with the right result once there is memory. No crash, endless wait or endless recursion follows.',
  ['fault_sequences'], 'every set of up to 2 (3) refused requests, each alone or with all later ones of the call, in 31 scripts that use every allocating part of the library',
  'Tests never run out of memory; the paths behind a refused request are not executed at all.',
  [L+f for f in ('zt_malloc.c', 'zt_assert.c', 'zt_log.c', 'zt_log/log_private.c', 'zt_log/log_file.c', 'zt_array.c', 'zt_ptr_array.c', 'zt_buf.c', 'zt_bstream.c', 'zt_cstr.c', 'zt_base.c', 'zt_format.c', 'zt_gc.c', 'zt_ez_mempool.c', 'zt_mem.c', 'zt_table.c', 'zt_set.c', 'zt_ipv4_tbl.c', 'zt_uuid.c', 'zt_cfg/cfg_ini.c', 'zt_cfg/cfg_private.c', 'zt_opts.c', 'zt_unit.c', 'zt_atexit.c', 'zt_threads.c', 'zt_progname.c')], [('allocation wrappers', L+'zt_malloc.c'), ('zt_buf_expand', L+'zt_buf.c'), ('zt_table_set', L+'zt_table.c'), ('zt_threadpool_init', L+'zt_threads.c')])
P('C51', 'Callbacks may use the library',
  'Whenever the library calls back (hash, comparison, match, destroy and iteration callbacks of tables, sets, trees and lists; mark, release and iteration callbacks of collectors; release tests of pools; conversions and output functions of formatting; logging callbacks; fixtures and tests of the unit test framework; option, error and validation callbacks; timed functions; rows of dumps; freed elements of arrays and hierarchical pools), the callback may use the library itself for other values, the interrupted function included, and nested: the interrupted operation and the ones inside the callback give exactly the results they give alone, and nothing is leaked.',
  ['operation_sequences'], 'every use of the library by one of 46 scripts nested in every call of every callback of 14 calling scripts, one (two, nested or in sequence) of them per run',
  'The callbacks of the tests only count or compare; a function that keeps its state where another call of it finds it behaves the same there.',
  [L+f for f in ('zt_table.c', 'zt_set.c', 'zt_tree.c', 'zt_llist.c', 'zt_gc.c', 'zt_mem.c', 'zt_format.c', 'zt_time.c', 'zt_log.c', 'zt_log/log_private.c', 'zt_unit.c', 'zt_ptr_array.c', 'zt_opts.c', 'zt_cstr.c', 'zt_ez_mempool.c')], [('zt_fmt_vformat', L+'zt_format.c'), ('zt_gc_collect', L+'zt_gc.c'), ('zt_unit_run', L+'zt_unit.c'), ('zt_opt_process_args', L+'zt_opts.c')])
P('C52', 'The replacements for missing C library functions behave as the originals',
  'Where the C library lacks them, the replacements the library brings along do what the originals do: asprintf and vasprintf store a new, exactly fitting, terminated text of any length and return its length, or store NULL, set ENOMEM and return -1, leaving no memory behind, when memory or formatting fails; basename gives what follows the last slash of an unchanged path, or the whole path; vsyslog logs exactly one message of the given priority: the format with its arguments filled in, however long, with every %m (but not the m after an escaped percent sign) replaced by the text of the errno at the call, or by "Unknown Error" and its number.',
  ['inputs', 'faults'], 'all paths up to the length bound over a three letter alphabet; boundary lengths of texts x forms x failing calls; all sequences of format parts up to the bound x errno values x argument lengths',
  'No test can run them: they are only built where the C library lacks the functions.',
  [L+'replace/asprintf.c', L+'replace/basename.c', L+'replace/vsyslog.c'], [('vasprintf', L+'replace/asprintf.c'), ('basename', L+'replace/basename.c'), ('vsyslog', L+'replace/vsyslog.c')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for o in OUT: f.write(json.dumps(o) + '\n')
print(len(OUT))
