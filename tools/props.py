#!/usr/bin/env python3
"""Source of properties.jsonl (kept in step with checks/registry)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over.split(), text=q), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Dynamic array behaves as a resizable sequence",
  "A dynamic array holds exactly the cells that were appended and not removed, in order: append, push, pop, peek, indexed access, resize, reserve and release return what the same operations on a mathematical sequence return, and content survives every growth or reallocation. An operation that cannot be carried out (index past the end, popping more than is stored, out of memory, a size that overflows) reports failure and leaves the array unchanged.",
  "histories inputs fault_sequences", "every sequence of operations, cell size and count, including failing allocations and extreme counts",
  "The array fuzzy test pushes and pops one random pattern with one cell size and never fails an allocation.",
  "include/bfdev/array.h src/array.c",
  [("growth by rounded reallocation, index/capacity bookkeeping", "src/array.c")])

p("C02", "FIFO delivers every byte and record once, in order",
  "A fifo hands out exactly the elements that were put in and not yet taken, in insertion order, for plain, typed-element and record modes, over both static and dynamically allocated buffers and across index wrap-around: put, get, peek, bulk in/out, skip, flush and the length, available, full and empty queries all agree with a bounded queue. A full fifo refuses or truncates exactly the elements that do not fit and never overwrites stored data, and records keep their boundaries and length.",
  "histories inputs fault_sequences", "every sequence of fifo operations for every capacity, element size and record-header size, at every wrap position",
  "The fifo selftest fills and drains a few fixed-size queues; it does not cover two-byte record headers, wrap at every offset, truncated peeks or failing allocations.",
  "include/bfdev/fifo.h src/fifo.c include/bfdev/circle.h",
  [("free-running in/out indexes masked to a power of two", "src/fifo.c"), ("record length header poke/peek", "src/fifo.c")])

p("C03", "Ring buffer overwrites oldest data and keeps order",
  "An overwriting ring buffer always holds the most recent elements or whole records that fit, in insertion order: writing to a full buffer drops exactly the oldest elements or records needed, and reading returns the survivors oldest first. Lengths, peeks and record boundaries stay consistent with that queue across wrap-around, in byte, typed and record modes.",
  "histories inputs fault_sequences", "every sequence of ring buffer operations, capacities, record sizes and wrap positions",
  "No test in the suite exercises the ring buffer's overwrite or record modes beyond a simple example run.",
  "include/bfdev/ringbuf.h src/ringbuf.c include/bfdev/circle.h",
  [("overflow handling advances the read index", "src/ringbuf.c")])

p("C04", "Doubly linked list operations keep the ring and the order",
  "Every list operation (add, insert, delete, replace, move, bulk move, swap, splice and their initialising variants) yields exactly the sequence the same operation on ordinary sequences yields, and forward and backward traversal, in plain, safe and resumed forms, visit exactly that sequence and its reverse. The queries for empty, singular, first, last and head membership agree with it, and corrupted links are refused rather than followed.",
  "histories", "every sequence of operations over every set of nodes and lists",
  "The list test checks iterator order over one list built one way.",
  "include/bfdev/list.h src/list-debug.c",
  [("four-pointer link/unlink primitives", "include/bfdev/list.h"), ("dynamic link checks", "src/list-debug.c")])

p("C05", "Sorting and searching return correct, complete, ordered results",
  "Array sort and list sort produce a permutation of their input that is ordered under the caller's comparison, for every element size, length and duplicate pattern, and list sort keeps equal elements in their original order. Binary search over an ordered array returns a matching element exactly when one exists, and never looks outside the array.",
  "inputs", "every input sequence (all duplicate and order patterns), element size and search key",
  "Tests sort a few random arrays with distinct-looking keys and check only the order.",
  "src/sort.c include/bfdev/sort.h src/list-sort.c src/bsearch.c include/bfdev/bsearch.h",
  [("heap sort sift-down", "src/sort.c"), ("bottom-up merge with pending lists", "src/list-sort.c")])

p("C06", "Hash lists and singly linked lists keep their links and order",
  "The hash list and singly linked list operations (add at head, before or after a node, delete, move between heads, membership and emptiness queries) produce exactly the sequence the same operation on an ordinary sequence produces, whatever position the node is in. Every traversal form visits each stored node once in that order, and a removed node can be inserted again.",
  "histories", "every sequence of operations over every set of nodes and heads",
  "The suite only iterates one list built by repeated head insertion.",
  "include/bfdev/hlist.h include/bfdev/slist.h src/hlist-debug.c src/slist-debug.c",
  [("pprev back pointers", "include/bfdev/hlist.h")])

p("C07", "Index list stays sorted with each priority group headed correctly",
  "The index list always enumerates its nodes in the order of the caller's comparison, with equal nodes in insertion order, and exactly one node of each group of equals heads that group, under any interleaving of insertions and deletions. Deleting a group's head promotes the next member so that later insertions and traversals still find every node once.",
  "histories", "every sequence of add and delete over nodes with arbitrary priorities",
  "No test deletes from an index list that contains equal priorities.",
  "include/bfdev/ilist.h src/ilist.c", [("separate index and node lists", "src/ilist.c")])

p("C08", "Lock-free list loses and duplicates no node under concurrency",
  "When several threads concurrently push single nodes or batches onto a lock-free list and detach or pop from it, each pushed node is observed by exactly one consumer, nodes come off in the last-in first-out order of some sequential ordering of the calls, and a push reports a previously empty list exactly when it was empty. No interleaving of the atomic steps loses, duplicates or corrupts a node. (When popped nodes are put back, a single thread pops; otherwise any number of threads pops and detaches.)",
  "schedules", "every interleaving of the atomic steps of concurrent producers and consumers",
  "The tests are single threaded, and stress on real threads samples few interleavings.",
  "include/bfdev/llist.h src/llist.c include/bfdev/asm-generic/cmpxchg.h include/bfdev/cmpxchg.h",
  [("compare-and-swap retry loops", "src/llist.c")])

p("C09", "Atomics, atomic bits and reference counts are linearizable",
  "Atomic arithmetic, logic, exchange, compare-exchange and bit operations return and store exactly the value of one indivisible step, with the previous or the new value as each name promises, for every operand including wrap-around. A reference count answers true to exactly the release that takes the last references, a conditional increment adds exactly once or finds zero and leaves it there, the previous count is reported as it was, and misuse (counting up from zero or below, past the largest value, releasing more than is held) is reported exactly when it happens, for every interleaving of threads.",
  "schedules histories inputs", "every interleaving of atomic steps of several threads, and every operand value",
  "Examples call each refcount function once from one thread.",
  "include/bfdev/refcount.h include/bfdev/atomic.h include/bfdev/asm-generic/atomic.h include/bfdev/asm-generic/bitops.h include/bfdev/asm-generic/cmpxchg.h include/bfdev/cmpxchg.h",
  [("conditional add via compare-exchange loop", "include/bfdev/refcount.h"), ("exchange via compare-exchange loop", "include/bfdev/asm-generic/cmpxchg.h")])

p("C10", "Notifier chain calls handlers in priority order within limits",
  "A notification calls registered handlers in order of their priority, starting and stopping exactly where the call limit, a stop answer or an error requires, and reports the number called and the outcome. A handler that asks to be removed is unlinked without disturbing the others, and unregistered handlers are never called again.",
  "histories inputs", "every sequence of registration, removal and notification with every handler answer",
  "The example registers a few handlers with fixed answers.",
  "include/bfdev/notifier.h src/notifier.c", [("priority ordered list insertion", "src/notifier.c")])

p("C11", "Red-black tree stays a balanced, ordered, complete search tree",
  "After any sequence of insertions, deletions and replacements the tree contains exactly the inserted and not yet removed nodes, in the order of the comparison, and satisfies the red-black rules (no red node has a red child, equal black depth on all paths), so its height stays logarithmic. Lookup, conflict-rejecting insertion, the cached leftmost node, subtree augmentation, and every in-order, pre-order, post-order and resumed traversal, forwards and backwards, agree with that content.",
  "histories", "every sequence of insert, erase and replace over every key order, including duplicates",
  "The examples insert and erase one random set and inspect only order or timing.",
  "include/bfdev/rbtree.h src/rbtree.c src/rbtree-debug.c include/bfdev/titer.h",
  [("insert and erase fix-up with augmentation callbacks", "src/rbtree.c")])

p("C12", "Interval tree finds exactly the overlapping intervals",
  "The segment tree reports, for any query range, exactly the stored intervals that overlap it, each once and in order of start, after any sequence of insertions and removals. The augmented maximum of every subtree equals the true maximum end of that subtree.",
  "histories inputs", "every sequence of interval insert and remove, and every query range",
  "No test removes intervals between queries or checks completeness of the result set.",
  "include/bfdev/segtree.h src/segtree.c src/rbtree.c", [("subtree maximum propagated through rotations", "include/bfdev/segtree.h")])

p("C13", "Heap always yields the extreme element and loses none",
  "After any sequence of insertions and deletions of arbitrary members, the heap contains exactly the inserted and not yet removed nodes, remains a complete binary tree with every parent ordered before its children, and its top is an extreme element. Positional lookup returns the node at that level-order position.",
  "histories", "every sequence of insert and delete over every key order",
  "Tests only drain from the top.",
  "include/bfdev/heap.h src/heap.c src/heap-debug.c", [("path from the bits of the element count", "src/heap.c")])

p("C14", "B-tree is an ordered map for every key layout",
  "The B-tree maps each inserted key to its value until it is updated or removed: lookup, insert, update, remove, first, last, previous, next, ordered iteration in every traversal form and release behave as on an ordered map, for single-word, multi-word and fixed-size layouts. Every leaf is at the same depth, every node except the root holds an entry and fits its layout, inner keys separate their subtrees, nodes that become empty are freed, and absent keys, duplicate inserts, empty trees and failed allocations report failure without changing the content.",
  "histories inputs fault_sequences", "every sequence of map operations over every key set and layout, with failing allocations",
  "The suite inserts and removes one random set, then stops; it never looks up absent keys after removals or drains and refills.",
  "include/bfdev/btree.h src/btree.c src/btree-utils.c", [("split on insert, merge and rebalance on remove", "src/btree.c")])

p("C15", "Skip list is an ordered collection",
  "The skip list holds exactly the inserted and not yet deleted elements in the order of the comparison; find returns an element equal to the key exactly when one is stored, deletion removes exactly that element, and iteration at every level is an ordered subsequence of the level below. Content and order do not depend on the random levels chosen, and a failed allocation leaves the list unchanged.",
  "histories inputs fault_sequences", "every sequence of operations and every choice of random level, with failing allocations",
  "The example inserts and removes one random set without failed allocations.",
  "include/bfdev/skiplist.h src/skiplist.c src/prandom.c", [("per-level predecessor walk", "src/skiplist.c")])

p("C16", "Radix tree is an exact sparse map from offsets to cells",
  "The radix array returns, for every offset, the cell that was allocated there and no other, reports absence for every offset that was never allocated or has been freed, and first, last, next and previous enumerate exactly the allocated offsets in order, for every cell size and offset, including ones beyond the current capacity. Freeing cells and releasing the tree returns all memory, and failed allocations leave the content unchanged.",
  "histories inputs fault_sequences", "every sequence of alloc, free and lookup over offsets of every magnitude, and failing allocations",
  "The example stores a small dense range in order.",
  "include/bfdev/radix.h src/radix.c", [("level growth and per-level block search", "src/radix.c")])

p("C17", "Hash map and hash tables are exact maps under resizing",
  "The hash map holds exactly the entries inserted and not yet deleted across every automatic growth and shrink: find returns a matching entry exactly when one is stored, insertion strategies refuse, update or append as named, and iteration visits each entry once. Static hash table operations and traversals likewise find exactly the nodes hashed to a key's bucket.",
  "histories inputs fault_sequences", "every sequence of operations, hash collisions and resize points, with failing allocations",
  "The test inserts one distinct random set; collisions, shrink and failed growth are unvisited.",
  "include/bfdev/hashmap.h src/hashmap.c include/bfdev/hashtbl.h include/bfdev/hash.h", [("rehash of all buckets on resize", "src/hashmap.c")])

p("C18", "Bloom filter never forgets a pushed key",
  "A key pushed into a bloom filter is always reported present until the filter is flushed, a push reports prior presence exactly when a peek would have, and after creation or a flush every key is reported absent. The filter answers exactly as the set of hash bits it is defined by, for every capacity.",
  "histories inputs", "every sequence of push, peek and flush, every capacity and hash assignment",
  "The example pushes a handful of keys and never flushes.",
  "include/bfdev/bloom.h src/bloom.c", [("k hash bits per key in a bitmap", "src/bloom.c")])

p("C19", "Caches evict by policy and never lose, leak or evict pinned entries",
  "The LRU and LFU caches return the cached node for a tag while it is resident, hand out changed nodes for new tags up to the change limit, evict only unreferenced committed entries and in the order the policy defines, and answer starved, locked or missing exactly when the state requires. Reference counts, hit, miss, change and starve statistics, the tag index and per-state list membership always agree, through commit, put, delete, set and reset.",
  "histories fault_sequences", "every sequence of cache operations over tags and sizes, both algorithms, with failing allocations",
  "Examples look up random tags and print statistics.",
  "include/bfdev/cache.h src/cache/cache.c src/cache/lru.c src/cache/lfu.c",
  [("status transitions between freed, managed, using and pending lists", "src/cache/cache.c")])

p("C20", "Memory allocator hands out disjoint, aligned, intact blocks",
  "Every block handed out by the first-fit, best-fit or worst-fit allocator lies inside the managed region, is word aligned, is at least as large as requested and overlaps no other live block; best fit takes it from a smallest free chunk that fits, worst fit from a largest; freeing merges neighbouring free space so that freeing everything restores one maximal block. Requests that cannot fit, however large, are refused while requests some free chunk can hold are granted; resizing succeeds when the block, its free neighbour or another free chunk has room, preserves content up to the smaller size, and otherwise fails leaving the block intact. With the debug option, releasing or resizing a block again while its memory is still free is refused and changes nothing.",
  "histories inputs", "every sequence of alloc, realloc and free with every size, for every policy",
  "The fuzzy test uses random moderate sizes and checks only that calls succeed.",
  "include/bfdev/memalloc.h src/memalloc.c", [("split and merge of adjacent chunks", "src/memalloc.c")])

p("C21", "Allocation pool and allocator interface honour sizes and alignment",
  "An allocation pool hands out consecutive, aligned, non-overlapping pieces inside its buffer, refuses what does not fit whatever the size, and after a reset offers its whole capacity again. The allocator interface passes every request to the caller's functions with exact sizes, zeroes what it promises to zero, preserves content on reallocation, and refuses counts whose product overflows.",
  "histories inputs fault_sequences", "every sequence of requests and every size and alignment, with custom and default allocators",
  "Tests use ordinary sizes with the default allocator.",
  "include/bfdev/allocpool.h src/allocpool.c include/bfdev/allocator.h src/allocator.c", [("aligned bump pointer with limit check", "src/allocpool.c")])

p("C22", "Bitmap operations act on exactly the given bits",
  "Every bitmap operation (set and clear of ranges, logic of two maps, complement, masked replacement, shifts, comparison, intersection, empty and full tests, zero, fill and copy) gives the result of the same operation on sets of bit positions for every length and every offset, aligned or not, and whether or not the length is known at compile time. Bits beyond the length never influence a result; words beyond the length, and bits outside a set or cleared range, are never altered.",
  "inputs", "every bitmap content, length, start and count, including word-boundary cases",
  "No test covers the bitmap operations themselves, and word-boundary cases are rare in random inputs.",
  "include/bfdev/bitmap.h src/bitmap.c include/bfdev/bitmap-comp.h", [("first and last word masks", "src/bitmap.c")])

p("C23", "Bit searching and single-bit primitives are exact",
  "Finding the first, last, next and previous set or clear bit, and of logical combinations of maps, returns exactly the position defined by the set of bits below the given size, or the size when there is none, for every size and start and both constant and variable sizes; the iterators visit exactly those positions in order. Single-bit set, clear, flip, test and their test-and-modify forms, in native, little-endian and big-endian bit numbering, plain and atomic, the find-first-set family, population count and bit reversal agree with the same set.",
  "inputs", "every bitmap content, size and start offset, both byte orders and build variants",
  "The bitwalk fuzzy test compares a few functions on random dense maps.",
  "include/bfdev/bitwalk.h src/bitwalk.c include/bfdev/bitwalk-comp.h include/bfdev/bitops.h include/bfdev/asm-generic/bitops.h include/bfdev/bits.h include/bfdev/popcount.h src/popcount.c include/bfdev/bitrev.h src/bitrev.c",
  [("word masking around find-first primitives", "src/bitwalk.c")])

p("C24", "State machine follows exactly the declared transitions",
  "For every event the state machine takes the first declared transition whose guard accepts it in the current state or its nearest ancestor, runs exit, action and entry callbacks in the documented order, and ends in the declared state, the error state or unchanged with the matching return code. Nested entry states, state stack push and pop, cross transitions, history, the finished and error conditions and reset are consistent with the machine's declaration.",
  "histories inputs fault_sequences", "every event sequence over every machine shape, with callbacks and stack allocations that fail",
  "The example drives one machine with one event string.",
  "include/bfdev/fsm.h src/fsm.c", [("ancestor search and transition execution", "src/fsm.c")])

p("C25", "Resource pool releases each resource once, newest first",
  "Resources registered with a pool are released exactly once: explicitly by name or identity, or all at the end in reverse order of registration, and removed resources are never released by the pool. Lookup finds the most recently registered matching resource, and after releasing all the pool is empty and reusable.",
  "histories", "every sequence of insert, find, remove, release and release-all",
  "The test registers a few resources and releases them all once.",
  "include/bfdev/respool.h src/respool.c", [("linked list of resources with release callbacks", "src/respool.c")])

p("C26", "Rate limiter and token bucket never admit more than configured",
  "In every interval the rate limiter admits at most the configured burst, counts each refused event as missed, and starts afresh in a new interval. The token bucket admits a request exactly when enough tokens are available, accumulates tokens at the configured rate up to its capacity however long it idles, and never exceeds that capacity. Call times are positive, zero being the mark of a limiter that has not started.",
  "histories inputs", "every sequence of call times, burst, interval and capacity, including long idle times",
  "Examples sample one real-time run.",
  "include/bfdev/ratelimit.h src/ratelimit.c include/bfdev/tokenbucket.h src/tokenbucket.c", [("interval accounting", "src/tokenbucket.c")])

p("C27", "Every text search algorithm finds exactly the occurrences",
  "Each text search algorithm reports the position of the first occurrence of its pattern and then, in order, each next occurrence that does not overlap the one reported before, or none when there is none, for every non-empty pattern and text over the whole byte range, with or without case folding. The algorithms that support it find occurrences that span text blocks, all algorithms agree with each other on single-block text, and none reads outside the pattern or text.",
  "inputs histories fault_sequences", "every pattern, text, block division and flag, for each algorithm",
  "The suite searches one pattern in one text.",
  "include/bfdev/textsearch.h src/textsearch/textsearch.c src/textsearch/linear.c src/textsearch/kmp.c src/textsearch/bm.c src/textsearch/sunday.c", [("prefix, bad-character and good-suffix tables", "src/textsearch/bm.c")])

p("C28", "Edit distance equals the minimum weighted edit cost",
  "The reported edit distance between two byte strings is the minimum total cost of substitutions, insertions, deletions and adjacent swaps under the configured weights, each character being part of at most one edit, for every pair of strings including empty ones. It neither reads nor writes outside its inputs and reports failure when memory runs out.",
  "inputs fault_sequences", "every pair of strings and every weighting",
  "The example prints one distance.",
  "include/bfdev/levenshtein.h src/levenshtein.c", [("three-row dynamic programming", "src/levenshtein.c")])

p("C29", "Argument splitting yields exactly the separated words",
  "Splitting a command line yields exactly its maximal runs of characters other than blank, tab, carriage return and newline, in order, with the matching count and a terminating null entry, for every string, and releasing returns all memory. Failed allocations report failure without leaking.",
  "inputs fault_sequences", "every input string and allocation failure",
  "The example splits one command line.",
  "include/bfdev/argv.h src/argv.c", [("space skipping word scan", "src/argv.c")])

p("C30", "Big integer arithmetic is exact",
  "Addition, subtraction, multiplication, division, remainder, shifts, bitwise logic, comparison, sign handling and assignment, import and export of arbitrary-precision integers give the exact mathematical result for operands of every size and sign, including zero, carries and borrows across words and operands that alias the destination. Values stay canonical, division by zero is reported, and failed allocations report failure.",
  "inputs histories fault_sequences", "every operand pair, word-boundary pattern, sign and aliasing",
  "The mpi test multiplies and divides random numbers of one size; normalisation corner cases of long division have tiny random probability.",
  "include/bfdev/mpi.h src/mpi.c", [("word arrays with carry propagation, normalised long division", "src/mpi.c")])

p("C31", "Matrix operations are exact and respect dimensions",
  "Matrix addition, subtraction, multiplication, transpose, copy and import produce the exact element-wise or algebraic result (modulo the cell type) with the right dimensions for every shape of at least one row and column, and element access addresses row and column exactly. Operands of incompatible shape are refused, and the result may be one of the operands where the interface allows it.",
  "inputs histories fault_sequences", "every shape, content, aliasing and allocation failure",
  "The example multiplies one square matrix.",
  "include/bfdev/matrix.h src/matrix.c", [("row-major cells in a dynamic array", "src/matrix.c")])

p("C32", "Base32, Base64 and Ascii85 encode and decode exactly",
  "Encoding yields the standard text for every input of every length (Ascii85 pads the last group with zero bytes), decoding any encoder output returns the original bytes, and the computed buffer lengths always suffice. Decoders refuse text with characters outside the alphabet (before the first '=' in Base32 and Base64) or with incomplete or too large Ascii85 groups, and never write beyond their buffer.",
  "inputs", "every input length, content and malformed text",
  "Examples round-trip one string.",
  "include/bfdev/base32.h src/crypto/base32.c include/bfdev/base64.h src/crypto/base64.c include/bfdev/ascii85.h src/crypto/ascii85.c", [("group-wise bit repacking with tail handling", "src/crypto/base64.c")])

p("C33", "CRC functions equal their polynomial definition",
  "Each CRC function returns the remainder its polynomial, bit order and initial value define, for every message, and checksumming a message in pieces, passing each result on, equals checksumming it whole. CRC-4 lengths are in bits: a last partial byte contributes its low bits, taken as a byte.",
  "inputs histories", "every message, every split into pieces, every initial value, for all ten variants",
  "The test compares a few fixed buffers.",
  "include/bfdev/crc.h include/bfdev/crypto/crc-inline.h src/crypto/crc32.c src/crypto/crc64.c src/crypto/crc16.c src/crypto/crc8.c src/crypto/crc7.c src/crypto/crc4.c scripts", [("build-time generated tables, unrolled loop", "include/bfdev/crypto/crc-inline.h")])

p("C34", "Digests and cipher stream equal their standards for any chunking",
  "MD5, SHA-1 and the SHA-2 functions return the standard digest of the concatenation of all updates, for every message length and every division into updates, and a reinitialised context starts afresh. The ARC4 stream equals its definition for every key, independent of how the data is divided, and applying it twice restores the data.",
  "inputs histories", "every message, length around block and padding boundaries, chunking and key",
  "Examples hash one string in one update.",
  "include/bfdev/md5.h include/bfdev/sha1.h include/bfdev/sha2.h include/bfdev/crypto src/crypto/md5.c src/crypto/sha1.c src/crypto/sha2.c src/crypto/arc4.c include/bfdev/arc4.h", [("partial block buffering and length padding", "include/bfdev/crypto/md5-base.h")])

p("C35", "Logging filters by level and formats within bounds",
  "A log call produces a record exactly when its level is within the recording limit, prefixed, coloured and terminated as the level, default level and flags dictate, hands it to the configured output (by default standard error up to warnings, else standard output) once, and returns what that output reports, or zero when filtered. Output never exceeds the buffer, and bounded printing always terminates its string and returns the number of characters actually stored.",
  "inputs histories", "every level, flag, limit, message length and buffer size",
  "The example prints to the terminal and checks nothing.",
  "include/bfdev/log.h src/log/log.c src/log/level.c src/log/color.c src/scnprintf.c", [("level prefix parsing and bounded formatting", "src/log/log.c")])

p("C36", "Integer helpers agree with exact arithmetic",
  "Rounding, alignment, division with rounding, logarithm and power-of-two helpers, overflow-checked arithmetic, double-word arithmetic, byte swapping, byte-order and unaligned access, BCD conversion, bit-field access, minimum and maximum and hash helpers return the mathematically exact result for every operand, in their constant-expression and run-time forms alike.",
  "inputs", "every operand value and width, especially boundaries",
  "No test covers these helpers; they are only used with ordinary values.",
  "include/bfdev/math.h include/bfdev/align.h include/bfdev/log2.h include/bfdev/overflow.h include/bfdev/dword.h src/dword.c include/bfdev/bcd.h src/bcd.c include/bfdev/swab.h include/bfdev/unaligned.h include/bfdev/byteorder.h include/bfdev/bitfield.h include/bfdev/minmax.h",
  [("macro and builtin arithmetic", "include/bfdev/log2.h")])

p("C37", "Allocation failure never corrupts, leaks or crashes",
  "When any allocation made on behalf of an operation fails, the operation reports failure, the structure keeps exactly the content it had, every later operation works normally, and releasing the structure returns every block exactly once. Without failures, too, everything allocated is returned on release. (Where the operation is not atomic by nature: a hash map deletion succeeds without shrinking; a range charge keeps the blocks already charged; a multi-precision destination holds some valid number; the state machine has taken the transition when it cannot remember the old state; re-allocating a queue gives up the old buffer first.)",
  "fault_sequences histories", "every allocation point failing, alone or repeatedly, at every step of every operation sequence across all allocating components",
  "The suite never fails an allocation.",
  "src/array.c src/fifo.c src/ringbuf.c src/btree.c src/skiplist.c src/radix.c src/hashmap.c src/cache/cache.c src/bloom.c src/fsm.c src/mpi.c src/matrix.c src/argv.c src/levenshtein.c src/textsearch/textsearch.c",
  [("error paths of each component", "src")])

p("C38", "Character classes, string helpers and error names are exact",
  "Character classification and case conversion agree with the ASCII definition for every character 0 to 127, in the constant-folded and in the run-time form alike (above that the run-time table describes Latin-1 and the constant form answers no); string duplication copies exactly the bounded prefix with a terminator or answers NULL when memory is short; and error code names and descriptions and error-pointer encoding map each code to its own entry and back. Unknown codes are reported as unknown.",
  "inputs fault_sequences", "every byte value, code and string",
  "No test enumerates the tables or compares the constant-folded forms with them.",
  "include/bfdev/ctype.h src/libc/ctype.c src/libc/string.c src/libc/strdup.c include/bfdev/uplower.h include/bfdev/errname.h src/errname.c include/bfdev/errptr.h",
  [("lookup tables", "src/libc/ctype.c")])

p("C39", "Generator, string hash, guards and small helpers equal their definition",
  "A generator seeded with a value produces exactly the stream of the four-component Tausworthe definition for that seed, whatever mix of 32-bit and 64-bit draws is taken, and never falls into a dead state; the PJW hash of a string depends on all its bytes and fits 32 bits; circular-buffer counts and free spaces, also up to the end of the buffer, partition the buffer exactly; single-bit flag accessors change and report their own bit only; a run-once guard fires at the first true condition and never again; an action calls its function with its data or says it has none; scope guards run on every exit unless the value was taken; bounded formatting reports what it stored; times compare as a total order; bit numbers divide into words of every basic width; a container is found from its member; a warning reports and goes on while a bug reports and ends the program, both only when their condition is true; and the argument-mapping and size macros expand to their arguments and values.",
  "inputs histories", "every seed and draw sequence, string, index pair, flag position and call sequence",
  "Examples print values without checking them.",
  "include/bfdev/prandom.h src/prandom.c src/stringhash.c include/bfdev/stringhash.h include/bfdev/circle.h include/bfdev/bitflags.h include/bfdev/once.h include/bfdev/action.h include/bfdev/guards.h src/scnprintf.c include/bfdev/macro.h include/bfdev/mhelper.h include/bfdev/size.h include/bfdev/time.h include/bfdev/bitops.h include/bfdev/const.h include/bfdev/bug.h include/bfdev/container.h include/bfdev/struct.h include/bfdev/typecheck.h",
  [("combined Tausworthe step and seeding", "src/prandom.c"), ("masked index arithmetic", "include/bfdev/circle.h")])

p("C40", "Misuse of linked structures is refused, not obeyed",
  "With the library's integrity checks compiled in (the default), deleting a list, hash-list, singly linked list, tree or heap node that was already deleted, inserting a list node between two nodes that are not neighbours or next to itself, adding a node at the place where it already is, linking a tree or heap node where it is linked already, and adding to or deleting from an index list whose node links disagree are each reported through the log and change no link of the structure; every legitimate operation is never reported and has exactly its normal effect.",
  "histories faults", "every order of legitimate operations, repeated deletions and insertions, and stray writes to links",
  "The tests use every structure correctly, so the checks never fire.",
  "src/list-debug.c src/hlist-debug.c src/slist-debug.c src/rbtree-debug.c src/heap-debug.c src/ilist.c include/bfdev/list.h include/bfdev/hlist.h include/bfdev/slist.h include/bfdev/rbtree.h include/bfdev/heap.h",
  [("link checks before insertion, poison after deletion", "src/list-debug.c"), ("refusal", "include/bfdev/rbtree.h")])

here = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__":
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
