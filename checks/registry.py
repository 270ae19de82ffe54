"""Every property: its text, where it is anchored, and the analysis that decides it. tools/gen.py writes
properties.jsonl and MANIFEST.json from here."""
import trace
CHECKS = {}
NOT_APPLICABLE = {}
ORDER = []

T_OBL = 'obligation discharge by dataflow on LLVM IR (inlining, value numbering, ranges, linear inequalities, inductive loop invariants)'


def P(pid, title, statement, over, text, why, files, mech, na=None, **check):
    assert len(title) <= 80, (pid, len(title))
    ORDER.append(pid)
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=['util/' + f for f in files.split()],
                          mechanism=[dict(name=n, where='util/' + w) for n, w in mech]))
    if na:
        NOT_APPLICABLE[pid] = (d, na)
    else:
        check.setdefault('technique', T_OBL)
        CHECKS[pid] = dict(prop=d, **check)


T_TRACE = 'event-path analysis on LLVM IR: every path of every operation as a sequence of atomic/plain accesses, checked against ordering and ownership rules'
NOTE_TRACE = ('Every acyclic path of every operation of the listed instantiations is enumerated from the current sources and checked against the rule; '
              'the rule implies the property under the C++ memory model for one producer and one consumer together with C02. Trusts clang/LLVM 18 as front end and engine/vft.cpp.')

P('C01', 'SPSC queue: elements are never read half-written, places never reused early',
  'When one thread puts and another takes, the taker only ever reads an element after all of the putter\'s writes to it are visible, and the putter never overwrites a place the taker may still be reading. No operation of one side modifies the position owned by the other, and all shared positions are accessed atomically.',
  'schedules histories', 'every interleaving of one producer and one consumer, under the C++ memory model, every operation and path, fixed and run-time sized queue',
  'tests run on one thread, or on strongly ordered hardware where missing ordering never shows',
  'lockfree_fifo_spsc.hh lockfree_fifo_spsc_dyn.hh', [('put: acquire tail, write slot, release head', 'lockfree_fifo_spsc.hh'), ('get: acquire head, read slot, release tail', 'lockfree_fifo_spsc.hh'), ('same protocol', 'lockfree_fifo_spsc_dyn.hh')],
  custom=[trace.fifo_order], technique=T_TRACE, note=NOTE_TRACE,
  rule='slot access only after an acquiring load of the other position and before the (single, releasing) store of the own position; no store to the other position; no plain access to a position')

P('C02', 'SPSC queue: order, no loss, no overwrite, exact fill level',
  'A single-producer single-consumer queue delivers exactly the values that were accepted, in order and once each; a put is refused exactly when the queue holds its capacity and a refused put changes nothing. The reported number of filled and free places is exact for every history, including after the position counters have wrapped.',
  'histories inputs configurations', 'every fill level, ring position and counter magnitude; unknown payloads of several sizes; fixed and run-time sized queue, resizes',
  'the tests run a few short histories of int in a queue of 4, never with counters near wrap-around, other element types, or the run-time sized queue',
  'lockfree_fifo_spsc.hh lockfree_fifo_spsc_dyn.hh', [('put/get/get_move/remove_first/reset', 'lockfree_fifo_spsc.hh'), ('resize', 'lockfree_fifo_spsc_dyn.hh')],
  harness=['C02_fifo.cc'], min_roots=500)

P('C03', 'Shared components are wait-free: no waiting, locking, allocation or call-outs',
  'Every put, take and query on the single-producer single-consumer queues, every claim and release in the shared pool, and the new-data hand-off to the reader complete in a number of steps bounded by their own configuration, whatever the other side does or however it is suspended. None of them waits, locks, allocates or calls out to the system.',
  'schedules', 'every operation, every path, every behaviour of the other side',
  'a spin or a lock only shows when the other side is suspended at the wrong point',
  'lockfree_fifo_spsc.hh lockfree_fifo_spsc_dyn.hh thread_safe_pool.hh filtered_interp_array.hh', [('put/get', 'lockfree_fifo_spsc.hh'), ('put/get', 'lockfree_fifo_spsc_dyn.hh'), ('create/destroy', 'thread_safe_pool.hh'), ('add_new_readings', 'filtered_interp_array.hh')],
  custom=[trace.wait_free(['trace_fifo.cc', 'trace_pool.cc', 'trace_handoff.cc'])], technique=T_TRACE, note=NOTE_TRACE,
  rule='no path iterates on a condition the configuration does not decide, and no path calls anything that is not inlined')

P('C04', 'Ring buffers: newest elements kept in order, the oldest dropped when full',
  'A ring buffer always holds the most recent elements written, up to its capacity, and hands them back oldest first; writing to a full buffer drops exactly the oldest element, reading an empty one returns a default value or nothing and changes nothing. Fill level, empty and full reports agree with the contents after every operation, and bulk fills write every element whatever its size.',
  'histories inputs configurations', 'every reachable control state (both positions and the full flag), every operation from it, unknown contents, several element sizes and capacities',
  'the tests walk a handful of histories of one element type; the joint state of both positions and the full flag is not covered',
  'circular_buffer.hh circular_buffer_opt.hh', [('put/get/peek/reset', 'circular_buffer.hh'), ('put/get/fill_buffer', 'circular_buffer_opt.hh')],
  harness=['C04_circular_buffer.cc'], min_roots=500)

P('C05', 'Block ring: a block lands contiguously modulo the ring, nothing else moves',
  'Writing a block of up to the ring\'s size at any position stores every element of the block, in order, at consecutive places modulo the ring size, whatever the element type. No other element changes, and no memory outside the ring is touched.',
  'inputs configurations', 'every offset (any unsigned position), every block length up to the ring size, unknown contents, several element sizes and ring sizes',
  'the tests write a few blocks of one element type at small positions',
  'circular_buffer_block.hh', [('write', 'circular_buffer_block.hh')],
  harness=['C05_block.cc'], min_roots=100)

P('C06', 'Ring access over an external buffer: positions wrap exactly, data lands in order',
  'Reading or writing n samples forwards or backwards through a ring accessor touches exactly the n consecutive places from its position, in order, leaves the position n further (or back) modulo the size, and reports a wrap exactly when the position passed the end. Cross-faded writes mix new and old sample with the given weight, the other position never moves, and marker-crossing reports are exact.',
  'inputs histories configurations', 'every position, every transfer length up to the ring size, every marker, unknown contents; ring sizes 1, 3, 4 (7 in depth)',
  'the tests use a few positions and lengths; the wrap and crossing flags depend on the joint value of position, length and marker',
  'circular_buffer_ext.hh', [('read/write/..._reverse', 'circular_buffer_ext.hh'), ('..._check_crossed', 'circular_buffer_ext.hh')],
  harness=['C06_access.cc'], min_roots=500)

P('C07', 'Overwriting stack: last in first out, the oldest is lost when it overflows',
  'Popping returns elements newest first; pushing onto a full stack loses exactly the oldest element; popping or looking at an empty stack yields nothing (or a default value) and changes nothing. Size and emptiness are exact after every operation, including for a stack constructed from a list of elements.',
  'histories inputs configurations', 'every reachable control state (top, bottom, full flag), every operation from it, unknown contents, several capacities and element sizes',
  'the tests walk three histories of one capacity; wrap-around states after mixed pushes and pops are not covered',
  'circular_stack.hh', [('push_back/pop_back/back/size', 'circular_stack.hh')],
  harness=['C07_stack.cc'], min_roots=150)

P('C08', 'Fixed-capacity vector behaves as a sequence and never exceeds its capacity',
  'Append, insert, erase, resize, pop and clear on a fixed-capacity vector have exactly the effect of the same operation on a sequence, and are refused without effect when they would exceed the capacity or address a place outside the sequence. Size, remaining room, iteration, spans and element access always agree with that sequence.',
  'histories inputs configurations', 'every size, every operation and index (including far out of range), unknown contents, several capacities and element types',
  'the tests sample sizes and indices; boundary cases (full, last, one past) depend on the pair of size and index',
  'fixed_vector.hh', [('insert/erase/resize/push_back/pop_back', 'fixed_vector.hh')],
  harness=['C08_fixed_vector.cc'], min_roots=300)

P('C09', 'Bounded string: exact truncated copy, always terminated, never overruns',
  'Copying any text into a fixed-capacity string stores exactly its first characters up to the capacity followed by a terminator, reads nothing beyond the source and writes nothing beyond the string, for every capacity including zero. Length, remaining room, comparison and conversions agree with that text.',
  'inputs configurations', 'every source length around the capacity plus an unknown longer one, unknown characters, several capacities, all copy paths including volatile and between capacities',
  'the tests copy a few literals; overruns at capacity boundaries and for unterminated views need all lengths',
  'static_string.hh', [('copy/length/available/==', 'static_string.hh')],
  harness=['C09_static_string.cc'], min_roots=150)

P('C10', 'Array maps: stored values are found; full maps refuse or evict as documented',
  'With distinct keys, every stored key is found with its value and no other key is found, after any insertion, overwrite, replacement, eviction or removal; all other entries keep their values. Insertion into a full map is refused without effect, overwriting into a full map evicts the entry that is oldest, and subscripting a full map reuses the last entry.',
  'histories inputs configurations', 'every fill level and eviction position, every operation, key present at each place or absent, unknown distinct keys and unknown values',
  'the tests use a handful of keys; which entry is evicted or matched depends on fill level, eviction position and key position together',
  'seq_map.hh sequential_map.hh', [('insert/overwrite/get/remove', 'seq_map.hh'), ('operator[]/insert/find/erase', 'sequential_map.hh')],
  harness=['C10_maps.cc'], min_roots=150)

P('C11', 'Double-buffered transmitter: every accepted packet goes out whole, in order',
  'Data handed to the transmitter is sent at once when it is idle and otherwise kept, in order, and sent as one block when the running transmission completes; nothing is lost, duplicated or reordered. A packet that does not fit is refused without changing what is kept, and a transmission is never started while one is running.',
  'histories inputs', 'every state (idle or busy, every fill level of the waiting buffer, either buffer active), every packet length around the capacity, unknown contents, every outcome of starting a transmission',
  'the tests run a few histories with a transmitter that never refuses',
  'doublebuf_stream.hh', [('transmit', 'doublebuf_stream.hh'), ('tx_done_callback', 'doublebuf_stream.hh')],
  harness=['C11_doublebuf.cc'], min_roots=150)

P('C12', 'Object pools: one owner per slot at a time, refused only when all slots are used',
  'Creating an object yields a slot of the pool that was not in use, and fails exactly when every slot is in use; destroying releases exactly that slot and reports whether it was in use, and anything not from the pool is rejected. With the shared pool this holds for concurrent callers too: a slot is handed to one caller at a time, and its next owner sees everything the previous one did.',
  'schedules histories', 'every occupancy pattern and operation of pools of 1 and 3 (5 in depth); for the shared pool every interleaving, by the claim rule',
  'the tests create and destroy in sequence on one thread',
  'pool.hh thread_safe_pool.hh', [('create/destroy', 'pool.hh'), ('create/destroy by compare-and-swap', 'thread_safe_pool.hh')],
  harness=['C12_pool.cc'], min_roots=100, custom=[trace.pool_claim], technique=T_OBL + '; event-path rule for the shared pool',
  rule='the returned index is the one whose flag this call changed from unused to used by an acquiring compare-and-swap or exchange; flags change in no other way')

P('C13', 'Arena allocator: blocks are disjoint, inside the arena, accounted exactly',
  'Each block the arena allocator hands out lies inside the arena, directly behind all earlier ones and overlapping none; a request larger than the free space is refused and changes nothing, a smaller one is always granted. Reported free space is exact, and a reset makes the whole arena available again.',
  'inputs histories', 'every arena size and fill level, every request size including huge ones',
  'the tests allocate a few small blocks; arithmetic at extreme sizes is not sampled',
  'monotonic_allocator.hh', [('allocate/reset/free_space', 'monotonic_allocator.hh')],
  harness=['C13_monotonic.cc'], min_roots=3)

P('C14', 'Aligned allocator: enough room, correctly aligned, or a null result',
  'For any element count, the aligned allocator either returns a block with the requested alignment and room for every element, or null; a count whose size cannot be represented gives null instead of a small block, and a count of zero gives null without allocating. The C allocation function is only called with a valid alignment and a size that is a multiple of it.',
  'inputs configurations', 'every element count, several element sizes and alignments, success and failure of the C allocator',
  'overflowing counts are not sampled, and the contract of the C allocation function is not observable from a test',
  'aligned_allocator.hh', [('allocate/deallocate', 'aligned_allocator.hh')],
  harness=['C14_aligned.cc'], min_roots=15)

P('C15', 'Layout helpers: padded objects fill alignment units; integer picks are minimal',
  'A padded and aligned object has a size that is a multiple of its alignment, is aligned to it, and holds its value undisturbed for every element type and alignment. The smallest-integer selections give the narrowest type that represents the given bounds, for every bound.',
  'configurations', 'a grid of element sizes and alignments; all bounds at and around every power of two up to 64 bits',
  'each is a family of types; tests instantiate a few members',
  'padded_aligned.hh smallest_integer.hh', [('PaddedAligned', 'padded_aligned.hh'), ('SmallestInt', 'smallest_integer.hh')],
  harness=['C15_layout.cc'], min_roots=500)

P('C16', 'Wear levelling store: the newest value survives; no access beyond its block',
  'After a successful write, a read returns the value just written, also from a freshly started instance, for every fill position of the block and after the block has been erased and refilled; a cell that cannot be read or is unwritten is never taken for stored data. No access outside the block is ever issued, and a failing write or erase is reported.',
  'histories inputs crash_points', 'every fill position of small blocks, every operation, restart after any of them, unknown values, every outcome of the memory\'s read, write and erase',
  'the tests use a memory that never fails; behaviour depends on fill position, restart and fault together',
  'wear_level.hh', [('read/write/erase', 'wear_level.hh')],
  harness=['C16_wear.cc'], min_roots=300)

P('C17', 'Stored callables: invoked exactly when called, with their own state, in place',
  'A stored callable, when called, calls exactly the callable it was given, once, with the given argument and its captured state, and its result is returned; an empty one calls nothing. Callables that do not fit the storage or its alignment are rejected at compile time, and each stored callable is constructed and destroyed exactly once.',
  'inputs configurations histories', 'captures of several sizes, alignments and triviality; construct, replace, move, copy, clear and call in any order of two',
  'lifetime errors and misaligned storage do not change results in small tests',
  'callable.hh', [('Function/FunctionSized', 'callable.hh')],
  harness=['C17_callable.cc'], min_roots=8)

P('C18', 'Binary blob reader never reads outside the blob',
  'For any byte sequence, however malformed or truncated, and any key, looking up a value, a group or an array element in a binary blob only reads bytes inside the blob, and any group or data it returns lies inside the blob. Lookups always terminate.',
  'inputs configurations', 'all blob lengths and contents, all keys, 8/16/32-bit keys and length fields',
  'the tests parse well-formed blobs and a few hand-made truncations; memory safety for hostile bytes needs all contents',
  'compact_binary_parser.hh', [('get/get_node/find', 'compact_binary_parser.hh')],
  harness=['C18_parser.cc'], min_roots=5)

P('C19', 'Binary blob reader finds exactly what is stored, and nothing else',
  'Looking up a key yields the data of the first entry stored under that key, unchanged and at any alignment, when that entry is complete; a key that is not stored, an empty entry, an entry cut off by the end of the blob, or a stored size different from the requested one yields nothing. Keys of several bytes, text keys and paths of keys match only when they are equal as a whole.',
  'inputs configurations', 'blobs of three entries with unknown keys and data, each match pattern, every truncation point; several key and length-field widths; text keys, nested groups',
  'the tests look up a few keys in fixed blobs; which entry is taken depends on match pattern, entry sizes and truncation together',
  'compact_binary_parser.hh', [('get/get_node/get_size', 'compact_binary_parser.hh')],
  harness=['C19_lookup.cc'], min_roots=400)

P('C20', 'Binary blob writers emit exactly the format the reader expects, within bounds',
  'The serializer and the writer emit, for every sequence of fields, raw data and nested groups, exactly key, length and payload of each entry with correct group lengths, provided each length fits the length field. They never write beyond the buffer they are given; a description that does not fit is reported, and the size they report is the exact number of bytes used.',
  'inputs histories configurations', 'several shapes of nested descriptions, every buffer size around the exact fit, unknown keys and payloads, several key and length-field widths',
  'the tests write a few descriptions into ample buffers',
  'compact_binary_serializer.hh compact_binary_writer.hh', [('field/raw/group', 'compact_binary_serializer.hh'), ('field/raw/begin_object/end_object', 'compact_binary_writer.hh')],
  harness=['C20_writer.cc'], min_roots=300)

P('C21', 'Number to text: exact decimal digits, terminated, never beyond the buffer',
  'Converting any 32-bit signed number to text stores its sign and exactly its decimal digits without leading zeros, followed by a terminator, and touches nothing beyond; when the buffer is too small the strict conversion reports failure. The chopping conversion then stores the sign and the least significant digits that fit, terminated inside the buffer; the digit count is exact for every unsigned number.',
  'inputs configurations', 'every number, by sign and number of digits, and every buffer size from 0 to 12',
  'four billion numbers times every buffer size; powers of ten, zero digits and the most negative number are easily missed',
  'int_to_str.hh int_to_str.cc', [('int_to_str', 'int_to_str.cc'), ('int_to_str_chop', 'int_to_str.cc'), ('num_digits', 'int_to_str.cc')],
  harness=['C21_int_to_str.cc'], min_roots=400)

P('C22', 'Formatted printing: each argument once, in order, as its exact characters',
  'Printing emits, for each argument from left to right, exactly the characters of a text or the minimal decimal or upper-case hexadecimal digits of a number, one call of the output function per character and nothing else. Texts are read up to their terminator or given length only.',
  'inputs configurations', 'every signed and hexadecimal number by number of digits, every text up to 11 unknown characters, mixed argument lists',
  'numbers with inner zeros, powers of ten and the most negative number, and texts without terminator are not sampled',
  'print.hh', [('printone', 'print.hh'), ('print', 'print.hh')],
  harness=['C22_print.cc'], min_roots=70)

P('C27', 'Small arithmetic helpers equal their mathematical definitions for every input',
  'Power-of-two tests and rounding, floor of the base-2 logarithm, integer powers, minimum, maximum, clamping, absolute difference, range tests, wrap-around, plateau and byte swapping give the exact mathematical result for every argument whose result is representable, for every integer width they accept. Integer interpolation returns the end values at its ends and never leaves the interval between them; the hysteresis gate turns on only above its upper threshold and off only below its lower one, the feedback form by the given amount.',
  'inputs configurations', 'all values of 8- to 64-bit integers, split by highest and lowest bit; every start value for wrapping, exact results within four ranges; all floats for gate and classification',
  'the tests and static assertions sample single values; widths, extremes and negative numbers are not covered',
  'math.hh', [('next_power_of_2/wrap/interpolate/plateau/between', 'math.hh'), ('hysteresis_gate', 'math.hh')],
  harness=['C27_intmath.cc'], min_roots=5000)

P('C30', 'Debounced switches: every clean edge is reported exactly once, bounces never',
  'A debouncer reports a press or a release exactly when the most recent samples match its pattern, starting with quiet history, and keeps the raw or the debounced level as configured; the counting variants count samples since the last edge. A toggler remembers an edge of the level it is given until it is asked, tells it once, and hands pending events over to another toggler without inventing or duplicating any.',
  'histories inputs configurations', 'every toggler state and operation; debouncers from every sample history, several patterns and masks, plus bouncing histories from power-on; the full-size and the one-byte variant',
  'the tests feed a few sample sequences; pending events, history and sample act together',
  'debouncer.hh debouncer_compact.hh', [('register_state', 'debouncer.hh'), ('update_state/transfer_events', 'debouncer.hh'), ('TogglerCompact', 'debouncer_compact.hh')],
  harness=['C30_debounce.cc'], min_roots=700)

P('C31', 'Edge, change and threshold detectors report exactly the transitions they promise',
  'An edge detector reports a rise or a fall exactly when the last two samples differ that way, a change detector reports once whether the state ever changed since it was last asked, and a trigger with hysteresis goes high only above its upper and low only below its lower threshold, with one event per crossing.',
  'histories inputs', 'every state and every pair of samples; every float as sample and threshold',
  'there are no tests for the edge and change detectors; thresholds and state act together',
  'edge_detector.hh change_detector.hh schmitt_trigger.hh', [('EdgeStateDetector/RisingEdgeDetector/FallingEdgeDetector', 'edge_detector.hh'), ('ChangeDetector', 'change_detector.hh'), ('SchmittTrigger', 'schmitt_trigger.hh')],
  harness=['C31_edges.cc'], min_roots=15)

P('C32', 'Rotary encoder: one step per full detent, in the direction turned',
  'The decoder reports a clockwise or counter-clockwise step exactly when the last four distinct inputs pass through the full sequence of that direction ending at rest, and nothing otherwise; repeated inputs change nothing. Motion that is taken is cleared, and motion that is added or transferred is neither lost nor counted twice.',
  'histories inputs configurations', 'every decoder history (256 states) and input, both polarities; all motion values whose sums are representable',
  'the tests turn a few detents cleanly; the decoder has 1024 combinations of history and input per polarity',
  'quadrature_encoder.hh rotary_motion.hh', [('get_motion', 'quadrature_encoder.hh'), ('use_motion/add_motion/transfer_motion', 'rotary_motion.hh')],
  harness=['C32_encoder.cc'], min_roots=2000)

P('C33', 'Periodic polling fires exactly once per elapsed period, across clock overflow',
  'An event or change poller acts exactly when at least its period has passed since it last acted, on an unsigned clock also across overflow and however late the poll comes, and then restarts its period at the time of the poll. The change poller asks for the state only then, and reports a change once.',
  'inputs histories configurations', 'all periods, times and last poll times of 8-, 16-, 32- and 64-bit clocks; signed clocks running forward',
  'the tests poll at every tick around one overflow; late polls and other periods are not covered',
  'poll_event.hh poll_change.hh', [('poll', 'poll_event.hh'), ('poll/take_change', 'poll_change.hh')],
  harness=['C33_poll.cc'], min_roots=9)

P('C40', 'Rectangles and polygons: overlap and concavity are judged exactly',
  'Two rectangles (given by their corners, edges included) intersect exactly when neither lies wholly beyond the other on either axis; overlap is symmetric and a rectangle overlaps itself. Width, height, far edges and centres follow from the corners, the centre lying inside, and a polygon of at most four points is concave exactly when it turns both ways.',
  'inputs', 'all rectangles with ordered corners; measures for coordinates up to half a billion; polygons of up to 4 unknown points',
  'there are no run-time tests, only a few constant rectangles; containment and touching edges are special cases',
  'geometry.hh', [('RectC::x_intersects/y_intersects/is_intersecting', 'geometry.hh'), ('is_poly_concave', 'geometry.hh')],
  harness=['C40_geometry.cc'], min_roots=8)

P('C41', 'Parallel iteration visits exactly the common prefix, by reference',
  'Zipping ranges visits the elements of all ranges together, in order, exactly as many times as the shortest range has elements, and gives access to the elements themselves, not copies; counting iteration adds the position from zero. Temporaries handed over stay alive during the iteration, and the ranges are not otherwise changed.',
  'inputs configurations', 'two to three containers of 0 to 5 elements of unknown content, const and temporary ones',
  'the tests zip a few vectors of fixed sizes; unequal lengths in each position are sampled only once',
  'zip.hh countzip.hh', [('zip', 'zip.hh'), ('countzip/enumerate', 'countzip.hh')],
  harness=['C41_zip.cc'], min_roots=60)

P('C42', 'Memory test: finds every bad word in the range and touches nothing else',
  'The memory test passes when every word of the range returns what was written, and fails when any word of the range returns something else, whichever word and whichever bits differ. It reads and writes only words of the range, with accesses the compiler may not drop.',
  'inputs fault_sequences configurations', 'ranges of 0 to 6 words, each word failing in any bits',
  'a unit test runs on good memory only',
  'mem_test.hh', [('MemTest::check', 'mem_test.hh')],
  harness=['C42_memtest.cc'], min_roots=30)

P('C50', 'Transfer buffers: filled and emptied in order, never past the end',
  'An input buffer stores values in the order they are put, at consecutive places from the beginning, until it is full, and drops further ones without touching anything; an output buffer hands out its values in order until the end and a default value afterwards. Full means that every place was used, and resetting starts again at the first place, keeping the contents.',
  'inputs histories configurations', 'every fill level of buffers of 1, 4 and 7 elements of unknown content, several element sizes',
  'there are no tests',
  'input_output_buffer.hh', [('InputBuffer::put/OutputBuffer::get/reset/full', 'input_output_buffer.hh')],
  harness=['C50_io_buffer.cc'], min_roots=25)

P('C51', 'Combining flags gives exactly the union of their bits, in the underlying type',
  'Combining enumerators or integers gives the bitwise union of their values, whatever the number of arguments, without adding or losing bits; combining none gives zero. The result has the underlying type of the enumeration.',
  'inputs configurations', 'up to four unknown flags; 8-, 16- and 32-bit unsigned and 16-bit signed enumerations',
  'the tests combine a few flags; an unlucky start value shows only at run time',
  'bitfield.hh', [('bitfield/OR/val', 'bitfield.hh')],
  harness=['C51_bitfield.cc'], min_roots=4)

P('C52', 'Byte blocks: values are appended in order, least significant byte first',
  'Writing a value appends exactly its bytes, least significant first, and raw data byte for byte; everything written before stays unchanged and in order.',
  'inputs histories', 'up to three unknown bytes before, every operation, raw data of up to 6 bytes',
  'there are no tests; byte order and order of appending need distinct bytes',
  'byte_block.hh', [('print/printU8/printU16LE/printU32LE/printRaw', 'byte_block.hh')],
  harness=['C52_byte_block.cc'], min_roots=50)

P('C24', 'Version texts are read field by field; versions compare in release order',
  'Up to three dot-separated numbers give the fields of a version: missing fields are zero, numbers that are negative or above 255 are ignored, and text after the digits of a field is ignored; it is a pre-release exactly when a dash follows in the last dot-separated part. Nothing beyond the end of the text is read. Versions are ordered by fields, a pre-release before its release, and a host accepts exactly those with equal first field and no greater second field.',
  'inputs', 'texts of one to three fields of up to 3 (thorough: all combinations) unknown digits with eight kinds of tails, a dozen particular texts; every pair of versions',
  'the tests parse a few literals, all of which are null-terminated, and compare a few pairs',
  'version_tools.hh', [('Version', 'version_tools.hh'), ('operator<=>', 'version_tools.hh'), ('can_host_version', 'version_tools.hh')],
  harness=['C24_version.cc'], min_roots=150)

P('C36', 'Parameters report each change once and hold the last value given',
  'A parameter returns the last value it was given, and says it changed exactly when it was given a different value since it was last asked (by-reference parameters: when the variable differs from what it was at the last question). A latched parameter follows exactly those inputs that differ by at least its threshold, keeps its value otherwise, and reports each change once.',
  'inputs histories', 'every state and value of signed, unsigned and float parameters, up to three values given between questions',
  'the change flag depends on what was given since the last question; the tests sample a few values',
  'parameter.hh', [('Parameter', 'parameter.hh'), ('RefParameter', 'parameter.hh'), ('LatchedParam', 'parameter.hh')],
  harness=['C36_params.cc'], min_roots=20)

P('C53', 'Interpolated values walk in equal steps to the target and stop there',
  'An interpolated parameter given a target and a number of updates moves by equal steps and arrives within rounding of the target after that many, and a snap gives the target exactly. An array of filtered inputs takes one batch per announcement with one reading per channel, each through its own filter, walks each output to its filtered value over the time between the last two batches, and then stays there.',
  'inputs histories', 'integers up to a hundred million for several update counts, float ramps between boxes of values; arrays of 1 and 3 channels in every state',
  'the tests walk a few batches of one channel; the state at a batch depends on how many outputs were taken since the last',
  'interp_param.hh filtered_interp_array.hh', [('InterpParam/InterpParamVar/InterpParamVariable', 'interp_param.hh'), ('FilteredInterpArray', 'filtered_interp_array.hh')],
  harness=['C53_interp.cc'], min_roots=90)

P('C37', 'Audio samples and floats convert exactly both ways, saturating at full scale',
  'The low bits of a signed sample count, the rest is its sign; scaled to a float it is exactly the sample divided by full scale, and scaling that float back gives the sample (up to 24 bits). Floats scale to samples without wrap-around: at and beyond plus or minus one the output is the largest or smallest sample, in between it is the proportional one, rounded toward zero.',
  'inputs configurations', 'every sample of 8-, 16-, 20- and 24-bit formats; every float at or beyond full scale, the rest in sixteenths, for 16, 24 and 32 bits, signed and unsigned',
  'the tests check a dozen values of one 24-bit format and none out of range',
  'audio_frame.hh', [('AudioFrame', 'audio_frame.hh')], harness=['C37_audio.cc'], min_roots=120)

P('C38', 'Saturation gives the nearest representable value for every bit count',
  'Saturating a number to n bits, signed or unsigned, returns it unchanged when it fits, and otherwise the nearest value that does.',
  'inputs configurations', 'every 32-bit value, every bit count',
  'there are no direct tests; the ends of the range and the bit counts near the word size are special cases',
  'cortex_math.hh', [('signed_saturate/unsigned_saturate', 'cortex_math.hh')], harness=['C38_saturate.cc'], min_roots=34)

P('C39', 'Colours: packing keeps the top bits, mixing stays within range, hue is right',
  'Packing a colour into 16 bits keeps the top bits of each channel, unpacking gives them back, and float channels are clamped. Mixing by a weight gives each channel the rounded-down weighted mean independent of the other channels, the ends being exact; combining and adjusting saturate. A hue gives the value as its main channel, the value less the saturation as its least, the third moving evenly between as the hue turns, and grey without saturation.',
  'inputs', 'every colour; mixing with every weight of 8 bits, float weights in 512ths; packed mixing with one channel unknown and the others at their ends, every weight; every hue, saturation and value',
  'the tests check a few named colours; most of the mixing functions are marked as untested',
  'colors.hh colors_rgb565.hh hsv.hh', [('Color', 'colors.hh'), ('RGB565', 'colors_rgb565.hh'), ('HSVColor', 'hsv.hh')],
  harness=['C39_colors.cc'], min_roots=2900)

P('C34', 'Averaging and smoothing filters return the mean or the right mix of their inputs',
  'A moving average returns the mean of the last values, rounded down, wherever in its ring it is; an oversampler gives a new value after each full batch, the mean of exactly that batch, and holds it in between, also when its size was changed. A one-pole filter moves by what its transfer function makes of the distance to the input (nothing inside a dead band, no more than the distance minus the band outside, the signed square for a quadratic one), and a cascade passes the output of each stage to the next, once.',
  'inputs histories', 'every contents of windows and batches of 1 to 8 values of 12 bits at every position; resizing from and to 1 to 5; transfer functions over boxes of values',
  'the tests feed a few constant or ramp inputs from the start state; a sum that drifts shows only after the ring turned with varied values',
  'filter.hh', [('MovingAverage, Oversampler, SmoothOversampler, ResizingOversampler', 'filter.hh'), ('NonLinearOnePoleLp, TransferQuadratic, TransferHysteresis, CascadingFilter', 'filter.hh')],
  harness=['C34_filters.cc'], min_roots=130)

P('C44', 'Running extremes of a signal are the least and greatest of the values seen',
  'After any values, the minimum and maximum are the least and greatest of them whatever their signs, and a reset forgets what came before (for a signal analysis, all but the value it is reset to). The running average moves from where it is toward each value by its fixed share of the distance.',
  'inputs histories', 'three arbitrary values from fresh and any value onto any state, for floats and integers; averages between boxes of values',
  'the tests analyse a few short signals; starting values matter only for signals of one sign',
  'analyzed_signal.hh', [('AnalyzedSig, PeakMeter', 'analyzed_signal.hh')], harness=['C44_peaks.cc'], min_roots=33)

P('C28', 'Interpolating lookups stay in bounds and on the line between neighbouring points',
  'For every phase an interpolating array or lookup table accepts it reads only its own elements, gives exactly the stored value at a point, and between points the value on the straight line (or, for the closest variants, the point at or before). Wrapping lookups continue periodically in both directions, and a lookup table gives its end values beyond its range and for NaN.',
  'inputs', 'arrays of 3 to 8 floats and integers with float and double phases in eighths of a point over five turns, without the ten-thousandth next to a box edge; tables of 2 to 9 points, and any table of 5; every point exactly',
  'the tests sample a few positions of positive phase; out-of-range reads happen at the edges of the phase range and for signs and values no test uses',
  'interp_array.hh lookup_table.hh', [('InterpArray', 'interp_array.hh'), ('LookupTable', 'lookup_table.hh')], harness=['C28_lookup.cc'], min_roots=1190)

P('C29', 'Oscillators step by their frequency, wrap without a jump and stay in range',
  'Each update advances the phase by the share of a cycle that the frequency or period set gives, modulo a whole cycle; the triangle, ramp and sine values are those of the phase, within 0 and full scale (or plus and minus one). A down counter falls by its step to zero and stays there, never wrapping, and a one-shot is true until its width has been counted down.',
  'inputs histories', 'every phase and step for the integer waves and counters; sine against the true function at 256 phases; frequencies and periods of several update rates',
  'the tests follow one triangle at one frequency and one pulse; overflow shows at particular phases and periods',
  'oscs.hh', [('TriangleOscillator, PhaseAccum, SineOscillator', 'oscs.hh'), ('DownCounter, OneShot', 'oscs.hh')], harness=['C29_oscs.cc'], min_roots=575)

P('C48', 'Math tables hold their functions; what is built on them follows the true ones',
  'Every entry of the sine, tangent, exponential, power and logarithm tables is its function\'s value to printed precision. Sine, cosine, tangent, powers of two, pitch and frequency conversions and the fast sine follow the true functions within their stated table resolution over several periods in both directions, clamping where they say so.',
  'inputs', 'all 12288 entries; 256 places (a fifth of an entry wide) of each function',
  'the tests compare one table and one function at positive arguments; a wrong entry or a wrong sign of the argument is never looked at',
  'math_tables.cc math.hh', [('sinTable, tanTable, exp5Table, exp10Table, pow9Table, logTable', 'math_tables.cc'), ('MathTools::sin, cos, tan, pow2, setPitchMultiple, audioFreqToNorm', 'math.hh')],
  harness=['C48_tables.cc'], min_roots=3190)

P('C49', 'Partitioning places every element once, largest first, into the smallest group',
  'Splitting values into groups puts the index of each value in exactly one group, taking the values from the largest to the smallest and each into the group with the smallest sum so far (the first of equals), starting from the initial sums given. Earlier results are dropped, and initial values or elements beyond the capacity are ignored.',
  'inputs', 'every order of up to 3 distinct values and every sequence of choices the sums can lead to, for 2 and 3 groups, with and without initial sums; equal values; too many values',
  'the tests partition a few fixed lists',
  'partition.hh', [('Partition::calc_partitions', 'partition.hh')], harness=['C49_partition.cc'], min_roots=91)

P('C25', 'Case-insensitive comparison orders texts; word search finds whole words only',
  'Case-insensitive less-than is the lexicographic order of the lower-cased characters with a proper prefix first, and case-insensitive equality holds exactly when lengths and lower-cased characters agree. Word search answers true exactly when the lower-cased word occurs in the lower-cased name with a blank or an end of the name on either side. Every byte value is accepted: the character classification never sees a value outside unsigned char.',
  'inputs',
  'comparison: every pair of texts of lengths 0..4 by 0..5 (equality 0..5 by 0..5) in unknown bytes; word search: names of 0..5 unknown bytes over the blank patterns listed, words of 0..4 unknown bytes (inside the small-string capacity)',
  'tests sample a few dozen names; the byte-and-position space is 2^64 and the rejected near matches decide',
  'string_compare.hh contains_word.hh',
  [('less_ci','string_compare.hh'),('equal_ci','string_compare.hh'),('contains_word','contains_word.hh')],
  harness=['C25_compare.cc','C25_words.cc'], min_roots=200)

P('C26', 'Replacing text covers every occurrence and ends; splitting yields the tokens',
  'Replacing all occurrences turns a string into the one where every left-to-right non-overlapping occurrence of the searched text is replaced, text inserted is never searched again, an empty searched text changes nothing, and the operation always ends. Splitting appends exactly the maximal runs of non-delimiters, in order, after the tokens that were there before. Neither reads or writes outside its strings.',
  'inputs',
  'texts of up to 6 unknown characters over every pattern of occurrences of one or two searched characters, replacements of 0..3 characters; splitting texts of 0..5 characters over every pattern of one or two delimiters; std::string and std::vector stand for their defining equations',
  'there is no test; growth, shrinkage and self-containing replacements interact with the scan position',
  'string_util.hh',
  [('replace_all','string_util.hh'),('tokenize_string','string_util.hh')],
  harness=['C26_text.cc','C26_split.cc'], min_roots=350)

P('C23', 'Calibration fits the line through the measurements, and only the latest count',
  'A two-point calibration gives the slope and offset of the line through the two points, readings are mapped by exactly that line and back by its inverse, and every way of supplying the points is equivalent. A per-octave calibration takes slope and offset from the latest two octaves measured, keeps a measured lowest octave as the offset whatever follows, ignores the absent note and repeated octaves or values, and after a reset nothing from before counts.',
  'inputs histories', 'every slope, offset and reading for the mapping, 20 sets of points for the fit; every ordered pair of different octaves with unknown measurements, integer and float, from every state',
  'the tests run a few calibrations in one order; which measurements are paired depends on the history',
  'calibrator.hh voct_calibrator.hh', [('Calibrator', 'calibrator.hh'), ('VoctCalibrator', 'voct_calibrator.hh')],
  harness=['C23_calibrate.cc'], min_roots=1500)

P('C43', 'Software vector operations compute every lane from exactly its own operands',
  'Each stand-in for a vector instruction (duplicate, load, multiply, multiply-accumulate, subtract, maximum, pairwise add, halves and lanes) gives in every lane the result of that operation on that lane of its operands, and changes nothing but its result and its accumulator.',
  'inputs', 'every lane of every operation for every bit pattern of floats',
  'there are no tests; a swapped lane shows up only for operands that differ in just those lanes',
  'soft_neon.hh', [('float32x4_t operations', 'soft_neon.hh')], harness=['C43_neon.cc'], min_roots=40)

P('C45', 'An RGB LED shows its flash over its breathing over its base colour',
  'An LED shows, after each update, its flash colour while a flash lasts, else its breathing colour mixed in by the breathing phase, else its base colour, all calibrated and each channel on its own driver; setting one of these leaves the others as they were. A flash of a given number of milliseconds is over after the updates that make up that time, within one update.',
  'inputs histories', 'every colour, calibration and oscillator state; flash lengths from 1 ms to a minute at three update rates; brightness as integer and as float',
  'there are no tests; what is shown depends on the phase of two oscillators and on what was set when',
  'rgbled.hh', [('MixedRgbLed', 'rgbled.hh')], harness=['C45_rgbled.cc'], min_roots=80)

P('C35', 'Filtered sensor hand-off: announced readings are never lost or half-seen',
  'When a producer announces new readings while the consumer polls, the consumer reads them only after the producer\'s writes are visible to it and reads every channel exactly once per batch it takes. An announcement made while a batch is being read is not lost: it is taken by a later poll.',
  'schedules', 'every interleaving of one producer and one consumer; every path of both operations',
  'the lost announcement and the missing ordering need the other side to act in the middle of an operation',
  'filtered_interp_array.hh', [('mark_new_data_ready', 'filtered_interp_array.hh'), ('add_new_readings', 'filtered_interp_array.hh')],
  custom=[trace.handoff], technique=T_TRACE, note=NOTE_TRACE,
  rule='the flag is set with release and taken with acquire ordering, and cleared before the first reading is taken; all channels are read on every path that clears it')

NOTE = ('Holds for every input of every listed cell: the current sources are inlined into the obligations and each obligation is discharged by '
        'dataflow, without running anything. Trusts clang/LLVM 18 as front end and its transformations as abstract interpreter, the engine in engine/, '
        'and the stated template instantiations as representatives.')
