PEND = 'not claimed yet: the check is being built'

PARSERS = ['lib/utils.c', 'lib/gdb_frame.c', 'lib/gdb_thread.c', 'lib/gdb_stacktrace.c', 'lib/gdb_sharedlib.c', 'lib/koops_frame.c', 'lib/koops_stacktrace.c', 'lib/python_frame.c', 'lib/python_stacktrace.c', 'lib/java_frame.c', 'lib/java_thread.c', 'lib/java_stacktrace.c', 'lib/ruby_frame.c', 'lib/ruby_stacktrace.c', 'lib/js_frame.c', 'lib/js_stacktrace.c', 'lib/rpm.c', 'lib/unstrip.c', 'lib/operating_system.c', 'lib/abrt.c']

add('C01', 'Text readers stay inside the text and never crash on it',
    'Whatever text is handed to a reader of crash texts (GDB backtraces, kernel oopses, Python, Java, Ruby and JavaScript traces, shared library and unstrip listings, package names, release files), it never reads or steps over a position behind the terminating NUL or before the first character, never writes into the input, and never follows a null pointer or fails an assertion. Garbage, truncated or empty text leads to a reported failure or a partial result.',
    ['inputs'], 'all NUL-terminated texts, including truncations at every position',
    'the tests read some dozens of well-formed samples; a read past the end of a heap string rarely fails visibly',
    PARSERS, [('cursor primitives', 'lib/utils.c sr_skip_*, sr_parse_*'), ('stepping over an unchecked character, searches that find the terminator', 'lib/*_frame.c, lib/*_stacktrace.c')],
    technique='abstract interpretation of the text readers over position-wise character sets and distances in the text',
    level_note='Every function that takes a text or a cursor is run on a text of which nothing is known; each path it can take is an obligation. Loops are followed to a fixpoint over character sets, up to two allocations per loop; functions are summarised bottom-up. ' + TRUST)

add('C02', 'Absent attributes never crash an operation',
    'Every attribute of a stacktrace, thread, frame, package, operating system or report that the format allows to be missing may be missing, and every list may be empty: no operation then follows a null pointer, formats a missing text, or fails an internal assertion. Operations that a report type does not support at all are excepted.',
    ['inputs'], 'every exported operation on model structures, each combination "one attribute missing / one list empty / nothing present" and lists of one to three elements, for all report types',
    'the tests build mostly complete structures and touch few of the some 400 operations with each attribute missing',
    MODEL, [('presence tests before use', 'each *_to_json, *_cmp, *_append_*, *_free, *_dup')],
    technique='abstract interpretation (presence and nullness of every attribute)',
    level_note='Every exported operation taking a model structure is interpreted over a partition of its inputs by presence; a report names the instruction that follows the null pointer. ' + TRUST)

add('C03', 'JSON output is always well-formed',
    'Whatever attributes are present and whatever characters the texts contain, the text produced by a JSON writer conforms to the JSON grammar: every bracket is closed, every member name and text is quoted and escaped, no member name occurs twice in an object, and every number is printed at its full width and signedness.',
    ['inputs'], 'all values of all serialisable structures (presence of each attribute, list lengths 0 to 2, flags, zero and non-zero numbers, special characters in texts)',
    'tests compare a handful of complete structures; separators and escaping depend on the combination of present attributes',
    MODEL + ['lib/json_utils.c', 'lib/utils.c'], [('sr_json_append_escaped', 'lib/json_utils.c'), ('first separator is overwritten by the opening bracket', 'each *_to_json')],
    technique='abstract interpretation producing abstract text, parsed by a strict JSON grammar',
    level_note='The text each writer produces is computed abstractly (attribute values stay opaque tokens tagged with their escaping) and derived from the JSON grammar. ' + TRUST)

add('C04', 'Writing to JSON and reading back preserves every attribute',
    'For each structure that can be written to JSON and read from it, reading what was written succeeds, reports no error, and gives a structure whose every attribute and list element equals the original, at full numeric range. Absent attributes are absent afterwards.',
    ['inputs'], 'all values of all serialisable structures and all report types',
    'existing tests read fixed JSON samples or check a few members; a member written under one name and read under another, or truncated, passes them',
    MODEL + ['lib/json_utils.c'], [('*_to_json and *_from_json pairs', 'lib/*.c'), ('json_read_* accessors', 'lib/json_utils.c')],
    technique='abstract interpretation of writer and reader with token provenance, compared field by field',
    level_note='The abstract text of the writer is parsed and fed to the abstract interpretation of the reader; provenance tokens decide equality for all values. ' + TRUST)

add('C08', 'Comparisons agree with equality and order antisymmetrically',
    'Comparing a structure with itself or a copy gives zero, swapping the arguments flips the sign, and two structures that differ in an attribute the comparison covers (identity of frames, packages, threads) compare as different, whatever the values, their width or their absence. Lists compare element by element and a shorter list is smaller.',
    ['inputs'], 'all pairs of structures',
    'tests compare few pairs with small numbers; truncated differences of 64-bit values and one-sided absence are not sampled',
    ['lib/*_frame.c', 'lib/*_thread.c', 'lib/*_stacktrace.c', 'lib/rpm.c', 'lib/utils.c', 'lib/generic_frame.c', 'lib/generic_thread.c'],
    [('sr_strcmp0 and field differences', 'each *_cmp, *_cmp_distance')],
    technique='dataflow over IR: symbolic relation of the result to pairs of attributes',
    level_note='Each comparison is evaluated on a case partition of attribute pairs (equal, less, greater by 1 and by more than 32 bits, absent on one side); see sa/rel.py. ' + TRUST)

add('C05', 'A copy is deep and complete',
    'Duplicating a frame, thread, stacktrace, package list or other structure gives a structure equal to the original in every attribute and list element, which shares no memory with it: changing or releasing one never affects the other, and the original is unchanged. Operations documented to copy only the first element of a list do exactly that.',
    ['inputs'], 'all values of all structures that have a duplicating operation; every combination of one attribute missing',
    'tests duplicate few structures and compare few attributes; a shared pointer shows only once both copies are released or one is modified',
    MODEL, [('*_dup with siblings flag', 'lib/*.c')],
    technique='abstract interpretation; heap graphs of original and copy compared field by field',
    level_note='The heap after the copy is compared with the heap before it: same tokens at each field, disjoint objects. ' + TRUST)

add('C06', 'Releasing a structure releases all it owns, exactly once',
    'Freeing a structure releases each text, list element and nested structure it owns exactly once and touches nothing it does not own, whatever attributes are missing; freeing nothing (NULL) is allowed.',
    ['inputs', 'histories'], 'all structures with each combination of one attribute missing, lists of 0 to 3 elements',
    'a forgotten attribute is a silent leak and a doubly released one is silent without a checker',
    MODEL, [('*_free', 'lib/*.c')],
    technique='abstract interpretation with object states (live, freed)',
    level_note='After interpreting the release on a full heap graph, each object of the graph must be freed and freed once. ' + TRUST)

add('C07', 'New structures start out complete and empty',
    'A constructor or initialiser gives every attribute of its structure a defined starting value: texts and lists are absent, numbers have their documented neutral value, and the type of the structure is set, so each operation may be applied to a fresh structure at once. Initialising a used structure does not depend on its earlier contents.',
    ['inputs', 'histories'], 'all attributes of all structures with a constructor or an init function',
    'reading an uninitialised attribute depends on what the allocator returned',
    MODEL + ['lib/generic_frame.h', 'lib/generic_thread.h', 'lib/generic_stacktrace.h'], [('*_new, *_init', 'lib/*.c')],
    technique='abstract interpretation with uninitialised-memory tracking (definite initialisation)',
    level_note='The initialiser is interpreted on memory whose every field is marked undefined; each field of the structure\'s debug-info layout must be defined afterwards. ' + TRUST)

add('C09', 'A failed parse leaves the input alone and says what was wrong',
    'An exported parsing function that reports failure (NULL, false or 0) leaves the caller\'s cursor exactly where it was, so that the caller can try something else, and, when it takes a location, stores a message there; one that succeeds leaves the cursor at a place in the same text.',
    ['inputs'], 'all texts, every way a parser can fail',
    'tests check the cursor on a handful of failures; a moved cursor only shows when the caller goes on parsing',
    PARSERS, [('local cursor committed only on success', 'lib/*.c *_parse'), ('location->message on every failure path', 'lib/*.c *_parse')],
    technique='abstract interpretation of the text readers; relation between result, cursor and location on each path',
    level_note='Each failing path of each exported cursor function is an obligation on the cursor and on the message. ' + TRUST)

add('C10', 'Malformed JSON is reported, never accepted half-read or fatal',
    'Reading a JSON document that is not what the reader expects (an attribute, element or the whole document of a wrong type, a missing part, an unknown value) either succeeds with the odd attribute left out, or fails with no structure and an error message; it never crashes, never returns a structure together with an error message nor nothing without one, and works for a caller that does not want the message.',
    ['inputs'], 'every JSON reader on documents derived from each writer, with every single value replaced by each other JSON type, removed, or put out of range',
    'tests read some well-formed documents; the combinations wrong-type per attribute number in the thousands',
    MODEL + ['lib/json_utils.c'], [('json_check_type and json_read_*', 'lib/json_utils.c'), ('*_from_json', 'lib/*.c')],
    technique='abstract interpretation of readers over systematically mutated abstract documents',
    level_note='Each document node is mutated to each JSON type; result and error slot are read off the final abstract state. ' + TRUST)

add('C11', 'Operations leave nothing allocated behind',
    'After any operation on model structures, any JSON reader or any text reader has returned, and after the caller has released what it was given, no memory the operation allocated is left: every allocation is reachable from the result, an out-parameter or the input structure, or was released, also when the operation fails.',
    ['inputs'], 'every operation on model structures on every presence combination, every JSON reader on malformed documents, and every text reader on any text',
    'the tests do not check for leaks',
    MODEL + ['lib/json_utils.c', 'lib/normalize.c', 'lib/metrics.c', 'lib/cluster.c'], [('ownership of returned texts and elements', 'lib/*.c')],
    technique='abstract interpretation with reachability over the abstract heap at return',
    level_note='At each abstract return the objects allocated during the run must be reachable from roots the caller keeps. ' + TRUST)

add('C12', 'No operation uses released or uninitialised memory',
    'No operation on model structures, no JSON reader and no text reader releases memory twice, reads or writes released memory, reads memory never written, accesses memory outside an object, or leaves a pointer to released memory in a structure that lives on.',
    ['inputs'], 'every operation on model structures on every presence combination, every JSON reader on malformed documents, and every text reader on any text',
    'such accesses usually pass unnoticed in the test build',
    MODEL + ['lib/json_utils.c', 'lib/normalize.c', 'lib/metrics.c', 'lib/cluster.c'], [('list surgery in remove, limit and normalise operations', 'lib/*.c')],
    technique='abstract interpretation with object states and bounds',
    level_note='Each load, store and release of a run is an obligation on the state of the object it reaches. ' + TRUST)

add('C13', 'Queries do not change what they are asked about',
    'Comparing, hashing, formatting, serialising, searching, counting and duplicating leave their arguments exactly as they were: every attribute, list element and text. Two successive queries therefore agree.',
    ['inputs', 'histories'], 'every query operation on model structures on every presence combination',
    'tests look at the result of a query, not at its argument afterwards',
    MODEL + ['lib/utils.c', 'lib/metrics.c'], [('in-place edits during formatting or comparing', 'lib/*.c')],
    technique='abstract interpretation; argument heap before and after compared',
    level_note='The heap reachable from the arguments at return equals the heap at entry. ' + TRUST)

add('C14', 'Every report type is fully and consistently dispatched',
    'For every report type the generic interface reaches an implementation of that same type: the dispatch tables have an entry for each type, each entry belongs to the type of its table, entries other than the documented exceptions are present, and structures made by a type\'s constructors carry that type.',
    ['inputs'], 'all report types and all generic operations',
    'tests call a few generic operations on a few types; an entry of the wrong type or a missing one shows up only when that pair is used',
    ['lib/generic_frame.c', 'lib/generic_thread.c', 'lib/generic_stacktrace.c', 'lib/*_frame.c', 'lib/*_thread.c', 'lib/*_stacktrace.c', 'lib/report_type.c'],
    [('frame_methods, thread_methods, stacktrace_methods and dispatch tables', 'lib/generic_*.c, lib/internal_utils.h')],
    technique='constant evaluation of IR initialisers plus type analysis of each entry over debug info',
    level_note='Tables are read from the IR initialisers; each function\'s accessed structure type is computed through the call graph. ' + TRUST)

add('C19', 'Operations terminate',
    'Every operation on finite model structures and documents terminates: no loop makes a full turn without change, whatever attributes are missing and whatever elements are equal.',
    ['inputs'], 'every operation on model structures and every JSON reader on malformed documents; lists with equal elements included',
    'a hang needs a special list shape (a repeated element, a removed head)',
    MODEL + ['lib/normalize.c', 'lib/metrics.c', 'lib/cluster.c', 'lib/json_utils.c'], [('list walking loops', 'lib/*.c')],
    technique='abstract interpretation with detection of recurring loop states',
    level_note='A loop whose abstract state at the head recurs exactly never ends, as the interpretation of a run is deterministic. ' + TRUST)

add('C24', 'What is obtained from the system is given back',
    'Every file descriptor, ELF handle, unwinding session, rpm transaction, rpm database iterator and rpm tag that an operation obtains is given back exactly once by the time it returns (or is part of its result), on success and on each of its failures; none is used after it was given back.',
    ['fault_sequences'], 'every public operation that reads files, ELF files, core files or the rpm database, with each call into those libraries succeeding and failing',
    'tests cannot make libelf, libdw or librpm fail at a chosen call; a descriptor lost on a failure path shows in a long-lived daemon only',
    ['lib/elves.c', 'lib/core_unwind.c', 'lib/core_unwind_elfutils.c', 'lib/rpm.c', 'lib/utils.c', 'lib/abrt.c'],
    [('elf_end and close on every return', 'lib/elves.c'), ('fail_dwfl, fail_elf, fail_close ladder', 'lib/core_unwind.c open_coredump'), ('rpmtsFree, rpmdbFreeIterator', 'lib/rpm.c')],
    technique='abstract interpretation with resource typestate: acquisitions fork into success and failure, counted and tracked to every return',
    level_note='The callbacks that libdwfl calls (find_elf, thread and frame callbacks) are not followed. ' + TRUST)

add('C26', 'A failed operation says why; a successful one leaves no message',
    'A public operation that is given an error pointer and fails (returns NULL, false or a negative number) has stored there an allocated message that the caller can print and release; when it succeeds, no message is stored.',
    ['inputs', 'fault_sequences'], 'every public operation with an error pointer other than the JSON readers (which are in C10), for all contents of the files and all failures of the libraries it uses',
    'callers print and free the message of a failure unconditionally: a failure path without one is a crash in the error handling, which tests do not reach',
    ['lib/abrt.c', 'lib/elves.c', 'lib/core_unwind.c', 'lib/core_unwind_elfutils.c', 'lib/rpm.c', 'lib/utils.c', 'lib/generic_stacktrace.c', 'lib/js_platform.c', 'lib/disasm.c', 'lib/callgraph.c'],
    [('set_error, set_error_elf, set_error_dwfl', 'lib/internal_unwind.h'), ('*error_message = g_strdup_printf', 'lib/*.c')],
    technique='abstract interpretation of each operation; relation between result and error slot on each path',
    level_note='NULL without a message from a function that returns a list is taken for the empty list; unwinding may return what it has together with a message. ' + TRUST)

add('C29', 'List operations keep exactly the right elements, in order',
    'Appending, prepending, removing, cutting, sorting, merging and counting elements of frame, thread, package and entry lists leave exactly the promised elements in the promised order, terminate the list, release what is removed and nothing else, and return a result that tells what was done; at the first, the last, the only and an absent element alike.',
    ['inputs', 'histories'], 'all list operations of all types on lists of 0 to 4 elements and every position',
    'tests use one list per operation for few types; head, tail and missing positions differ per type',
    ['lib/*_frame.c', 'lib/*_thread.c', 'lib/*_stacktrace.c', 'lib/generic_thread.c', 'lib/rpm.c', 'lib/report.c', 'lib/gdb_sharedlib.c', 'lib/json_utils.c'],
    [('*_append, *_remove_frame, *_remove_frames_above, *_limit_frame_depth, ...', 'lib/*.c')],
    technique='abstract interpretation; resulting list compared with the specified sequence of objects',
    level_note='Element identity is tracked in the abstract heap, so the result holds for all element contents; lists beyond four elements are covered by uniformity of list loops only. ' + TRUST)

NA = 'not claimed by a static check: '
add('C15', 'Report distances are symmetric, within range and zero for equal threads',
    'The distance of two threads is symmetric, lies between 0 and 1 (or is a count for Levenshtein and Damerau), and is 0 for equal threads.',
    ['inputs'], 'all pairs of threads', 'tests compare a few pairs',
    ['lib/metrics.c', 'lib/distance.c'], [('distance functions', 'lib/metrics.c')],
    na=NA + 'the value is an arithmetic function of frame counts, positions and floating point exponentials; bounding it needs numeric reasoning over loops (a solver or execution). Their memory behaviour, termination and effect on the arguments are in C11, C12, C13 and C19')
add('C16', 'Clustering yields the dendrogram that the distances define',
    'Clusters merge in order of average distance and cutting the dendrogram at a level yields exactly the clusters below it.',
    ['inputs'], 'all distance matrices', 'tests use one matrix',
    ['lib/cluster.c'], [('sr_distances_cluster_objects, sr_dendrogram_cut', 'lib/cluster.c')],
    na=NA + 'the result depends on comparisons of floating point sums over matrices of any size; no static argument in reach bounds them')
add('C17', 'Distance matrices computed in parts equal those computed at once',
    'Distances computed in any number of parts and merged equal the matrix computed in one go.',
    ['inputs', 'schedules'], 'all numbers of threads and parts', 'tests use a few splits',
    ['lib/distance.c'], [('sr_distances_part_*', 'lib/distance.c')],
    na=NA + 'the partition is integer arithmetic on matrix positions; showing that it covers each pair once for every size is a proof by induction, not a dataflow fact')
add('C18', 'Text readers extract exactly the values that the text states',
    'Every value of a parsed structure is the one written at its place in the text.',
    ['inputs'], 'all well-formed texts of each format', 'tests read a few texts per format',
    PARSERS, [('sr_*_parse', 'lib/*.c')],
    na=NA + 'there is no specification of the formats other than the parsers; a static oracle would restate them. What holds for every text (staying inside, failing cleanly, nothing lost) is in C01, C09, C11 and C12')
add('C20', 'Normalization is idempotent and keeps the frames that matter',
    'Normalizing a normalized thread changes nothing; frames that are not listed as uninteresting stay, in order.',
    ['inputs'], 'all threads', 'tests normalize a few threads',
    ['lib/normalize.c'], [('sr_normalize_*', 'lib/normalize.c')],
    na=NA + 'which frames are removed depends on texts compared with several hundred names; idempotence relates two runs on the same texts. That nothing is lost, released twice or read after release there is in C11 and C12')
add('C22', 'Hashes of stack traces stay the same between versions',
    'The duplication hash and the backtrace hash of a given structure never change.',
    ['histories'], 'all structures', 'tests compare a few hashes',
    ['lib/*_frame.c', 'lib/*_thread.c'], [('*_append_duphash_text, *_append_bthash_text', 'lib/*.c')],
    na=NA + 'the only oracle is the recorded value of an earlier version; a static check would freeze the source text and alarm on every refactoring')
add('C27', 'Unwinding a core file yields the frames of the process',
    'The frames read from a core file are those of the threads of the process that dumped it.',
    ['inputs'], 'all core files', 'tests use one core file',
    ['lib/core_unwind.c', 'lib/core_unwind_elfutils.c'], [('sr_parse_coredump', 'lib/core_unwind_elfutils.c')],
    na=NA + 'the frames come from libdw; the code here only copies them. Resources and errors of unwinding are in C11, C24 and C26')
