"""Source of properties.jsonl and MANIFEST.json (run gen_manifest.py after editing).

P(id, title, statement, over, text, why, files, mechanism, observe, technique, note)
"""
PROPS = []
NOT_APPLICABLE = []  # (id, reason)


def P(id, title, statement, over, text, why, mech, technique, note, observe=None):
  assert len(title) <= 80, (id, len(title))
  files = list(dict.fromkeys(w.split(':')[0] for _, w in mech))
  PROPS.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe or [], hook_needed=None),
      technique=technique, note=note))


P('F01', 'Shared ownership releases every object exactly once',
  'An object held through shared handles stays alive and unchanged while at least one handle owns it, and is destroyed exactly once, by whoever drops the last handle, with every write made by earlier owners visible to the destructor. Copying, moving, swapping, self-assigning and resetting handles never changes which object the other handles see. The bare reference counter tells exactly one caller, for any mix of its increment and decrement forms, that it was the last one.',
  ['histories', 'schedules'], 'every sequence of copy/move/assign/swap/reset operations over any number of handles and objects, and every interleaving of owners on several threads',
  'refcount_test samples a handful of single-threaded sequences; it never checks a whole history against an ownership model, nor visibility of writes at destruction.',
  [('reference counter', 'arolla/util/refcount.h'), ('owning handle', 'arolla/util/refcount_ptr.h')],
  'model-based PBT (ASan/UBSan) plus generated thread schedules under ThreadSanitizer',
  'Histories up to 50 operations over 5 slots; thread plans up to 6 threads, scheduling itself is left to the OS, so an interleaving is sampled and TSan generalises over happens-before.')
P('F02', 'Index-based iteration behaves as a random-access sequence',
  'Iterating a container by position visits exactly its elements in order. Every arithmetic move, difference, subscript and comparison of positions agrees with plain integer arithmetic on the index, in both directions, for containers that return elements by reference or by value. Standard algorithms over such iterators give the same results as over an ordinary vector.',
  ['inputs', 'histories'], 'all container contents and sizes and all sequences of iterator operations inside the container',
  'iterator_test checks one small array and a few operators; a wrong sign or an off-by-one in a rarely used operator survives.',
  [('index iterator', 'arolla/util/iterator.h')],
  'model-based PBT against integer arithmetic', 'Containers up to 40 elements, histories up to 25 moves.')
P('F03', 'Bit-vector operations act on exactly the requested bits',
  'Counting, searching, setting, copying and intersecting bits in a packed vector gives the same result as doing it one bit at a time, for every word width, bit offset, alignment and length. Bits outside the requested destination range of a copy or range-set keep their values, the source is never modified, and no memory outside the words that hold the ranges is touched.',
  ['inputs'], 'all bit patterns, 32/64-bit words, start offsets and lengths, including empty and word-aligned ranges',
  'Unit tests use a few offsets and patterns; the word-shifting code has many alignment cases that only generated offsets and lengths reach.',
  [('single bit and range operations', 'arolla/util/bits.h'), ('shifted copy / and', 'arolla/util/algorithms.h'), ('intersection kernels', 'arolla/util/algorithms.cc'), ('range counting', 'arolla/util/bits.cc')],
  'differential PBT against a bit-at-a-time model, exact-size buffers under ASan', 'Vectors up to 6 words for shifts and 40 words for whole-word kernels.')
P('F04', 'Parallel execution runs every task exactly once and waits for all',
  'Running a list of tasks in parallel executes each task exactly once, never more than the requested number at the same time, and returns only after all of them have finished with their effects visible to the caller; the requested number of tasks really can make progress concurrently. A started thread can be joined in any order, and joining it waits for its own work.',
  ['schedules', 'inputs'], 'all task counts, durations, parallelism settings and thread interleavings',
  'The threading test runs one fixed small workload; dropped, duplicated or unsynchronised tasks need particular counts and timings.',
  [('task executor and std threads', 'arolla/util/threading.cc'), ('interface', 'arolla/util/threading.h')],
  'PBT over generated workloads, with and without ThreadSanitizer', 'Up to 1200 tasks and 10 workers; real OS scheduling.')
P('F05', 'Shared cells, per-thread values and one-shot events are thread-safe',
  'A shared cell always returns the last pointer stored and keeps it alive for the reader even when another thread replaces it. A per-thread variable shows each thread the initial value until that thread writes, and afterwards only that thread\'s own writes. A one-shot event starts unset, wakes every waiter, stays set forever, tolerates repeated notification and publishes everything written before it.',
  ['histories', 'schedules'], 'all operation sequences by one or several threads',
  'Tests cover one or two fixed sequences; lost updates and stale reads depend on the history and on the interleaving.',
  [('shared pointer cell', 'arolla/util/thread_safe_shared_ptr.h'), ('per-thread value', 'arolla/util/threadlocal.h'), ('one-shot event', 'arolla/util/permanent_event.h')],
  'model-based PBT, thread schedules under ThreadSanitizer', 'Up to 6 threads and 30 operations each; the TSan build replaces the uninstrumented system mutex by an equivalent one.')
P('F06', 'Searching and ordered enumeration agree with their specification',
  'Every search over a sorted range (exponential, galloping, plain lower and upper bound) returns the same position as a linear scan, for all numeric types, duplicates, empty ranges, infinities and custom orders. Enumerating the keys of an unordered container yields each key once in ascending order. Rounding up returns the smallest multiple of the divisor that is not below the value.',
  ['inputs'], 'all sorted sequences, keys and orders; all key sets; all non-negative values and positive divisors',
  'Unit tests use short hand-written sequences; the switch-over between linear and binary phases depends on sizes and positions.',
  [('exponential search and rounding', 'arolla/util/algorithms.h'), ('binary and galloping search', 'arolla/util/binary_search.h'), ('small-array kernels', 'arolla/util/binary_search.cc'), ('key enumeration', 'arolla/util/map.h')],
  'differential PBT against the standard library', 'Sequences up to 200 elements.')
P('F07', 'Named accessor packs, zero memory and type names are faithful',
  'Packing alternating names and values keeps every pair, in order, with values moved or copied unchanged. The shared zero-filled memory block is aligned, large enough for its advertised size and entirely zero however often it is requested. The printable name of a C++ type is its source spelling.',
  ['inputs'], 'all names and values packed; all offsets in the shared block; the listed types',
  'The test packs one fixed list; nothing scans the zero block.',
  [('name/accessor packing', 'arolla/io/accessor_helpers.h'), ('zero block', 'arolla/util/preallocated_buffers.cc'), ('type names', 'arolla/util/demangle.cc')],
  'PBT round-trip', 'Packs up to three pairs (a compile-time arity).')
P('F08', 'Scalar arithmetic and comparison follow wrap-around and IEEE rules',
  'Integer add, subtract, multiply, negate and abs wrap around modulo 2^n without undefined behaviour. Floor division and modulo round towards minus infinity and give the remainder the sign of the divisor, consistently with each other; dividing by zero is an error, never a crash. Floating-point operations follow IEEE semantics: min and max propagate NaN, sign, floor, ceil, round (halves away from zero), the is_nan/is_inf/is_finite tests and ordinary comparisons behave as documented for every value including infinities, signed zeros and denormals.',
  ['inputs'], 'all pairs of 32/64-bit integers and float/double values, including extremes, infinities and NaN',
  'Unit tests list a few pairs per operator; overflow corners, sign combinations and special values are far too many to list.',
  [('arithmetic functors', 'arolla/qexpr/operators/math/arithmetic.h'), ('comparison functors', 'arolla/qexpr/operators/bool/comparison.h')],
  'differential PBT against 128-bit integer and exact-invariant oracles, under UBSan',
  'Modulo of floats is compared only while the dividend is below a quarter of the largest value and the quotient below 1e6, because the intermediate product may overflow or lose all digits beyond that.')
P('F09', 'Mathematical functions return the value of the function they are named for',
  'Logarithms, exponentials, powers, roots, logit, sigmoid, log-sigmoid, symmetric log, trigonometric and hyperbolic functions agree with the mathematical function within a few units of rounding over the whole input domain, in both precisions, including limits and undefined points. Inverse distribution functions are monotone, invert the distribution function, and reject probabilities or parameters outside their domain with an invalid-argument error instead of returning a number.',
  ['inputs'], 'all float/double arguments; all probabilities and distribution parameters, valid or not',
  'Unit tests compare a few hand-computed values; cancellation, overflow or a wrong branch for large or negative arguments is not visible there.',
  [('elementary functions', 'arolla/qexpr/operators/math/math.h'), ('inverse distribution functions', 'arolla/qexpr/operators/math_extra/cdf.h')],
  'differential PBT against extended-precision references; inverse relation for distributions',
  'Distribution parameters are limited to 0.5..1000, where the reference itself is trustworthy; sin/cos to |x| < 1e6.')
P('F10', 'Piecewise-linear curves interpolate their control points',
  'A curve passes through its control points, is constant outside them, and between two neighbouring points is linear in the transformed coordinate of its kind (plain, log, log1p, symmetric log1p), the same for float, double, scalar and span evaluation. Infinite end points extrapolate the adjacent segment and are rejected when unreachable. The textual form of a curve parses back to the same kind and the same points exactly, with any allowed separator; malformed text, mismatched coordinate lists and x values that are not strictly increasing are rejected.',
  ['inputs'], 'all lists of control points, curve kinds, query points and textual specifications',
  'curves_test checks a few curves at a few points; interpolation near duplicates, ends and in transformed space needs arbitrary curves.',
  [('curve construction, parsing and evaluation', 'arolla/pwlcurve/curves.cc'), ('interface', 'arolla/pwlcurve/curves.h')],
  'differential PBT against extended-precision interpolation; round-trip PBT for the text form',
  'Up to 10 control points with moderate coordinates; NaN coordinates are outside the domain.')
P('F11', 'Dominator analysis of control-flow graphs is exact',
  'A graph is accepted exactly if it is non-empty, all edges go to larger existing ids and every node is reachable; edges and reverse edges are then reported in order. For every accepted graph the dominator tree gives each node its immediate dominator and depth, a node is reported to have an empty dominance frontier exactly when it has one, and externalising a set of nodes re-hangs just those nodes from their dominators without changing any dominator.',
  ['inputs'], 'all acyclic control-flow graphs and all subsets of nodes to externalise',
  'The test has a handful of small graphs; a wrong ancestor or frontier only appears for particular join shapes.',
  [('graph, dominator tree and frontier', 'arolla/algorithm/control_flow_graph.cc'), ('interface', 'arolla/algorithm/control_flow_graph.h')],
  'differential PBT against a reachability-based definition', 'Up to 17 nodes.')
P('F12', 'Initializers run once, in dependency order, or the conflict is reported',
  'Registered initializers all run exactly once, each after everything it depends on and before everything that declared it as a reverse dependency, transitively and across several registration rounds, whatever the registration order. Name collisions, circular or missing dependencies, ordering requests against already executed initializers and failing initializers are reported as errors; phony names only order others.',
  ['inputs', 'histories'], 'all dependency graphs, registration orders and rounds of registration',
  'The unit test has fixed small graphs; an ordering mistake needs a particular combination of transitive, reverse and phony dependencies.',
  [('coordinator', 'arolla/util/init_arolla_internal.cc'), ('registration', 'arolla/util/init_arolla.h')],
  'model-based PBT over generated dependency graphs', 'Up to 9 initializers per round and two rounds.')
P('F13', 'Text helpers and value representations denote what they show',
  'Identifier and qualified-name tests accept exactly the documented grammar. Truncation keeps a prefix and marks the cut; typo detection is true exactly for strings at most one insertion, deletion, substitution or transposition apart. The representation of a number parses back to exactly that number and shows its type, and the representation of text or bytes is a quoted literal that denotes exactly the value, with every special character escaped.',
  ['inputs'], 'all strings, byte sequences and numeric values',
  'Unit tests compare a few literals; escapes, extreme numbers and edit patterns are unbounded.',
  [('string helpers', 'arolla/util/string.h'), ('truncation and typos', 'arolla/util/string.cc'), ('number representation', 'arolla/util/repr.cc'), ('text representation', 'arolla/util/text.cc'), ('bytes representation', 'arolla/util/bytes.cc'), ('operator names', 'arolla/util/operator_name.h')],
  'differential PBT against naive definitions; inverse relation for representations',
  'Strings up to 40 characters for helpers, 30 for literals (longer ones are abbreviated by design).')
P('F14', 'Checked integer helpers detect exactly the overflows',
  'Checked addition, multiplication and absolute value return the mathematical result when it fits the requested type and report an overflow exactly when it does not, for mixed signedness and widths, and never clear an overflow already recorded. Index dispatch calls its callback exactly once with the requested compile-time index, and sorted keys of a map are complete and in order.',
  ['inputs'], 'all integer values and type combinations, all dispatch indices, all maps',
  'Unit tests check a few boundary constants for one type combination.',
  [('checked arithmetic', 'arolla/util/overflow.h'), ('index dispatch', 'arolla/util/switch_index.h'), ('sorted keys', 'arolla/util/map.h')],
  'differential PBT against 128-bit arithmetic', 'Six type combinations.')
P('F15', 'The least-recently-used cache never loses, mixes up or overstays entries',
  'A lookup returns the value most recently stored under that key, or nothing if it was evicted. When the total weight exceeds the capacity, entries are dropped in order of oldest access until it fits or only one is left, and their values are released; a lookup refreshes an entry, storing under an existing key replaces its value and weight.',
  ['histories'], 'all sequences of store, lookup and clear with any weights, keys and capacities',
  'The unit test follows a few scripted sequences.',
  [('cache', 'arolla/util/lru_cache.h')],
  'stateful model-based PBT under ASan', 'Histories up to 60 operations over 7 keys, capacities 1..7.')
P('F16', 'Cancellation is delivered once to every live subscriber',
  'The first cancellation of a context decides its status for ever. Every callback still subscribed at that moment runs exactly once, callbacks subscribed later run immediately once, unsubscribed ones do not run; detaching keeps a subscription, moving a handle does not change it, and no callback outlives its context. The current context of a thread follows the nesting of its scopes, and cancellation checks report the status of the innermost one. All of this holds with concurrent subscribers and cancellers.',
  ['histories', 'schedules'], 'all sequences and interleavings of subscribe, drop, detach, move, cancel and scope operations',
  'Unit tests cover single operations; list handling and the race between subscribing and cancelling need generated histories and schedules.',
  [('cancellation contexts', 'arolla/util/cancellation.cc'), ('interface', 'arolla/util/cancellation.h')],
  'stateful model-based PBT (ASan) and generated thread schedules on real threads', 'Three contexts, histories up to 40 operations; up to 4 subscribing and 2 cancelling threads.')
P('F17', 'Errors keep their code, message, payload and chain of causes',
  'Attaching a cause, payload, note, source location or new message to an error changes only that part, and the resulting chain of causes with their payloads can be read back in full, for any chain, from any copy, also after other copies are gone. Lifting helpers return all values or the first error in argument order, and do not call the wrapped function when an argument is an error.',
  ['histories', 'inputs'], 'all sequences of error decoration over shared errors; all mixes of values and errors',
  'Unit tests build one or two link chains; sharing and replacing parts of longer chains is not exercised.',
  [('structured errors', 'arolla/util/status.cc'), ('lifting helpers', 'arolla/util/status.h')],
  'model-based PBT over error-building histories under ASan', 'Histories up to 13 operations.')
P('F18', 'Fingerprints identify values',
  'Two values combined into a fingerprint give the same fingerprint if they are the same sequence of fields, and different fingerprints if the encoded contents differ in any bit, length, order or salt, regardless of whether the data crosses internal buffer boundaries. The printed form identifies the fingerprint, and random fingerprints do not repeat.',
  ['inputs'], 'all sequences of integers, strings, raw bytes and spans, of any length',
  'Unit tests compare a few short values; buffering and length prefixes matter only for particular sizes and neighbours.',
  [('hasher', 'arolla/util/fingerprint.h'), ('buffer flushing', 'arolla/util/fingerprint.cc')],
  'metamorphic PBT (near-identical pairs, re-encodings)', 'Sequences up to 9 fields and 600-byte strings; a genuine 128-bit collision is assumed not to occur.')
P('F19', 'Table paths and naming policies in C++ are faithful',
  'Building paths from segments, sizes, keys, values and columns keeps exactly those segments; the full name, the parent index path, prefix removal, ordering, equality and hashing agree with the list of segments. A protopath id parses back to the path it was made from and must start with a slash. Each naming policy formats table and column paths by its documented rule. The compact representation of split points lists the part sizes, abbreviated in the middle.',
  ['inputs'], 'all paths of plain, array, map and extension segments, all policies; all split points',
  'Unit tests format a few paths per policy.',
  [('paths', 'arolla/naming/table.cc'), ('path types', 'arolla/naming/table.h'), ('policies', 'arolla/naming/policy.cc'), ('protopath ids', 'arolla/naming/protopath_id.cc'), ('split point representation', 'arolla/jagged_shape/util/repr.cc')],
  'differential PBT against list-of-segments models', 'Up to 6 segments per path.')
P('G01', 'Accessor collections are sorted, unique, complete and evenly sharded',
  'A collection of named accessors lists every distinct name once, in sorted order, with the accessor that was given for it; two different accessors under one name are rejected with exactly the conflicting names reported, while exact repeats are merged. Splitting into shards loses, repeats and reorders nothing, respects the limits on the number or size of shards, has no empty shard and is balanced to within one. Merging and filtering (by name, by predicate, by the inputs or outputs of models with an optional name prefix) keep exactly the accessors that qualify, in order.',
  ['inputs', 'configurations'], 'all lists of (name, accessor) pairs including default names, duplicates, conflicts; all shard limits; all filters',
  'accessors_test has a few lists; model filtering, merging and name predicates have no stable test at all.',
  [('sorting, duplicates, shards', 'arolla/codegen/io/accessors.py'), ('filters and merging', 'arolla/codegen/io/accessor_generator.py')],
  'Hypothesis against reference definitions', 'Lists up to 30 accessors.')
P('G02', 'Build-time function calls evaluate each call once with the given arguments',
  'Evaluating a nested specification replaces every function-call node by the result of calling that function exactly once, inner calls first, with the specified positional and keyword arguments, and leaves all other data and the specification itself unchanged. A specification written by the build rules survives encoding, make-variable expansion and shell quoting and is evaluated with the same arguments. Unknown modules, non-callable objects and unmarked dictionaries are errors; merged dictionaries prefer later values.',
  ['programs', 'inputs'], 'all nested specifications of lists, dictionaries, scalars and calls; all texts needing quoting',
  'utils_test evaluates three hand-written specifications and the quoting macro is never run against a shell-level model.',
  [('evaluation', 'arolla/codegen/utils.py'), ('encoding and quoting', 'arolla/codegen/utils.bzl'), ('accessor generator flag', 'arolla/codegen/io/flag_utils.py')],
  'Hypothesis: recursive specifications against a reference evaluator; encode/quote round-trip', 'The build macros run as Python with stand-ins for Bazel; Bazel itself is not available. Texts in which the shell would expand a dollar sign are excluded (the macro does not promise them).')
P('G03', 'Template rendering and text helpers produce the text that was asked for',
  'Rendering a template evaluates the calls in its context once and substitutes exactly their values; an undefined variable is an error rather than empty text. Escaped text denotes exactly the original bytes, derived identifiers are valid and stable, removing the prefix shared with the previous string removes exactly the longest shared prefix, and wrapping or indenting code changes nothing but layout.',
  ['inputs', 'programs'], 'all texts, byte strings and contexts',
  'The golden tests render one template and a few strings.',
  [('rendering, escaping, identifiers', 'arolla/codegen/render_jinja2_template.py'), ('prefix removal', 'arolla/codegen/utils.py:remove_common_prefix_with_previous_string'), ('lambda wrapping', 'arolla/codegen/io/jinja_util.py'), ('array filling code', 'arolla/codegen/io/array_generator.py')],
  'Hypothesis against reference definitions and inverse functions', 'Texts up to 50 characters.')
P('G04', 'Generated C++ names and includes are valid, canonical and collision-free',
  'A qualified C++ name round-trips through its parts, and an include compares, sorts and prints by its canonical spelling. Header guards are valid macro names that distinguish targets of one package. For one loader, operator names derived from accessor names are valid identifiers and different accessor names never share one.',
  ['inputs'], 'all namespaces, names, headers, build targets and printable accessor names',
  'cpp_test lists about ten names; collisions need pairs of names.',
  [('names, includes, guards, mangling', 'arolla/codegen/io/cpp.py')],
  'Hypothesis: round-trip, injectivity on near-identical pairs', 'ASCII accessor names (others are rejected by the generator).')
P('G05', 'Column names follow the table path and the naming policy',
  'The name of a column, size column, map key/value table or nested table is its path of field, index, key and extension accesses joined by slashes, independent of how the path was built, and extending a path never changes its parent. Each naming policy is a pure reformatting of that name: unchanged, joined by one or two underscores, or reduced to the last component unless it is a size. The four-part wildcard flag is split exactly and anything else is rejected.',
  ['inputs', 'histories'], 'all sequences of path extensions, all policies, all flag values',
  'Names are only tested through a few protopath examples; the naming module has no test of its own in the generator.',
  [('table and column paths', 'arolla/codegen/io/table.py'), ('policies', 'arolla/codegen/io/protopath.py:default_name_modifiers'), ('flag parsing', 'arolla/codegen/io/flag_utils.py')],
  'Hypothesis against reference definitions', 'Paths up to 6 segments.')
P('G06', 'Protopath texts denote exactly one path',
  'Parsing a protopath yields, in order, exactly the accesses it spells, split at each repeated access; every equivalent spelling (leading slash, quote style, attached or separate @key and @value) parses to equal elements, and different accesses are never equal. Default names follow from the path alone. The text, type, default value and array form asked for are those of the accessor that is returned. Double slashes, empty or unrecognised elements, an inner count, a wrong number of wildcards, missing array generators and impossible mutable accessors are rejected.',
  ['inputs'], 'all sequences of accesses and all their spellings, with and without a broken element at any position',
  'protopath_test needs generated protos and is not part of the stable tests; it lists fixed paths.',
  [('parsing and elements', 'arolla/codegen/io/protopath.py:Protopath'), ('naming', 'arolla/codegen/io/table.py')],
  'Hypothesis: paths drawn as segments, rendered and parsed back, against the segment model', 'Up to 6 segments; map keys without slashes, quotes, brackets or @.')
P('G07', 'Trees of protopaths contain every requested path once, merged where possible',
  'Building the access tree of a set of protopaths takes exactly the accessors of the right kind, in order, and leaves the others untouched. Every accessor has its own leaf carrying its name, accessor and size flag; common beginnings are shared, repeated requests are kept apart, wide nodes are split into groups of at most eight without changing the paths. A path that continues below an earlier leaf is rejected. Numbering, depth, ancestors, leaf kinds, includes, comments and the emitted C++ tree all agree with that tree.',
  ['inputs', 'histories'], 'all lists of single and multi value paths with shared beginnings, duplicates and wide nodes',
  'multi_protopath_test has about fifteen small trees; splitting, presence and numbering interact only in larger ones.',
  [('trees', 'arolla/codegen/io/multi_protopath.py')],
  'Hypothesis: model trees built from segments, compared node by node', 'Up to 27 paths of up to 6 segments.')
P('G08', 'The collection plan of repeated paths gives every leaf a usable start',
  'For every set of repeated paths, each leaf starts from a collected ancestor inside the same loops as the leaf, or from its own innermost loop together with collected values of the parent and the total size; the cheaper start by the stated costs is chosen. Exactly those nodes are collected, deepest first, never the root, and a node is marked as having something to collect below it exactly when it does.',
  ['inputs'], 'all sets of repeated paths with shared beginnings',
  'The tests show three or four hand-written trees; the choice depends on branching, fictive nodes and costs together.',
  [('plan', 'arolla/codegen/io/multi_protopath.py:nodes_for_intermediate_collection'), ('start', 'arolla/codegen/io/multi_protopath.py:MultiValueProtopathTreeNode.intermediate_start_node')],
  'Hypothesis: plan recomputed on a model tree from the documented definition', 'Up to 27 paths; ties in cost within 1e-6 are not decided.')
P('G09', 'Accessors derived from a message type cover exactly its readable fields',
  'For every message type, the derived list has, sorted by name, one accessor for every non-message field reachable without entering a message twice on the way, sizes for repeated fields, text types for strings only, and extensions when given; maps, skipped fields, repeated extensions, repeated fields without an array generator, and in mutable mode repeated primitives, are left out and everything below skipped fields with them. Extensions are collected per extended type wherever they are declared. Importing a message class by its full name gives that class or an error.',
  ['configurations', 'inputs'], 'all message schemas with nesting, recursion, maps, enums and extensions, and all options',
  'Only the test protos of the repository are ever traversed, in tests outside the stable set.',
  [('traversal', 'arolla/codegen/io/protopath.py:accessors_from_descriptor'), ('extensions', 'arolla/codegen/io/protopath.py:collect_extensions_per_containing_type'), ('import', 'arolla/codegen/io/protopath.py:import_proto_class')],
  'Hypothesis: random file descriptors against an independent traversal of the schema model', 'Up to 5 messages with 5 fields each; schemas whose names collide under the policy are only counted.')
P('G10', 'A generated input loader gives exactly what the described paths denote',
  'For any valid set of accessors over any message or struct, the generated code compiles, and the loader writes into each requested slot exactly the value its path denotes in the given input: nested fields, indices, map keys, extensions, pointers, sizes, arrays over (nested) repeated fields and sorted maps, casts, defaults and wildcards. A value is missing exactly when something on its path is. Every load overwrites what the previous one left. Which other names are requested, and how the loader is split into shards, makes no difference; names and types are exactly those described.',
  ['inputs', 'configurations', 'histories'], 'all accessor sets over a rich schema, all subsets of requested names, all inputs, and successive loads into one frame',
  'The C++ tests of generated loaders use fixed specifications and a few messages and do not run with the Python tests; generated text is only compared with golden strings.',
  [('accessor code', 'arolla/codegen/io/protopath.py'), ('path trees', 'arolla/codegen/io/multi_protopath.py'), ('single value template', 'arolla/codegen/io/input_loader_single_value_proto.cc.jinja2'), ('array template', 'arolla/codegen/io/input_loader_multi_value_proto.cc.jinja2'), ('loader template', 'arolla/codegen/io/input_loader.cc.jinja2'), ('runtime part', 'arolla/codegen/io/multi_loader.cc'), ('wildcards', 'arolla/io/wildcard_input_loader.cc'), ('requests', 'arolla/io/input_loader.cc')],
  'generated specifications compiled and run (ASan/UBSan) against a protobuf-reflection interpreter of the paths', 'One random batch of specifications per seed (about 12 loaders quick, 40 thorough), each with thousands of generated inputs; DenseArray only.')
P('G11', 'A generated slot listener stores exactly the values it was given',
  'For any valid set of mutable accessors, the generated code compiles, and the listener stores every present value at the place its path denotes, resizes repeated fields to the requested sizes before storing into their elements, leaves everything else in the output as it was, ignores missing values, and rejects an array whose size does not match the output.',
  ['inputs', 'configurations'], 'all mutable accessor sets over a rich schema, all subsets of bound names, all outputs and values',
  'Existing C++ listener tests use fixed specifications and do not run with the Python tests.',
  [('mutable accessors', 'arolla/codegen/io/protopath.py'), ('listener generator', 'arolla/codegen/io/slot_listener_main.py'), ('listener template', 'arolla/codegen/io/slot_listener.cc.jinja2'), ('single values', 'arolla/codegen/io/slot_listener_single_value_proto.cc.jinja2'), ('lambdas', 'arolla/codegen/io/slot_listener_accessors.cc.jinja2'), ('resizing', 'arolla/io/proto_types/types.h')],
  'generated specifications compiled and run (ASan/UBSan) against a reflection model of stores', 'Whether an empty parent message is left behind for a requested but missing value is not checked; paths that index into a field that is also resized are not generated.')
P('G12', 'A single protopath accessor means its path wherever it is used',
  'The accessor made for one protopath compiles against the message or struct it names, including fields named like C++ keywords, and on its own, outside of the merged path trees of a loader, gives what the path denotes: an optional value, a value with a default, a size, or an array over repeated fields, map keys or map values, present exactly when everything on the path is. A wildcard accessor does so for every key, and the generated wildcard loader answers exactly the names of its pattern.',
  ['inputs', 'configurations'], 'all single, repeated, size, default and wildcard paths over a rich schema, on all inputs',
  'The generator tests compare the text of accessors with golden strings for a few paths and are not among those that run; the text is never compiled and executed there.',
  [('accessor code', 'arolla/codegen/io/protopath.py'), ('array code', 'arolla/codegen/io/array_generator.py'), ('accessor loader', 'arolla/codegen/io/input_loader_accessors.cc.jinja2'), ('wildcard loaders', 'arolla/codegen/io/wildcard_input_loaders.cc.jinja2'), ('accessor invocation', 'arolla/io/accessor_helpers.h')],
  'generated accessors compiled and run (ASan/UBSan) against a protobuf-reflection interpreter of the paths', 'One random batch of about 40 accessors per seed (120 thorough), each with thousands of generated inputs.')
P('A01', 'Buffers keep their contents under every way of building, slicing and copying',
  'A buffer built by any builder, inserter, conversion or reshuffle, from any buffer factory, reads back exactly the values set; slices, shallow and deep copies, and copies that outlive their source agree with the same operation on a plain list; equal contents give equality and equal hashes, different contents different fingerprints. Raw buffers from heap, protobuf arena and unsafe arena factories are aligned, never overlap while alive, and keep their prefix when reallocated.',
  ['inputs', 'histories'], 'all value lists (strings with shared, empty and shrunk storage), factories and sequences of buffer operations',
  'Unit tests build a few short buffers; defects live in offsets of slices of copies of slices.',
  [('strings', 'arolla/memory/strings_buffer.cc'), ('strings interface', 'arolla/memory/strings_buffer.h'), ('simple buffers', 'arolla/memory/simple_buffer.h'), ('factories', 'arolla/memory/raw_buffer_factory.cc'), ('void buffers', 'arolla/memory/void_buffer.h')],
  'stateful generated buffer operations against a list model (ASan/UBSan)', 'Buffers up to a few thousand elements.')
P('A02', 'A dense array is a list of optional values whatever its physical form',
  'For any values, presence bits, bit offset and ownership, every way to read a dense array gives the same optional values: indexing, iterators, per-word and per-group loops, counts and presence tests; builders, constant and empty constructors, slices, copies, forced bit offsets and equality agree with a list of optional values, and so do fingerprints in that different arrays differ.',
  ['inputs'], 'all arrays of numbers, text, bytes and units in all physical forms',
  'Bit offsets, shared bitmaps and partial last words are sampled by a handful of unit tests.',
  [('dense array', 'arolla/dense_array/dense_array.h'), ('non-template parts', 'arolla/dense_array/dense_array.cc'), ('bitmaps', 'arolla/dense_array/bitmap.h')],
  'generated dense arrays against a list model (ASan/UBSan)', 'Up to about 200 elements per array.')
P('A03', 'An array denotes the same values in every form and through every conversion',
  'An array given as ids, values and a value for the missing ids, with any ids offset, or in dense or constant form, reads as the same list of optional values by every access path; changing its ids keeps the values at the kept ids; conversion to dense or sparse form (with any missing-id value), slices, copies and counts preserve the list; equivalence is equality of lists; different arrays have different fingerprints. Id filters are sets of ids: merge contains the union, intersection and common-id iteration are exact.',
  ['inputs'], 'all arrays in all forms with arbitrary ids, offsets and missing-id values',
  'The product of forms, offsets, missing-id values and nested slices is far beyond the examples in unit tests.',
  [('array', 'arolla/array/array.h'), ('array source', 'arolla/array/array.cc'), ('id filter', 'arolla/array/id_filter.cc'), ('id filter interface', 'arolla/array/id_filter.h')],
  'generated arrays in every physical form against a list model (ASan/UBSan)', 'Up to about 200 elements per array.')
P('A04', 'Bitmap primitives are exact for every bit offset and length',
  'Reading bits and words at an offset, counting bits in a range, tests for all set or none, intersection of bitmaps with different offsets, grouped iteration, and both bitmap builders agree bit by bit with a list of booleans; an absent bitmap means all present.',
  ['inputs'], 'all bit patterns, lengths and bit offsets',
  'Unit tests use few lengths and offsets; errors show only at particular word boundaries.',
  [('bitmaps', 'arolla/dense_array/bitmap.h'), ('source', 'arolla/dense_array/bitmap.cc')],
  'generated bit patterns against a list of booleans (ASan/UBSan)', 'Up to 200 bits at offsets 0 to 31.')
P('A05', 'An edge is a mapping from children to parents in every representation',
  'For dense and sparse edges: mapping and split-points forms, conversions between forms and between dense and sparse edges, composition of chains, equivalence and fingerprints agree with the plain child-to-parent mapping; conversion to split points succeeds exactly for sorted full mappings; invalid mappings, split points and chains are rejected.',
  ['inputs'], 'all child-to-parent mappings, in both representations and physical forms, and all chains',
  'Composition and conversion have separate code per combination of forms; unit tests sample few.',
  [('dense edges', 'arolla/dense_array/edge.cc'), ('array edges', 'arolla/array/edge.cc')],
  'generated edges against the mapping itself (ASan/UBSan)', 'Up to 30 children and chains of a few edges.')
P('A06', 'Pointwise array operations equal the row-by-row computation',
  'Applying a function to rows of dense and sparse arrays, optional arguments included, gives in every row exactly what applying it to that row alone gives: missing where a required argument is missing, the function\'s own result elsewhere, whatever the representation of the arrays (dense form, id filters, default for missing ids, bitmap offsets). The function is never called on values of rows that do not exist; it fails exactly if it fails for some row, and rejects arguments of different sizes. Iterating over present rows, all rows or missing ranges visits each row once, in order, with its value.',
  ['inputs'], 'all arrays of numbers, text, units and booleans in every representation, one to four arguments, total and failing functions',
  'Each combination of representations takes its own path (dense, equal filters, merged filters, values for missing ids); tests fix a few combinations.',
  [('dense operations', 'arolla/dense_array/ops/dense_ops.h'), ('universal dense operation', 'arolla/dense_array/ops/universal_dense_op.h'), ('multi-array iteration', 'arolla/dense_array/ops/util.h'), ('sparse pointwise operations', 'arolla/array/pointwise_op.h'), ('sparse iteration', 'arolla/array/ops_util.h')],
  'differential PBT of every representation against a row-by-row model (ASan/UBSan)', 'Arrays up to about 300 rows.')
P('A07', 'Group operations equal the per-group computation',
  'Aggregating, partial and full group operations over dense and sparse arrays give, for every group, exactly what the accumulator gives when reset with the group\'s own values and fed the group\'s rows one by one in order: rows whose required values are missing are left out, groups whose required values are missing have no result, rows without a group have no result. The representation of the edge (split points, mapping, a single group) and of the arrays never matters. The operation fails if the accumulator fails, and when sizes do not fit. Operations over several edges apply each row exactly once, in order, to the state of its group.',
  ['inputs'], 'all edges and arrays in every representation, aggregating, partial and full accumulators with and without group values, optional values and row ids',
  'Every combination of edge kind, sparsity and accumulator kind has its own loop (very sparse data, dense splits, mappings); tests fix a few.',
  [('dense group operations', 'arolla/dense_array/ops/dense_group_ops.h'), ('sparse group operations', 'arolla/array/group_op.h'), ('several edges, dense', 'arolla/dense_array/ops/multi_edge_util.h'), ('several edges, sparse', 'arolla/array/multi_edge_util.h'), ('accumulator interface', 'arolla/qexpr/aggregation_ops_interface.h')],
  'differential PBT with order-sensitive accumulators against a per-group model (ASan/UBSan)', 'Up to 300 groups and 70 rows.')
P('A10', 'Aggregations compute what their names say for every group',
  'Sum, product, mean, minimum, maximum, median, inverse CDF, weighted average and CDF, count, any, all, three-valued logical aggregation, collapse, join, arg-min and arg-max, ordinal and dense rank, inverse mapping, take-over and group-by give for every group the value of their definition: missing values are ignored where they should be, NaN wins or is ranked last, ties go by the stated order, empty groups give the neutral or missing value, invalid offsets, permutations and keys are errors. Repeated equal rows fed at once count the same as one by one.',
  ['inputs'], 'all groups of values, NaNs, ties, initial values, quantiles and offsets, in every array and edge representation',
  'Ties, NaNs, missing rows and constant runs interact; unit tests have a few rows each.',
  [('accumulators', 'arolla/qexpr/operators/aggregation/group_op_accumulators.h'), ('driven by', 'arolla/array/group_op.h'), ('and by', 'arolla/dense_array/ops/dense_group_ops.h')],
  'differential PBT against naive definitions (ASan/UBSan)', 'Float values are small multiples of 1/2, so sums are exact and the order of additions cannot matter.')
P('A08', 'A jagged shape is its list of partitions under every operation',
  'For dense and array jagged shapes: construction, sizes and edges, slicing of dimensions, adding dimensions, flattening any range, edges between any two dimensions, broadcast checks, equality, equivalence with and without edge forms, and fingerprints agree with nested lists of sizes, and invalid inputs are rejected.',
  ['inputs'], 'all jagged shapes up to rank 4 or so, with all ranges of dimensions',
  'Unit tests show a few shapes of rank two or three.',
  [('jagged shape', 'arolla/jagged_shape/jagged_shape.h'), ('dense', 'arolla/jagged_shape/dense_array/jagged_shape.h'), ('array', 'arolla/jagged_shape/array/jagged_shape.h')],
  'generated shapes against nested lists (ASan/UBSan)', 'Rank up to five with few elements per row.')
P('A09', 'Memory frames construct, place and destroy every slot exactly once',
  'For any sequence of slot declarations and nested frame layouts, slots never overlap, are aligned, start default-initialised (zero bytes for trivial types), and hold what was stored independently of each other; every object in one or many frames is constructed and destroyed exactly once; presence sub-slots agree with the optional value they belong to.',
  ['inputs', 'histories'], 'all frame layouts with nested frames, mixed types and alignments, allocated once or in arrays',
  'Layout packing and initialisation depend on the whole sequence of fields; unit tests use a few layouts.',
  [('frame layouts', 'arolla/memory/frame.h'), ('source', 'arolla/memory/frame.cc'), ('allocation', 'arolla/memory/memory_allocation.h')],
  'generated layouts and stores with object tracking (ASan/UBSan)', 'Up to a few dozen fields and two levels of nesting.')
P('D01', 'Pointwise forest evaluation equals walking every tree',
  'For every decision forest, every tree filter and every row, the pointwise evaluator - in whichever of the regular, bitmask and single-input algorithms are enabled - gives for each group the weighted sum of exactly the adjustments reached by walking each selected tree by its split conditions, a missing input or NaN failing interval conditions; group outputs do not disturb each other or other slots.',
  ['inputs'], 'forests of all shapes (oblivious, single input, deep, single leaf), conditions at infinities, NaNs and adjacent floats, groups by step and submodel',
  'Which algorithm evaluates a tree depends on its shape and size; unit tests compare them on one random generator with tame thresholds.',
  [('evaluator', 'arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc'), ('bitmasks', 'arolla/decision_forest/pointwise_evaluation/bitmask_eval.h'), ('single input', 'arolla/decision_forest/pointwise_evaluation/single_input_eval.cc'), ('regular', 'arolla/decision_forest/pointwise_evaluation/pointwise.h')],
  'generated forests against a naive tree walk (ASan/UBSan)', 'Adjustments are small multiples of 1/4, so sums do not depend on the order of additions.')
P('D02', 'Batched forest evaluation equals pointwise evaluation row by row',
  'For dense and array inputs of any kind, sparse or not, the batched evaluator gives for every row and every group the value of walking the trees on that row, whatever the number of rows, the split of the forest into several pointwise evaluators, and the minimum rows per thread; missing rows, empty batches, missing outputs and inputs of other sizes or types are handled or rejected as declared.',
  ['inputs', 'schedules'], 'all batches (0 to several hundred rows, around page sizes), forests split by the size limit, one and several threads',
  'Rows are copied in pages, forests are cut in parts and parts are added up; errors show only for particular row counts and sizes.',
  [('batched', 'arolla/decision_forest/batched_evaluation/batched_forest_evaluator.cc'), ('header', 'arolla/decision_forest/batched_evaluation/batched_forest_evaluator.h')],
  'generated batches against a naive tree walk (ASan/UBSan)', 'Thread use is exercised with the real threading interface; races are only looked for by comparing results.')
P('D03', 'Forest structures mean what they store',
  'Split conditions decide, hash, compare, remap inputs and show consistently with their definition; a tree is oblivious exactly when every layer has one condition, and the oblivious form gives the same leaf; DecisionForest accepts exactly the well-formed trees, reports required inputs and step counts, equal forests share fingerprints and different ones do not; tree filters select exactly the trees in their step range and submodels.',
  ['inputs'], 'all conditions, trees with one kind of damage each, and pairs of filters',
  'Validity depends on any node of the tree; unit tests damage one fixed tree.',
  [('forest', 'arolla/decision_forest/decision_forest.cc'), ('conditions', 'arolla/decision_forest/split_conditions/interval_split_condition.h'), ('oblivious', 'arolla/decision_forest/pointwise_evaluation/oblivious.cc')],
  'generated trees against a model (ASan/UBSan)', 'Trees of up to a few dozen nodes.')
P('E01', 'Expression nodes are identified by structure; traversals see each once',
  'Two expression nodes have the same fingerprint exactly when they are the same: the same leaf or placeholder key, literals of equal values of one type, or the same operator over the same arguments in the same order, however the nodes were made; the key, value, operator, dependencies and attributes of a node are those it was made from. Traversals (visitor order, post-order, pre- and post-visits, leaf and placeholder keys) visit every distinct node once, dependencies before dependents, in the depth-first order of arguments, and a chain of tens of thousands of nodes or exponentially many paths through shared nodes is handled like any other.',
  ['inputs'], 'expressions of up to forty nodes with sharing, over operators of any arity, literals of all types; chains of twenty thousand nodes',
  'Hash identity and traversal order matter for arbitrary graphs; unit tests look at a few small trees.',
  [('nodes', 'arolla/expr/expr_node.cc'), ('visitors', 'arolla/expr/expr_visitor.cc'), ('keys', 'arolla/expr/expr.cc')],
  'generated graphs against a structural model', 'Fingerprint collisions by chance are ruled out by their 128 bits.')
P('E02', 'Operator signatures bind arguments as their specification says',
  'A signature made from a specification string and default values has the parameters, kinds, defaults and auxiliary policy written there, and formats back to a string that makes the same signature; ill-formed ones (repeated or invalid names, parameters after a variadic one, a required parameter after an optional one, missing or extra defaults) are rejected. Binding positional and keyword arguments to a signature gives each parameter its argument or its default, the rest in order to the variadic parameter, and fails exactly when an argument is missing, superfluous, repeated or unknown; validation of the number of dependencies agrees.',
  ['inputs'], 'signatures of up to six parameters, up to eight positional and five keyword arguments',
  'Parameter kinds, defaults and keyword order combine freely; unit tests bind half a dozen signatures.',
  [('signatures', 'arolla/expr/expr_operator_signature.cc'), ('bind', 'arolla/expr/expr.cc')],
  'generated specifications and argument lists against a model', '')
P('E03', 'Optimized compiled evaluation equals operator by operator evaluation',
  'For any well-typed expression over the standard operators and any inputs: if applying the operators one by one gives a value, then compiling the expression (with no optimizer, the default one or the codegen one), binding it to slots in any order with any compiler options and running it, once or repeatedly, gives the same value of the same type, for the result and for every named output, and leaves the inputs alone unless overriding them is allowed. Replacing leaves by literals of their values, and expanding operators into the expressions that define them, changes nothing either.',
  ['inputs'], 'expressions of up to ten applications of some 300 operators over scalars, optionals, dense and sparse arrays, edges, shapes, tuples, sequences, dicts and operators; left hand sides of the optimization rules with any arguments',
  'Optimization rules interact with types (weak floats, optionals, units) and values (NaN, missing, empty shapes) in combinations; unit tests try each rule on one combination.',
  [('optimizations', 'arolla/expr/optimization/peephole_optimizations/presence.cc'), ('optimizer', 'arolla/expr/optimization/peephole_optimizer.cc'), ('preparation', 'arolla/expr/eval/prepare_expression.cc'), ('casting', 'arolla/expr/eval/casting.cc'), ('compiler', 'arolla/expr/eval/eval.cc'), ('slots', 'arolla/expr/eval/slot_allocator.cc'), ('where', 'arolla/expr/eval/compile_where_operator.cc')],
  'generated expressions, differential against a node by node interpreter', 'The standard operators come from a snapshot committed in the repository (an older format, adapted). Sums of inexact floats may be reassociated and are not compared then. Backend operators themselves are trusted here (other properties check them). One known finding: see DESIGN.md.')
P('E04', 'Serialized values and expressions are read back as they were',
  'For any serializable values (scalars, optionals, arrays, edges, shapes, tuples, named tuples, slices, sequences, labeled values, objects, jagged shapes, quotes, decision forests, types, operators of every kind) and any expressions: Encode succeeds, and Decode of the container, also after passing through its bytes, gives the same values and expressions in the same order, equal in every observable detail and with the same fingerprints; operators keep their names, signatures, default values, docs and constraints. Encoding is deterministic, stores every value and expression once, and encoding what was decoded gives the same bytes. Containers laid out differently with the same meaning (version 1, steps in another order, unused and empty steps, usage counts, no codec indices, bitmaps and characters written by hand from the format) decode to the same. Sets of named expressions round-trip. A corrupted container is rejected with an error, or decodes to something that encodes and decodes again; it never crashes the decoder.',
  ['inputs'], 'values nested up to four deep, operators up to three deep, expressions up to ten operators, up to three corruptions',
  'Every codec composes with every other one, and what a decoder rejects is a matter of arbitrary corruption; unit tests have an example of each kind.',
  [('encoder', 'arolla/serialization_base/encoder.cc'), ('decoder', 'arolla/serialization_base/decoder.cc'), ('container', 'arolla/serialization_base/container_proto.cc'), ('api', 'arolla/serialization/encode.cc'), ('sets', 'arolla/serialization/utils.cc'), ('generic codecs', 'arolla/serialization_codecs/generic'), ('dense arrays', 'arolla/serialization_codecs/dense_array'), ('arrays', 'arolla/serialization_codecs/array'), ('objects', 'arolla/objects/s11n/s11n.cc'), ('sequences', 'arolla/sequence/s11n/s11n.cc'), ('labels', 'arolla/derived_qtype/s11n/codec.cc'), ('jagged shapes', 'arolla/jagged_shape/dense_array/serialization_codecs/decoder.cc')],
  'generated values and expressions: round trip, format written by hand, metamorphic layouts, mutated containers', 'The riegeli container is not built here. Empty arrays come in one of their representations.')
P('E05', 'Expression transformations replace just what they should, everywhere',
  'Substitution by name, by leaf or placeholder key and by fingerprint replaces every occurrence and nothing else, at once (replacements are not replaced again); Transform rebuilds an expression bottom-up, calling the function once for each node with its new dependencies; DeepTransform also transforms what it produced, until nothing changes, reports cycles, and tells of every new dependency; unchanged parts stay the same nodes. Lambda operators expand to their bodies with the arguments in place of parameters, also variadic and nested, and lowering an expression (one level or all the way) keeps its type and meaning. Errors of the callback come out.',
  ['inputs'], 'expressions of up to twenty operators, any rewriting function over them, nested lambdas',
  'What a rewriting does depends on sharing, on order and on its own output; unit tests rewrite single chains.',
  [('substitution', 'arolla/expr/visitors/substitution.cc'), ('transform', 'arolla/expr/expr_visitor.cc'), ('lambda', 'arolla/expr/lambda_expr_operator.cc'), ('lowering', 'arolla/expr/expr.cc')],
  'generated expressions and rewritings against a naive model', '')
P('E06', 'Model executors give the same answers however they are run',
  'For any expression and inputs: a model executor, run repeatedly with different inputs, on the heap, on the stack, in an arena, cloned, or from several threads through the thread-safe executors, gives each time the value of the expression for that input; results stay valid after the arena is reused; exported nodes reach the slot listener under their names, exactly those listened, and names nobody listens to are reported unless ignored; output casting gives the exactly cast value, and forcing a non-optional output fails exactly for missing values.',
  ['inputs', 'histories', 'schedules'], 'expressions as for E03, up to five inputs and eight runs, four threads',
  'State left in frames and arenas by one run shows up in a later one; unit tests run an executor once or twice.',
  [('executor', 'arolla/expr/eval/model_executor.h'), ('casting', 'arolla/expr/eval/model_executor.cc'), ('threads', 'arolla/expr/eval/thread_safe_model_executor.h'), ('side outputs', 'arolla/expr/eval/side_output.cc')],
  'generated expressions and run sequences against a naive interpreter', 'Thread schedules are those of the machine.')
P('E07', 'Implicit casts lead to the least common type and keep values',
  'The common type of a set of types is the least type to which each of them may be implicitly cast (scalars along integers and along floats, weak floats below the others, then optional, then arrays), does not depend on order or repetition, and there is none across dense and sparse arrays or unrelated types; broadcasting adds just the array shape. Type properties (scalar, optional, shape, presence, size types; with another scalar; with an optional) agree with each other. Casting a node implicitly to a type succeeds exactly if the type is reachable that way, and the cast expression evaluates to the exactly cast value: the same numbers as a C++ conversion, missing stays missing, sizes stay.',
  ['inputs'], 'up to five types of ten scalars in four shapes and eleven others; arrays of up to eight',
  'There are thousands of combinations of types; unit tests try the usual ones.',
  [('common type', 'arolla/qtype/standard_type_properties/common_qtype.cc'), ('properties', 'arolla/qtype/standard_type_properties/properties.cc'), ('casting', 'arolla/expr/operators/casting_registry.cc')],
  'generated sets of types and values against a model of the lattice', '')
P('E08', 'Inferred types and values are those evaluation gives, whatever is known',
  'For any expression over the standard operators: if attributes (type, or value) of all leaves are known and inference gives a type or a value, evaluation gives a value of that type, equal to that value; forgetting values or types of some leaves never makes inference fail where it succeeded, and what it still infers is the same as before. Populating types of leaves from outside gives annotated leaves and the types of all nodes, fails exactly for unknown leaves or types that contradict annotations, and leaves the rest of the expression alone.',
  ['inputs'], 'expressions of up to ten applications of some 300 operators',
  'Every operator infers by its own rules, for any subset of known arguments; unit tests give it two or three.',
  [('attributes', 'arolla/expr/expr_attributes.h'), ('backend types', 'arolla/expr/operators/register_operators.cc'), ('leaf types', 'arolla/expr/qtype_utils.cc'), ('lambda', 'arolla/expr/lambda_expr_operator.cc'), ('preparation', 'arolla/expr/eval/prepare_expression.cc')],
  'generated expressions: inference against evaluation, and against inference knowing less', '')
P('E09', 'Operators see the elements of arrays, not how they are stored',
  'For any expression over the standard operators: if the same values are given in another physical representation (other values behind missing elements, a bitmap where all are present, dense, sparse or constant forms with any default value, slices of larger arrays with bit offsets, shared or unowned buffers, edges likewise), the outcome is the same value, element by element, or an error again.',
  ['inputs'], 'expressions of up to ten applications of some 300 operators, arrays of up to nineteen elements',
  'Operators have fast paths for each representation; unit tests make arrays in the usual way.',
  [('sparse pointwise', 'arolla/array/pointwise_op.h'), ('dense pointwise', 'arolla/dense_array/ops/dense_ops.h'), ('array operators', 'arolla/qexpr/operators/array/array_ops.h'), ('edges', 'arolla/qexpr/operators/array/edge_ops.h'), ('presence', 'arolla/qexpr/operators/dense_array/logic_ops.h'), ('aggregation', 'arolla/dense_array/ops/dense_group_ops.h'), ('search', 'arolla/qexpr/operators/math/binary_search.h')],
  'generated expressions, metamorphic over representations of the inputs', 'Dense arrays carry no bit offset into expressions (the engine excludes it). Quantiles of distributions are left out.')
P('E10', 'Operators treat arrays as they treat each of their elements',
  'A pointwise operator applied to arrays (dense or sparse, of any size, with scalars and optionals mixed in) gives, at each position, what it gives for the optional elements at that position, missing where that is missing, and fails only if it fails for some element; and every operator that takes arrays gives the same result for sparse arrays as for dense arrays of the same elements.',
  ['inputs'], 'every standard operator that accepts the argument types, arrays of up to a hundred and thirty elements', 
  'Each operator is lifted to arrays separately, with its own loops over words, ids and defaults; tests try a handful of arrays on some operators.',
  [('lifting to dense arrays', 'arolla/dense_array/ops/dense_ops.h'), ('sparse pointwise', 'arolla/array/pointwise_op.h'), ('optional lifting', 'arolla/qexpr/lift_to_optional_operator.h'), ('array operators', 'arolla/qexpr/operators/array/array_ops.h'), ('presence', 'arolla/qexpr/operators/dense_array/logic_ops.h')],
  'generated operator applications, metamorphic: array against its elements, sparse against dense', '')
P('E11', 'Operators over groups look at one group at a time',
  'An operator that takes an edge or a whole array (aggregations, cumulative and ranking operators, and the like) gives for each group what it gives for the elements of that group alone: no group affects another, whatever the edge (split points, mapping in any order, with elements in no group, to a scalar) and the kind of array.',
  ['inputs'], 'every standard operator over an edge, arrays of up to a few dozen elements in any number of groups',
  'State shared between groups shows only for particular mixtures of groups; tests use one or two short arrays.',
  [('dense groups', 'arolla/dense_array/ops/dense_group_ops.h'), ('array groups', 'arolla/array/group_op.h'), ('accumulators', 'arolla/qexpr/operators/aggregation/group_op_accumulators.h'), ('lifting groups', 'arolla/qexpr/operators/array/edge_ops.h')],
  'generated operator applications, metamorphic: all groups against each group alone', '')
P('E12', 'Aggregations, cumulative and ranking operators compute what they say',
  'Each of the operators over groups (sum, prod, mean, median, min, max, var, std, skew, kurtosis, cdf, inverse_cdf, covariance, correlation, weighted_average, softmax, cumulative min/max/sum/count, count, any/all, logical any/all, collapse, agg_index, ordinal_rank, dense_rank, inverse_mapping) gives, for the present elements of each group, the value its documentation defines: missing elements are skipped, groups without any give missing (or the documented value for the empty group), options such as unbiased, descending, tie breakers, weights and initial values have their documented effect; whatever the edge (split points, mapping in any order, to a scalar, elements in no group), the kind of array and the numeric type.',
  ['inputs'], 'arrays of up to about fifty elements in up to eight groups, all numeric types, all options',
  'The result depends on the mixture of missing elements, ties, group orders and options; tests use one or two short arrays per operator.',
  [('accumulators', 'arolla/qexpr/operators/aggregation/group_op_accumulators.h'), ('dense groups', 'arolla/dense_array/ops/dense_group_ops.h'), ('array groups', 'arolla/array/group_op.h'), ('definitions', 'py/arolla/operators/standard/math.py')],
  'generated operator applications against a naive model written from the documentation', 'Left out where the documentation says nothing: ranks among NaNs, overflow of integer products, skew of equal values.')
P('E13', 'Arithmetic, casts, comparisons and logic compute what they say',
  'Pointwise operators give for every element the value their documentation defines: integer arithmetic wraps or rejects division by zero as documented, floordiv and mod round towards minus infinity, fmod towards zero, rounding and powers and logarithms follow the mathematical function within rounding error, minimum and maximum propagate NaN; casts between numeric types give the nearest value or an error when it does not fit, and to booleans; comparisons follow the IEEE order; three-valued logic, presence operators, where, has, const_like and the bitwise operators follow their truth tables; searchsorted finds the documented position; missing arguments give missing results except where documented otherwise.',
  ['inputs'], 'all numeric types and pairs of them, scalars, optionals and arrays of every kind, edge values of every type',
  'The corners (extremes, negative divisors, halves, infinities, NaN, values just out of range) lie in pairs of types and values that tests sample a few of.',
  [('arithmetic', 'arolla/qexpr/operators/math/arithmetic.h'), ('math', 'arolla/qexpr/operators/math/math.h'), ('casts', 'arolla/qexpr/operators/core/cast_operator.h'), ('logic', 'arolla/qexpr/operators/core/logic_operators.h'), ('comparison', 'arolla/qexpr/operators/core/utility_operators.h'), ('booleans', 'arolla/qexpr/operators/bool/logic.h'), ('bitwise', 'arolla/qexpr/operators/bitwise/bitwise.h')],
  'generated operator applications against a model in wide arithmetic', '')
P('E14', 'String operators compute what they say',
  'Searching, counting, replacing, stripping, slicing and splitting count in characters for texts and in bytes for bytes, honour their start, end, limit and separator arguments as documented, and agree with each other; join and its aggregation put every present piece once in order; encode and decode are exact inverses on valid UTF-8 and invalid bytes are rejected; parsing accepts exactly the documented spellings of numbers and returns the nearest value or missing/an error, rendering round-trips; regular expressions match and extract as documented; printf, format and f-string style formatting insert each argument where the format says and reject malformed formats.',
  ['inputs'], 'strings of up to about twenty characters from a small alphabet with multi-byte and invalid sequences, all operators',
  'Off-by-one and character-against-byte mistakes appear only for particular offsets near multi-byte characters, empty needles and limits.',
  [('strings', 'arolla/qexpr/operators/strings/strings.h'), ('find', 'arolla/qexpr/operators/strings/find.cc'), ('joins', 'arolla/qexpr/operators/strings/array_traits.h'), ('join', 'arolla/qexpr/operators/strings/join.h'), ('format', 'arolla/qexpr/operators/strings/format.cc'), ('split', 'arolla/qexpr/operators/strings/split.h')],
  'generated operator applications against a model over code points', 'The rendering of floats by {x} is checked by reading it back only.')
P('E15', 'Array, edge and dict operators compute what they say',
  'The operators that build, cut, reorder, concatenate, select, expand, interleave, resize, look up and deduplicate arrays, those that build edges from sizes, split points, mappings or keys, group, compose, resize, pair and describe them, and those that build and query dicts give exactly the elements, mappings, sizes and shapes their documentation defines, for scalars, optionals, dense arrays and arrays in every form; ill-formed arguments (negative or out of range offsets and sizes, duplicated keys, unsorted split points, mismatched sizes) give an error and never a wrong answer or a bad access.',
  ['inputs'], 'arrays of up to about ninety elements, edges of every kind with up to eight groups, dicts of up to fifteen keys',
  'Wrong answers come from particular combinations of missing elements, empty groups, unsorted mappings and boundary offsets.',
  [('array operators', 'arolla/qexpr/operators/array/array_ops.h'), ('array edges', 'arolla/qexpr/operators/array/edge_ops.h'), ('dense arrays', 'arolla/qexpr/operators/dense_array/array_ops.h'), ('dense edges', 'arolla/qexpr/operators/dense_array/edge_ops.h'), ('dicts', 'arolla/qexpr/operators/dict/dict_operators.h'), ('edges', 'arolla/dense_array/edge.cc')],
  'generated operator applications against a model over lists', 'Resizing groups takes only edges held as split points.')
P('E16', 'Sequence and tuple operators compute what they say',
  'Making, indexing, slicing, zipping and concatenating tuples, and the size, indexing, slicing, zipping, range and all/any/all_equal operators of sequences give exactly the fields and elements their documentation defines, with negative and missing bounds read as documented, and reject indices that are out of range and sequences of different sizes; results do not depend on which arguments are literals.',
  ['inputs'], 'tuples and sequences of up to eight elements of several types, all bounds around the ends',
  'Bounds that are negative, unspecified, crossed or just outside are a grid tests sample at a few points.',
  [('tuples', 'arolla/expr/tuple_expr_operator.cc'), ('sequence', 'arolla/sequence/sequence.h'), ('sequence operators', 'arolla/qexpr/operators/seq/sequence_operators.h'), ('definitions', 'py/arolla/operators/standard/seq.py')],
  'generated operator applications against a model over lists', '')
P('E17', 'Operators on types and named tuples answer for every type',
  'Each operator that classifies a type, takes it apart (scalar, value, shape, presence, float, edge, field, key, base types and names), makes one (tuple, slice, sequence, dict, a value type in a shape, broadcasting, the common type of two, a conditional choice, a slice of fields) gives what the structure of the type says, and NOTHING where there is no answer, for every type however nested, whether the types are literals or not and whatever ran before; named tuples are made, united (later fields win, first order stays) and read by name, and duplicated or missing names are rejected.',
  ['inputs'], 'types nested up to three deep over all scalar types, arrays, edges, shapes, tuples, named tuples, slices, sequences and dicts; named tuples of up to four fields',
  'Type inference of every other operator rests on these; they are tested on a handful of types each.',
  [('operators', 'arolla/qexpr/operators/bootstrap'), ('properties', 'arolla/qtype/standard_type_properties/properties.cc'), ('common', 'arolla/qtype/standard_type_properties/common_qtype.cc'), ('named tuples', 'arolla/qtype/named_field_qtype.h'), ('definitions', 'py/arolla/operators/standard/qtype.py')],
  'generated types and operator applications against a model of types', '')
P('E18', 'Sampling, hashing and random integers follow their keys and seeds',
  'random.cityhash is the 63-bit CityHash of the text of its argument under the seed for each element, whatever the array; random.sample keeps exactly the present keys whose hash is under the ratio; random.sample_n keeps of each group the at most n present keys with the lowest hashes, the first of equal ones, and none where n is missing; array.randint_with_shape gives integers within its bounds, missing where a bound is, in the size of the shape, the same for the same seed and others for another seed, and rejects empty ranges and bounds of other sizes.',
  ['inputs'], 'arrays of up to 130 elements of both kinds in every form, keys of all types, any seed',
  'Samples must stay the same over runs, machines and representations; tests look at one sample.',
  [('hash', 'arolla/qexpr/operators/random/random.h'), ('dense randint', 'arolla/qexpr/operators/dense_array/random.h'), ('array randint', 'arolla/qexpr/operators/array/random.h'), ('ranks', 'arolla/qexpr/operators/aggregation/group_op_accumulators.h'), ('definitions', 'py/arolla/operators/standard/random.py')],
  'generated operator applications against a model over CityHash', '')
P('I01', 'Input loaders fill exactly the bound slots with the named inputs',
  'Any tree of loaders (accessors of all signatures, wildcards with formats, keys and callbacks, chains, prefixes into sub-inputs, filters, owning wrappers, loaders made on demand, tuples, spans, typed refs) knows exactly the names it should with their types; Bind succeeds exactly for known names and matching slots, PartialBind takes exactly the names it supports; running fills each bound slot with the value of the first loader that knows the name and touches nothing else; accessor errors come out; unknown names are reported with suggestions one typo away; duplicated names are rejected.',
  ['inputs'], 'all trees of loaders up to depth four, all subsets of names, all inputs',
  'Composition is where loaders interact; unit tests bind one combinator at a time with two or three names.',
  [('loaders', 'arolla/io/input_loader.h'), ('names', 'arolla/io/input_loader.cc'), ('wildcards', 'arolla/io/wildcard_input_loader.h'), ('accessors', 'arolla/io/accessors_input_loader.h'), ('delegating', 'arolla/io/delegating_input_loader.h'), ('spans', 'arolla/io/span_input_loader.h')],
  'generated loader trees against a model (ASan/UBSan)', 'Concurrent use of on-demand loaders is not explored here.')
P('I02', 'Slot listeners pass every bound output to everyone who listens',
  'Any tree of listeners (accessors, listeners of any type, chains, prefixes into sub-outputs, wrappers) knows exactly the names and types it should, binds exactly the well-typed known names, and when run delivers the value of every bound slot exactly once to each listener that knows the name, in the order of the chain, and nothing else; string listeners copy bytes and render missing values as empty.',
  ['inputs'], 'all trees of listeners up to depth four, all subsets of names and slot types',
  'Several listeners of one name and desired types meet only in compositions; unit tests use one combinator at a time.',
  [('listeners', 'arolla/io/slot_listener.h'), ('checks', 'arolla/io/slot_listener.cc'), ('chains', 'arolla/io/chain_slot_listener.h'), ('delegating', 'arolla/io/delegating_slot_listener.h'), ('accessors', 'arolla/io/accessors_slot_listener.h'), ('strings', 'arolla/io/string_slot_listener.cc')],
  'generated listener trees against a model (ASan/UBSan)', 'None known.')
P('I03', 'Struct I/O copies exactly the bound fields both ways',
  'For any layout of fields of a struct and any subset of them bound, loading copies each bound field to its slot and storing copies it back, byte by byte or by copy constructor, leaving all other slots, fields and gaps as they were; fields that do not fit in the struct and duplicated in-place fields are rejected; in-place slots of a struct in a frame are the fields of that struct.',
  ['inputs'], 'all layouts of up to eighteen fields of thirteen types, all subsets and orders',
  'Fields are grouped and sorted by type and size; a unit test has one struct.',
  [('copying', 'arolla/io/struct_io.cc'), ('loader and listener', 'arolla/io/struct_io.h'), ('in-place slots', 'arolla/io/inplace_slot_builder.h')],
  'generated struct layouts, round trip (ASan/UBSan)', 'Fields do not overlap.')
