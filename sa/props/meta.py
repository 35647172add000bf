"""Per property: the text of properties.jsonl, and how the check is described in MANIFEST and evidence."""

TRUSTED = ['rustc nightly-2024-11-07: parsing, type checking and MIR construction (-Zmir-opt-level=0)',
           'sa/interp.py, sa/loops.py, sa/lin.py: the abstract interpreter and its linear-inequality domain',
           'sa/models.py, sa/prelude.rs: transfer functions of the std items the crate calls',
           'code reached through type parameters is arbitrary (may return anything, panic) but memory safe']
TRUSTED_TYPES = ['rustc nightly-2024-11-07 as the type and borrow checker',
                 'the witness programs in sa/witness say what they are named after']
ABSINT = ('abstract interpretation of MIR: per entry point a path-sensitive dataflow fixpoint over symbolic memory with '
          'linear inequalities; the specification is checked on every abstract exit state')
TYPES = 'type-level witnesses: client programs that must, or must not, type-check and borrow-check against the crate'

META = {}
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, level='proof', technique=ABSINT, note='', rule='',
         explanation='', trusted=None, assumptions=(), observe=()):
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                    'observe_at': list(observe), 'hook_needed': None}})
    META[pid] = {'level': level, 'technique': technique, 'note': note, 'rule': rule, 'explanation': explanation,
                 'trusted': trusted or TRUSTED, 'assumptions': list(assumptions)}


VEC = ['src/vec.rs']
LIBF = ['src/lib.rs', 'src/vec.rs', 'src/boxed.rs', 'src/rc.rs', 'src/arc.rs', 'src/hashmap.rs', 'src/format.rs', 'src/try_clone.rs',
        'src/btree/map.rs', 'src/btree/node.rs']

prop('C01', 'Fallible operations never allocate through an infallible allocation path',
     'No operation the crate offers as fallible on vectors, boxes, reference-counted pointers, hash maps, B-trees, formatting or '
     'reading ever asks the allocator for memory through an interface that aborts or panics when memory is exhausted, whatever its '
     'arguments. Two documented exceptions are outside: formatting output that exceeds the announced maximum capacity, and '
     'turning the box into a reference-counted pointer on a stable toolchain.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every argument, every capacity and spare room of the receiver, every outcome of each allocation, each feature set',
     'Tests cannot exhaust memory, and an infallible allocation only shows when the spare capacity happens to be too small at '
     'the moment memory is exhausted; the suite tests capacity overflow requests only.',
     LIBF,
     [('reserve before every growing write', 'src/vec.rs'), ('allocation through alloc::alloc with null check', 'src/boxed.rs'),
      ('try_reserve before insert', 'src/hashmap.rs'), ('io::Error without payload', 'src/vec.rs')],
     rule='on every abstract path from a fallible entry point no call allocates infallibly: growing calls are only allowed '
          'where the domain proves length < capacity',
     note='every public fallible operation, in both feature families; allocation calls are resolved through generics and closures')

prop('C02', 'Every failed allocation is reported to the caller as an error',
     'When any allocation a fallible operation needs fails, or its size overflows, the operation returns an error: it neither '
     'panics nor aborts, nor reports success. When nothing failed it does not report an error.',
     ['inputs', 'fault_sequences'],
     'every argument (sizes near the address-space limit included) and every subset of failing allocations',
     'The suite exercises one oversized request per function; the failure of the k-th allocation, and overflowing size '
     'computations, are never reached.',
     LIBF,
     [('Result propagation with ?', 'src/vec.rs'), ('checked_add before reserve', 'src/vec.rs'),
      ('null check after alloc', 'src/boxed.rs')],
     rule='on every abstract exit: a failure event on the path (allocation or caller-supplied conversion) iff the returned '
          'value is Err; no exit unwinds unless user code panicked',
     note='both directions are checked on every exit state of every fallible entry point')

prop('C03', 'A failed vector operation leaves the vectors exactly as they were',
     'When a fallible vector operation reports an error, the vector it was called on and every vector passed to it have the same '
     'length and the same elements in the same order as before the call. Operations that consume user-supplied element '
     'producers may keep the elements appended before the failure only where the failure came from the producer itself.',
     ['inputs', 'fault_sequences'],
     'every vector length, capacity and content, every argument and every failing allocation',
     'No test makes an allocation fail in the middle of an operation on a non-empty vector and then compares contents.',
     VEC, [('reserve first, then mutate', 'src/vec.rs')],
     rule='on every Err exit the abstract contents (segments of the initial element sequence) equal the initial contents',
     note='contents are compared as symbolic segments of the initial sequence, for all lengths')

prop('C04', 'Give-back operations return exactly the value that was not inserted',
     'A push that hands the element back on failure returns exactly the element it was given, neither dropped nor duplicated. '
     'Every other operation either stores a value handed to it or drops it exactly once, and elements taken out of a vector are '
     'returned or dropped: nothing is leaked or dropped twice.',
     ['inputs', 'fault_sequences'], 'every element value, every vector state, every failing allocation',
     'The suite never fails a push on a vector of elements with destructors and inspects what comes back.',
     VEC, [('element returned in the error variant', 'src/vec.rs')],
     rule='on every exit each owned argument cell is in exactly one place: moved into the result, into the vector, or dropped once',
     note='ownership of each argument cell is tracked on every path')

prop('C05', 'Successful vector operations have exactly their documented effect',
     'A successful push, insert, append, resize, extend, concat, collect, pop or clear produces exactly the documented sequence: '
     'the old elements in their old order, the new ones in the documented place and number, nothing else. Accessors and iterators '
     'show exactly the elements of the vector in order, equality compares the whole contents, and a successful reservation really '
     'guarantees the requested room.',
     ['inputs'], 'every vector length and capacity, every index, count, slice and iterator, zero-sized elements included',
     'The suite checks a handful of small concrete vectors; boundary indices, zero counts, large counts and zero-sized types are not covered.',
     VEC, [('unsafe set_len/copy loops and slice writes', 'src/vec.rs'), ('SetLenOnDrop-style loops', 'src/vec.rs')],
     rule='on every Ok exit the symbolic segment sequence of the vector equals the specified one; length and capacity relations hold',
     note='sequences are symbolic in their lengths; loops are summarised by inferred invariants')

prop('C06', 'Vector code is memory safe and panic safe for every element type',
     'No call of the vector API reads uninitialised, moved-out or freed elements, writes out of bounds, or drops an element twice, '
     'whatever the lengths and even when an element constructor, clone, iterator or destructor panics half-way. After such a panic '
     'the vector holds only initialised elements it owns.',
     ['inputs', 'fault_sequences'], 'every length and capacity, every element type, a panic at every call into user code',
     'No test lets an element operation panic, and wrong reads of spare capacity usually go unnoticed at run time.',
     VEC + ['src/try_clone.rs'], [('length updated around unsafe writes', 'src/vec.rs'), ('Truncate helper', 'src/vec.rs')],
     rule='every read, write, move and drop on every abstract path targets live initialised owned cells in bounds; every exit, '
          'including unwinding ones, leaves vectors whose length covers initialised cells only',
     note='unwinding edges out of every user call are followed')

prop('C07', 'A fallible copy is an independent, element-wise faithful copy',
     'A successful fallible clone or conversion yields, position by position, exactly the value the element clone produced (or '
     'the given value itself), with the same length and structure, and shares no storage with the original unless the type is a '
     'shared pointer. The original is left untouched.',
     ['inputs'], 'every source value and length, every behaviour of the element clone',
     'Only a few literal values of a few types are cloned by the suite; swapped, skipped or repeated positions for other lengths are not observed.',
     ['src/vec.rs', 'src/try_clone.rs', 'src/boxed.rs', 'src/hashmap.rs'],
     [('element-wise try_clone loop', 'src/vec.rs'), ('macro-generated primitive implementations', 'src/try_clone.rs')],
     rule='on every Ok exit element i of the result is the value produced by cloning element i of the source; the source is unchanged',
     note='element clones are uninterpreted functions of the source element')

prop('C08', 'Fallible boxes hold the given value and release it exactly once',
     'A successful fallible box or reference-counted allocation holds exactly the value given, correctly aligned and for '
     'zero-sized types too. On failure the value is dropped once and the memory obtained is not leaked; converting to and from '
     'raw pointers keeps identity.',
     ['inputs', 'fault_sequences'], 'every value type (size, alignment, zero-sized), every failing allocation',
     'The suite allocates a few integers; zero-sized values, failures and destructors are not exercised together.',
     ['src/boxed.rs', 'src/rc.rs', 'src/arc.rs'],
     [('alloc with Layout::new and null check', 'src/boxed.rs'), ('conversion from the box', 'src/rc.rs')],
     rule='on every Ok exit the result owns exactly one cell holding the argument; on every Err exit the argument was dropped once',
     note='layout arguments of alloc/dealloc calls are matched against the pointee type, zero-sized and sized alike')

prop('C09', 'Fallible wrapper types offer no way to allocate infallibly',
     'The fallible vector, box and hash map wrappers implement none of the standard traits whose methods must allocate but cannot '
     'report failure (clone, extend, collect, conversion from slices, arrays and strings). None of their safe methods hands out '
     'mutable access to the growable collection inside.',
     ['programs'], 'every safe client program',
     'A test can only show that a program compiles, never that no program can; the absence of an implementation is invisible to run-time tests.',
     ['src/vec.rs', 'src/boxed.rs', 'src/hashmap.rs'],
     [('wrapper structs with private inner collection', 'src/vec.rs')],
     technique=TYPES, trusted=TRUSTED_TYPES,
     rule='negative-implementation witnesses type-check; no public method of a wrapper returns &mut to a growable std collection',
     note='checked by the type checker over witness programs and over the resolved signatures of every method',
     explanation='each witness is ambiguous, hence rejected, exactly when the banned implementation exists')

prop('C11', 'The fallible hash map behaves as a map and survives failed insertions',
     'Insertion maps the key to the value and returns the previous value; lookup, removal, length and iteration report exactly the '
     'entries present; a clone holds the same entries. A failed insertion or clone reports an error and leaves the map unchanged.',
     ['inputs', 'fault_sequences', 'configurations'], 'every map state, key and value, every failing allocation, both map back ends',
     'Tests use small maps that never fail to grow and one of the two back ends at a time.',
     ['src/hashmap.rs'], [('reserve one slot before inserting', 'src/hashmap.rs'), ('back end selected by feature', 'src/hashmap.rs')],
     rule='each method performs exactly the specified operation on the inner map, on every path and for both back ends',
     note='the std and hashbrown maps themselves are modelled as abstract maps')

prop('C12', 'Fallible reading and writing transfer exactly the bytes that were read',
     'A successful bounded read appends exactly the bytes the reader delivered, in order and never more than the limit, after the '
     'existing contents, and reports their number; writing appends exactly the given bytes. Errors of the reader and of the '
     'allocator are returned as errors, and interrupted reads are retried.',
     ['inputs', 'fault_sequences'], 'every reader behaviour (short reads, errors, interruptions, end of input), limit and vector state',
     'The suite reads one small in-memory buffer; short reads, interruptions, errors and limits near the buffer boundary are not reached.',
     ['src/vec.rs'], [('read loop with guarded length', 'src/vec.rs'), ('Write implementation', 'src/vec.rs')],
     rule='on every exit the vector is the initial sequence followed by exactly the bytes reported by successful reads, within the limit',
     note='the reader is arbitrary user code; loop invariants are inferred')

prop('C13', 'Fallible formatting yields exactly the formatted text or an error',
     'Successful fallible formatting returns exactly the text the arguments produce, written once into a string whose room was '
     'reserved fallibly beforehand. A failed reservation is returned as an error before anything is formatted.',
     ['inputs', 'fault_sequences'], 'every format argument, capacity and failing reservation',
     'Only two short format strings are tested and no reservation fails in the suite.',
     ['src/format.rs'], [('reserve then write_fmt', 'src/format.rs')],
     rule='on every Ok exit exactly one write of the given arguments into an empty string with the reserved room; Err iff reservation failed',
     note='formatting itself is std')

prop('C14', 'Construction and read access never touch the allocator',
     'Creating an empty fallible vector, hash map or B-tree, and every operation that only inspects, iterates, removes or converts without '
     'copying, performs no allocation at all, so it can never fail.',
     ['inputs'], 'every state of the collection',
     'Tests do not observe the allocator, so an allocation in an accessor goes unnoticed.',
     ['src/vec.rs', 'src/boxed.rs', 'src/hashmap.rs', 'src/btree/map.rs'], [('delegation to non-allocating methods', 'src/vec.rs')],
     rule='no allocating call is reachable on any abstract path of these operations',
     note='allocation calls are resolved through generics and closures')

prop('C37', 'Types only allow sound sharing, sending, shortening of lifetimes and drops',
     'A collection, iterator, range or entry can be sent to or shared with another thread exactly when its keys and values allow '
     'it; exclusive iterators and entries cannot be duplicated, and references they yield cannot outlive or alias each other. '
     'Read-only views are covariant, mutable ones invariant, and a collection cannot be dropped after data its elements\' '
     'destructors may inspect.',
     ['programs'], 'every safe client program',
     'Whether an unsound program compiles cannot be observed by a program that compiles; the suite has no negative compile tests.',
     ['src/btree/map.rs', 'src/btree/node.rs', 'src/btree/set.rs', 'src/vec.rs', 'src/boxed.rs', 'src/hashmap.rs'],
     [('unsafe impl Send/Sync', 'src/btree/node.rs'), ('PhantomData markers', 'src/btree/map.rs'), ('may_dangle Drop', 'src/btree/map.rs')],
     technique=TYPES, trusted=TRUSTED_TYPES,
     rule='accepting witnesses type-check; each rejecting witness is rejected with a borrow-checker error',
     note='about 140 witness programs over all public types, in the btree and in the hash map configuration',
     explanation='one witness per guarantee; a rejecting witness has an accepting twin shape so that it is rejected for the right reason')

BT = ['src/btree/node.rs']
NOTE_NODE = 'every function of node.rs that touches node memory, for nodes of any occupancy and every position'

prop('C22', 'B-tree node operations keep every entry exactly once and in order',
     'Inserting into a node, splitting, merging, removing and moving entries between siblings keep every key with its value: each '
     'pair that was there is there exactly once afterwards, in the same order, with the new pair at the requested position, and '
     'no key, value or child is lost, duplicated or paired with another\'s. Iterating a map therefore yields every entry.',
     ['inputs'], 'every node occupancy 0..=11, insertion position, pair of sibling lengths, number of moved entries and node height',
     'The positions and sibling lengths that make a split or a steal are few among many; the suite inserts a handful of ascending keys.',
     BT, [('insert_fit, split, merge, bulk_steal, move_suffix, push, pop, remove', 'src/btree/node.rs')],
     rule='on every exit the key, value and edge sequences equal the specified rearrangement of the initial ones', note=NOTE_NODE)

prop('C23', 'B-tree children always point back to their parent and position',
     'After any node operation, successful or failed, every child of every node involved names that node as its parent and its '
     'index as its own position, so that ascending from a leaf (iteration, ranges, removal) reaches the right entry.',
     ['inputs'], 'every node occupancy, position and height, both outcomes of each operation',
     'A wrong back link shows only when a later operation ascends through exactly that child.',
     BT, [('correct_parent_link and its callers', 'src/btree/node.rs')],
     rule='for every child segment of every changed node: parent == the node and parent_idx == index', note=NOTE_NODE)

prop('C24', 'B-tree nodes stay within capacity and node operations never panic',
     'Node operations called under their documented conditions never index outside a node, never leave a node with more entries '
     'than its capacity, record the exact number of entries, and do not panic; inserting into a full node splits it into two '
     'halves that are both at least minimally filled. After a map operation every node but the root is at least minimally filled.',
     ['inputs'], 'every node occupancy and position',
     'An off-by-one appears only at the boundary occupancies, and out-of-bounds writes inside a node can go unnoticed.',
     BT, [('len bookkeeping of every node operation', 'src/btree/node.rs')],
     rule='every index is within the array bounds, the final len equals the number of initialised entries and is at most 11',
     note=NOTE_NODE)

prop('C25', 'B-tree node memory is only used within its type, initialised and freed once',
     'Leaf and internal nodes are read only where initialised and only as the kind they were allocated as, each is allocated and '
     'freed with its own layout exactly once, and the shared static empty root is never written or freed. No entry is dropped or '
     'duplicated by a node operation.',
     ['inputs'], 'every node kind, occupancy and operation',
     'Reading uninitialised slots, or freeing with the wrong layout, usually goes unnoticed without a memory checker.',
     BT, [('unsafe accessors and deallocate_and_ascend', 'src/btree/node.rs'), ('EMPTY_ROOT_NODE', 'src/btree/node.rs')],
     rule='every memory access is to an initialised slot of a live node of the right kind; dealloc layouts match', note=NOTE_NODE)

MP = ['src/btree/map.rs', 'src/btree/search.rs', 'src/btree/node.rs']
NOTE_TREE = ('map code is interpreted over abstract trees of any size and height; node methods enter by contracts which the node '
             'cases discharge against their code')

prop('C20', 'A failed B-tree insertion returns an error and leaves the map untouched',
     'When memory for a node cannot be obtained, inserting into a B-tree map (directly, through an entry, a vacant entry or a '
     'default) returns the allocation error, never a success or a panic. The map, its length and all its entries are exactly as '
     'before, no memory is leaked, and only the key and value that were passed in are dropped.',
     ['inputs', 'fault_sequences'], 'every map shape, key position and failing node allocation',
     'No test makes a node allocation fail; the failing allocation in the middle of a cascade of splits needs full nodes on every level.',
     MP, [('reserve levels before touching nodes, Entry::or_try_insert', 'src/btree/map.rs'), ('next_insert reservation, insert, split', 'src/btree/node.rs')],
     rule='every path with a failed allocation returns Err, with the same entries, length and shape; Err only on such paths',
     note=NOTE_TREE)

prop('C21', 'The reported length of a B-tree map is the number of its entries',
     'After every operation, successful or failed, the length a B-tree map reports is the number of entries reachable in the tree, '
     'zero exactly when the map says it is empty. Iterators report exactly the number of entries they have left to yield.',
     ['inputs', 'histories'], 'every map shape, every operation and outcome',
     'Tests compare lengths of a few small maps; replacing, failing, moving and bulk operations are not followed by a count.',
     MP, [('length updated in insert, remove, clear, split_off, append', 'src/btree/map.rs'), ('remaining length of iterators', 'src/btree/map.rs')],
     rule='on every exit length == number of entries of the abstract tree; iterator length == entries between its ends',
     note=NOTE_TREE)

prop('C26', 'B-tree lookups find exactly the entry with the given key',
     'Looking a key up in a B-tree map or set (get, get_mut, contains, index, entry) yields the entry whose key compares equal, '
     'with its own value, if there is one, and nothing otherwise. Indexing an absent key panics, everything else does not. '
     'Searching a node descends into the child between the neighbouring keys.',
     ['inputs'], 'every map shape, every key rank, present or absent',
     'Only maps of a few dozen entries are searched; a wrong edge matters only for keys at particular node boundaries.',
     MP, [('search_tree, search_node, search_linear', 'src/btree/search.rs'), ('get, get_mut, contains_key, entry', 'src/btree/map.rs')],
     rule='result is Found(position of the equal key) iff it is present, else the leaf edge at the rank of the key',
     note=NOTE_TREE)

prop('C28', 'B-tree iterators yield every entry once, in key order, from both ends',
     'Iterating a B-tree map or set, by reference, mutably, by keys, by values or by value, and from either end, yields each entry '
     'exactly once in ascending order, with its own value, until the two ends meet, and then nothing. A consuming iterator that is '
     'dropped early drops the remaining entries once and frees every node once.',
     ['inputs', 'histories'], 'every map shape, every position of the two ends, every interleaving of next and next_back',
     'Positions at which iteration climbs several levels, or the two ends meet inside a node, are few and not tested.',
     MP, [('next_unchecked, next_back_unchecked, IntoIter and its Drop', 'src/btree/map.rs'), ('deallocate_and_ascend', 'src/btree/node.rs')],
     rule='next yields the entry at the front position and advances it by one; nodes passed by IntoIter are freed exactly once',
     note=NOTE_TREE)

prop('C31', 'B-tree insertion adds or replaces exactly one entry in key order',
     'A successful insertion puts the pair at the position its key has among the others, or replaces only the value of the equal '
     'key and returns the old value; every other entry keeps its key, value and place. Entries and vacant entries give access to '
     'exactly the entry of their key, and a closure for a default value runs only when the key is absent.',
     ['inputs'], 'every map shape, key rank, present or absent, every chain of node splits',
     'Splits that cascade over several levels need thousands of insertions in a particular order.',
     MP, [('try_insert, VacantEntry::try_insert, or_try_insert_with', 'src/btree/map.rs'), ('insert_fit, insert, split', 'src/btree/node.rs')],
     rule='on every Ok exit the entries are the initial ones with the pair at its rank (or the value replaced); result is the old value',
     note=NOTE_TREE)

prop('C35', 'B-tree removal takes out exactly one entry and keeps all others',
     'Removing a key (directly, through an occupied entry or by taking) returns exactly its key and value if it is present and '
     'nothing otherwise; all other entries stay with their values, in order and reachable. Clearing removes and drops every entry '
     'once. Nodes stay within their occupancy limits by stealing or merging, and an empty root level is dropped.',
     ['inputs'], 'every map shape, key rank, present or absent, every chain of steals and merges',
     'Merges that propagate to the root and removals from internal nodes need large maps and particular orders; tests remove few keys.',
     MP, [('remove, remove_kv, handle_underfull_node, clear', 'src/btree/map.rs'), ('merge, steal, bulk_steal, pop_level', 'src/btree/node.rs')],
     rule='on every exit the entries are the initial ones without the entry of the key, which is returned; all nodes at least half full',
     note=NOTE_TREE)

prop('C36', 'A panic in user code leaves B-tree maps consistent and drops nothing twice',
     'If a comparison, a default closure, a borrow or a destructor panics during any operation of a B-tree map, unwinding leaves a '
     'map that still holds a consistent sequence of entries with the right length, so it can be used and dropped. No key, value or '
     'node is dropped or freed twice or used after it was moved out.',
     ['inputs', 'fault_sequences'], 'every user call (comparison, closure, clone, drop) panicking at any point of any operation',
     'No test lets a comparison or a destructor panic inside a B-tree operation.',
     MP, [('DropGuard, IntoIter::drop, from_sorted_iter guard', 'src/btree/map.rs')],
     rule='the state at every unwinding exit is a consistent map (or its entries are dropped exactly once); no access to moved-out entries',
     note='unwinding edges out of every user call are followed; ' + NOTE_TREE)

prop('C33', 'B-tree set operations act on exactly the element they are given',
     'A B-tree set behaves as the map from its elements to nothing: contains, get, try_insert, replace, remove and take find the '
     'equal element, add it at its place only when absent, report whether it was there or hand it back, and leave every other '
     'element untouched. replace and take return the stored element, not the one passed in. len, clear and the iterators of the set '
     'agree with its elements.',
     ['inputs'], 'every set shape, every element rank, present or absent',
     'replace and take differ from insert and remove only for equal but distinguishable elements, which tests hardly use.',
     ['src/btree/set.rs', 'src/btree/map.rs'], [('BTreeSet methods', 'src/btree/set.rs'), ('impl Recover for BTreeMap', 'src/btree/map.rs')],
     rule='result and entries of the wrapped map after the call are those of the set operation on the element at its rank',
     note=NOTE_TREE)

prop('C27', 'Range queries yield exactly the entries between the two bounds',
     'range and range_mut of a B-tree map, and range of a set, yield exactly the entries whose keys lie within the bounds, for every '
     'combination of included, excluded and unbounded ends, whether or not the bounds themselves are keys of the map. The call '
     'panics exactly when the start lies after the end, or both are equal and excluded.',
     ['inputs'], 'every map shape, both bounds at every rank, present or absent, all 25 kinds of bound pairs',
     'The two searches part at an inner node or in a leaf, and a bound may equal a key of an inner node: combinations the few '
     'range tests do not reach.',
     ['src/btree/map.rs', 'src/btree/search.rs', 'src/btree/set.rs'],
     [('range_search', 'src/btree/map.rs'), ('search_linear', 'src/btree/search.rs'), ('BTreeSet::range', 'src/btree/set.rs')],
     rule='front and back edge returned by range_search are at the ranks of the bounds (plus one where an equal key is left out / in)',
     note=NOTE_TREE)

prop('C32', 'Splitting, appending, building and copying whole trees keep every entry',
     'split_off leaves the entries below the key in the map and returns a map with all others. append merges two maps so that every '
     'key of either is there once, with the value of the appended map where both have it, and leaves the other map empty. Extending '
     'or collecting inserts every item of the iterator in order; try_clone and clone give a map with one copy of every entry. '
     'Lengths are exact, every node of the results stays within its occupancy limits, and a failed operation changes nothing.',
     ['inputs'], 'every map shape and height, every split position, every length of the sorted sequence, every outcome of comparisons',
     'Borders are rebuilt level by level; wrong steals or merges show only in trees of several levels split at particular places.',
     MP, [('split_off, append, from_sorted_iter, fix_*, clone_subtree, MergeIter', 'src/btree/map.rs'),
          ('move_suffix, bulk_steal_*, push, push_level, pop_level', 'src/btree/node.rs')],
     rule='after the operation the abstract trees hold exactly the entries [0, r) and [r, n), the merge of both, the items produced, or '
          'clones of all entries, with no node below the minimum off the root',
     note=NOTE_TREE)

NOTE_ALG = ('sets and iterators over one set are abstracted as ascending element sequences with positions (their own behaviour is C27, C28 and C33); '
            'user comparisons are assumed to be a total order')

prop('C29', 'Set algebra yields exactly the union, intersection and differences, in order',
     'Union, intersection, difference and symmetric difference of two B-tree sets yield, in ascending order and each once, exactly '
     'the elements that belong to the respective combination, whether the sets are walked jointly or one is searched; the operators '
     '|, &, - and ^ collect exactly these. size_hint bounds the number of elements still to come, a cloned iterator yields the same '
     'rest, and every call ends.',
     ['inputs'], 'every pair of sets, every outcome of comparisons, every point of an iteration',
     'The interleavings of two sequences are unbounded; whether sets are walked or searched depends on their sizes.',
     ['src/btree/set.rs'], [('Union, Intersection, Difference, SymmetricDifference, cmp_opt, difference, intersection, Sub, BitXor, BitAnd, BitOr',
                             'src/btree/set.rs')],
     rule='at every loop head and exit of next, the combination denoted by what is left plus the element yielded is the one denoted before, and the '
          'element yielded precedes what is left',
     note=NOTE_ALG)

prop('C30', 'Subset, superset and disjointness answers are right for all sets',
     'is_subset, is_superset and is_disjoint of B-tree sets say yes exactly when every element of the one set is (or no element is) '
     'in the other, for all sizes and contents of the two sets, and always end.',
     ['inputs'], 'every pair of sets, every outcome of comparisons',
     'The three paths of is_subset depend on the relation of the sizes, the joint walk on the interleaving.',
     ['src/btree/set.rs'], [('is_subset, is_superset, is_disjoint, Intersection::next', 'src/btree/set.rs')],
     rule='yes only with every element accounted for and the end reached; no only with an element that shows it or more elements than the other set has',
     note=NOTE_ALG)

prop('C34', 'B-tree maps and sets compare and hash by their sequence of entries',
     'Two B-tree maps (sets) are equal exactly when they have the same entries, and ordering them compares their entries one by one in '
     'key order, key before value, a proper prefix being less; with partially ordered entries the first incomparable pair makes the '
     'result None. What is fed to a hasher is determined by the entries alone, so that equal maps and sets hash alike.',
     ['inputs'], 'every pair of maps or sets, of any sizes, every outcome of the comparisons of their entries',
     'The suite compares a few small maps; prefixes, ties decided by a value and incomparable entries are not sampled.',
     ['src/btree/map.rs', 'src/btree/set.rs'], [('PartialEq, PartialOrd, Ord, Hash impls', 'src/btree/map.rs'), ('derived impls of BTreeSet', 'src/btree/set.rs')],
     rule='every answer follows from the outcomes of the entry comparisons on the path; a pair of entries is passed over only when found equal',
     note='maps are ghost sequences of entries; iteration in order is C28')
