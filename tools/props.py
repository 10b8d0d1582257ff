"""Single source of the property list; writes properties.jsonl and MANIFEST.json.

Run: python3 /verif/tools/props.py
"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = list(observe)
    if state:
        a['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in state]
    a['hook_needed'] = None
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': qtext},
            'why_tests_cant': why, 'anchors': a}

PROPS = [
P('P01', 'Bitset operations compute exact integer-set results',
  'Every operation of the immutable, complemented and mutable bitsets (union, intersection, difference, symmetric difference, complement, '
  'shift, slice/first/last index, membership, length, iteration, subset/superset/equality comparison, truth value, conversion to and from int) '
  'gives the result of the same operation on the mathematical set of integers it denotes, for any mix of operand kinds and any bit numbers in the machine range. '
  'Results that cannot be represented are refused with an exception instead of a wrong answer.',
  ['inputs'], 'all pairs of finite or co-finite sets of machine integers, sparse or dense, negative or positive, up to the limits of the bit number range; all operand kinds incl. subclasses and iterables',
  'guppy/sets/test.py compares some operations on a handful of fixed sets and a seeded random walk; boundary bit numbers, complement/segment combinations and operand kinds are not covered.',
  ['src/sets/bitset.c', 'src/sets/bitset.h', 'guppy/sets/__init__.py'],
  [('immutable field-array merge', 'src/sets/bitset.c: immbitset_op, anybitset_op, cplbitset_*'),
   ('sorted two-level field tree', 'src/sets/bitset.c: mutbitset_getfield / sf_getrange / mutbitset_findfield*'),
   ('shift and int conversion', 'src/sets/bitset.c: immbitset_lshift, immbitset_int, NyImmBitSet_FromPyLong')],
  ['guppy.sets.immbitset / mutbitset / immbit / immbitrange']),
P('P02', 'Bitset values never change through another object',
  'An immutable bitset keeps its value, length, hash and iteration for its whole life, and a mutable bitset changes only through operations on itself, '
  'whatever other bitsets were made from it, made into it, or mutated since. In-place operations on a mutable bitset change exactly that object to the value of the binary operation, '
  'and a rejected operation leaves it valid, with at most the elements already processed applied.',
  ['histories'], 'all sequences of creation, copying (both directions), in-place and element-wise mutation, popping, clearing, and dropping references over several live bitsets',
  'storage is shared between copies and split on write; the tests mutate one set at a time and rarely look back at sets that share storage.',
  ['src/sets/bitset.c'],
  [('shared set storage, copied when refcount > 1', 'src/sets/bitset.c: sf_getrange_mut, mutbitset_getrange_mut'),
   ('mutable to immutable snapshot', 'src/sets/bitset.c: NyMutBitSet_AsImmBitSet, immbitset_subtype_new'),
   ('in-place operators', 'src/sets/bitset.c: mutbitset_iop_*')],
  ['guppy.sets.MutBitSet', 'guppy.sets.immbitset']),
P('P03', 'Bitsets round-trip: equality, hash, pickle, rebuild',
  'Two immutable bitsets (complemented or not) that denote the same set of integers are equal and hash equally however they were built, and unequal ones compare unequal. '
  'Pickling (any protocol), copying, and rebuilding from elements, ranges, ints, other bitsets or bit-by-bit union each give back an equal bitset of the same kind, and int/bitset conversion is lossless.',
  ['inputs'], 'all finite and co-finite integer sets and all ways of building them',
  'the number of constructions of one value is unbounded; tests compare a few literal pairs.',
  ['src/sets/bitset.c', 'guppy/sets/__init__.py'],
  [('hash', 'src/sets/bitset.c: immbitset_hash, cplbitset_hash'), ('pickling through _bs', 'src/sets/bitset.c: immbitset_reduce, cplbitset_reduce, _NyBitSet_Form'),
   ('constructors', 'src/sets/bitset.c: immbitrange_new, immbitset_subtype_new_from_*')]),
P('P04', 'Node sets behave as sets of object identities',
  'A node set, mutable or immutable, behaves as the mathematical set of the identities of its elements under every operation: construction from any iterable, add/discard/remove/pop/append/tas/tac, clear, '
  'union/intersection/difference/symmetric difference (also with plain iterables and in place), comparison, hash, membership by identity, length, iteration, lookup by address. Object equality or hashing is never consulted, '
  'an operation on one node set never changes another, and a rejected operation leaves it valid, with at most the elements already processed applied.',
  ['histories', 'inputs'], 'all histories over several mutable and immutable node sets whose elements include equal-but-distinct, unhashable, and badly behaved objects',
  'tests use a few fixed sets of small elements; interactions of copies, in-place operators and odd elements over a history are not sampled.',
  ['src/sets/nodeset.c', 'src/sets/immnodeset.c', 'src/sets/nodeset.h'],
  [('address bitset of a mutable node set', 'src/sets/nodeset.c: NyMutNodeSet_setobj/clrobj/hasobj'),
   ('sorted address array of an immutable node set', 'src/sets/immnodeset.c: NyImmNodeSet_*'),
   ('operators', 'src/sets/nodeset.c: nodeset_op, nodeset_ior/iand/isub/ixor')]),
P('P05', 'Node sets and graphs own their members exactly',
  'Node sets and node graphs hold a reference to each object exactly while it is in them: an object in a live set or graph stays alive, and once it is removed, or every set and graph holding it is gone, it is freed as if it had never been a member. '
  'Iterators, unions, copies, inversions, replaced targets, in-place operators, failed operations and garbage cycles through sets or graphs neither leak nor over-release references.',
  ['histories'], 'all histories of set and graph operations over objects whose lifetime can be observed by weak reference and reference count, incl. members that reference the set',
  'reference counting errors show only as a leak or a crash much later; the tests have a couple of fixed leak probes.',
  ['src/sets/nodeset.c', 'src/sets/immnodeset.c', 'src/heapy/nodegraph.c', 'src/sets/bitset.c'],
  [('INCREF on insertion, DECREF on removal', 'src/sets/nodeset.c: NyMutNodeSet_setobj, mutnodeset_gc_clear'),
   ('edge reference counts', 'src/heapy/nodegraph.c: NyNodeGraph_AddEdge, ng_ass_sub, NyNodeGraph_Clear, nodegraph_invert')]),
P('P06', 'A node graph is exactly the relation put into it',
  'A node graph denotes the set of edges added to it and not removed since: indexing, membership, length, iteration, domain and range (whole or restricted), inversion, update from another graph, relational image, copying, and replacement of the targets of a node '
  'all agree with that relation, with nodes distinguished by identity and edges without duplicates. A mapping graph gives its single target back, and refuses ambiguous or missing lookups with an error.',
  ['histories'], 'all histories of edge additions, updates, target replacement, inversion, copying, iteration and clearing over arbitrary nodes',
  'edges are kept unsorted and sorted lazily, so order of operations matters; tests use one or two small graphs.',
  ['src/heapy/nodegraph.c', 'src/heapy/heapyc.c'],
  [('lazy sort and duplicate removal', 'src/heapy/nodegraph.c: ng_sortetc, NyNodeGraph_Region'),
   ('target replacement', 'src/heapy/nodegraph.c: nodegraph_ass_subscript / ng_ass_sub')]),
P('P07', 'Reachability and referents match the true object graph',
  'For any object graph, the heap reachable from a root, the objects reachable from a set without passing a given set, and the set of direct referents contain every object that is really so reachable and nothing else (each object once). '
  'This holds for every built-in container, instances with or without attribute dictionary or slots, functions, cells, frames, methods, generators, types and modules, and for graphs with cycles, self references and shared substructure.',
  ['inputs'], 'all finite object graphs over built-in and user-defined node types, all choices of root, start set and avoided set',
  'tests examine a few hand-built shapes; reachability is a statement over all graphs.',
  ['src/heapy/hv.c', 'src/heapy/stdtypes.c', 'guppy/heapy/View.py', 'guppy/heapy/Use.py', 'guppy/heapy/UniSet.py'],
  [('per-type traversal', 'src/heapy/hv.c: hv_std_traverse, xt_*_traverse; src/heapy/stdtypes.c: *_traverse'),
   ('iterative reachability', 'src/heapy/hv.c: hv_heap, hv_reachable, hv_reachable_x, hv_relimg'),
   ('front end', 'guppy/heapy/View.py: heap, reachable, reachable_x, referents')]),
P('P08', 'Hidden objects are never reported, all others are',
  "Objects hidden from a view (instances carrying the view's hiding tag in a slot or their dictionary, instances of types registered as hidden) never appear in heaps, referents, referrers, paths or counts of that view, "
  'and node sets and node graphs carrying the tag never make their contents appear, while the same kinds of objects carrying no or another tag are ordinary visible objects. '
  'Hiding an object hides only what is reachable solely through it, and views with different tags are independent.',
  ['inputs', 'configurations'], 'all object graphs with an arbitrary placement of tagged, differently tagged and untagged node sets, graphs and instances',
  'tests check one tagged object at a time; the effect of a tag on everything around it is a statement over graphs.',
  ['src/heapy/hv.c', 'src/heapy/stdtypes.c', 'src/sets/nodeset.c', 'src/heapy/nodegraph.c', 'guppy/heapy/View.py'],
  [('hiding tag test', 'src/heapy/hv.c: xt_hd / xt_he handling, hv_is_obj_hidden, hv_register__hiding_tag__type, hv_register_hidden_exact_type')]),
P('P09', 'Every reference is described, and the description is right',
  'For every direct reference held by a built-in container, an instance, class, function, module, code object, frame, traceback, cell, built-in function or mapping proxy the reported relations are non-empty (other types may be left undescribed), and each reported relation that is an attribute, index, key, value, local, cell, closure or slot access leads from the source to exactly that target when carried out; in a list, a tuple or a dictionary every position of the target is reported. '
  'Objects that do not refer to each other, not even through their type or attribute dictionary, have no relation, and the number of edges reported equals the number of references held.',
  ['inputs'], 'all pairs of objects in generated graphs over every built-in container and program object type',
  'each type has its own enumeration, separate from its traversal; the tests try a few pairs per type.',
  ['src/heapy/stdtypes.c', 'src/heapy/hv.c', 'guppy/heapy/Path.py', 'src/heapy/rootstate.c'],
  [('relation enumeration', 'src/heapy/stdtypes.c: dict_relate, list_relate, tuple_relate, set_relate, function_relate, frame_relate, cell_relate, ...'),
   ('description formatting', 'guppy/heapy/Path.py: R_* relation classes')]),
P('P10', 'Referrers are the exact inverse of references',
  'The referrers of a set of objects are exactly the objects of the current heap view that directly refer to some member, whatever queries, creations and deletions of references happened before the last garbage collection (as made by heap()). '
  'Predecessor queries for many sets computed together agree with the queries made one at a time, and with the relation obtained by following references forward.',
  ['histories', 'inputs'], 'all generated graphs, all target sets, and all interleavings of queries with changes of the graph',
  'the reverse graph is cached and invalidated; tests query a fixed graph once.',
  ['guppy/heapy/View.py', 'src/heapy/hv.c', 'src/heapy/nodegraph.c', 'guppy/heapy/UniSet.py', 'src/heapy/hv_cli_rcs.c'],
  [('reverse graph', 'src/heapy/hv.c: hv_update_referrers, hv_update_referrers_completely'), ('cache', 'guppy/heapy/View.py: referrers, rg, referrers_gc')]),
P('P11', 'Shortest paths are real, shortest and complete',
  'From any source set to any destination set (members that are sources themselves aside) the listed paths are exactly all the shortest chains of references to the nearest members, each listed and printed once; the number reported equals the number listed, positions and ranges select from the listing, and the expressions evaluate, from the source object, to the destination. '
  'Avoided nodes never occur, avoided edges are never used, no path is reported only if there is none, and repeatedly avoiding the edges already found enumerates further disjoint shortest paths.',
  ['inputs'], 'all generated object graphs, source sets, destination sets, avoided sets and edges, and index/slice accesses to the result',
  'tests look at one or two small shapes; minimality, completeness and counts are statements over all graphs.',
  ['src/heapy/hv.c', 'guppy/heapy/Path.py', 'guppy/heapy/View.py'],
  [('breadth first search with edge filter', 'src/heapy/hv.c: hv_shpathstep, hv_shpath_outer/inner'), ('path counting and expansion', 'guppy/heapy/Path.py: Paths, PathsIter, ShortestPaths')]),
P('P12', 'Dominated set is exactly what deletion would free',
  'The set dominated by a set of objects is exactly the set of objects that would no longer be reachable if those objects were deleted, including themselves, and its size is the sum of the sizes of those objects. '
  'The immediate dominators of a set are exactly its referrers that can be reached from the root without passing another of its referrers.',
  ['inputs'], 'all generated object graphs and target sets, with cycles, shared and unreachable parts',
  'deletion changes reachability globally; tests check a couple of shapes.',
  ['guppy/heapy/Use.py', 'guppy/heapy/View.py', 'guppy/heapy/UniSet.py', 'src/heapy/hv.c'],
  [('dominance by reachability', 'guppy/heapy/View.py: dominos, domisize, imdom'), ('avoidance', 'src/heapy/hv.c: hv_reachable_x')]),
P('P13', 'Sizes are the real sizes, and totals add up',
  'The individual size reported for an object equals the memory it occupies: what the interpreter reports for it (object size including garbage collector header and inline storage), at every moment and for every type, user-defined sizes included. '
  'The size of a set is the sum of the sizes of its members, each counted once, and every view of the set (printed total, statistics, partitions, individual sizes, size-of-kind queries) agrees with it.',
  ['inputs'], 'all generated objects of built-in and user-defined types in any fill state, and all sets of them',
  'size formulas are per type and depend on fill state and interpreter internals; tests compare a few objects.',
  ['src/heapy/hv.c', 'src/heapy/stdtypes.c', 'src/heapy/hv_cli_indisize.c', 'guppy/heapy/UniSet.py', 'src/heapy/roundupsize.c'],
  [('individual size', 'src/heapy/hv.c: hv_std_size, hv_indisize_sum; src/heapy/stdtypes.c: dict_size, type_size'), ('aggregation', 'guppy/heapy/UniSet.py: indisize, size')]),
P('P14', 'A partition covers its set exactly, with correct figures',
  'Partitioned by any equivalence relation, every object of a set is in exactly one row, the row of its own class; counts, sizes, percentages and cumulative figures of the rows are those of their members and add up to those of the whole. '
  'Rows come in the documented order, row indexing and slicing selects exactly the objects of the rows, and equal classes are never split over rows.',
  ['inputs'], 'all generated sets of objects, all equivalence relations and products of them, all row indexes and slices',
  'each classifier has its own incremental and memoised implementation; tests use small sets and a few relations.',
  ['guppy/heapy/Part.py', 'guppy/heapy/Classifiers.py', 'src/heapy/hv_cli*.c', 'src/heapy/classifier.c', 'guppy/heapy/UniSet.py'],
  [('partition', 'src/heapy/classifier.c: cli_partition, cli_epartition; guppy/heapy/Part.py: SetPartition, IdentityPartition'),
   ('classifiers', 'src/heapy/hv_cli_prod.c, hv_cli_rcs.c, hv_cli_dictof.c, hv_cli_user.c, hv_cli_and.c, hv_cli_indisize.c, hv_cli_rel.c, hv_cli_findex.c')]),
P('P15', 'Kinds and equivalence relations classify each object truthfully',
  'Each equivalence relation gives an object the class its definition says (its type, its exact size, its class or dict owner, the kinds of its referrers, the relations it is referred by, its module, its address), and two objects share a class exactly when that definition agrees. '
  'Selecting a set by a kind yields exactly the members whose class is that kind; ordering and comparison selections (smaller, larger, equal, different, sub-kinds) and user-defined and combined relations select exactly the matching members.',
  ['inputs'], 'all generated sets, kinds, relations, comparison operators and combinations',
  'selection, classification and memoisation are separate code paths per relation; the tests compare one or two selections each.',
  ['src/heapy/classifier.c', 'src/heapy/hv_cli*.c', 'guppy/heapy/Classifiers.py', 'guppy/heapy/UniSet.py'],
  [('select', 'src/heapy/classifier.c: cli_select; NyObjectClassifierDef cmp functions'), ('kinds', 'guppy/heapy/Classifiers.py')]),
P('P16', 'Sets of objects and kinds obey set algebra',
  'Sets of heap objects and symbolic kinds combined with |, &, -, ^ and ~ obey the laws of set algebra: membership in a result is the Boolean combination of memberships in the operands, for every object and every mixture of concrete sets and kinds. '
  'Comparisons agree with membership: a subset, equality or disjointness that is claimed is true, and on concrete sets it is claimed exactly when true; equal concrete sets, equal classes of one relation and expressions that differ in the order of two operands have equal hashes, and the truth value agrees with emptiness.',
  ['inputs'], 'all expressions built from generated object sets and kinds',
  'expressions are normalised by many special-case rules; tests try fixed combinations.',
  ['guppy/heapy/UniSet.py', 'guppy/heapy/Classifiers.py'],
  [('expression normalisation', 'guppy/heapy/UniSet.py: UniSet, IdentitySet*, AndSet/OrSet/InvertFamily')]),
P('P17', 'Statistics round-trip, slice and subtract exactly',
  'Statistics saved to a file and loaded back equal the original: same rows, names, counts, sizes, totals and metadata, for any number of tables in one file and for any row contents. '
  'The difference of two statistics has, for every row name, exactly the count and size difference, and totals that match; rows returned by slicing and lookup are those of the full table.',
  ['inputs', 'histories'], 'all statistics of generated sets over all relations, all pairs of them, all row ranges, and sequences of dumps to one file',
  'tests dump and load one small heap.',
  ['guppy/heapy/Part.py', 'guppy/heapy/Use.py'],
  [('dump and load', 'guppy/heapy/Part.py: Stat.dump, StatLoader / Use.py: load'), ('difference', 'guppy/heapy/Part.py: Stat.__sub__, DiffFormat')]),
P('P18', 'Paged output shows every line once, in order',
  'Printing a set, a partition, a statistic, paths or a reference pattern and continuing with its more, all, prev and top commands shows every row exactly once and in order, with correct numbering and remaining-line counts, whatever the number of rows and the page settings. '
  'Nothing is skipped, repeated or reported remaining that does not exist.',
  ['inputs', 'histories'], 'all row counts around multiples of the page size, all page sizes, and all sequences of paging commands',
  'tests print fixed short tables; page boundary behaviour is a statement over all lengths.',
  ['guppy/heapy/OutputHandling.py', 'guppy/heapy/Part.py', 'guppy/heapy/Path.py', 'guppy/heapy/RefPat.py'],
  [('paging', 'guppy/heapy/OutputHandling.py: MorePrinter, Printer, more_printer, line_iter')]),
P('P19', 'Relative heap shows exactly what is new since the reference point',
  'After setting a reference point, the relative heap contains exactly the reachable objects allocated after it: every new reachable object and no older one, whatever objects were created, freed or resurrected meanwhile and however addresses are reused. '
  'A new reference point starts over, and the heap of unreachable garbage shows exactly the unreachable collectable objects.',
  ['histories'], 'all sequences of object creation, deletion, address reuse, reference point setting and queries',
  'address reuse after the reference point depends on the allocation history; tests do one allocation.',
  ['src/heapy/horizon.c', 'guppy/heapy/Use.py', 'guppy/heapy/View.py'],
  [('deallocation hook', 'src/heapy/horizon.c: horizon_patched_dealloc, horizon_news'), ('reference point', 'guppy/heapy/Use.py: setref, setrelheap, heapu')]),
P('P20', 'Observing the heap does not change it',
  'Queries leave the examined program as it was: no examined object is modified, kept alive, or given extra references after the results are dropped, and the same query repeated on an unchanged heap gives the same answer. '
  'Creating and using sessions repeatedly does not make the reported heap or the process grow.',
  ['histories', 'inputs'], 'all sequences of queries on generated graphs, repeated any number of times',
  'leaks and self-observation appear only over repetition and in particular query combinations.',
  ['src/heapy/hv.c', 'src/heapy/classifier.c', 'guppy/heapy/View.py', 'guppy/heapy/UniSet.py', 'src/heapy/hv_cli*.c'],
  [('borrowed traversal', 'src/heapy/hv.c'), ('hidden internals', 'guppy/heapy/View.py: _hiding_tag_')]),
P('P21', 'Bad arguments and hostile objects give exceptions, not crashes',
  'Any call of the native set and heap interfaces with arguments of wrong type, number, range or structure, or with objects whose own methods raise or misbehave, either works or raises an ordinary Python exception: the process never crashes, corrupts memory, or returns an error without an exception set. '
  'After a refused call the objects involved are still valid and usable.',
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of calls with arbitrary argument values, and callbacks that raise at any point',
  'unit tests call with valid arguments; memory safety quantifies over all arguments and failure points.',
  ['src/sets/bitset.c', 'src/sets/nodeset.c', 'src/sets/immnodeset.c', 'src/heapy/heapyc.c', 'src/heapy/hv.c', 'src/heapy/nodegraph.c', 'src/heapy/classifier.c', 'src/heapy/rootstate.c', 'src/heapy/stdtypes.c'],
  [('argument parsing and error paths', 'all native entry points')]),
P('P22', 'Reference patterns are faithful trees of referrers',
  'In a reference pattern the root is the examined set, the children of each node are the kinds of the referrers of that node with exactly the referring objects, largest first, down to the depth asked for and except below the kinds to stop at: a set already shown is referred to by its number instead of expanded again. '
  'Counts, sizes, indexes and the printed tree agree with the sets of the nodes at any depth, also when navigated by attribute or index.',
  ['inputs'], 'all generated graphs and target sets, all depths and navigation sequences',
  'tests print one or two patterns.',
  ['guppy/heapy/RefPat.py'],
  [('pattern iteration', 'guppy/heapy/RefPat.py: ReferencePattern, RefPatIter, RPNode')]),
P('P23', 'Interpreter roots: threads and frames are seen as they are',
  'The interpreter state root reaches every object held by a running thread, a stack frame of any thread, the module table or the interpreter built-ins, and its attributes and relations name the actual objects (thread by thread, frame by frame). '
  'This stays true while threads start, run and end and frames are nested to any depth; a limit frame hides the later frames of its thread, and looking keeps no frame alive.',
  ['histories', 'schedules'], 'all numbers and depths of threads and frames, with objects held only by a local, an argument, a cell or an exception of some frame',
  'tests use the main thread only, mostly.',
  ['src/heapy/rootstate.c', 'src/heapy/stdtypes.c', 'src/heapy/hv.c'],
  [('interpreter state traversal', 'src/heapy/rootstate.c: rootstate_traverse, rootstate_relate, rootstate_getattr, rootstate_dir')]),
P('P24', 'Session objects resolve names lazily and stay independent',
  'A name provided by a session object gives the same object on every path and in every order in which it is first asked for, and unknown names raise the error of a missing attribute every time. '
  'Options changed in one session or one printing object take effect there and never in another session, and only names declared changeable can be changed.',
  ['histories', 'configurations'], 'all orders of attribute access and option changes over several sessions',
  'results are cached on first use, so errors depend on access order; each test uses one order.',
  ['guppy/etc/Glue.py', 'guppy/etc/Descriptor.py', 'guppy/heapy/Use.py'],
  [('lazy import and sharing', 'guppy/etc/Glue.py: Share, Interface, Owner')]),
P('P25', 'Dotted-tree text round-trips every tree',
  'Writing any tree of tagged nodes as dotted text and parsing it gives the same tree, for tags with any mixture of dots, quote characters, blanks and newlines, at any depth and with any tree character chosen. '
  'Parsing text and writing it back preserves it up to outer blank space, node line numbers are those of the text, and malformed nesting is refused with an error.',
  ['inputs'], 'all trees with all tag strings and all texts',
  'the invariant is stated for all nodes; the module self-test tries ten shuffles of five characters.',
  ['guppy/gsl/DottedTree.py'],
  [('parser', 'guppy/gsl/DottedTree.py: parse_iter'), ('writer', 'guppy/gsl/DottedTree.py: unparse_tag, unparse_sexpr')]),
P('P26', 'Combinations, word rewriting, automata and expressions are exact',
  'Combining iterables yields every combination exactly once, the rows in step first, and takes no item before it is needed. Completing a set of equations of words decides equality: words reduce to the same normal form exactly when the equations make them equal. '
  'Making an automaton deterministic and minimal, solving it as an expression, and simplifying, reversing, splitting, printing or listing an expression keep exactly its words, with no more states than needed; the dual of a category reverses every arrow and relation.',
  ['inputs'], 'all small sets of iterables, finite rewriting systems, automata, expressions and categories',
  'algebraic statements over all words; tests use fixed groups and words.',
  ['guppy/etc/IterPermute.py', 'guppy/etc/KnuthBendix.py', 'guppy/etc/FSA.py', 'guppy/etc/RE.py', 'guppy/etc/RE_Rect.py', 'guppy/etc/Cat.py'],
  [('combinations', 'guppy/etc/IterPermute.py'), ('completion', 'guppy/etc/KnuthBendix.py'), ('subset construction and minimal automaton', 'guppy/etc/FSA.py'), ('expressions', 'guppy/etc/RE.py'), ('simplification', 'guppy/etc/RE_Rect.py')]),
]

# ---- checks -------------------------------------------------------------
from checkspec import CHECKS, NOT_APPLICABLE  # noqa

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in PROPS]
    checks = []
    for id in ids:
        if id in CHECKS:
            tech, note = CHECKS[id]
            checks.append({
                'property': id,
                'quick_cmd': 'python3 check.py %s' % id,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % id,
                'evidence_file': 'evidence/%s.json' % id,
                'technique': tech, 'level': 'exploration', 'level_note': note})
    na = []
    for id in ids:
        if id not in CHECKS:
            na.append({'property': id, 'reason': NOT_APPLICABLE.get(id, 'check not built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks share the generated-input engine in /verif/pbt; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

if __name__ == '__main__':
    main()
