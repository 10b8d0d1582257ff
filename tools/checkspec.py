T = 'property-based testing'
CHECKS = {
 'P01': (T + ': generated operand pairs against an exact integer-set model',
         'Random search: no violation in the generated cases; trusts the model of finite/co-finite sets in props/bitmodel.py.'),
 'P02': (T + ': stateful histories against a model',
         'Random search over histories of up to 40 steps on up to eight bitsets, every live bitset compared with the model after every step.'),
 'P03': (T + ': metamorphic (many constructions of one value), round trips',
         'Random search; equality, hash and round trips of every pair of constructions.'),
 'P04': (T + ': stateful histories against a model of identity sets',
         'Random search over histories of up to 30 steps on up to six node sets; every live set compared with the model after every step.'),
 'P05': (T + ': stateful histories with a reference-count and lifetime oracle, fault injection by finalizers',
         'Random search; exact reference counts after every step, re-entrant finalizers, generated garbage cycles.'),
 'P07': (T + ": generated object graphs, closure of the interpreter's own reference reports as the oracle",
         'Random search over graphs of up to 14 nodes and 47 node kinds; frames that execute are covered by P23.'),
 'P08': (T + ': generated object graphs with placed tags, a model of visibility as the oracle',
         'Random search over graphs of up to 12 nodes, two tags, registered and exact hidden types, raw views and a session.'),
 'P09': (T + ': generated object graphs; each reported relation is carried out, edge counts compared with the reference counts of the interpreter',
         'Random search over graphs of up to 9 nodes and 52 node kinds, all pairs of nodes and of their direct referents.'),
 'P10': (T + ': stateful histories of queries, reference changes, collections and root changes; inverse of the model closure as the oracle',
         'Random search over graphs of up to 12 nodes and histories of up to 12 steps; a small share of cases runs against the whole process heap.'),
 'P11': (T + ': generated object graphs and access sequences, breadth first search of the model as the oracle, expressions evaluated',
         'Random search over graphs of up to 12 nodes plus generated long (1500 steps) and many-path (4**1500) structures.'),
 'P12': (T + ': generated object graphs, model closures and actual deletion of the targets (weak references tell what died) as the oracles',
         'Random search over graphs of up to 12 nodes and up to 3 target sets.'),
 'P13': (T + ': generated objects and fill histories, differential against sys.getsizeof and tracemalloc, metamorphic sums over sets and partitions',
         'Random search over 65 kinds of data objects and generated object graphs; user-defined sizes up to 2**40, errors in them included.'),
 'P15': (T + ': generated populations and kind expressions; predicates of a model of classes as the oracle, differential against tracemalloc for producers, nested native classifiers against a model',
         'Random search over populations of up to 20 generated objects and what they reach, kinds of up to 3 nested relations; not every kind has a printed form that can be evaluated.'),
 'P16': (T + ': generated set expressions over concrete sets and kinds; Boolean combination of membership predicates as the oracle',
         'Random search over expressions of up to 14 operations on up to 6 operands; comparisons of kinds may decline to claim what is true.'),
 'P14': (T + ': generated populations and relations; partitions against classes of a model, printed tables and row selections against the rows',
         'Random search over populations of up to 20 generated objects and what they reach; rows, order and figures by nine basic relations and their combinations.'),
 'P17': (T + ': histories of dumps, loads, slices and differences of generated and real statistics against a model table',
         'Random search over histories of up to 14 steps on up to 14 statistics and two files; files are not changed by others while they are read.'),
 'P18': (T + ': generated printed objects and paging commands, a model of the pages as the oracle',
         'Random search over 0 to 120 rows, page sizes and histories of up to 12 commands on any page; white space is not compared where rows are wrapped.'),
 'P22': (T + ': generated object graphs, patterns and navigation histories against a tree built from the inverse of the reference relation',
         'Random search over populations of up to 20 objects, depth up to 6, at most 150 lines of each pattern; all navigation by generated histories.'),
 'P19': (T + ': generated histories of marked objects, horizons, reference points and leaked references against a model of what was there',
         'Random search over histories of up to 30 steps on 8 places and 3 horizons, objects of 36 kinds, nesting up to 300000; objects freed by specialised arithmetic are known findings.'),
 'P20': (T + ': generated query sequences; reference counts, contents, deaths, answers, allocated blocks and the reported heap compared before and after (metamorphic)',
         'Random search over sequences of up to 10 queries on populations of up to 20 generated objects; leaks of less than one block in each round of queries are not seen.'),
 'P21': (T + ': generated calls of every native entry point with wrong and hostile arguments, injected allocation failures, and heaps of hostile objects, on modules built with AddressSanitizer',
         'AddressSanitizer and the interpreter as oracle (no crash, no SystemError, no stray exception), consistency of every native object and exact reference counts afterwards.'),
 'P25': (T + ': generated trees and texts against a reference writer and parser of dotted trees',
         'Random search over trees of up to 40 nodes, paths of up to 300 and texts of up to 12 lines, over tags made of the special characters.'),
 'P26': (T + ': generated iterables, equations, automata and expressions against reference enumerations',
         'Random search over up to 4 iterables, 4 equations on 3 letters and monoids of maps on 3 points, automata of 6 states and expressions of 10 operators; words are enumerated up to a length of 4 to 8.'),
 'P23': (T + ': generated histories of threads and nested frames against the frames the interpreter reports and the objects planted in them',
         'Random search over histories of up to 25 steps on 5 threads with frames of 50 kinds, and threads running freely; one interpreter describes itself.'),
 'P24': (T + ': generated packages and request histories against a model that resolves by need, two request orders of the real modules against each other, interleaved sessions against each alone',
         'Random search over packages of up to 6 modules of up to 7 names, histories of up to 40 requests by 3 sessions, 40 names of the real modules and 18 option changes and renderings of 2 sessions.'),
 'P06': (T + ': stateful histories against a relation model',
         'Random search over histories of up to 30 steps on up to five graphs.'),
}
NOT_APPLICABLE = {}
