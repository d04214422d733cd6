S = {
'C01': ("""Specified: any value obtained stays as it was. Enumerated: for each of 11 kinds of value, from start values at every
trie and bucket boundary, all sequences of operations over an alphabet that is the *whole* API of that kind (reads,
updates, evolvers used before and after `persistent()`, in-place operators, operations that raise, mutable sources and
mutable results changed afterwards by the caller). Oracle: a snapshot of each value taken at its creation (contents,
length, order, lookups, hash, repr; running iterators), compared after every later operation on any relative.""",
 """Structure sharing bugs need an older version to be kept *and* a particular later operation on a relative at a particular shape;
tests look at the newest version."""),
'C02': ("""All sizes 0..1120 and around 32^3 and 32^4 elements, built by every route; at each size every operation at all
positions (or all block boundaries); all sequences of 4 operations from 16 boundary sizes; all slices and search ranges;
comparisons of all short vectors; equal-but-distinct elements. Oracle: list in lock step, IndexError/ValueError by
list's rules.""",
 """The trie has about a dozen boundary conditions (tail full, root overflow, height change, negative index, one past the
end) which combine with the history that produced the shape; tests use a handful of sizes."""),
'C03': ("""All sequences of up to 4 operations over 16 on one evolver; all interleavings on two evolvers (siblings, or the second
made from the first one's product); evolver and vector operations mixed; commits of every subset of 12 positions of a
three-level vector; base sizes at trie boundaries. Oracle: one list per evolver; all produced vectors are re-read after
every step.""", """Dirty-node bookkeeping goes wrong only for change/commit/change patterns inside one node."""),
'C04': ("""Both implementations in one process, driven through all sequences of depth 4 over 24 vector and 12 evolver operations
from 12 boundary sizes, all argument combinations with boundary indexes, comparison of all pairs of short sequences in 5
representations (incl. mixing the implementations) and hashes. Oracle: each other (and exception classes).""",
 """Differential checking decides details (exception class of an argument combination) that no test states."""),
'C05': ("""All sequences of 4 operations over 14 on 4 keys, for *all set partitions of the keys into buckets* (the only thing a
key's hash can influence at a fixed table size), each realised by equal hashes, equal remainders, far and negative
hashes; all insertion x removal orders of 5 keys; every size 0..420 for 7 hash sequences, 7 construction routes, every
pre-size; all pairs and triples of maps in update/update_with. Oracle: dict.""",
 """Collisions and table growth are not reached by tests with small integer keys."""),
'C06': ("""For maps, sets, checked collections, records and classes: all sequences of 4 operations on two evolvers of one value
and 5-6 on one, 7 collision patterns; values that are equal but distinct are told apart. Oracle: a dict/set/list per
evolver; every product and the source are re-read after every step.""",
 """Repeated commits and sibling evolvers were broken in the original code (two fixes)."""),
'C07': ("""All pairs of subsets of 4 elements x 10 collision patterns x 7 x 7 construction routes in every operator, named method,
comparison, with persistent, built-in and key-view operands on either side; all sequences of 5 of 13 updates; key sets
of maps, checked maps and records. Oracle: built-in set.""", """Pair/route/side combinations."""),
'C08': ("""All pairs of bags over 3 elements with counts 0..3, 6 collision patterns, 3 routes, all operators; all sequences of 4 of
14 updates. Oracle: collections.Counter.""", """Count arithmetic over all pairs."""),
'C09': ("""All lists over 3 elements up to length 4 (2 elements: 6) by 6 routes: every read with every index, slice, search range;
all comparisons; all sequences of 5 of 16 operations with all versions re-checked. Oracle: tuple/list.""",
 """Negative and out-of-range slices were broken in the original."""),
'C10': ("""All contents up to length 6, *every division between the two internal ends* (reached through the public API by the way
the deque is filled), every bound, every operation with every argument followed by every read, all pairs; all sequences
of 4 of 22 operations. Oracle: collections.deque plus slicing of lists.""",
 """The division between the halves and the bound combine with each operation; four defects of the original were found."""),
'C11': ("""All ordered pairs from pools contents x construction routes, with neither, either or both operands hashed before, and
with intermediate values hashed during construction. Oracle: equality of contents; equal values must have equal hashes,
stand in for each other in dict and set, and keep their hash.""", """Hash caches and history dependence."""),
'C12': ("""Class hierarchies of one to three levels and with two bases over 8 type declarations x 5 invariant declarations per level;
for each class all element sequences up to length 2 over 9 elements through the constructor, an offending element at
every position through 20 update operations, create(), evolvers and sequences of evolver operations with invalid values.
Oracle: a re-statement of the declaration rules.""", """Every route x every hierarchy."""),
'C13': ("""All 288 declarations of one field, in the class, a base, a grandbase or overridden; every value of an 8 element alphabet
through construction and every update route; two and three field classes with own and inherited class invariants;
collection fields, nested records; all sequences of 5 evolver operations with valid and invalid values. Oracle: a
re-statement of the declaration rules that also counts factory calls.""", """Combinations of declaration and update route."""),
'C14': ("""Pickle protocols 2..5 (C and Python pickler), copy, deepcopy and serialize/create of all values of bounded families
(every small size, every collision pattern, every field combination, all nestings of 16 container kinds to depth 3), and
pickles exchanged with a process running the other vector implementation. Oracle: equality, class, order, bound, and
that no factory ran.""", """Each `__reduce__`/constructor pair must handle every content."""),
'C15': ("""All structures of depth 3 over list, dict, defaultdict, tuple, pvector, pmap, set, pset and 13 leaf kinds; chains to
depth 5; strict and not; all argument/result combinations of `mutant`. Oracle: a re-statement of the table in the
documentation; arguments are compared (deeply, with identity) before and after.""", """Nesting combinations."""),
'C16': ("""About 350 structures of depth <= 3, all paths of length 0..2 over 18 steps (length 3 on deep ones), 13 commands, all pairs
of transformations of a pool, large vectors; 29 regular expressions x 26 keys for rex, predicates with every kind of answer. Oracle: a recursive re-statement of the selection rule; identity of
everything that is not selected.""", """Paths x structure x command."""),
'C17': ("""All programs of 2 (3 at 7 shapes) operations over 26 vector, evolver and iterator operations applied to any value obtained so far, then
all values released in *every order*; after each release the set of live elements must be exactly those reachable from
the model. A failure at every iteration step, comparison, hash and repr; 11 re-entrant actions at every callback
including finalizers; garbage collections with cycles through vectors that share nodes with live ones; repeated under
AddressSanitizer. Oracle: reachability in the model, block and reference counts.""",
 """Reference counting errors need a failing or re-entrant callback, or one release order."""),
'C18': ("""Fault enumeration: each of about 330 operations is run once to count its callbacks, then once per callback with that
callback raising (three exception classes), then with all pairs of failures; all existing values are compared before and
after, and the repeated operation must give the normal result; evolver steps that are *refused* (not interrupted) are compared with a twin evolver that never saw them.""", """Tests hardly ever let a callback fail."""),
'C19': ("""Stateless exploration of schedules on two real threads: a scheduler owns every switch at each call, line or bytecode of
the library and at each user callback; values are made anew for each schedule; all schedules with one preemption (two
for an operation against itself) are run. Second part: every operation inside callbacks of every other operation
(re-entrancy is a schedule too). Oracle: the results of each operation run alone, and the unchanged shared values.""",
 """Lazily cached hashes, class-level caches and shared scratch state break under one particular preemption only."""),
'C20': ("""Reference counts of *all* elements are compared before and after each update, with both values alive: an element that
was copied into a new block has one reference more. All positions at 14 sizes for vectors; maps, sets and bags at each
size while growing and shrinking; no-op operations must return the same object. Oracle: a bound of 33 references per
touched position (+33 for the tail), for maps the number of colliding keys; total over a growth phase for table
doublings.""", """Sharing is invisible in results; a full copy passes every test."""),
'C21': ("""All member lists (every subset, order and spelling), direct use, named, subclassed, with a checking constructor; every
subset of known, frozen and unknown names in set(), sequences of two. Oracle: a tuple of values; identity of every value.""",
 """Member subsets and frozen/unknown mixtures."""),
'C22': ("""All nestings of 11 container kinds to depth 3 and all paths. Oracle: indexing step by step in the harness.""",
 """Falsy results, wrongly typed steps and exceptions of user containers."""),
'C23': ("""`eval(repr(x))` for every value of the families of C14. Oracle: the recursive class-and-contents comparison of C14.""",
 """Every kind nested in every other, every bound of a deque."""),
'C24': ("""The *fingerprint* of a declaration (outcomes of about 40-80 constructions, updates, creations, serializations, error data) is taken
alone and again in the presence of every other declaration in 6 relations. Oracle: equality of fingerprints.""",
 """Cross-talk between classes needs two declarations and an order; KF1 is of this kind."""),
'C25': ("""Every ordered pair of operand kinds (18 persistent, 30 others, among them duck-typed mappings, sequences and sets) with every pair of small contents under 12 operators, plus the augmented
forms. Oracle: a table by family of operand (list, dict, set, Counter semantics where the operation is defined, refusal elsewhere); operands fingerprinted before and after.""",
 """The matrix has 1.4 million cells; the tests look at a few dozen."""),
'C26': ("""Every operation with a container argument is called twice with the same mutable argument, which is compared by identity, order and type; then the argument is
emptied and the result compared with its own earlier form. Oracle: nothing changed; both calls agree; iterators agree with lists.""",
 """Needs looking at the argument, after success and after failure, for each kind of container: the tests pass literals."""),
'C27': ("""All interleavings of two (and three) iterators of every kind over 21 kinds of collections, with one of 12 disturbances (pairs at thorough) at every point, kept views, and
block-boundary sizes with iterators at fixed distances. Oracle: the list of elements of a twin made in the same way; exhausted iterators must stay so.""",
 """Shared iterator state or a cached listing shows only when two iterators are alive at once or an update falls between two steps."""),
'C28': ("""All combinations of about 130 consumers (conversions, unpacking, match statements, builtins, itertools, functools, operator, bisect, heapq, random, string methods, views, in-place methods of
built-in containers, item assignment), every kind of collection and every content up to 3 (4) elements over a small alphabet. Oracle: the same consumer on a tuple, dict or frozenset; the collection must be unchanged afterwards.""",
 """Each protocol has many entry points (`__contains__` of views, `index` bounds, ABC registration, type flags) and a defect is visible in one consumer only."""),
'C29': ("""For 13 kinds of collections, all contents of up to 3 (4) elements and block-boundary sizes, each made by every one of 8 to 28 histories: every operation and every sequence of two operations, and every two-operand
operation with independent, identical and derived operands. Oracle: the same operation on operands made by the plain constructor (metamorphic: no outside model).""",
 """Abstract values have many concrete shapes; operations with a special case for one shape (empty tail, one-sided deque, grown bucket list, the receiver as argument) go wrong only there."""),
}
