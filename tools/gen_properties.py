#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Every obtained collection keeps its contents forever",
     "Once a vector, map, set, bag, list, deque, record, persistent class instance or checked collection has been obtained, "
     "nothing done later to it, to collections derived from it, to evolvers of it, or to the mutable data it was built from changes what it contains: "
     "contents, length, iteration order, lookups and hash stay as they were. "
     "This holds for every sequence of operations, including ones that raise.",
     ["histories", "inputs"],
     "All operation sequences over the whole public updating API of every collection type, up to a depth, branching from every earlier version.",
     "The tests check that one or two originals are unchanged after one update; aliasing between versions only shows after a particular chain of branching updates at particular sizes.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py",
      "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py", "pyrsistent/_checked_types.py"],
     [("path copying of trie nodes", "PythonPVector._do_set/append/_push_tail; doSet/pushTail/copyPVector in pvectorcmodule.c"),
      ("copy on first write in evolvers", "PythonPVector.Evolver._do_set; doSetWithDirty"),
      ("bucket lists are rebuilt, never edited", "PMap._Evolver.set/remove"),
      ("cons cells are only linked before publication", "_PListBuilder")],
     [("versions", "all values obtained so far in a history", "harness")],
     ["public read API of every collection"])

prop("C02", "Vectors behave like lists for every size, index and history",
     "A persistent vector built by any route and updated by any sequence of append, extend, +, *, set, mset, delete, remove and slicing holds exactly what a Python list put through the same steps holds; "
     "indexing, slicing, iteration, len, in, index, count, comparison and conversion to list agree with that list, out-of-range positions raise IndexError and absent values ValueError. "
     "Setting one past the end appends.",
     ["histories", "inputs"],
     "Every size up to two trie levels and around every node-overflow boundary up to four levels, every position class, every build route, every operation pair/triple; both vector implementations.",
     "Tests use a handful of sizes and single operations; trie bugs live at specific sizes (32*k, 1024+32, 32768+32 ...) combined with specific build routes.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c"],
     [("32-way trie with tail", "PythonPVector / PVector in pvectorcmodule.c"), ("root overflow", "_create_new_root; ROOT_NODE_FULL")],
     [], ["PVector API"])

prop("C03", "A vector evolver is an isolated mutable list with repeatable commits",
     "An evolver behaves like a mutable copy of its vector: set, append, extend and delete act on the evolver alone, reads reflect all pending changes, and persistent() returns a vector with exactly the current contents each time it is called, however often and however interleaved with further changes. "
     "Several evolvers of one vector never influence each other, the vector, or vectors already produced. "
     "is_dirty() is true exactly when there may be changes since creation or the last persistent(): it is false when nothing was done and true whenever the contents differ; an untouched evolver returns the original vector itself.",
     ["histories"],
     "All interleavings of operations on up to two evolvers and their products up to a depth, from vectors at every trie-shape class; both implementations.",
     "Tests run single fixed scripts; copy-on-write bookkeeping errors need particular interleavings of set/append/delete/persistent at particular sizes.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c"],
     [("dirty node tracking", "PythonPVector.Evolver._dirty_nodes/_cached_leafs; DIRTY_BIT in pvectorcmodule.c"), ("append list", "_extra_tail / appendList")],
     [("pending changes", "uncommitted updates in an evolver", "Evolver")], ["evolver API", "produced vectors"])

prop("C04", "The C and pure Python vectors are interchangeable",
     "For integer indexes and arbitrary elements and iterables, every operation of a vector or vector evolver gives equal results, or raises the same exception class, with the C extension and with the pure Python implementation. "
     "This includes hashes, representation, ordering against vectors and lists, and mixing of both implementations in one comparison.",
     ["histories", "inputs", "configurations"],
     "All operation sequences of the vector and evolver alphabets up to a depth run in lockstep on both implementations, from all trie-shape classes.",
     "The test-suite runs the same examples on both but never compares outcomes on inputs outside those examples.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c"],
     [("two implementations behind one factory", "end of pyrsistent/_pvector.py")], [], ["pvector API under both configurations"])

prop("C05", "Maps behave like dicts under every key and collision pattern",
     "A persistent map built by any route and updated by any sequence of set, remove, discard, update, update_with, + and | holds exactly the items a dict put through the same steps holds, whatever the keys' hash values, collisions, sizes and insertion order. "
     "Lookup, get, in, len, iteration, keys/values/items views, attribute access and equality with dicts agree with that dict; a missing key raises KeyError (AttributeError for attribute access), and discarding a missing key returns the same map. "
     "update_with merges left to right.",
     ["histories", "inputs"],
     "All assignments of colliding hash values to a small key set, all operation sequences up to a depth, all insertion/removal orders, all sizes through several growth steps.",
     "Tests use ordinary strings and ints that rarely collide and one growth step; bucket and resize bugs need colliding keys in a particular order.",
     ["pyrsistent/_pmap.py"],
     [("bucket vector indexed by hash", "PMap._get_bucket"), ("growth", "PMap._Evolver._reallocate"), ("bulk construction", "_turbo_mapping")],
     [], ["PMap API"])

prop("C06", "Map, set and record evolvers are isolated and repeatable",
     "An evolver of a map, set, checked vector, map or set, record or persistent class instance behaves like a private mutable copy: reads reflect pending changes, persistent() returns a value with exactly the current contents every time it is called, and it may be called repeatedly and between further changes. "
     "The source, values already produced and other evolvers are never affected; an evolver without changes returns the source itself.",
     ["histories"],
     "All operation sequences on up to two evolvers up to a depth, with colliding keys and growth in the middle of an evolution.",
     "Tests call persistent() once or twice in fixed scripts; lost or leaked updates need a specific order of commit, growth, removal and re-commit.",
     ["pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_checked_types.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py"],
     [("bucket evolver and size counter", "PMap._Evolver"), ("commit", "persistent() of each evolver class")],
     [("pending size and buckets", "uncommitted state", "PMap._Evolver")], ["evolver API", "produced values"])

prop("C07", "Sets obey set algebra under every hash and history",
     "A persistent set built by any route (including the keys of a map) holds exactly the distinct elements a built-in set put through the same steps holds, and add, update, remove, discard, union, intersection, difference, symmetric difference, subset/superset/disjoint tests, ordering, equality, in, len and iteration agree with the built-in set, also when the other operand is a built-in set. "
     "Removing a missing element raises KeyError; discarding one returns the same set.",
     ["histories", "inputs"],
     "All pairs of subsets of a small universe with colliding hashes, every build route and order, all operations, and all update sequences up to a depth.",
     "Tests sample a few pairs of small int sets without collisions.",
     ["pyrsistent/_pset.py", "pyrsistent/_pmap.py"],
     [("set on top of map", "PSet._map"), ("Set mixin operations", "PSet._from_iterable")], [], ["PSet API"])

prop("C08", "Bags behave like multisets",
     "A persistent bag counts each element exactly as a multiset put through the same adds, updates and removes does, and +, -, | and & give the multiset sum, difference, union and intersection. "
     "count, in, len, iteration and equality reflect those counts (insertion order is irrelevant), and removing an absent element raises KeyError.",
     ["histories", "inputs"],
     "All pairs of bags over a small colliding universe with counts up to a bound, and all update sequences up to a depth.",
     "Tests check one example per operator.",
     ["pyrsistent/_pbag.py", "pyrsistent/_pmap.py"], [("counter map", "PBag._counts")], [], ["PBag API"])

prop("C09", "Linked lists behave like immutable sequences",
     "A persistent list built by any sequence of cons, mcons, reverse, remove, split, rest and slicing contains exactly what a Python sequence put through the same steps contains. "
     "len, indexing, full slicing (negative and out-of-range bounds included), iteration, in, index, count, ordering and equality agree with that sequence; bad indexes raise IndexError and absent elements ValueError.",
     ["histories", "inputs"],
     "All lists over a small alphabet up to a length, every operation with every argument in and around range, all sequences up to a depth, with shared tails.",
     "Tests use one three-element list per operation.",
     ["pyrsistent/_plist.py"], [("cons cells", "PList"), ("builder linking cells in order", "_PListBuilder")], [], ["PList API"])

prop("C10", "Deques behave like bounded double-ended queues",
     "A persistent deque put through any sequence of append, appendleft, extend, extendleft, pop, popleft (with counts), remove, reverse and rotate contains exactly what collections.deque put through the same steps contains, and never exceeds its maximum length, which every derived deque keeps. "
     "left, right, len, indexing, full slicing, iteration, count, index, ordering and equality agree with that deque; popping an empty deque gives an empty deque.",
     ["histories", "inputs"],
     "All reachable internal shapes over a small alphabet and every maximum length up to a bound, every operation with every argument in and around range.",
     "Tests use a few literal deques; results depend on how elements are split between the two internal halves, which depends on the history.",
     ["pyrsistent/_pdeque.py", "pyrsistent/_plist.py"],
     [("two lists and a length", "PDeque"), ("rebalancing", "PDeque._pop_lists"), ("bounding", "PDeque._append/_extend")],
     [("left/right split and length", "internal shape", "PDeque")], ["PDeque API"])

prop("C11", "Equality and hashing depend on contents only",
     "Two collections of the same kind compare equal exactly when their contents are equal, no matter by which history, order or implementation each was produced or whether either was hashed or compared before; == is symmetric and != is its negation. "
     "Equal collections have equal hashes and can stand in for each other as dict keys and set members, and the hash of a value never changes. "
     "The same holds between a collection and its checked variants, a map's key set and a plain set, and a persistent set and a frozenset.",
     ["histories", "inputs"],
     "All pairs from a pool of every abstract content times every construction route, times every combination of previously hashed/not hashed.",
     "Tests hash a couple of identically built values; the cached-hash and shortcut paths need different histories of equal contents.",
     ["pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pbag.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_pclass.py"],
     [("cached hash and equality shortcuts", "PMap.__eq__/__hash__"), ("element-wise comparison", "PVector_richcompare; PList.__eq__; PDeque.__eq__; PClass.__eq__")],
     [("cached hash", "hash remembered inside a map", "PMap")], ["==, !=, hash, dict/set membership"])

prop("C12", "Checked collections only ever hold valid elements",
     "Whatever public operation produced it, an instance of a checked vector, map or set class contains only elements (keys and values) of the types its class declares or inherits and satisfying every declared or inherited invariant. "
     "An operation that would introduce a wrongly typed element raises a type error, one that would introduce an invariant-violating element raises InvariantException carrying the failing invariants' error data, and one that introduces only valid elements succeeds and returns an instance of the same class.",
     ["inputs", "histories", "programs"],
     "All class declarations of a finite family (types, optional types, invariants, multi-result invariants, multi-level inheritance), all element vectors with an invalid element at every position, all construction sources and update operations including evolvers and transform.",
     "Tests check one invalid element through one or two operations on one class.",
     ["pyrsistent/_checked_types.py"],
     [("type and invariant check on every write", "Checked*.Evolver"), ("inheritance of declarations", "_store_types/store_invariants")], [], ["Checked* API"])

prop("C13", "Records and persistent classes always satisfy their declaration",
     "Every instance of a record or persistent class has only declared fields, all mandatory fields, values of the declared types after the field's factory was applied, and satisfies all field and class invariants, own and inherited. "
     "Creation or update (keyword or positional set, update, remove, evolver, transform, create) that would break this raises (type error, AttributeError for an unknown field, InvariantException naming missing fields and failed invariants) and otherwise yields exactly the requested field values, defaults applied, with untouched fields unchanged and their factories not run again. "
     "Instances cannot be changed by attribute assignment or deletion.",
     ["inputs", "programs", "histories"],
     "All field declarations of a finite family, all combinations of supplied field values from a small valid/invalid alphabet, all update sequences up to a depth.",
     "Tests exercise each feature once in isolation; combinations (factory+invariant+mandatory+default+inheritance) and update chains are unexplored.",
     ["pyrsistent/_precord.py", "pyrsistent/_pclass.py", "pyrsistent/_field_common.py"],
     [("field checks", "_PRecordEvolver.set/persistent; PClass.__new__; _check_and_set_attr"), ("class invariants", "check_global_invariants"), ("freezing", "PClass.__setattr__")], [], ["PRecord and PClass API"])

prop("C14", "Pickling, copying and serializing round-trip every value",
     "Unpickling a pickle (protocol 2 and up), copy.copy and copy.deepcopy of any collection, record, persistent class instance or checked collection gives an equal value of the same class with the same contents, order and bound, without running field factories. "
     "Re-creating a checked collection, record or class from its serialized form gives an equal value, and custom serializers, also inherited ones, are applied to every value.",
     ["inputs", "programs", "configurations"],
     "Every value of the equality pool and of the record/class/checked families, every protocol, nested combinations.",
     "Tests pickle one or two values of each type.",
     ["pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pdeque.py", "pyrsistent/_plist.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py", "pyrsistent/_checked_types.py", "pyrsistent/_field_common.py"],
     [("__reduce__ implementations", "each collection class"), ("restoring without factories", "_restore_pickle")], [], ["pickle, copy, serialize, create"])

prop("C15", "freeze and thaw convert deeply and invert each other",
     "freeze turns lists, dicts, default dicts and sets at any depth inside lists, dict values and tuples into vectors, maps and sets and leaves everything else alone; thaw does the reverse; with strict (the default) they also look inside already converted containers and with strict=False they do not. "
     "thaw(freeze(x)) equals x for data made of built-in containers, neither function changes its argument, and a function decorated with mutant sees only frozen arguments and returns a frozen result.",
     ["inputs"],
     "All nested structures up to a depth and width over all container kinds and leaf kinds, both strictness settings.",
     "Tests convert about a dozen literals.",
     ["pyrsistent/_helpers.py"], [("recursive conversion", "freeze/thaw")], [], ["freeze, thaw, mutant"])

prop("C16", "transform changes exactly what its paths select",
     "transform applies each command, in order, to exactly the elements whose keys or indexes match the path (literal keys, one- and two-argument predicates, regular expressions, ny), creating missing maps along literal keys, and leaves everything else as it was; discard removes exactly the matched elements and never creates any. "
     "A transformation that changes nothing returns the original object, and unchanged substructures are shared with it.",
     ["inputs"],
     "All nested map/vector/record structures up to a depth, all paths up to a length over literal and predicate steps, all commands, pairs of transformations.",
     "Tests use about twenty literal examples; interactions of multiple matches with deletion, missing keys and nesting are not covered.",
     ["pyrsistent/_transformations.py"], [("path walk over evolvers", "_do_to_path/_update_structure"), ("reverse order deletion", "_update_structure")], [], ["transform on PMap, PVector, PRecord, PClass, checked types"])

prop("C17", "The C vector never loses, leaks or prematurely frees objects",
     "After any sequence of vector and evolver operations with the C extension, including ones that fail part way or whose callbacks run arbitrary code or a garbage collection, every element of a live vector is alive and intact, and once the last vector and evolver holding an element are gone the element is released. "
     "A garbage collection never affects an object that is still reachable.",
     ["histories", "fault_sequences"],
     "All operation sequences up to a depth over tracked elements at every trie-shape class, a failure injected at every callback (iteration step, comparison, hash, repr), re-entrant calls from element finalizers and iterators, a collection at every callback.",
     "A wrong count shows only after a particular release order; tests never fail an iterator midway nor collect cycles through shared nodes.",
     ["pvectorcmodule.c"],
     [("node reference counts", "INC/DEC_NODE_REF_COUNT, releaseNode, cleanVector"), ("GC support", "PVector_traverse, PVectorEvolver_traverse"), ("node cache", "allocNode/freeNode")],
     [("node refCount", "owners of a trie node", "VNode")], ["weak references, live-object counts, sys.getrefcount"])

prop("C18", "A failing operation leaves no trace",
     "When an operation fails because user code it called (element hash or comparison, iterator, merge function, predicate, command, factory, invariant, serializer) raised, that exception reaches the caller, no existing collection is changed, and repeating the operation without the failure gives the normal result. "
     "Empty collections and other shared defaults are never affected.",
     ["fault_sequences", "inputs"],
     "For every operation that calls user code: a failure injected at every single call-back occurrence, for every collection kind and a family of states.",
     "Tests inject at most one failure (a raising repr).",
     ["pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py", "pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_transformations.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py", "pyrsistent/_checked_types.py"],
     [("build aside, publish last", "every updating method"), ("shared empty instances", "_EMPTY_PMAP, _EMPTY_PVECTOR, _EMPTY_PLIST, _EMPTY_PSET, _EMPTY_PBAG, EMPTY_VECTOR")], [], ["public API"])

prop("C19", "Values can be shared between threads and re-entrant calls",
     "Any number of threads may read, compare, hash, pickle and derive new values from the same collections, records and classes at the same time, and user callbacks may use the same collections re-entrantly: every call returns what it would have returned running alone. "
     "Evolvers used by one thread each are independent of other threads' work, even when created from the same value.",
     ["schedules"],
     "All schedules of two threads running one operation each (an operation may be a whole evolver session) on shared values, switching at any call, line or bytecode of the library and at any user callback up to a preemption bound, and re-entry of every operation at the callbacks of every other.",
     "No existing test uses threads or re-entrant callbacks.",
     ["pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py", "pyrsistent/_pvector.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_transformations.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py", "pyrsistent/_checked_types.py", "pyrsistent/_field_common.py", "pvectorcmodule.c"],
     [("no shared mutable scratch state", "whole package"), ("idempotent hash caching", "PMap.__hash__")], [], ["public API from several threads"])

prop("C20", "Updates share structure instead of copying",
     "Updating one position or key of a vector, map, set or bag of n elements (append, extend by a few, set, add, remove from a map or set, update or transform of one element, or a few evolver changes) creates a value that shares all but a logarithmic number of fixed-size blocks with the original, and elements outside those blocks are not copied; only the occasional doubling of a map's or set's table, a logarithmic number of times while it grows, may copy more. "
     "Prepending to a list, adding at either end of a deque, taking the rest of a list, reversing a deque or taking a map's key set copies no elements. "
     "Operations with nothing to do (extending or updating by nothing, giving a map key the very object it has, adding a present element, discarding an absent one, committing an untouched evolver) return the original object.",
     ["inputs", "histories"],
     "Every size up to a bound and around every trie boundary, every position, every single-element update.",
     "No test observes sharing; a silent full copy passes every functional test.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py"],
     [("path copying", "_do_set, doSet, copyNode"), ("shared tails", "PList.cons")], [], ["reference counts of elements"])

prop("C21", "Immutable classes hold exactly their members; frozen ones never change",
     "A class made by immutable() from any list of members gives instances that hold exactly the values they were given, cannot be changed by attribute assignment, compare and hash by those values, and show them in their representation. "
     "set() returns an instance of the same (sub)class in which exactly the named members have the new values, created through the class's own constructor, and the original is untouched; without arguments it returns the instance itself. "
     "Naming an unknown or a frozen member (trailing underscore), alone or among others, raises AttributeError.",
     ["inputs", "histories"],
     "All member lists up to a length in every order and spelling, direct use and subclasses with and without own constructor, every subset of members in set(), and sequences of set().",
     "Tests use one or two members and one update each.",
     ["pyrsistent/_immutable.py"],
     [("generated class source", "immutable()"), ("frozen member test", "frozen_member_test")], [], ["public API"])

prop("C22", "get_in follows any path exactly as indexing does",
     "get_in(keys, coll) returns exactly the object that indexing coll with the keys one after the other gives, for every nesting of persistent and built-in collections, falsy values included. "
     "If a key or index is missing or does not fit, it returns the default (None unless given), or raises the exception of that step with no_default; other exceptions always reach the caller.",
     ["inputs"],
     "All nestings up to a depth and all paths up to a length over present, absent, negative, out-of-range and wrongly typed keys.",
     "The only test has no effective assertion.",
     ["pyrsistent/_toolz.py", "pyrsistent/_pmap.py", "pyrsistent/_pvector.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py"],
     [("stepwise lookup", "get_in")], [], ["public API"])

prop("C23", "The representation of a value rebuilds it",
     "Evaluating the representation of any vector, map, set, bag, list, deque, checked collection, record or persistent class instance, with the names of the package and of the declared classes in scope, gives an equal value of the same class with the same order and maximum length, at every nesting, provided the elements' own representations do so. "
     "str() gives the same text.",
     ["inputs", "histories"],
     "Values of every kind of every small size, all divisions and bounds of deques, all field combinations, all nestings to a depth, elements with special characters.",
     "Tests compare a few literal strings.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py", "pyrsistent/_checked_types.py"],
     [("representation", "__repr__ and __str__ of every class; PVector_repr in pvectorcmodule.c")], [], ["repr, str"])

prop("C24", "Declaring or using a class never changes another one",
     "What a checked collection class, record class, persistent class or immutable class accepts, rejects, reports, defaults to and serializes depends only on its own declaration and those of its bases. "
     "Declaring, subclassing, combining or using other classes before or after, also ones with the same name, the same field objects' types or the same item types, changes neither the class nor its existing instances; a subclass without declarations behaves like its base.",
     ["programs", "histories"],
     "All ordered pairs of declarations from a pool in every relation (before, after, subclass, common subclass, same name).",
     "Each test looks at its own class only.",
     ["pyrsistent/_checked_types.py", "pyrsistent/_field_common.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py", "pyrsistent/_immutable.py"],
     [("per-class declaration tables", "_CheckedTypeMeta, _PRecordMeta, PClassMeta, set_fields, store_invariants"), ("registries of generated types", "_seq_field_types, _pmap_field_types")], [], ["public API"])

prop("C25", "Operators give the defined answer or refuse, for operands of every kind",
     "Comparing a collection with any other object by == or != answers whether they are collections of the same family (vectors and lists; maps and mappings; sets and key sets; bags; lists; deques; instances of one class) with equal contents, both ways round, "
     "and never raises, except that bags may refuse anything but bags. Ordering is defined between vectors (and lists), between sets, between lists and between deques, and agrees with the built-in types; +, -, |, &, ^ and * give what list, dict, set and Counter give where they are defined "
     "(vector + iterable, map + and | mapping, set algebra with any iterable on either side, bag algebra between bags, vector * int). Everything else raises (TypeError; maps may raise another exception) unless the other operand implements the operation itself, in which case its answer is used by == and by operators the collection does not define for it. "
     "No operator, also in its augmented form, changes an operand.",
     ["inputs"],
     "All ordered pairs of operand kinds (persistent, built-in, foreign) with all small contents under all binary operators.",
     "Tests try one or two foreign operands for a few operators; a missing type check gives an answer where there should be none only for particular pairs of kinds.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_pclass.py", "pyrsistent/_checked_types.py"],
     [("type checks and NotImplemented in operators", "PBag.__add__/__sub__/__or__/__and__/__eq__; PList.__lt__/__eq__; PDeque.__lt__/__eq__; PMap.__eq__/__add__; PSet operators; PClass.__eq__; PVector_richcompare, PVector_extend, PVector_repeat")], [], ["operators"])

prop("C26", "Arguments are only read",
     "No operation, successful or failing, changes a mutable object it is given: lists, dicts, sets, deques, default dicts (no entries appear), keyword dictionaries, paths, nested data, collections of types in declarations. "
     "Results do not change when the argument is changed afterwards, the same argument can be used again with the same outcome, and an iterator gives what a list of its elements gives.",
     ["inputs", "histories"],
     "All operations that take containers, with all kinds of mutable containers and all small contents, valid and invalid.",
     "Tests pass literals and do not look at them afterwards.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py",
      "pyrsistent/_checked_types.py", "pyrsistent/_field_common.py", "pyrsistent/_helpers.py", "pyrsistent/_transformations.py", "pyrsistent/_toolz.py", "pyrsistent/_immutable.py"],
     [("bulk construction and merging", "_turbo_mapping, PMap.update_with, PSet._from_iterable, PVector_extend, plist, pdeque"), ("creation from plain data", "PRecord.create, PClass.create, CheckedPMap.create, CheckedPVector.create")], [], ["arguments after the call"])

prop("C27", "Iterators and views stand alone",
     "Every iterator over a collection (plain, reversed, keys, values, items) gives exactly the elements the collection has, once each and in the collection's order, however it is interleaved with other iterators over the same or related collections, "
     "whatever is derived, evolved, refused, read or dropped in between (also the last other reference to the collection), and stays exhausted once it is exhausted. Views (keys, values, items) that are kept show their map at any time, as often as they are iterated, and never change.",
     ["histories", "schedules", "inputs"],
     "All interleavings of two and three iterators over every kind of collection with every kind of disturbance at every point; all sizes around block boundaries.",
     "Tests iterate with a single for loop from start to end.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_precord.py", "pyrsistent/_checked_types.py"],
     [("iteration", "PVectorIter_next, PVector_iter in pvectorcmodule.c; PythonPVector.__iter__; PMap.iteritems, _PMap_items, PMapView, PMapValues, PMapItems; PSet.__iter__; PBag.__iter__; PList.__iter__; PDeque.__iter__, __reversed__")], [], ["iterators, views"])

prop("C28", "Persistent collections work wherever built-in ones do",
     "Every persistent collection conforms to the protocol it stands for (Sequence, Mapping, Set, Collection or Iterable, Hashable, never a mutable one): conversions, unpacking, argument passing, structural pattern matching, membership, the views of maps, "
     "built-in functions, the consumers of the standard library (itertools, functools, operator, bisect, heapq, random, string formatting, json where it applies) and the in-place methods of built-in containers give with it what they give with a tuple, dict or frozenset of the same contents, "
     "item assignment and deletion are refused, and nothing of this changes the collection.",
     ["inputs", "configurations"],
     "All combinations of consumers, kinds of collections and small contents, in both implementations.",
     "Tests use a few built-in functions on a few collections; that a protocol is kept shows only in the consumer that depends on it.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_precord.py", "pyrsistent/_checked_types.py"],
     [("protocols", "the register() calls of Sequence, Mapping, Set, Hashable, Container at the end of each module; PVectorType in pvectorcmodule.c; PMapView, PMapValues, PMapItems")], [], ["collections.abc conformance"])

prop("C29", "Results depend on contents, not on history or sharing",
     "What an operation gives depends only on the contents (class, elements, order where there is one, bound) of its operands: values with equal contents behave alike however each came about (construction routes, growth, shrinking, evolvers, slices, copies, pickles, earlier hashing), "
     "and whether operands are unrelated, derived from each other, or one and the same object (x + x, x.update(x), x == x, x - x, x.extend(x)).",
     ["inputs", "histories"],
     "All pairs of histories of equal contents, all sequences of two operations after them, and all ways two operands can share structure, for every kind of collection.",
     "Tests build their values by the constructor and use unrelated operands; a defect tied to an internal shape (empty tail, unbalanced deque, oversized bucket list, shared node) shows only for values with that history.",
     ["pyrsistent/_pvector.py", "pvectorcmodule.c", "pyrsistent/_pmap.py", "pyrsistent/_pset.py", "pyrsistent/_pbag.py", "pyrsistent/_plist.py", "pyrsistent/_pdeque.py", "pyrsistent/_precord.py", "pyrsistent/_pclass.py", "pyrsistent/_checked_types.py"],
     [("representation invariants", "tail and root of vectors; buckets of maps; left and right list of deques (PDeque.__new__); evolver internals")], [], ["representation independence"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
