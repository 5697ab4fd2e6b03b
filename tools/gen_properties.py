#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that it stays readable)."""
import json, os
A="src/avl.rs"; AS="src/avl/avl_set.rs"; B="src/btree.rs"; BS="src/btree/btree_set.rs"
C="src/btree/core.rs"; F="src/btree/fixed.rs"; L="src/lib.rs"; S="src/stack.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Maps agree with a sorted map on every operation history",
 "After any history of insertions, removals, pops, in-place updates, clears and conversions, each map (AVL map, B-tree map of every node size, fixed-node B-tree map) holds exactly the entries a sorted map would hold, and every call returned what a sorted map would return. Lookups find every present key and no absent one; len, is_empty, first/last and ascending iteration agree with the contents at every step.",
 ["histories","inputs","configurations"],"all operation histories x all tree shapes x node sizes x map types",
 "Property tests sample random histories of u8 keys; they never reach most rebalancing paths of multi-level trees, and removal in tall trees depends on the exact occupancy of a node and both its siblings on several levels at once.",
 [A,B,C,F],[("AVL insertion/removal with rotations","src/avl.rs ins, rm, rm_leftmost, rm_rightmost, rot_*"),("B-tree insertion with splits, removal with rotation/merge","src/btree.rs Node::insert, split, remove, rebal"),("inline-array node insertion/removal","src/btree/core.rs ins_no_split, ins_split, remove, rebal, merge_kids")],
 ["return values","get/contains_key/iter/len after every step"],[dict(name="root,len",meaning="tree and cached entry count",where="AvlMap, BTreeMap, fixed::BTreeMap")])
p("C02","Clones are independent: a mutation is visible only through its own handle",
 "However collections were cloned from each other, no operation on one of them, including bulk operations, mutable iteration, entry updates, partially consumed owning iterators and dropping it, ever changes what any other handle observes. A clone observes exactly the contents its source had when it was cloned.",
 ["histories","inputs"],"all families of clones x all operation sequences on any member x all sharing patterns",
 "Tests clone once and compare one map; isolation depends on which nodes are shared at which depth when a rotation, merge, split or iterator reaches them.",
 [A,AS,B,BS,C,F,S],[("copy-on-write of shared nodes","Arc::make_mut / Rc::make_mut at every mutating step"),("owned-or-shared iteration","IntoIterNode, ArcNodeIntoIter, OwnedOrLeased")],
 ["contents of every handle after every operation on any handle"])
p("C03","Trees stay balanced and ordered; lookups cost O(log n) comparisons",
 "In every reachable state keys are strictly ascending and the balance rules of the structure hold (AVL: subtree heights differ by at most one; B-tree: all leaves at one depth and node occupancy within bounds), and the public check() accepts it. Lookup, insertion and removal therefore need only logarithmically many key comparisons, in every state reachable by any operation, including bulk operations, cloning and deserialization.",
 ["histories","inputs","configurations"],"all reachable states x all lookup keys",
 "A tree that is correct as a map but degenerate passes every functional test; balance is a statement about all reachable shapes.",
 [A,B,C,F,L],[("AVL heights and rotations, join","src/avl.rs rebal_*, join_lf, join_rt"),("B-tree splits, merges, rotations, stitch","src/btree.rs, src/btree/core.rs"),("public self check","Map::check, Set::check")],
 ["Map::check/Set::check","number of Ord::cmp calls per operation"])
p("C04","Bulk map operations compute exactly the specified combination of entries",
 "append, split_off, retain, extend, construction from iterators and arrays, and the AVL map's union, intersection, difference, symmetric difference and join produce exactly the entries their definition prescribes, for every pair of operands of any sizes and shapes. append and union prefer the argument's entry on equal keys, intersection keeps the left entry, append leaves its argument empty, split_off(k) moves exactly the keys >= k, and retain visits every entry once in ascending key order and keeps the values it mutated.",
 ["inputs","histories"],"all operand pairs (shape x shape x overlap x sharing) and all split points and predicates",
 "join/split/merge recursion depends on both heights and on how the key sets interleave; tests sample small random pairs.",
 [A,B],[("join, join2, split, Merger","src/avl.rs"),("rebuild through owning iterators","src/btree.rs append, retain, split_off")],
 ["contents, length, return values and later operations on results and operands"])
p("C05","Set algebra is exact for every pair of sets",
 "For both set types and any two sets, however they share structure, union, intersection, difference and symmetric difference (as lazy iterators, as operators and as constructors) yield exactly the mathematical result in ascending order without duplicates. is_subset, is_superset and is_disjoint agree with that result, including for empty, equal and very differently sized sets; operand references are left unchanged.",
 ["inputs","histories"],"all pairs of sets up to a size, all shapes, all sharing patterns, asymmetric sizes",
 "Predicates and constructors have shortcuts (length comparisons, pointer equality, size-ratio thresholds) that random same-sized pairs do not exercise.",
 [AS,BS,A,L],[("sorted merge iteration","src/lib.rs SortedMergeIter, SetOpIter"),("lock-step subset test with pointer shortcut","src/avl/avl_set.rs is_subset"),("size-ratio strategies","src/btree/btree_set.rs new_diff, new_union, new_intersection, new_sym_diff")],
 ["results of set operations and predicates"])
p("C06","Iterators yield each entry once, in order, from both ends",
 "For every collection and every interleaving of next and next_back (where the iterator is double-ended), front items come in ascending order, back items in descending order, and together they yield every entry exactly once and then None forever. len() of the exact-size iterators equals the number of remaining items after every step and size_hint always brackets it; this holds for iter, iter_mut, into_iter, keys, values, values_mut, into_keys, into_values, whether or not nodes are shared with clones.",
 ["inputs","schedules"],"all interleavings of front and back steps x all shapes x all iterator kinds x sharing",
 "2^n interleavings per shape; tests use a few random ones and do not reverse the fixed map's iterators at all.",
 [A,AS,B,BS,C,F],[("work-list iteration from both ends","InnerIter in src/avl.rs, src/btree.rs, src/btree/core.rs")],
 ["next, next_back, len, size_hint"])
p("C07","Range queries yield exactly the keys inside the bounds",
 "For every pair of bounds (included, excluded or unbounded on each side, equal to, between or outside the stored keys) range and range_mut yield exactly the entries inside the bounds, ascending from the front and descending from the back under every interleaving, and range_mut updates reach exactly those entries of exactly this handle. A reversed or empty range never yields an entry, and size_hint brackets the number of remaining items.",
 ["inputs"],"all bound pairs x all shapes x all front/back interleavings",
 "Bounds interact with every node boundary of the tree on both edges; tests sample random bounds on random trees.",
 [A,AS,B,BS],[("pruned work lists","AvlMap::range, range_mut; find_range_edges, make_worklist, make_mut_worklist in src/btree.rs")],
 ["items of range/range_mut; contents of all handles afterwards"])
p("C08","Every element is dropped exactly once; nothing leaks",
 "In every execution (any operation history on families of clones, any partially consumed iterator, any bulk operation) every key and value created by the program or by cloning is dropped exactly once, no dropped or uninitialised element is ever read, compared, cloned or returned, and when the last handle is gone no element and no node memory remains allocated.",
 ["histories","inputs"],"all operation histories on clone families x all iterator consumption prefixes x all shapes",
 "Ownership errors need a specific occupancy or a partially consumed iterator and are silent in ordinary assertions; the inline-array nodes use unsafe code.",
 [C,F,A,B,S],[("manual element moves in inline arrays","src/btree/core.rs InlineVec, Splitter, merge_kids, NodeIntoIter"),("owned-or-shared iterators","src/avl.rs IntoIterNode, src/btree.rs ArcNodeIntoIter")],
 ["element life-cycle registry","allocation balance"])
p("C09","A panic in user code never corrupts other handles or memory",
 "If a user-supplied Clone, Ord or closure panics at any point inside any operation, no element is dropped twice or used after being dropped, and every other handle still observes exactly what it did before. If the panic comes from a closure or comparison (retain predicate, entry default, comparison in lookups), the handle itself stays usable with len() equal to what iteration yields.",
 ["fault_sequences","inputs"],"every callback of every operation as panic point x all shapes x sharing",
 "No test panics in a callback; the number of crash points is the number of callbacks executed.",
 [A,AS,B,BS,C,F,S,L],[("ordering of user callbacks and structural updates","all mutating operations"),("take-and-restore of the root","retain, split_off, append")],
 ["other handles' contents","life-cycle registry","len vs iteration of the panicking handle"])
p("C10","Cloning is lazy: clones are free and updates copy only the path they need",
 "Cloning a collection clones no element, lookups and shared iteration clone nothing, and inserting, removing, popping or modifying entries in place in a collection that shares no structure with another clones no element (an Entry may clone its own key). Updating one entry of a collection that shares its structure clones only O(log n) nodes' worth of elements, after which a second update of the same entry clones none; dropping all clones makes further updates copy-free again.",
 ["inputs","histories"],"all shapes x sharing states x single operations",
 "Functional tests cannot see copies; the cost bound is over every shape and every position.",
 [A,AS,B,BS,C,F,S],[("Arc/Rc shared nodes and make_mut","all mutating paths"),("lookup before removal in shared maps","src/btree.rs remove")],
 ["number of Clone calls on keys and values"])
p("C11","Serialization round-trips and deserialization accepts any entry stream",
 "Serializing any map or set emits its entries in ascending order with the exact length, and deserializing that yields an equal, well-formed collection. Deserializing a map from any stream of entries, unsorted, with duplicates (the last one wins), and with any size hint (absent, exact, too small, too large, even the largest integer) yields exactly the map the entries describe, structurally valid and fully usable, and an error in the stream is returned as an error.",
 ["inputs","fault_sequences"],"all entry streams up to a length x all size hints x all error positions",
 "Tests use exact or slightly wrong hints on random sorted data; hint and stream length interact with the recursive halving.",
 [L,A,AS,B,BS],[("construction by halves","src/lib.rs MapVisitor::visit_map, Map::make_half, stitch, make_whole")],
 ["serializer calls","deserialized contents, check(), later operations"])
p("C12","Equality, ordering, hashing and formatting depend only on contents",
 "Two collections compare equal exactly when they hold equal entries, compare as their ascending entry sequences do lexicographically (stacks: top first), and equal collections hash equally, no matter what histories, shapes or sharing produced them. Debug output lists exactly the entries in order.",
 ["inputs","histories"],"all pairs of contents x all shapes of each",
 "Tests compare collections built the same way; independence of shape quantifies over pairs of shapes.",
 [A,AS,B,BS,S],[("element-wise comparison","PartialEq/Ord/Hash/Debug impls")],
 ["==, cmp, partial_cmp, hash, {:?}"])
p("C13","Stacks behave as lists under every history, including shared tails",
 "After any history of push, pop, top_mut, iter_mut, remove, split_off, extend, clear and clone on a family of stacks, every stack equals its own reference list: len, top, contains, iteration order (top first), popped values and results of remove and split_off all agree. Other members of the family are never affected.",
 ["histories","inputs"],"all operation sequences on families of stacks up to depth, all sharing patterns",
 "Stacks form trees of shared tails; removal and splitting relink shared nodes at every depth.",
 [S],[("Rc list with copy on write","src/stack.rs push, pop, remove, split_off, iter_mut")],
 ["all accessors of every handle after every operation"])
p("C14","Destroying long stacks and deep collections needs no deep recursion",
 "A stack of any length can be built, searched, compared, printed, popped, split, cloned, assigned, cleared, dropped and iterated to the end without exhausting a small call stack, whether it is uniquely owned, shares a tail with other stacks, or becomes unshared during the drop. Large maps and sets can likewise be built, traversed and dropped on a small call stack.",
 ["inputs","histories"],"stack lengths x sharing point x destroying operation",
 "Unit tests use short stacks; recursion only fails beyond the default stack size and only on the destroying operation that forgot to unlink.",
 [S,A,B,C],[("iterative drop","src/stack.rs Drop for Stack, clear, drop_head")],
 ["process survives"])
p("C15","Clones used on different threads behave as if each were alone",
 "When clones of one collection are moved to different threads (maps and sets are Send and Sync exactly if their elements are both Send and Sync) and each thread updates, iterates, combines or drops its own handle, then under every interleaving each thread observes exactly what it would observe running alone. No operation panics, deadlocks, leaks or double-drops because of another thread's activity.",
 ["schedules","histories"],"all interleavings of 2-3 threads at reference-count operations and user callbacks, up to a preemption bound",
 "No test runs clones on threads concurrently; uniqueness checks race with other threads' drops and clones only in particular interleavings.",
 [A,AS,B,BS,C,F],[("atomic reference counts, make_mut, try_unwrap, get_mut","all Arc uses")],
 ["per-thread results and contents","life-cycle registry","Send/Sync"],hook="none: the check compiles a copy of the sources with std:: spelled lcc_std::")
p("C16","Entry API: defaults are created at most once and only when needed",
 "For every map state and key, entry(k) followed by and_modify, or_insert, or_insert_with, or_insert_with_key or or_default behaves like the standard map's: the modifier runs exactly once iff the key is present, the default closure runs exactly once iff it is absent and sees the entry's key, and the returned reference designates the entry now stored in this handle only. first_entry and last_entry designate the least and greatest keys; an existing entry's key is never replaced.",
 ["inputs","histories"],"all shapes x all present and absent keys x all entry operations x sharing",
 "Tests check a few entry calls on small maps; laziness and uniqueness of evaluation are not asserted.",
 [L,A,B],[("Entry methods","src/lib.rs Entry")],
 ["returned reference, number of closure calls, contents of all handles"])
p("C17","Equal-but-distinguishable keys: the documented one is kept and returned",
 "When keys compare equal but are distinguishable, insert, extend and construction keep the newest key and value; get, get_key_value, take, replace, remove_entry, pops and iterators return the stored instance; union and append keep the argument's instance, the AVL intersection the left instance. Lookups through a borrowed form of the key behave exactly like lookups by the key itself.",
 ["inputs","histories"],"all histories over keys with equal-comparing variants x all shapes",
 "Most tests use integers, for which equal keys are indistinguishable.",
 [A,AS,B,BS,C,F],[("key replacement on insert","ins, Node::insert, replace, take"),("Borrow-based search","get, remove, take, range")],
 ["identity tags of stored and returned keys"])
p("C18","Sets agree with a sorted set on every operation history",
 "After any history of insert, replace, take, remove, pop, append, split_off, retain, extend and clear, each set holds exactly the elements a sorted set would hold and every call returned what a sorted set would return; contains, get, first, last, len, range and ascending iteration agree with the contents at every step. split_off moves exactly the elements not less than the key and retain calls its predicate once per element in ascending order.",
 ["histories","inputs","configurations"],"all operation histories x all shapes x set types x node sizes",
 "Set-specific code (retain, take, replace, set constructors) is only sampled on small random sets.",
 [AS,BS,A,B],[("set operations over maps","src/avl/avl_set.rs, src/btree/btree_set.rs")],
 ["return values and contents after every step"])
p("C19","Inconsistent comparisons never break memory safety",
 "If the element type's Ord gives inconsistent answers, or changes its mind between calls, operations on any map or set may return arbitrary results or panic, but never read or return memory that holds no element, never drop an element twice, never leak through drop, and always terminate. Handles that were not operated on keep their elements.",
 ["inputs","fault_sequences"],"all sequences of comparison answers up to a length x operations x shapes",
 "No test supplies an inconsistent order; the unsafe inline-array nodes trust search results for indexing.",
 [C,F,A,B],[("index computation from comparisons","src/btree/core.rs search_keys, ins_no_split, remove"),("unsafe moves","src/btree/core.rs InlineVec")],
 ["life-cycle registry, process survives, termination"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
