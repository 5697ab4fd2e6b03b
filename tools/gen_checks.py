import json
base="Exhaustive within the stated bounds, on the real code. Trusts the reference model, the canonical-state fingerprint (lookup comparison paths plus shared addresses) and rustc."
T={
"C01":"explicit-state breadth-first exploration of the real maps (canonical shapes to a fixpoint) plus exhaustive operation sequences, against a sorted-vector model",
"C02":"explicit-state breadth-first exploration of families of clones (shapes x sharing, to a fixpoint or a stated cap) plus every operation on every shape under every sharing pattern, against one model per handle",
"C03":"explicit-state exploration of all tree shapes and bulk operations with a structural invariant and comparison counting on every lookup, insertion and removal",
"C04":"exhaustive enumeration of pairs of operand shapes and placements for every bulk operation on the real maps, against set-theoretic definitions",
"C05":"exhaustive enumeration of pairs of operand sets (all subsets x all shapes, all size ratios and relations, shared and unshared) for every set operation, against set-theoretic definitions",
"C06":"exhaustive exploration of every interleaving of next and next_back over every tree shape, against a deque model",
"C07":"exhaustive enumeration of bound pairs and front/back interleavings over every tree shape, against a filtered-vector model",
"C08":"explicit-state exploration of families of clones with a per-element drop registry, memory poisoning and allocation accounting on every execution",
"C09":"exhaustive fault injection: a panic at every user callback of every operation on every shape and sharing pattern, with a drop registry and observation of all handles",
"C10":"explicit-state exploration of shapes x sharing patterns with clone counting on every operation, against a clone budget",
"C11":"exhaustive enumeration of entry streams, size hints and stream failures driving the real Serialize and Deserialize implementations, against a sorted-vector model",
"C12":"exhaustive enumeration of pairs of collections (all contents over a small domain x all shapes x sharing), comparing eq, cmp, partial_cmp, hash and Debug with the contents",
"C13":"explicit-state breadth-first exploration of families of stacks to a fixpoint plus all operation sequences to a depth, against a list model",
"C14":"exhaustive enumeration of sharing patterns and destruction scripts on long structures, executed on small thread stacks",
"C15":"stateless model checking of the real code under a controlled scheduler (scheduling points at every reference-count operation and user callback): all thread interleavings up to a preemption bound",
"C16":"exhaustive enumeration of entry operations on every shape, key, gap and sharing pattern, against the standard map's definition",
"C17":"exhaustive exploration of operation sequences with distinguishable equal keys, comparing the kept and returned instances with a model, by borrowed and owned key",
"C18":"explicit-state breadth-first exploration of the real sets (canonical shapes to a fixpoint) plus exhaustive operation sequences, against a sorted-vector model",
"C19":"exhaustive enumeration of scripted comparison answers for every operation on every shape, with a drop registry, memory poisoning and termination limits",
}
import sys
have=[x for x in sys.argv[1].split(",")]
d=json.load(open('/verif/tools/checks.json'))
d["checks"]={i:{"technique":T[i],"note":d["checks"].get(i,{}).get("note",base)} for i in sorted(have)}
json.dump(d,open('/verif/tools/checks.json','w'),indent=1)
