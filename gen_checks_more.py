IT = "element type: the integers of an interval with unknown ends, so every Step type laid out like an integer range; "
c("C08", 1, "for every bounded range and every interleaving of next/next_back: each call yields exactly the smallest/largest remaining value, None exactly when none remains; no panic edge reachable", IT + "any number of calls (loop head invariant inferred over linear relations)")
c("C09", 1, "for every set, every interleaving of next/next_back, every point t: ascending/descending, contained, never twice, never skipped, end final; no panic edge", IT + INV)
c("C10", 2, "for every lower-bounded range and set: next yields every contained value in ascending order, and a step can only overflow once no value is left", IT + INV)
c("C11", 42, "size_hint, len, count, last, min, max, nth, nth_back agree with the values that next/next_back would deliver, and leave the iterator in the matching state", IT + "bounded ranges and lower-bounded ranges after any number of steps; sets with up to 3 explicit pieces (symbolic bounds), also after steps from either end", note="proof for ranges after any history; for sets exhaustive over all sets of up to 3 pieces")
c("C12", 36, "per integer type and function: the result equals exact integer arithmetic or fails exactly when that has no representation; the panicking variants fail exactly when the checked ones do (overflow checks on)", "all start values and all n symbolically, wrap-around split by case; the 64-bit table is the one compiled here")
c("C13", 5, "index arithmetic over the scalar values: forward/backward/steps_between equal index arithmetic, the unchecked conversion only ever sees scalar values", "all chars and all n symbolically")
c("C14", 13, "per conversion: the result admits t iff the source does; a panic only when no equal standard range exists; standard ranges round-trip", IT + "all bound kinds, end points and probes symbolically")
c("C18", 31, "== holds iff kinds and values of all bounds coincide, != is its negation, equal values feed a recording hasher the same sequence, clones are equal", "all bounds and ranges symbolically; sets with up to 2 explicit pieces", note="proof for bounds and ranges; for sets exhaustive over all sets of up to 2 pieces")
c("C19", 562, "commutativity (225 pairs), idempotence, involution (15), absorption and De Morgan (81 pairs), associativity (64 triples of representative families), pointwise; no panic edge", INV, opts={"SA_PRE": 800, "SA_PRE_SCALE": 0})
c("C16", 800, "positive witnesses (generic in T) must type-check: result type of every operation on every pair, iterability, Copy/Clone/Eq/Hash/Send/Sync; negative witnesses must be rejected: iterating anything without lower bound; API rule: no public field and no public mutable access to the pieces of a set", "the compiler's type checker decides each witness for every element type at once", kind="witness", technique="type-level witnesses (compile-pass / compile-fail) and a rule over the public API taken from rustdoc JSON")
c("C15", 40, "per Index/IndexMut impl: the window equals the positions of the range, a panic iff the equal standard range panics", "containers of any length, all bound kinds and values symbolically; std's own slicing is modelled by its window [start, end) and its panic condition start <= end <= len (character boundaries depend only on the positions, which are shown equal)")
c("C17", 21, "per public type that derives serde's traits: serialize, then deserialize, gives an equal value and reads everything that was written; for formats that carry names and for formats that go by position", "the code serde_derive generates from /repo is interpreted against a recording format; all bounds and ranges symbolically, sets of up to 3 explicit pieces", note="proof for bounds and ranges; for sets exhaustive over all sets of up to 3 pieces (an unbounded part counts as one); the format is a model of serde's data model (named or positional fields, variants by name or index)", serde=True, opts={"SA_ONLY_B": 1})
