#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IMPL = "src/implementations"
p("C01", "Intersection contains exactly the common points",
  "For any two ranges or sets of any of the fifteen supported types, the intersection contains a point if and only if both operands contain it, and computing it never panics.",
  ["inputs", "histories"], "every ordered pair of the 15 operand types, every value of the operands (every bound kind, every relative order of end points, any number of pieces), every point t",
  "tests sample a few integer operands per pair of types; membership must hold for every relative order of bounds, every bound kind and any number of pieces",
  [IMPL + "/intersection/", "src/intersection.rs", "src/bounded_set.rs", "src/bound.rs"],
  [("RangeIntersection impls", IMPL + "/intersection/*.rs"), ("BoundedSet::add_range / add_set", "src/bounded_set.rs"), ("Ord for LowerBound / UpperBound", "src/bound.rs")],
  observe=["Rangetools::intersection", "contains"])
p("C02", "Union contains exactly the points of either operand",
  "For any two ranges or sets of any of the fifteen supported types, the union contains a point if and only if at least one operand contains it, and computing it never panics.",
  ["inputs", "histories"], "every ordered pair of the 15 operand types, every operand value, every point t",
  "tests sample a few integer operands per pair; chains of merges (a new range bridging several pieces, touching bounds of different kinds) are barely sampled",
  [IMPL + "/union/", "src/union.rs", "src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs"],
  [("RangeUnion impls", IMPL + "/union/*.rs"), ("add_range / add_set / add_*_bounded_range / defragment", "src/*_set.rs")],
  observe=["Rangetools::union", "contains"])
p("C03", "Complement contains exactly the missing points",
  "For any range or set, the complement contains a point if and only if the operand does not, and computing it never panics.",
  ["inputs", "histories"], "each of the 15 operand types, every operand value, every point t",
  "tests sample single operands; complement of multi-piece sets folds intersections over the pieces and depends on every bound kind",
  [IMPL + "/complement/", "src/complement.rs"],
  [("RangeComplement impls", IMPL + "/complement/*.rs")], observe=["Rangetools::complement", "contains"])
p("C04", "Conversions and membership tests agree with the mathematical range",
  "contains answers according to the bounds of the range, and converting a range (from the standard library types, to the crate's own range types, to a set, or by a public constructor) never changes which points it contains.",
  ["inputs"], "every range type, every bound kind, every relative order of the bounds and of the point, including standard inclusive ranges already exhausted by iteration",
  "tests check a few points around a few bounds", ["src/bounded_range.rs", "src/lower_bounded_range.rs", "src/upper_bounded_range.rs", "src/unbounded_set.rs", IMPL + "/rangetools/"],
  [("From impls, contains, to_inner, to_set, new", "src/*_range.rs, src/*_set.rs, " + IMPL + "/rangetools/*.rs")], observe=["contains", "to_inner", "to_set", "From"])
p("C05", "Emptiness, disjoint and intersects tell the truth",
  "is_empty holds exactly when the bounds leave no room for a value, and disjoint / intersects of two ranges or sets answer whether some bounds-admissible value lies in both; the two answers are always opposite and never panic.",
  ["inputs", "histories"], "each type for is_empty and every ordered pair of types for disjoint/intersects, every operand value",
  "tests sample a few operands; boundary kinds at equal end points and multi-piece sets are not covered for every pair",
  ["src/lib.rs", IMPL + "/rangetools/", IMPL + "/intersection/"],
  [("Rangetools::is_empty/disjoint/intersects", "src/lib.rs, " + IMPL + "/rangetools/*.rs")], observe=["is_empty", "disjoint", "intersects"])
p("C06", "Sets always keep non-empty, disjoint, ascending pieces",
  "Whatever sequence of public operations produced it, a set consists of non-empty, pairwise non-overlapping pieces in ascending order, with unbounded ends outermost and never overlapping each other (then the set is represented as full); so iteration, equality and length never see an empty, duplicated or misplaced piece.",
  ["histories", "inputs"], "every history of union, intersection, complement, conversion and construction on every operand type (serde input excluded); shown inductively for any number of pieces",
  "tests run short fixed chains; the invariant must survive every history", ["src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs", IMPL],
  [("private ranges fields; add_range / defragment / retain", "src/*_set.rs"), ("From<BoundedRange> for BoundedSet", "src/bounded_set.rs")],
  state=[("pieces", "deque of bounded ranges plus unbounded ends", "src/*_set.rs")])
p("C07", "Lower and upper bounds are totally ordered by what they admit",
  "Comparing two lower bounds (or two upper bounds) is a total order consistent with equality that sorts bounds by the set of points they admit, and mapping, flipping, constructing or unwrapping a bound keeps its value and treats its kind as documented.",
  ["inputs"], "all pairs and triples of bounds, both kinds, every order of the contained values",
  "tests sample a few integer bounds; order laws quantify over triples", ["src/bound.rs"],
  [("PartialOrd/Ord for LowerBound, UpperBound; Bound::map/flipped", "src/bound.rs")])
p("C08", "Iterating a bounded range yields exactly its values",
  "Iterating a bounded range, from the front, from the back or in any mixture, yields each contained value exactly once in ascending order from the front and descending from the back, then ends for good; it never panics, also at the extremes of the element type.",
  ["inputs", "histories"], "every bounded range over a stepping element type including its minimum and maximum, every interleaving of front and back steps",
  "tests iterate a few small i32 ranges; extremes and interleavings are unbounded", ["src/bounded_range.rs", "src/step.rs", "src/empty_range.rs"],
  [("BoundedRangeIter", "src/bounded_range.rs")], state=[("iterator position", "what remains to be yielded", "src/bounded_range.rs")])
p("C09", "Iterating a bounded set yields exactly its values",
  "Iterating a bounded set, from the front, from the back or mixed, yields each contained value exactly once, ascending from the front and descending from the back, then ends for good, without panicking.",
  ["inputs", "histories"], "every set with any number of pieces, every interleaving of front and back steps", "tests iterate sets of two or three pieces front to back",
  ["src/bounded_set.rs", "src/bounded_range.rs"], [("BoundedSetIter", "src/bounded_set.rs")])
p("C10", "Iterating a lower-bounded range or set yields its values in order",
  "Iterating a range or set without upper bound yields its values in ascending order without gaps or repetitions, first those of the bounded pieces and then those of the unbounded tail, up to and including the maximum of the element type; it can only fail when a value beyond the maximum is asked for.",
  ["inputs", "histories"], "every lower bound and kind, any number of bounded pieces, every prefix of the infinite iteration", "tests take a handful of values",
  ["src/lower_bounded_range.rs", "src/lower_bounded_set.rs"], [("LowerBoundedRangeIter, LowerBoundedSetIter", "src/lower_bounded_range.rs, src/lower_bounded_set.rs")])
p("C11", "Iterator shortcuts agree with stepping one by one",
  "nth, nth_back, last, min, max, count, len and size_hint of every iterator give what repeated next / next_back would give, leave the iterator where those steps would leave it, and never panic; lengths are exact whenever they fit.",
  ["inputs", "histories"], "every iterator state reachable by any mixture of steps, every argument n; for sets: all sets of up to 3 pieces",
  "tests call them on a few fresh iterators; skips past the end, past pieces and after partial consumption are not covered",
  ["src/bounded_range.rs", "src/bounded_set.rs", "src/lower_bounded_range.rs", "src/lower_bounded_set.rs"],
  [("overridden Iterator/DoubleEndedIterator methods", "src/bounded_range.rs, src/bounded_set.rs, src/lower_bounded_*.rs")])
p("C12", "Integer stepping is exact arithmetic",
  "For every built-in integer type, stepping forward or backward by n gives exactly the value n away or reports overflow when there is none, and the step count between two values is their exact difference, or nothing when reversed or not representable; the panicking variants agree with the checked ones and, with overflow checks on, panic exactly when those report overflow.",
  ["inputs"], "all twelve integer types, all values, all n", "no test calls the stepping functions over the value range; the products are 2^72 to 2^192 cases",
  ["src/step.rs"], [("step_integer_impls!", "src/step.rs")])
p("C13", "Character stepping skips exactly the surrogate gap",
  "Stepping a character by n moves n Unicode scalar values, never produces a surrogate or out-of-range code point (so the unchecked conversion is always sound), reports overflow exactly past either end, and is inverse to the step count.",
  ["inputs"], "all chars, all n", "no test crosses the gap systematically; unsoundness of the unchecked conversion is not observable by a passing test",
  ["src/step.rs"], [("impl Step for char (from_u32_unchecked)", "src/step.rs")])
p("C14", "Converting back to standard ranges keeps the elements",
  "Converting any of the crate's ranges to a standard library range type keeps exactly the contained values whenever the result is representable.",
  ["inputs"], "all bound kinds and values, including bounds at the extremes of the element type whenever an equal standard range exists", "tests convert one or two ranges per type",
  ["src/bounded_range.rs", "src/lower_bounded_range.rs", "src/upper_bounded_range.rs", "src/unbounded_range.rs", "src/empty_range.rs"],
  [("From<...> for std::ops::*", "src/*_range.rs")])
p("C15", "Indexing with a range selects exactly its positions",
  "Indexing a slice, vector, string or C/OS string with one of the crate's ranges selects exactly the positions the range contains and panics exactly when the equal standard range would.",
  ["inputs"], "every indexable type and range type with an Index/IndexMut impl, every length, bound kind and bound value", "tests index one sample container per impl",
  [IMPL + "/index/"], [("Index/IndexMut impls", IMPL + "/index/*.rs")])
p("C16", "Only lower-bounded results are iterable, and results stay typed",
  "A result can be iterated exactly when its type is lower-bounded, each operation on each pair of operand types yields the documented most specific result type, set contents cannot be altered from outside the crate, and every range and set is as copyable, comparable, hashable and sendable as its element type allows.",
  ["programs"], "every client program", "one compile-fail doc test covers one pair of operands; the guarantee is about every program that must not type-check",
  ["src/lib.rs", "src/*_range.rs", "src/*_set.rs", IMPL], [("Output types of the operation traits; IntoIterator impls; pub(crate) fields", "src/, " + IMPL)])
p("C17", "Serialization round-trips every type",
  "With the serde feature on, serializing any value of the crate's types and deserializing it again gives an equal value.",
  ["inputs"], "every public type of the crate that derives the traits and every value (sets of up to 3 pieces), over formats with named or positional fields", "no existing test exercises serde at all",
  ["src/bound.rs", "src/*_range.rs", "src/*_set.rs"], [("derive(Deserialize, Serialize)", "src/*.rs")])
p("C18", "Equality, hashing and cloning are coherent",
  "Equality of the crate's bounds, ranges and sets holds exactly when all bounds (value and kind) and pieces coincide, equal values hash equally, and a clone is equal to and independent of the original.",
  ["inputs"], "all pairs of values of each public type; sets of up to 2 pieces", "tests only compare results with expected values",
  ["src/bound.rs", "src/*_range.rs", "src/*_set.rs"], [("derived PartialEq/Eq/Hash/Clone", "src/*.rs")])
p("C19", "Set algebra laws hold",
  "Union and intersection commute, associate, are idempotent and absorb each other, complement is an involution and De Morgan's laws hold, all in terms of which points the results contain.",
  ["inputs", "histories"], "operands of every range and set family, all values, all points", "tests check no law; each law relates several operations whose composition tests never run",
  ["src/lib.rs", IMPL, "src/*_set.rs"], [("union/intersection/complement impls", IMPL)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
