#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json."""
import json
ALL = ["C%02d" % i for i in range(1, 20)]
INV = "any number of pieces by induction (loop heads summarised over the fold word, function contracts proved once); a failing obligation is confirmed by an exact run over up to k explicit pieces before it is reported"
TB = ["rustc nightly front end and MIR construction", "analyzer/ (abstract interpreter, zone domain, contract rules)",
      "harness/models.rs and natives.rs: hand-written models of the std functions the crate calls",
      "harness/*.rs: the obligations themselves"]
AS = ["user element types implement Ord/Eq/Clone/Step consistently", "allocation succeeds and lengths stay below usize::MAX"]
C = {}
def c(id, roots, rule, explain, level="proof", technique=None, note=None, **kw):
    C[id] = dict(roots=roots, rule=rule, explain=explain, level=level, technique=technique or
      "abstract interpretation of the compiler's MIR (zone domain with trace partitioning, inductive set summaries, function contracts)", note=note, **kw)
c("C01", 225, "one obligation per ordered pair of operand types: mem(a&b,t) == mem(a,t) && mem(b,t), and no panic edge reachable", "every path of the intersection code is interpreted over symbolic bounds; " + INV)
c("C02", 225, "one obligation per ordered pair: mem(a|b,t) == mem(a,t) || mem(b,t), no panic edge reachable", "every path of the union code is interpreted over symbolic bounds; " + INV)
c("C03", 15, "one obligation per operand type: mem(!a,t) == !mem(a,t), no panic edge reachable", "every path of the complement code is interpreted; " + INV)
c("C04", 56, "one obligation per conversion, constructor and contains method: the result admits t iff the source does", "all bound kinds and all orders of end points and probe are covered symbolically")
c("C05", 240, "is_empty per type and disjoint/intersects per ordered pair against the bounds-level definition", "every path is interpreted; " + INV)
c("C06", 492, "every public operation started on well-formed sets returns a well-formed set, seen from every probe t", INV + "; the shape invariant is checked pointwise: for every t the pieces form a word left* containing? right*")
c("C07", 17, "order laws over all pairs/triples of bounds, agreement with admitted points, map/flip/unwrap laws", "loop-free code, all orders and kinds covered symbolically")
exec(open("gen_checks_more.py").read()) if __import__("os").path.exists("gen_checks_more.py") else None
json.dump({"canaries": 4, "trusted_base": TB, "assumptions": AS, "checks": C}, open("checks.json", "w"), indent=1)
NA = globals().get("NA", {})
M = {"version": 1, "setup_cmd": "python3 check.py --setup",
 "checks": [{"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
   "technique": v["technique"], "level": v["level"], "level_note": v["note"] or v["explain"]} for k, v in C.items()],
 "not_applicable": [{"property": k, "reason": NA.get(k, "not built yet")} for k in ALL if k not in C]}
json.dump(M, open("MANIFEST.json", "w"), indent=1)
