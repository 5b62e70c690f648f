"""C16: type-level guarantees, decided by the compiler's type checker and a rule over the public API.

Positive witnesses are generic in the element type: they type-check iff the guarantee holds for
every element type. Negative witnesses are programs that must not type-check. The API rule walks
rustdoc's JSON description of the crate (all public items and impls). Nothing is executed.
"""
import json, os, subprocess

T = {"Rg": "std::ops::Range<T>", "Ri": "std::ops::RangeInclusive<T>", "Rf": "std::ops::RangeFrom<T>", "Rt": "std::ops::RangeTo<T>",
     "Rti": "std::ops::RangeToInclusive<T>", "Ru": "std::ops::RangeFull", "Er": "EmptyRange<T>", "Br": "BoundedRange<T>",
     "Lr": "LowerBoundedRange<T>", "Ur": "UpperBoundedRange<T>", "Nr": "UnboundedRange", "Bs": "BoundedSet<T>",
     "Ls": "LowerBoundedSet<T>", "Us": "UpperBoundedSet<T>", "Ns": "UnboundedSet<T>"}
FAM = {"Rg": ("B", 0), "Ri": ("B", 0), "Rf": ("L", 0), "Rt": ("U", 0), "Rti": ("U", 0), "Ru": ("N", 0), "Er": ("E", 0), "Br": ("B", 0),
       "Lr": ("L", 0), "Ur": ("U", 0), "Nr": ("N", 0), "Bs": ("B", 1), "Ls": ("L", 1), "Us": ("U", 1), "Ns": ("N", 1)}
LOW = {"B": 1, "L": 1, "U": 0, "N": 0}
UPP = {"B": 1, "L": 0, "U": 1, "N": 0}
NAME = {(1, 1): "B", (1, 0): "L", (0, 1): "U", (0, 0): "N"}


def inter(a, b):
    (x, sx), (y, sy) = FAM[a], FAM[b]
    if "E" in (x, y):
        return "Er"
    return NAME[(LOW[x] | LOW[y], UPP[x] | UPP[y])] + ("s" if sx | sy else "r")


def union(a, b):
    (x, sx), (y, sy) = FAM[a], FAM[b]
    if a == "Nr" or b == "Nr":
        return "Nr"
    if x == "E":
        return b
    if y == "E":
        return a
    if (x == "N" and not sx) or (y == "N" and not sy):
        return "Nr"
    return NAME[(LOW[x] & LOW[y], UPP[x] & UPP[y])] + "s"


COMPL = {"Rg": "Ns", "Ri": "Ns", "Rf": "Ur", "Rt": "Lr", "Rti": "Lr", "Ru": "Er", "Er": "Nr", "Br": "Ns", "Lr": "Ur", "Ur": "Lr", "Nr": "Er",
         "Bs": "Ns", "Ls": "Us", "Us": "Ls", "Ns": "Bs"}
ITER = ["Er", "Br", "Lr", "Bs", "Ls"]
NOITER = ["Ur", "Us", "Nr", "Ns"]
SETS = ["BoundedSet", "LowerBoundedSet", "UpperBoundedSet", "UnboundedSet", "PiecewiseUnboundedSet"]


def positive():
    o = []
    g = "<T: Copy + Ord>"
    for a in T:
        for b in T:
            o.append(("type of %s ∪ %s is %s" % (T[a], T[b], T[union(a, b)]),
                      "pub fn u_%s_%s%s(a: %s, b: %s) -> %s { Rangetools::union(a, b) }" % (a, b, g, T[a], T[b], T[union(a, b)])))
            o.append(("type of %s ∩ %s is %s" % (T[a], T[b], T[inter(a, b)]),
                      "pub fn i_%s_%s%s(a: %s, b: %s) -> %s { Rangetools::intersection(a, b) }" % (a, b, g, T[a], T[b], T[inter(a, b)])))
        o.append(("type of the complement of %s is %s" % (T[a], T[COMPL[a]]),
                  "pub fn c_%s%s(a: %s) -> %s { Rangetools::complement(a) }" % (a, g, T[a], T[COMPL[a]])))
    for a in ITER:
        o.append(("%s can be iterated, yielding T" % T[a],
                  "pub fn it_%s<T: Copy + Ord + Step>(a: %s) { fn f<T, I: IntoIterator<Item = T>>(_: I) {} f::<T, _>(a) }" % (a, T[a])))
        o.append(("iteration of %s is fused" % T[a],
                  "pub fn fu_%s<T: Copy + Ord + Step>(a: %s) { fn f<I: std::iter::FusedIterator>(_: I) {} f(a.into_iter()) }" % (a, T[a])))
    for a in ("Er", "Br", "Bs"):
        o.append(("iteration of %s is double-ended and of exact size" % T[a],
                  "pub fn de_%s<T: Copy + Ord + Step>(a: %s) { fn f<I: DoubleEndedIterator + ExactSizeIterator>(_: I) {} f(a.into_iter()) }" % (a, T[a])))
    for a in ("Er", "Br", "Lr", "Ur", "Nr"):
        o.append(("%s is Copy" % T[a], "pub fn cp_%s%s(a: %s) -> (%s, %s) { (a, a) }" % (a, g, T[a], T[a], T[a])))
    for a in T:
        if a[0] in "EBLUN":
            o.append(("%s is Clone, Eq and Hash" % T[a],
                      "pub fn ce_%s<T: Copy + Ord + std::hash::Hash>(a: %s) { fn f<X: Clone + Eq + std::hash::Hash>(_: X) {} f(a) }" % (a, T[a])))
            o.append(("%s is Send and Sync" % T[a], "pub fn ss_%s<T: Send + Sync>(a: %s) { fn f<X: Send + Sync>(_: X) {} f(a) }" % (a, T[a])))
    return o


def negative():
    o = []
    for a in NOITER:
        for r, rn in (("", ""), ("&", "&"), ("&mut ", "&mut ")):
            for e in ("i32", "u8", "usize", "char", "T"):
                t = T[a].replace("<T>", "<%s>" % e)
                o.append(("%s%s cannot be iterated" % (rn, t),
                          "pub fn n%d<T: Copy + Ord + Step + Default>(x: %s%s) { for _ in x {} }" % (len(o), r, t)))
    for op in ("union", "intersection"):
        f = union if op == "union" else inter
        for a in T:
            for b in T:
                r = f(a, b)
                if FAM[r][0] in "UN":
                    ta, tb = T[a].replace("<T>", "<i32>"), T[b].replace("<T>", "<i32>")
                    o.append(("the %s of %s and %s cannot be iterated" % (op, ta, tb),
                              "pub fn n%d(a: %s, b: %s) { for _ in Rangetools::%s(a, b) {} }" % (len(o), ta, tb, op)))
    return o


def rustc(src, w, rlib, name):
    p = os.path.join(w, name + ".rs")
    open(p, "w").write(src)
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-A", "warnings",
                        "-o", os.path.join(w, name + ".rmeta"), "--error-format", "json", "--extern", "rangetools=" + rlib, p],
                       cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    errs = {}
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error":
            for s in d["spans"]:
                if s["is_primary"] and s["file_name"].endswith(name + ".rs"):
                    errs.setdefault(s["line_start"], d["message"])
    return errs


def base(t):
    """the crate types a type mentions outermost, through references and boxes"""
    while True:
        if "borrowed_ref" in t:
            t = t["borrowed_ref"]["type"]
        elif "raw_pointer" in t:
            t = t["raw_pointer"]["type"]
        else:
            break
    return t.get("resolved_path", {}).get("path", "").split("::")[-1]


def has_mut(t):
    return isinstance(t, dict) and (("borrowed_ref" in t and t["borrowed_ref"].get("is_mutable")) or
                                    any(has_mut(v) for v in t.values())) or isinstance(t, list) and any(has_mut(v) for v in t)


def api(w, repo):
    """rule over the public API; returns (obligations, violations) or None when rustdoc fails"""
    out = os.path.join(w, "rd")
    r = subprocess.run(["rustdoc", "+nightly", "--edition", "2021", "--crate-name", "rangetools", "-Z", "unstable-options", "--output-format", "json",
                        "-A", "warnings", "-o", out, os.path.join(repo, "src/lib.rs")], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    f = os.path.join(out, "rangetools.json")
    if r.returncode or not os.path.exists(f):
        return None
    ix = json.load(open(f))["index"]
    get = lambda i: ix.get(str(i))
    obl, viol = [], []

    def at(it):
        s = it.get("span") or {}
        return "%s:%s" % (s.get("filename", "?"), (s.get("begin") or ["?"])[0])
    banned = {"UpperBoundedRange", "UpperBoundedSet", "UnboundedRange", "UnboundedSet", "PiecewiseUnboundedSet"}
    for it in ix.values():
        inner = it["inner"]
        if it.get("crate_id") != 0:
            continue
        if "struct" in inner and it["name"] in SETS:
            k = inner["struct"]["kind"]
            fields = []
            if "plain" in k:
                fields = k["plain"]["fields"]
            elif "tuple" in k:
                fields = [x for x in k["tuple"] if x is not None]
            obl.append("%s has no public field" % it["name"])
            for fid in fields:
                fi = get(fid)
                if fi and fi.get("visibility") == "public":
                    viol.append(("the pieces of %s can be altered from outside: field `%s` is public" % (it["name"], fi["name"]), at(fi)))
        if "impl" in inner:
            im = inner["impl"]
            if im.get("is_synthetic") or im.get("blanket_impl"):
                continue
            tr = (im["trait"] or {}).get("path", "").split("::")[-1] if im["trait"] else None
            who = base(im["for"])
            if tr in ("IntoIterator", "Iterator"):
                obl.append("impl %s for %s" % (tr, who))
                if who in banned:
                    viol.append(("%s has no lower bound but implements %s" % (who, tr), at(it)))
            if who in SETS and tr not in ("Clone", "Hash", "Debug", "Deserialize"):
                for fid in im["items"]:
                    fn = get(fid)
                    if not fn or "function" not in fn["inner"] or (tr is None and fn.get("visibility") != "public"):
                        continue
                    sig = fn["inner"]["function"]["sig"]
                    obl.append("%s::%s gives no mutable access" % (who, fn["name"]))
                    muts = [n for n, t in sig["inputs"] if n == "self" and has_mut(t)]
                    if muts or (sig["output"] and has_mut(sig["output"])):
                        viol.append(("%s::%s gives outside code mutable access to the set's pieces" % (who, fn["name"]), at(fn)))
    return obl, viol


def run(w, rlib, repo):
    pos, neg = positive(), negative()
    head = "#![allow(unused)]\nuse rangetools::*;\n"
    viol, samples = [], []
    e = rustc(head + "\n".join(s for _, s in pos) + "\n", w, rlib, "pos")
    for i, (what, src) in enumerate(pos):
        if i + 3 in e:
            viol.append(("must type-check: " + what, "witness `%s`: %s" % (src, e[i + 3])))
    n = rustc(head + "\n".join(s for _, s in neg) + "\n", w, rlib, "neg")
    for i, (what, src) in enumerate(neg):
        if i + 3 not in n:
            viol.append(("must be rejected by the type checker: " + what, "witness `%s` compiles" % src))
    a = api(w, repo)
    obl = [p[0] for p in pos] + [x[0] for x in neg]
    if a is None:
        return obl, viol, "rustdoc produced no JSON"
    return obl + a[0], viol + a[1], None
