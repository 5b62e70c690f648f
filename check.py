#!/usr/bin/env python3
"""check.py ID [quick|thorough]  -- decide one property on /repo's current source.

Compiles /repo/src/lib.rs and the specification harness to MIR (nothing is executed) and runs
the abstract interpreter of analyzer/ over the harness roots of the property.
Exit 0: no violation; exit 1: VIOLATION line printed.
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
CFG = json.load(open(os.path.join(V, "checks.json")))
SYS = None
RUSTFLAGS = ["--edition", "2021", "-Zmir-opt-level=0", "-Zalways-encode-mir",
             "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-A", "warnings"]


def sysroot():
    global SYS
    if SYS is None:
        SYS = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return SYS


def env(**kw):
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e.update({k: str(v) for k, v in kw.items()})
    return e


def source_hash():
    h = hashlib.sha256()
    d = os.path.join(V, "analyzer/src")
    for f in sorted(os.listdir(d)):
        h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    h.update(sysroot().encode())
    return h.hexdigest()[:16]


def analyzer():
    """the analyzer binary, rebuilt when its sources changed"""
    os.makedirs(B, exist_ok=True)
    exe = os.path.join(B, "an-" + source_hash())
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for f in os.listdir(B):
                if f.startswith("an-"):
                    os.unlink(os.path.join(B, f))
            subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", "-A", "warnings", "-o", exe + ".tmp",
                            os.path.join(V, "analyzer/src/main.rs")], check=True, env=env(), cwd=B)
            os.rename(exe + ".tmp", exe)
    return exe


def serde():
    """flags to compile against serde, built once with its MIR (from the offline cargo cache)"""
    d = os.path.join(B, "serde")
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env(RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0")
        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--locked", "--target-dir", d], cwd=os.path.join(V, "serdedep"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise SystemExit("error: cannot build serde\n" + r.stdout[-2000:])
    dirs, meta = set(), None
    for p, _, fs in os.walk(d):
        if any(f.endswith((".rlib", ".so", ".rmeta")) for f in fs):
            dirs.add(p)
        for f in fs:
            if re.match(r"libserde-\w+\.rmeta$", f) and meta is None:
                meta = os.path.join(p, f)
    return ["--extern", "serde=" + meta] + [x for p in sorted(dirs) for x in ("-L", "dependency=" + p)]


def compile_repo(w, cfgs=()):
    out = os.path.join(w, "librangetools.rlib")
    r = subprocess.run(["rustc", "+nightly", "--crate-name", "rangetools", "--crate-type", "rlib"] + RUSTFLAGS +
                       list(cfgs) + ["-o", out, os.path.join(REPO, "src/lib.rs")], env=env(), cwd=w,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (out if r.returncode == 0 else None), r.stdout


def compile_harness(w, rlib, extra=()):
    r = subprocess.run(["rustc", "+nightly", os.path.join(V, "harness/main.rs"), "--crate-type", "lib", "--emit", "metadata",
                        "-o", os.path.join(w, "h.rmeta"), "--extern", "rangetools=" + rlib] + RUSTFLAGS + list(extra),
                       env=env(), cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def run_analyzer(exe, w, rlib, prefix, deadline, nproc=8, stop_after=1, extra=(), **opts):
    """a pool of analyzer processes sharing one queue of roots; returns the result lines"""
    tag = "%s%s" % (prefix, opts.get("SA_ONLY_B", ""))
    claim = os.path.join(w, "claim_" + tag); os.makedirs(claim)
    cmd = [exe, os.path.join(V, "harness/main.rs"), "--crate-type", "lib", "--sysroot", sysroot(),
           "--extern", "rangetools=" + rlib] + RUSTFLAGS + list(extra)
    procs, outs = [], []
    for i in range(nproc):
        out = os.path.join(w, "out_%s_%d" % (tag, i)); outs.append(out)
        log = open(os.path.join(w, "log_%s_%d" % (tag, i)), "w")
        left = max(10, int(deadline - time.time()) - 15)
        procs.append(subprocess.Popen(cmd, env=env(SA_ROOTS=prefix, SA_CLAIM=claim, SA_OUT=out, SA_TOTAL=left, **opts),
                                      cwd=w, stdout=log, stderr=subprocess.STDOUT, start_new_session=True))

    def read():
        res = {}
        for o in outs:
            if os.path.exists(o):
                for l in open(o, errors="replace"):
                    try:
                        r = json.loads(l)
                        res[r["root"]] = r
                    except ValueError:
                        pass
        return res
    while any(p.poll() is None for p in procs):
        time.sleep(0.2)
        over = time.time() > deadline
        if over or sum(r["status"] == "violation" for r in read().values()) >= stop_after:
            for p in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
            for p in procs:
                p.wait()
            break
    return read(), sorted(f for f in os.listdir(claim) if not f.startswith("0-")), " ".join(cmd)


def key_of(pid, r):
    """a violation's identity: root + function + rule, no line numbers"""
    v = r.get("violation") or {}
    return "%s|%s|%s" % (pid, r["root"], v.get("what", ""))


def known():
    p = os.path.join(V, "known-findings.txt")
    res = {}
    for l in open(p):
        m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
        if m:
            res[m.group(2)] = (m.group(1), m.group(3))
    return res


def all_roots(prefix, w):
    """the roots the specification demands, listed by the harness's own expansion"""
    return None


def report(pid, tier, ev, kn, found):
    """print and file violations that are not listed; found: (what, at, key)"""
    news = 0
    for what, at, k in found:
        if k in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[k][1]))
            continue
        news += 1
        rp = os.path.join(ev, "%s-%d.replay.json" % (pid, news))
        json.dump({"property": pid, "key": k, "what": what, "at": at, "reproduce": "python3 check.py %s %s" % (pid, tier)}, open(rp, "w"), indent=1)
        print("%s\n   at %s" % (what, at))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return news


def witness_check(pid, tier, seed, c, w, rlib, ev, t0):
    import witness
    obl, found, err = witness.run(w, rlib, REPO)
    if err:
        print("error:", err); return 2
    if len(obl) < c["roots"]:
        print("error: only %d of %d obligations were generated" % (len(obl), c["roots"])); return 2
    news = report(pid, tier, ev, known(), [(a, b, "%s|%s" % (pid, a)) for a, b in found])
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": {
        "obligations": len(obl), "discharged": len(obl) - len(found), "checker_cmd": "python3 check.py %s %s" % (pid, tier),
        "trusted_base": ["rustc nightly type checker", "rustdoc's JSON description of the public API", "witness.py: the witnesses themselves"],
        "explanation": c["explain"], "rule": c["rule"], "samples": obl[:3] + obl[470:473] + obl[-3:]},
        "assumptions": c.get("assume", []), "wall_s": round(time.time() - t0, 1), "violations": news}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    print("%s %s: %d obligations, %d failed, %.1f s" % (pid, tier, len(obl), len(found), time.time() - t0))
    return 1 if news else 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CFG["checks"][pid]
    t0 = time.time()
    wall = c.get("wall", {}).get(tier, 780 if tier == "quick" else 3000)
    deadline = t0 + wall
    exe = analyzer()
    w = tempfile.mkdtemp(prefix="sa-", dir="/tmp")
    ev = os.path.join(V, "evidence"); os.makedirs(ev, exist_ok=True)
    viol, notes, cov = [], [], {}
    try:
        rlib, msg = compile_repo(w)
        if rlib is None:
            print(msg[-4000:]); print("error: /repo does not compile"); return 2
        if c.get("kind") == "witness":
            return witness_check(pid, tier, seed, c, w, rlib, ev, t0)
        extra = []
        if c.get("serde"):
            extra = serde()
            ws = os.path.join(w, "serde"); os.makedirs(ws)
            rlib, msg = compile_repo(ws, ["--cfg", 'feature="serde"'] + extra)
            extra = ["--cfg", "serde"] + extra
        ok, msg = compile_harness(w, rlib, extra) if rlib else (False, msg)
        if not ok:
            errs = re.findall(r"(error(?:\[E\d+\])?: .*)\n\s+--> (\S+)", msg)
            viol.append({"root": "harness", "violation": {
                "what": "the public operation this property is about no longer type-checks",
                "at": "; ".join("%s at %s" % (a, os.path.basename(b)) for a, b in errs[:6]) or msg[-800:]}})
            res, claimed, cmd = {}, [], "rustc harness/main.rs"
        else:
            can, _, _ = run_analyzer(exe, w, rlib, "canary__", min(deadline, time.time() + 90), nproc=1, stop_after=99, extra=extra)
            bad = sorted(k for k, r in can.items() if (r["status"] != "violation") == k.endswith("_bad"))
            if bad or len(can) < CFG["canaries"]:
                print("error: self-test roots not decided as expected: %s of %d" % (bad, len(can))); return 2
            opts = dict(SA_KMAX=3, SA_BUDGET_A=150, SA_BUDGET_B=120, SA_PRE=1500) if tier == "quick" else dict(SA_KMAX=4, SA_BUDGET_A=600, SA_BUDGET_B=600)
            opts.update(c.get("opts", {}))
            res, claimed, cmd = run_analyzer(exe, w, rlib, pid.lower() + "__", deadline, extra=extra, **opts)
        kn = known()
        proved = [r for r in res.values() if r["status"] == "proved"]
        undec = [r for r in res.values() if r["status"] not in ("proved", "violation")]
        lost = [k for k in claimed if k not in res]
        for r in res.values():
            if r["status"] == "violation":
                viol.append(r)
        if ok and not viol and len(res) + len(lost) < c["roots"]:
            if time.time() < deadline - 5:
                print("error: only %d of %d obligations were generated" % (len(res), c["roots"])); return 2
        fns = sorted(set(f for r in res.values() for f in r.get("fns", [])))
        repo_fns = [f for f in fns if not f.startswith(("std::", "core::", "alloc::"))]
        cov = {
            "obligations": len(set(res) | set(lost)) or 1,
            "discharged": len(proved),
            "checker_cmd": "python3 check.py %s %s" % (pid, tier),
            "trusted_base": CFG["trusted_base"],
            "explanation": c["explain"],
            "rule": c["rule"],
            "undecided": sorted(r["root"] for r in undec) + lost,
            "undecided_reasons": sorted(set(str((r.get("unsup_a") or r.get("alarms_a") or r.get("unsup_b") or ["budget"])[0])[:160] for r in undec))[:20],
            "check_points_evaluated": sum(r.get("checks", 0) for r in res.values()),
            "abstract_steps": sum(r.get("steps", 0) for r in res.values()),
            "loop_heads_summarised": sum(r.get("heads", 0) for r in res.values()),
            "functions_analysed": len(repo_fns),
            "functions_sample": repo_fns[:40],
            "samples": [{k: r[k] for k in ("root", "status", "steps", "checks") if k in r} for r in list(res.values())[:3]],
            "self_test": "canary roots with deliberately wrong obligations were reported, correct twins were proved" if ok else "not run",
        }
        news = []
        for r in viol:
            k = key_of(pid, r)
            if k in kn:
                print("KNOWN-FINDING: property=%s %s" % (pid, kn[k][1]))
                continue
            v = r["violation"]
            rp = os.path.join(ev, "%s-%s.replay.json" % (pid, re.sub(r"\W", "_", r["root"])))
            json.dump({"property": pid, "key": k, "root": r["root"], "violation": v,
                       "reproduce": "python3 check.py %s %s" % (pid, tier), "analysis": r}, open(rp, "w"), indent=1)
            print("%s: %s\n   at %s\n   with %s" % (r["root"], v.get("what"), v.get("at"), v.get("model")))
            for s in (v.get("path") or [])[-12:]:
                print("   via", s)
            news.append((r, rp))
        for r, rp in news:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        level = c["level"]
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": CFG["assumptions"] + c.get("assume", []), "wall_s": round(time.time() - t0, 1),
                   "violations": len(news)}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
        print("%s %s: %d obligations, %d proved, %d undecided, %d violations, %.1f s" %
              (pid, tier, cov["obligations"], len(proved), len(undec) + len(lost), len(news), time.time() - t0))
        if os.environ.get("KEEP_W"):
            for r in undec:
                print("  undecided", r["root"], str(r.get("alarms_a"))[:200], str(r.get("unsup_a"))[:200], str(r.get("unsup_b"))[:200])
        return 1 if news else 0
    finally:
        if os.environ.get("KEEP_W"):
            print(w)
        else:
            shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        print(analyzer()); print(" ".join(serde()[:2])); sys.exit(0)
    sys.exit(main())
