#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
mod canon;
mod contract;
mod interp;
mod lin;
mod lp;
mod natives;
mod num;
mod spec;
mod store;
mod summary;
mod tys;
mod val;
use crate::canon::*;
use crate::interp::*;
use crate::lin::*;
use crate::num::*;
use crate::store::*;
use crate::tys::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
#[allow(unused_imports)]
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::{Duration, Instant};

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}
fn envn(k: &str, d: u64) -> u64 {
    env(k, "").parse().unwrap_or(d)
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn new_ctx(cfg: Cfg, bodies: HashMap<Instance, Option<Rc<BodyInfo>>>, models: Rc<HashMap<String, FnDef>>) -> Ctx {
    reset_syms();
    reset_ids();
    set_coarse(cfg.coarse && cfg.fold);
    Ctx {
        cfg,
        bodies,
        frames: vec![],
        next_base: 1,
        probe: None,
        smin: None,
        sdef: None,
        smax: None,
        lay: RangeLayout::default(),
        alarms: vec![],
        unsup: BTreeMap::new(),
        steps: 0,
        checks: 0,
        check_sites: BTreeSet::new(),
        fns: BTreeSet::new(),
        heads_seen: 0,
        joins: 0,
        stop: false,
        model_defs: models,
        max_states: 0,
        stop_on_any: false,
        checks_ok: 0,
        sums: Default::default(),
        prof: HashMap::new(),
        contracts: Default::default(),
        keep: vec![],
        remember: false,
        set_inputs: 0,
        star_memo: Default::default(),
    }
}
/// run a root and turn panics that reach it into alarms
fn run_root(cx: &mut Ctx, inst: &Instance) {
    let outs = cx.exec_fn(inst, vec![], State::new());
    for (s, o) in outs {
        if let Out::Panic(p) = o {
            let e = s.exact;
            cx.alarms.push(Alarm { what: format!("panics: {}", p.what), at: p.at.clone(), exact: e, state: s });
        }
    }
}

fn eval(l: &Lin, m: &HashMap<Sym, I>) -> Option<I> {
    let mut r = l.c;
    for &(s, k) in &l.t {
        r = r + m.get(&s)?.mul(k);
    }
    Some(r)
}
/// a checked model of every symbol of the store
fn model_of(st: &Store) -> Option<HashMap<Sym, I>> {
    let syms: Vec<Sym> = st.syms().iter().cloned().filter(|s| *s != ZERO).collect();
    let mut m: HashMap<Sym, I> = HashMap::new();
    let ord: Vec<Sym> = syms.iter().cloned().filter(|s| sort(*s) == SORT_ORD).collect();
    for &s in &ord {
        m.insert(s, I::ZERO);
    }
    for _ in 0..=ord.len() {
        for &x in &ord {
            for &y in &ord {
                let d = st.diff(x, y);
                if x != y && !d.is_inf() && d <= I::ZERO {
                    let need = m[&x] + if d.is_neg() { I::new(10) } else { I::ZERO };
                    if m[&y] < need {
                        m.insert(y, need);
                    }
                }
            }
        }
    }
    for &x in &ord {
        for &y in &ord {
            let d = st.diff(x, y);
            if x != y && !d.is_inf() && m[&x] - m[&y] > (if d.is_neg() { I::new(-1) } else { I::ZERO }) {
                return None;
            }
        }
    }
    let mut rest: Vec<Sym> = syms.iter().cloned().filter(|s| sort(*s) != SORT_ORD).collect();
    rest.extend(st.extras.iter().flat_map(|e| e.t.iter().map(|x| x.0)).filter(|s| !syms.contains(s)));
    rest.sort();
    rest.dedup();
    let r = st.model(&rest);
    for s in &rest {
        m.insert(*s, *r.get(s)?);
    }
    for e in st.extras.iter() {
        if eval(e, &m)? > I::ZERO {
            return None;
        }
    }
    for &x in &rest {
        for &y in rest.iter().chain([ZERO].iter()) {
            let (vx, vy) = (m[&x], if y == ZERO { I::ZERO } else { m[&y] });
            if x != y && (vx - vy > st.diff(x, y) || vy - vx > st.diff(y, x)) {
                return None;
            }
        }
    }
    Some(m)
}
fn pretty(v: &Val, t: Option<Ty>, m: &HashMap<Sym, I>) -> String {
    let lin = |l: &Lin| -> String {
        match eval(l, m) {
            Some(v) => match t.and_then(rigid) {
                Some(RigidTy::Char) => v.to_i128().and_then(|c| char::from_u32(c as u32)).map(|c| format!("{c:?}")).unwrap_or(format!("{v}")),
                _ => format!("{v}"),
            },
            None => format!("{l:?}"),
        }
    };
    match v {
        Val::Int(l) => lin(l),
        Val::Bool(b) => format!("{b}"),
        Val::Agg(f) | Val::Enum(_, f) => {
            if let Some(RigidTy::Adt(d, a)) = t.and_then(rigid) {
                let k = if let Val::Enum(k, _) = v { *k as usize } else { 0 };
                let vs = d.variants();
                let name = last_seg(&d.name()).to_string();
                let head = if d.kind() == AdtKind::Enum { vs[k].name().to_string() } else { name.clone() };
                let fs = vs[k].fields();
                let parts: Vec<String> = f.iter().enumerate().map(|(i, x)| pretty(x, fs.get(i).map(|f| f.ty_with_args(&a)), m)).collect();
                match name.as_str() {
                    "Elem" | "SElem" => return parts.join(""),
                    "Range" => return format!("{}..{}", parts[0], parts[1]),
                    "RangeInclusive" => return format!("{}..={}{}", parts[0], parts[1], if parts[2] == "true" { " (exhausted)" } else { "" }),
                    _ => {}
                }
                if parts.is_empty() {
                    return head;
                }
                if fs.first().map_or(false, |f| f.name.to_string().parse::<usize>().is_err()) {
                    let p: Vec<String> = fs.iter().zip(&parts).map(|(f, p)| format!("{}: {}", f.name, p)).collect();
                    return format!("{head} {{ {} }}", p.join(", "));
                }
                return format!("{head}({})", parts.join(", "));
            }
            format!("({})", f.iter().map(|x| pretty(x, None, m)).collect::<Vec<_>>().join(", "))
        }
        Val::Seq(s) => {
            let et = t.and_then(seq_elem);
            let p: Vec<String> = s
                .segs
                .iter()
                .map(|g| match &g.body {
                    SegBody::One(_, v) => pretty(v, et, m),
                    SegBody::Star(c, _) => format!("<{c:?}*>"),
                })
                .collect();
            format!("[{}]", p.join(", "))
        }
        o => format!("{o:?}"),
    }
}
fn describe(a: &Alarm) -> (Option<String>, Vec<String>) {
    let m = model_of(&a.state.store);
    let mm = m.clone().unwrap_or_default();
    let mut ins = vec![];
    let mut path: Vec<String> = vec![];
    let mut n = a.state.trace.clone();
    while let Some(x) = n {
        match &x.val {
            Some(v) => ins.push(format!("{} = {}", x.what, pretty(v, x.ty, &mm))),
            None => path.push(x.what.to_string()),
        }
        n = x.prev.clone();
    }
    ins.reverse();
    path.reverse();
    path.dedup();
    (m.map(|_| ins.join("; ")), path)
}

fn analyze() -> ControlFlow<()> {
    let prefix = env("SA_ROOTS", "");
    let part = env("SA_PART", "0/1");
    let (pi, pn) = part.split_once('/').map(|(a, b)| (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())).unwrap_or((0, 1));
    let kmax = envn("SA_KMAX", 3) as usize;
    let budget_a = envn("SA_BUDGET_A", 120);
    let budget_b = envn("SA_BUDGET_B", 120);
    let total = envn("SA_TOTAL", 800);
    let verbose = envn("SA_VERBOSE", 0);
    let disj = envn("SA_DISJ", 1) as usize;
    let only_b = envn("SA_ONLY_B", 0) == 1;
    let t_start = Instant::now();
    let hard = t_start + Duration::from_secs(total);
    let mut roots: Vec<(String, Instance)> = vec![];
    let mut models: HashMap<String, FnDef> = HashMap::new();
    for it in rustc_public::all_local_items() {
        let n = it.name().to_string();
        let l = last_seg(&n).to_string();
        if l.starts_with("m_") {
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
                models.insert(l.clone(), d);
            }
        }
        if l.contains("__") && l.starts_with(&prefix) {
            if let Ok(i) = Instance::try_from(it) {
                roots.push((l, i));
            }
        }
    }
    // cheap roots first: a defect in shared code then shows early
    let weight = |n: &str| -> u32 { n.split('_').map(|t| match t { "Ns" => 8, "Ls" | "Us" => 4, "Bs" => 2, "Rg" | "Ri" | "Rf" | "Rt" | "Rti" | "Ru" => 3, _ => 1 }).sum() };
    roots.sort_by_key(|a| (weight(&a.0), a.0.clone()));
    let n_all = roots.len();
    let models = Rc::new(models);
    // resolved bodies differ between the folded and the unfolded interpretation
    let mut bodies = HashMap::new();
    let mut bodies_b = HashMap::new();
    let mut contracts = crate::contract::Contracts::default();
    let roots: Vec<(String, Instance)> = roots.into_iter().enumerate().filter(|(i, _)| i % pn == pi).map(|x| x.1).collect();
    let claim = env("SA_CLAIM", "");
    let o = env("SA_OUT", "");
    let mut done = 0;
    // a first pass over all roots looks for violations on the smallest inputs only
    let pre = envn("SA_PRE", 0);
    let scale = envn("SA_PRE_SCALE", 1) == 1;
    let passes = (if pre > 0 { 0 } else { 1 })..=1;
    for (pass, (name, inst)) in passes.flat_map(|p| roots.iter().map(move |r| (p, r))) {
        let mark = if pass == 0 { format!("{claim}/0-{name}") } else { format!("{claim}/{name}") };
        if !claim.is_empty() && std::fs::OpenOptions::new().write(true).create_new(true).open(mark).is_err() {
            continue;
        }
        let kmax = if pass == 0 { 2 } else { kmax };
        let mut out = String::new();
        done += 1;
        let t0 = Instant::now();
        let base = Cfg { fold: true, max_pieces: kmax, max_loop: 40, disjuncts: disj, debug: verbose > 2, coarse: envn("SA_COARSE", 1) == 1, max_steps: 4_000_000, max_mb: envn("SA_MEM", 3000), deadline: Some((t0 + Duration::from_secs(budget_a)).min(hard)), stop_at_alarm: false, trace: false, shape: [0; 3], kinds: None, contracts: envn("SA_CONTRACTS", 1) == 1, contract_steps: envn("SA_CSTEPS", 1_500_000), verbose };
        let mut cx = new_ctx(base.clone(), std::mem::take(&mut bodies), models.clone());
        cx.stop_on_any = true;
        cx.contracts = std::mem::take(&mut contracts);
        cx.contracts.log.clear();
        cx.contracts.uses = 0;
        if !only_b && pass > 0 {
            run_root(&mut cx, inst);
        } else {
            cx.unsup.insert("skipped".into(), 1);
        }
        let (mut checks, mut steps, mut heads) = (cx.checks, cx.steps, cx.heads_seen);
        let mut fns: BTreeSet<String> = cx.fns.iter().map(|s| s.to_string()).collect();
        let mut sites = cx.check_sites.clone();
        let alarms_a: Vec<String> = cx.alarms.iter().take(3).map(|a| format!("{} @ {}", a.what, a.at)).collect();
        let unsup_a: Vec<String> = cx.unsup.iter().take(4).map(|(k, n)| format!("{k} (x{n})")).collect();
        if verbose > 1 {
            for a in &cx.alarms {
                eprintln!("  A-alarm {} @ {} exact={}\n    {:?}", a.what, a.at, a.exact, a.state.store.constraints().len()); if verbose > 3 { for c in a.state.store.constraints() { eprintln!("      {c:?} <= 0"); } }
                for (k, v) in &a.state.allocs {
                    eprintln!("    {k}: {v:?}");
                }
            }
        }
        let ta = t0.elapsed().as_millis();
        if verbose > 2 {
            let mut v: Vec<_> = cx.prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (n, k) in v.iter().take(25) {
                eprintln!("PROF {k} {n}");
            }
            eprintln!("PROF hits {}", cx.sums.hits);
        }
        let max_states = cx.max_states;
        let mut status = if cx.alarms.is_empty() && cx.unsup.is_empty() && cx.checks_ok > 0 { "proved" } else { "undecided" };
        bodies = cx.bodies;
        contracts = cx.contracts;
        let mut viol: Option<(String, String, String, Vec<String>, usize)> = None;
        let mut unsup_b: Vec<String> = vec![];
        let mut explored = vec![];
        if status != "proved" {
            let tb = Instant::now();
            let deadline = (tb + if pass == 0 { Duration::from_millis(pre * if scale { (weight(name) as u64 / 2).clamp(2, 10) } else { 2 } / 2) } else { Duration::from_secs(budget_b) }).min(hard);
            // piece counts of the inputs in ascending size, first with uniform bound kinds
            let mut sets = 0usize;
            let mut jobs: std::collections::VecDeque<([usize; 3], Option<(bool, bool)>)> = [([0usize; 3], None)].into();
            let mut planned = false;
            while let Some((shape, kinds)) = jobs.pop_front() {
                let now = Instant::now();
                if now > deadline {
                    break;
                }
                let k: usize = shape.iter().sum();
                let slice = Duration::from_secs(if kinds.is_some() { 8 } else { budget_b.max(20) / 2 });
                let cfg = Cfg { fold: false, max_pieces: kmax, max_loop: 400, deadline: Some((now + slice).min(deadline)), stop_at_alarm: true, trace: true, shape, kinds, ..base.clone() };
                let mut cb = new_ctx(cfg, std::mem::take(&mut bodies_b), models.clone());
                run_root(&mut cb, inst);
                checks += cb.checks;
                steps += cb.steps;
                heads += cb.heads_seen;
                fns.extend(cb.fns.iter().map(|s| s.to_string()));
                sites.extend(cb.check_sites.iter().cloned());
                if verbose > 1 {
                    for a in &cb.alarms {
                        let (m, _) = describe(a);
                        eprintln!("  B-alarm k={k} {} @ {} exact={} model={m:?}", a.what, a.at, a.exact);
                    }
                }
                for a in &cb.alarms {
                    if !a.exact {
                        continue;
                    }
                    if let (Some(m), path) = describe(a) {
                        viol = Some((a.what.clone(), a.at.clone(), m, path, k));
                        break;
                    }
                }
                if cb.alarms.is_empty() && cb.unsup.is_empty() {
                    if kinds.is_none() {
                        explored.push(shape);
                    }
                }
                unsup_b.extend(cb.unsup.iter().take(3).map(|(s, n)| format!("k={k}: {s} (x{n})")));
                sets = sets.max(cb.set_inputs);
                if sets == 0 && kinds.is_none() && cb.alarms.is_empty() && cb.unsup.is_empty() && cb.checks_ok > 0 {
                    // no set of unknown length among the inputs: the unfolded run covers every input
                    status = "proved";
                }
                bodies_b = cb.bodies;
                if !planned && sets > 0 {
                    planned = true;
                    let all: Vec<[usize; 3]> = {
                        let mut v = vec![];
                        let m = |i: usize| if i < sets { kmax } else { 0 };
                        for a in 0..=m(0) {
                            for b in 0..=m(1) {
                                for c in 0..=m(2) {
                                    if a + b + c > 0 && a + b + c <= kmax + 1 {
                                        v.push([a, b, c]);
                                    }
                                }
                            }
                        }
                        v.sort_by_key(|x| (x.iter().sum::<usize>(), x.iter().max().cloned()));
                        v
                    };
                    for &x in all.iter().filter(|x| x.iter().sum::<usize>() <= 1) {
                        jobs.push_back((x, None));
                    }
                    if pass == 0 {
                        for &x in all.iter().filter(|x| x.iter().sum::<usize>() > 1) {
                            jobs.push_back((x, Some((false, true))));
                        }
                        for &x in all.iter().filter(|x| x.iter().sum::<usize>() == 2) {
                            jobs.push_back((x, None));
                        }
                    } else {
                        for q in [(false, true), (true, true), (false, false), (true, false)] {
                            for &x in all.iter().filter(|x| x.iter().sum::<usize>() > 1) {
                                jobs.push_back((x, Some(q)));
                            }
                        }
                        for &x in all.iter().filter(|x| x.iter().sum::<usize>() > 1) {
                            jobs.push_back((x, None));
                        }
                    }
                }
                if viol.is_some() {
                    status = "violation";
                    break;
                }
            }
        }
        if pass == 0 && status != "violation" {
            continue;
        }
        let _ = write!(out, "{{\"root\":{},\"status\":{},\"ms\":{},\"ms_a\":{ta},\"checks\":{checks},\"sites\":{},\"steps\":{steps},\"heads\":{heads},\"max_states\":{max_states},\"roots_total\":{n_all}", esc(name), esc(status), t0.elapsed().as_millis(), sites.len());
        let list = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        let _ = write!(out, ",\"alarms_a\":{},\"unsup_a\":{},\"unsup_b\":{},\"explored_k\":{:?},\"fns\":{}", list(&alarms_a), list(&unsup_a), list(&unsup_b), explored, list(&fns.into_iter().collect()));
        if let Some((w, at, m, path, k)) = &viol {
            let _ = write!(out, ",\"violation\":{{\"what\":{},\"at\":{},\"model\":{},\"path\":{},\"pieces\":{k}}}", esc(w), esc(at), esc(m), list(path));
        }
        out.push_str("}\n");
        if o.is_empty() {
            if verbose == 0 {
                print!("{out}");
            }
        } else {
            use std::io::Write as _;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&o).unwrap();
            f.write_all(out.as_bytes()).unwrap();
        }
        if verbose > 0 {
            eprintln!("{name}: {status} {}ms (A {ta}ms) checks={checks} steps={steps} max_states={max_states}", t0.elapsed().as_millis());
            for a in &alarms_a {
                eprintln!("   A: {a}");
            }
            for a in unsup_a.iter().chain(&unsup_b) {
                eprintln!("   U: {a}");
            }
            if let Some((w, at, m, path, k)) = &viol {
                eprintln!("   VIOLATION (k={k}) {w} @ {at}\n      {m}\n      path {}", path.join(" -> "));
            }
        }
    }
    ControlFlow::Break(())
}
/// resident memory of this process
pub fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).map_or(0, |p| p * 4096 >> 20)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // deep recursion: run on a large stack
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let r = run!(&args, analyze);
            match r {
                Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => 0,
                Err(e) => {
                    eprintln!("compiler: {e:?}");
                    3
                }
            }
        })
        .unwrap();
    std::process::exit(h.join().unwrap_or(4));
}
