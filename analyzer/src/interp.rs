//! The abstract interpreter: fixpoint iteration over monomorphic MIR control-flow graphs.
use crate::canon::*;
use crate::lin::*;
use crate::num::*;
use crate::store::*;
use crate::tys::*;
use crate::val::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
#[allow(unused_imports)]
use rustc_public::{CrateDef, CrateDefType};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq)]
pub enum Out {
    Ret(Val),
    Panic(Rc<PanicInfo>),
}
#[derive(PartialEq, Debug)]
pub struct PanicInfo {
    pub what: String,
    pub at: String,
}
pub type Outs = Vec<(State, Out)>;

#[derive(Clone)]
pub enum Callee {
    Spec(Rc<str>, Instance),
    Native(Rc<str>, Instance),
    Intrinsic(Rc<str>, Instance),
    Model(Instance),
    Mir(Instance),
    /// Fn*/call through a closure or fn item type
    FnTrait(Ty, Rc<str>),
    Indirect,
    Unsup(String),
}

pub struct BodyInfo {
    pub body: Body,
    pub rpo: Vec<usize>,
    pub heads: HashSet<usize>,
    pub exits: HashSet<usize>,
    pub npreds: Vec<usize>,
    pub live_in: Vec<Vec<bool>>,
    pub callees: RefCell<HashMap<usize, Callee>>,
    pub tail: Vec<bool>,
    pub name: Rc<str>,
    pub repo: bool,
    pub self_tail: bool,
    pub self_call: bool,
}

pub struct Frame {
    pub inst: Instance,
    pub base: Aid,
    pub live: Vec<usize>,
    pub loc: (usize, usize),
    pub bi: Rc<BodyInfo>,
}
#[derive(Clone)]
pub struct Alarm {
    pub what: String,
    pub at: String,
    pub exact: bool,
    pub state: State,
}
#[derive(Clone)]
pub struct Cfg {
    pub fold: bool,
    pub max_pieces: usize,
    pub max_loop: u32,
    pub disjuncts: usize,
    pub coarse: bool,
    pub debug: bool,
    pub max_steps: u64,
    pub max_mb: u64,
    pub deadline: Option<std::time::Instant>,
    pub stop_at_alarm: bool,
    pub trace: bool,
    /// explicit mode: number of pieces of the i-th arbitrary set
    pub shape: [usize; 3],
    /// explicit mode: restrict the bound kinds of sets to (lower excluded, upper excluded)
    pub kinds: Option<(bool, bool)>,
    pub contracts: bool,
    pub contract_steps: u64,
    pub verbose: u64,
}
pub struct Ctx {
    pub contracts: crate::contract::Contracts,
    /// allocations kept alive besides those of the frames
    pub keep: Vec<Aid>,
    pub remember: bool,
    pub set_inputs: usize,
    pub star_memo: HashMap<(Ty, Class, bool, Vec<(Sym, Sym, I)>), Rc<Vec<Shape>>>,
    pub cfg: Cfg,
    pub bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    pub frames: Vec<Frame>,
    pub next_base: Aid,
    pub probe: Option<Sym>,
    pub smin: Option<Sym>,
    pub sdef: Option<Sym>,
    pub smax: Option<Sym>,
    pub lay: RangeLayout,
    pub alarms: Vec<Alarm>,
    pub unsup: BTreeMap<String, u64>,
    pub steps: u64,
    pub checks: u64,
    pub check_sites: BTreeSet<String>,
    pub fns: BTreeSet<Rc<str>>,
    pub heads_seen: u64,
    pub joins: u64,
    pub stop: bool,
    pub model_defs: Rc<HashMap<String, FnDef>>,
    pub stop_on_any: bool,
    pub max_states: usize,
    pub checks_ok: u64,
    pub sums: crate::summary::Summaries,
    pub prof: HashMap<Rc<str>, u64>,
}

pub fn bools(n: usize) -> Vec<bool> {
    vec![false; n]
}

fn place_uses(p: &Place, f: &mut dyn FnMut(Local)) {
    f(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            f(*l)
        }
    }
}
fn op_uses(o: &Operand, f: &mut dyn FnMut(Local)) {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place_uses(p, f),
        _ => {}
    }
}
fn rv_uses(r: &Rvalue, f: &mut dyn FnMut(Local)) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) | Rvalue::Ref(_, _, p) | Rvalue::Reborrow(_, _, p) => place_uses(p, f),
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| op_uses(o, f)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op_uses(a, f);
            op_uses(b, f);
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => op_uses(o, f),
        Rvalue::ThreadLocalRef(_) => {}
    }
}
fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
        _ => vec![],
    }
}
fn block_transfer(b: &BasicBlock, live: &mut Vec<bool>) {
    match &b.terminator.kind {
        TerminatorKind::SwitchInt { discr, .. } => op_uses(discr, &mut |l| live[l] = true),
        TerminatorKind::Call { func, args, destination, .. } => {
            if destination.projection.is_empty() {
                live[destination.local] = false;
            } else {
                place_uses(destination, &mut |l| live[l] = true);
            }
            op_uses(func, &mut |l| live[l] = true);
            args.iter().for_each(|a| op_uses(a, &mut |l| live[l] = true));
        }
        TerminatorKind::Assert { cond, .. } => op_uses(cond, &mut |l| live[l] = true),
        TerminatorKind::Return => live[0] = true,
        _ => {}
    }
    for s in b.statements.iter().rev() {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                if p.projection.is_empty() {
                    live[p.local] = false;
                } else {
                    place_uses(p, &mut |l| live[l] = true);
                }
                rv_uses(r, &mut |l| live[l] = true);
            }
            StatementKind::SetDiscriminant { place, .. } => place_uses(place, &mut |l| live[l] = true),
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => live[*l] = false,
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => op_uses(o, &mut |l| live[l] = true),
            _ => {}
        }
    }
}
/// strongly connected components of `nodes` in topological order
fn sccs(nodes: &[usize], succ: &[Vec<usize>]) -> Vec<Vec<usize>> {
    struct T<'a> {
        succ: &'a [Vec<usize>],
        inn: HashSet<usize>,
        idx: HashMap<usize, usize>,
        low: HashMap<usize, usize>,
        on: HashSet<usize>,
        st: Vec<usize>,
        out: Vec<Vec<usize>>,
    }
    fn go(t: &mut T, v: usize) {
        let i = t.idx.len();
        t.idx.insert(v, i);
        t.low.insert(v, i);
        t.st.push(v);
        t.on.insert(v);
        for &w in &t.succ[v] {
            if !t.inn.contains(&w) {
                continue;
            }
            if !t.idx.contains_key(&w) {
                go(t, w);
                let l = t.low[&w].min(t.low[&v]);
                t.low.insert(v, l);
            } else if t.on.contains(&w) {
                let l = t.idx[&w].min(t.low[&v]);
                t.low.insert(v, l);
            }
        }
        if t.low[&v] == t.idx[&v] {
            let mut c = vec![];
            loop {
                let w = t.st.pop().unwrap();
                t.on.remove(&w);
                c.push(w);
                if w == v {
                    break;
                }
            }
            t.out.push(c);
        }
    }
    let mut t = T { succ, inn: nodes.iter().cloned().collect(), idx: HashMap::new(), low: HashMap::new(), on: HashSet::new(), st: vec![], out: vec![] };
    for &v in nodes {
        if !t.idx.contains_key(&v) {
            go(&mut t, v);
        }
    }
    t.out.reverse();
    t.out
}
fn wto(nodes: &[usize], succ: &[Vec<usize>], dfs: &[usize], order: &mut Vec<usize>, heads: &mut HashSet<usize>, exits: &mut HashSet<usize>) {
    for c in sccs(nodes, succ) {
        if c.len() == 1 && !succ[c[0]].contains(&c[0]) {
            order.push(c[0]);
            continue;
        }
        let h = *c.iter().min_by_key(|b| dfs[**b]).unwrap();
        heads.insert(h);
        order.push(h);
        let set: HashSet<usize> = c.iter().cloned().collect();
        for u in &c {
            exits.extend(succ[*u].iter().filter(|t| !set.contains(t)));
        }
        let mut rest: Vec<usize> = c.iter().cloned().filter(|b| *b != h).collect();
        rest.sort_by_key(|b| dfs[*b]);
        wto(&rest, succ, dfs, order, heads, exits);
    }
}
fn mk_body(inst: &Instance) -> Option<BodyInfo> {
    let body = inst.body()?;
    let n = body.blocks.len();
    // rpo over normal edges
    let mut post = vec![];
    let mut state = vec![0u8; n];
    let mut heads = HashSet::new();
    let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
    state[0] = 1;
    let mut npreds = vec![0; n];
    while let Some((b, i)) = stack.pop() {
        let ss = succs(&body.blocks[b].terminator.kind);
        if i < ss.len() {
            stack.push((b, i + 1));
            let s = ss[i];
            npreds[s] += 1;
            match state[s] {
                0 => {
                    state[s] = 1;
                    stack.push((s, 0));
                }
                1 => {
                    heads.insert(s);
                }
                _ => {}
            }
        } else {
            state[b] = 2;
            post.push(b);
        }
    }
    let mut dfs = vec![usize::MAX; n];
    for (i, b) in post.iter().rev().enumerate() {
        dfs[*b] = i;
    }
    let succ: Vec<Vec<usize>> = (0..n).map(|b| succs(&body.blocks[b].terminator.kind)).collect();
    // weak topological order: the blocks of a loop precede its exits
    let mut order = vec![];
    let mut exits = HashSet::new();
    heads.clear();
    let mut all: Vec<usize> = post.clone();
    all.sort_by_key(|b| dfs[*b]);
    wto(&all, &succ, &dfs, &mut order, &mut heads, &mut exits);
    let mut rpo = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() {
        rpo[*b] = i;
    }
    let nl = body.locals().len();
    let mut live_in = vec![bools(nl); n];
    loop {
        let mut ch = false;
        for &b in &post {
            let mut l = bools(nl);
            for s in succs(&body.blocks[b].terminator.kind) {
                for i in 0..nl {
                    l[i] |= live_in[s][i];
                }
            }
            block_transfer(&body.blocks[b], &mut l);
            if l != live_in[b] {
                live_in[b] = l;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // tail positions
    let mut tail = bools(n);
    for b in 0..n {
        if let TerminatorKind::Call { target: Some(t), destination, .. } = &body.blocks[b].terminator.kind {
            let unit_dest = rigid(body.locals()[destination.local].ty).map_or(false, |r| matches!(r, RigidTy::Tuple(v) if v.is_empty()));
            if !destination.projection.is_empty() || !(destination.local == 0 || unit_dest) {
                continue;
            }
            let ret_unit = rigid(body.locals()[0].ty).map_or(false, |r| matches!(r, RigidTy::Tuple(v) if v.is_empty()));
            if destination.local != 0 && !ret_unit {
                continue;
            }
            let mut cur = *t;
            let mut ok = false;
            for _ in 0..n {
                let blk = &body.blocks[cur];
                let plain = blk.statements.iter().all(|s| match &s.kind {
                    StatementKind::StorageDead(_) | StatementKind::StorageLive(_) | StatementKind::Nop | StatementKind::ConstEvalCounter | StatementKind::Coverage(_) | StatementKind::PlaceMention(_) => true,
                    StatementKind::Assign(p, Rvalue::Use(Operand::Constant(_), _)) => ret_unit && p.projection.is_empty() && rigid(body.locals()[p.local].ty).map_or(false, |r| matches!(r, RigidTy::Tuple(v) if v.is_empty())),
                    StatementKind::Assign(p, Rvalue::Aggregate(AggregateKind::Tuple, v)) => v.is_empty() && ret_unit && p.projection.is_empty(),
                    _ => false,
                });
                if !plain {
                    break;
                }
                match &blk.terminator.kind {
                    TerminatorKind::Goto { target } | TerminatorKind::Drop { target, .. } => cur = *target,
                    TerminatorKind::Return => {
                        ok = true;
                        break;
                    }
                    _ => break,
                }
            }
            tail[b] = ok;
        }
    }
    let name: Rc<str> = inst.name().to_string().into();
    let repo = inst.def.krate().name == "rangetools";
    Some(BodyInfo { body, rpo, heads, exits, npreds, live_in, callees: RefCell::new(HashMap::new()), tail, name, repo, self_tail: false, self_call: false })
}

fn self_sites(bi: &BodyInfo, inst: &Instance, tail: bool) -> bool {
    for (b, blk) in bi.body.blocks.iter().enumerate() {
        if tail && !bi.tail[b] {
            continue;
        }
        if let TerminatorKind::Call { func: Operand::Constant(c), .. } = &blk.terminator.kind {
            if let Some(RigidTy::FnDef(d, a)) = rigid(c.ty()) {
                if let Ok(i) = Instance::resolve(d, &a) {
                    if i == *inst {
                        return true;
                    }
                }
            }
        }
    }
    false
}

struct HeadTab {
    map: HashMap<Vec<u64>, Vec<(CState, u32)>>,
}
struct Batch {
    map: HashMap<Vec<u64>, usize>,
    list: Vec<(State, Canon, Vec<(CState, u32)>)>,
}

pub fn short_path(p: &str) -> String {
    p.strip_prefix("/repo/").unwrap_or(p).to_string()
}

impl Ctx {
    pub fn body(&mut self, inst: &Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(inst) {
            return b.clone();
        }
        let b = mk_body(inst).map(|mut b| {
            b.self_tail = self_sites(&b, inst, true);
            b.self_call = self_sites(&b, inst, false);
            Rc::new(b)
        });
        self.bodies.insert(*inst, b.clone());
        b
    }
    pub fn loc_of(&self, f: &Frame) -> String {
        let b = &f.bi.body.blocks[f.loc.0];
        let sp = if f.loc.1 < b.statements.len() { b.statements[f.loc.1].source_info.span } else { b.terminator.source_info.span };
        let li = sp.get_lines();
        format!("{}:{} in {}", short_path(&sp.get_filename().to_string()), li.start_line, f.bi.name)
    }
    /// innermost location inside the library under analysis, then the outer ones
    pub fn where_am_i(&self) -> String {
        let mut v = vec![];
        for f in self.frames.iter().rev() {
            if f.bi.repo {
                v.push(self.loc_of(f));
                if v.len() == 3 {
                    break;
                }
            }
        }
        if v.is_empty() {
            if let Some(f) = self.frames.last() {
                v.push(self.loc_of(f));
            }
        }
        v.join(" <- ")
    }
    pub fn unsupported(&mut self, why: String) {
        let w = format!("{why} @ {}", self.frames.last().map(|f| self.loc_of(f)).unwrap_or_default());
        *self.unsup.entry(w).or_insert(0) += 1;
    }
    pub fn alarm(&mut self, st: State, what: String) {
        let at = self.where_am_i();
        if self.cfg.verbose > 2 {
            eprintln!("ALARM {what} {:?}\n   {:?}", st.allocs, st.store.constraints().iter().map(|(a, b, c)| format!("{}-{}<={c}", sym_name(*a), sym_name(*b))).collect::<Vec<_>>());
        }
        self.alarms.push(Alarm { what, at, exact: st.exact, state: st });
        if self.stop_on_any || (self.cfg.stop_at_alarm && self.alarms.last().unwrap().exact) {
            self.stop = true;
        }
    }
    pub fn panic(&self, what: String) -> Out {
        Out::Panic(Rc::new(PanicInfo { what, at: self.where_am_i() }))
    }

    fn roots(&self, extra_live: &[bool], base: Aid) -> BTreeSet<Aid> {
        let mut r: BTreeSet<Aid> = self.keep.iter().cloned().collect();
        let n = self.frames.len();
        for (i, f) in self.frames.iter().enumerate() {
            if i + 1 == n {
                break;
            }
            for &l in &f.live {
                r.insert(f.base + l as u32);
            }
        }
        for (i, b) in extra_live.iter().enumerate() {
            if *b {
                r.insert(base + i as u32);
            }
        }
        r
    }

    pub fn exec_fn(&mut self, inst: &Instance, args: Vec<Val>, st: State) -> Outs {
        if let Some(o) = self.try_summary(inst, &args, &st) {
            return o;
        }
        if let Some(o) = self.try_contract(inst, &args, &st) {
            return o;
        }
        self.exec_body(inst, args, st)
    }
    pub fn exec_body(&mut self, inst: &Instance, args: Vec<Val>, mut st: State) -> Outs {
        let bi = match self.body(inst) {
            Some(b) => b,
            None => {
                if let Some(v) = ctor(inst, &args) {
                    return vec![(st, Out::Ret(v))];
                }
                self.unsupported(format!("no MIR for {}", inst.name()));
                return vec![];
            }
        };
        if self.frames.len() > 120 {
            self.unsupported("call depth".into());
            return vec![];
        }
        if self.frames.iter().filter(|f| f.inst == *inst).count() > 12 {
            self.unsupported(format!("recursion depth in {}", inst.name()));
            return vec![];
        }
        if bi.repo {
            if self.fns.insert(bi.name.clone()) {}
            if self.cfg.trace {
                st.note(bi.name.clone(), None);
            }
        }
        let base = self.next_base;
        let nl = bi.body.locals().len();
        self.next_base += nl as u32;
        let nargs = bi.body.arg_locals().len();
        // spread
        let mut args = args;
        if let Some(sp) = bi.body.spread_arg() {
            if args.len() + 1 > nargs + 1 || args.len() != nargs {
                let rest: Vec<Val> = args.split_off(sp - 1);
                args.push(agg(rest));
            }
        }
        if args.len() != nargs {
            self.unsupported(format!("argument count of {}", inst.name()));
            self.next_base = base;
            return vec![];
        }
        for (i, a) in args.into_iter().enumerate() {
            st.allocs.insert(base + 1 + i as u32, a);
        }
        self.frames.push(Frame { inst: *inst, base, live: vec![], loc: (0, 0), bi: bi.clone() });
        let mut pending: BTreeMap<usize, Vec<(usize, State)>> = BTreeMap::new();
        pending.entry(bi.rpo[0]).or_default().push((0, st));
        let mut heads: HashMap<usize, HeadTab> = HashMap::new();
        let mut results: Outs = vec![];
        while let Some((&k, _)) = pending.iter().next() {
            if self.stop {
                break;
            }
            let states = pending.remove(&k).unwrap();
            let bb = states[0].0;
            let is_head = bi.heads.contains(&bb) || (bb == 0 && bi.self_tail);
            let mut todo: Vec<State> = vec![];
            if is_head && self.cfg.fold {
                let mut changed: Vec<(Vec<u64>, usize, State, Canon)> = vec![];
                for (_, s) in states {
                    if let Some((key, i, s, c)) = self.at_head(s, bb, &bi, base, &mut heads) {
                        if !changed.iter().any(|x| x.0 == key && x.1 == i) {
                            changed.push((key, i, s, c));
                        }
                    }
                }
                for (key, i, s, c) in changed {
                    todo.push(instantiate(&s, &c, &heads[&bb].map[&key][i].0));
                }
            } else if self.cfg.fold && (states.len() > 3 && bi.exits.contains(&bb) || states.len() > if self.contracts.stack.is_empty() { 400 } else { 40 }) {
                let roots = self.roots(&bi.live_in[bb], base);
                todo = self.batch(states.into_iter().map(|x| x.1).collect(), &roots);
            } else if (bi.npreds[bb] > 1 && states.len() > 1) || is_head {
                let roots = self.roots(&bi.live_in[bb], base);
                for (_, mut s) in states {
                    if is_head {
                        s.unroll += 1;
                        if s.unroll > self.cfg.max_loop {
                            self.unsupported("loop bound".into());
                            continue;
                        }
                    }
                    s.gc_allocs(&roots);
                    s.gc_syms(&[]);
                    push_merged(&mut todo, s);
                }
            } else {
                todo = states.into_iter().map(|x| x.1).collect();
            }
            if todo.len() > self.max_states {
                self.max_states = todo.len();
            }
            if self.cfg.debug {
                *self.prof.entry(bi.name.clone()).or_insert(0) += todo.len() as u64;
            }
            for s in todo {
                self.steps += 1;
                if self.steps > self.cfg.max_steps {
                    if !self.stop {
                        self.unsupported("step budget".into());
                    }
                    self.stop = true;
                }
                if self.steps % 2048 == 0 && crate::rss_mb() > self.cfg.max_mb {
                    if !self.stop {
                        self.unsupported("memory budget".into());
                    }
                    self.stop = true;
                }
                if self.steps % 64 == 0 {
                    if let Some(d) = self.cfg.deadline {
                        if std::time::Instant::now() > d {
                            if !self.stop {
                                self.unsupported("time budget".into());
                            }
                            self.stop = true;
                        }
                    }
                }
                if self.stop {
                    break;
                }
                self.run_block(&bi, inst, bb, base, s, &mut pending, &mut results);
            }
        }
        self.frames.pop();
        self.next_base = base;
        // leave the frame
        let mut out: Outs = vec![];
        if self.cfg.fold && results.len() > 4 && (!bi.heads.is_empty() || bi.self_tail || results.len() > 24) {
            let mut roots: BTreeSet<Aid> = self.keep.iter().cloned().collect();
            for f in self.frames.iter() {
                for &l in &f.live {
                    roots.insert(f.base + l as u32);
                }
            }
            roots.insert(base);
            let mut rets = vec![];
            let mut panics: BTreeMap<String, (Out, Vec<State>)> = BTreeMap::new();
            for (mut s, o) in results {
                match o {
                    Out::Ret(v) => {
                        s.allocs.insert(base, v);
                        rets.push(s)
                    }
                    o => {
                        let k = match &o {
                            Out::Panic(p) => format!("{} @ {}", p.what, p.at),
                            _ => String::new(),
                        };
                        s.allocs.insert(base, unit());
                        panics.entry(k).or_insert_with(|| (o, vec![])).1.push(s)
                    }
                }
            }
            for mut s in self.batch(rets, &roots) {
                let v = s.allocs.remove(&base).unwrap_or(Val::Undef);
                out.push((s, Out::Ret(v)));
            }
            for (_, (o, v)) in panics {
                for mut s in self.batch(v, &roots) {
                    s.allocs.remove(&base);
                    out.push((s, o.clone()));
                }
            }
            return out;
        }
        for (mut s, o) in results {
            let dead: Vec<Aid> = s.allocs.range(base..base + nl as u32).map(|x| *x.0).collect();
            for d in dead {
                s.allocs.remove(&d);
            }
            merge_out(&mut out, s, o, &mut self.joins);
        }
        out
    }

    /// drop subsumed states and merge what merges exactly
    pub fn batch(&mut self, states: Vec<State>, roots: &BTreeSet<Aid>) -> Vec<State> {
        let mut b = Batch { map: HashMap::new(), list: vec![] };
        for mut st in states {
            st.gc_allocs(roots);
            st.gc_syms(&[]);
            let cfg = FoldCfg { probe: self.probe, lay: &self.lay, enabled: true, coarse: self.cfg.coarse };
            st.fold(&cfg, &[]);
            st.gc_syms(&[]);
            let rv: Vec<Aid> = roots.iter().cloned().filter(|a| st.allocs.contains_key(a)).collect();
            let c = walk(&st, &rv, &[]);
            let cs = canonical(&st, &c);
            let mut key = c.toks.clone();
            let pl = self.probe.and_then(|p| st.globals.iter().position(|g| *g == p)).map(|i| c.leaves.len() - st.globals.len() + i);
            key.extend(cs.signs(pl).iter().map(|x| *x as u64));
            let n = b.list.len();
            let k = *b.map.entry(key).or_insert(n);
            if k == n {
                b.list.push((st, c, vec![(cs, 0)]));
                continue;
            }
            let list = &mut b.list[k].2;
            let mut cs = cs;
            loop {
                if list.iter().any(|(o, _)| cs.le(o)) {
                    break;
                }
                list.retain(|(o, _)| !o.le(&cs));
                let mut hit = None;
                for (i, (o, _)) in list.iter().enumerate() {
                    if let Some(j) = o.exact_join(&cs) {
                        hit = Some((i, j));
                        break;
                    }
                }
                match hit {
                    Some((i, j)) => {
                        list.remove(i);
                        cs = j;
                    }
                    None => {
                        if list.len() >= self.cfg.disjuncts.max(2) {
                            let (o, _) = list.pop().unwrap();
                            cs = o.hull(&cs);
                            continue;
                        }
                        list.push((cs, 0));
                        break;
                    }
                }
            }
        }
        let mut out = vec![];
        for (st, c, l) in b.list {
            for (cs, _) in l {
                out.push(instantiate(&st, &c, &cs));
            }
        }
        out
    }
    fn at_head(&mut self, mut st: State, bb: usize, bi: &BodyInfo, base: Aid, heads: &mut HashMap<usize, HeadTab>) -> Option<(Vec<u64>, usize, State, Canon)> {
        self.heads_seen += 1;
        let roots = self.roots(&bi.live_in[bb], base);
        st.gc_allocs(&roots);
        st.gc_syms(&[]);
        let cfg = FoldCfg { probe: self.probe, lay: &self.lay, enabled: true, coarse: self.cfg.coarse };
        st.fold(&cfg, &[]);
        st.gc_syms(&[]);
        let rv: Vec<Aid> = roots.iter().cloned().filter(|a| st.allocs.contains_key(a)).collect();
        let c = walk(&st, &rv, &[]);
        let cs = canonical(&st, &c);
        let mut key = c.toks.clone();
        let pl = self.probe.and_then(|p| st.globals.iter().position(|g| *g == p)).map(|i| c.leaves.len() - st.globals.len() + i);
        key.extend(cs.signs(pl).iter().map(|x| *x as u64));
        let tab = heads.entry(bb).or_insert_with(|| HeadTab { map: HashMap::new() });
        if self.cfg.debug {
            let ks = tab.map.len();
            let fresh = !tab.map.contains_key(&key);
            let f = self.frames.last().unwrap();
            eprintln!("HEAD {}#{bb} keys={ks} new={fresh} depth={}", short_path(&f.bi.name), self.frames.len());
            if fresh {
                for a in &rv {
                    eprintln!("     {a}: {:?}", st.allocs[a]);
                    map_seqs(&st.allocs[a], &mut |q| {
                        let cl: Vec<String> = q
                            .segs
                            .iter()
                            .map(|g| match &g.body {
                                SegBody::One(e, v) => format!("{:?}{}", class_of(&st.store, self.probe, v, q.ranges, &self.lay), if st.pinned(&[]).contains(e) { "!" } else { "" }),
                                SegBody::Star(c, _) => format!("{c:?}*"),
                            })
                            .collect();
                        eprintln!("        {}", cl.join(" "));
                        None
                    });
                }
            }
        }
        let list = tab.map.entry(key.clone()).or_default();
        if list.iter().any(|(o, _)| cs.le(o)) {
            return None;
        }
        let mut chosen = None;
        for (i, (o, n)) in list.iter_mut().enumerate() {
            if let Some(j) = o.exact_join(&cs) {
                let w = if *n >= 2 { o.widen(&cs) } else { j };
                *n += 1;
                *o = w;
                chosen = Some(i);
                break;
            }
        }
        let i = match chosen {
            Some(i) => i,
            None => {
                if list.len() < self.cfg.disjuncts {
                    list.push((cs, 0));
                    list.len() - 1
                } else {
                    let k = list.len() - 1;
                    let w = if list[k].1 < 1 { list[k].0.hull(&cs) } else { list[k].0.widen(&cs) };
                    list[k].0 = w;
                    list[k].1 += 1;
                    k
                }
            }
        };
        Some((key, i, st, c))
    }

    fn run_block(&mut self, bi: &Rc<BodyInfo>, inst: &Instance, bb: usize, base: Aid, st: State, pending: &mut BTreeMap<usize, Vec<(usize, State)>>, results: &mut Outs) {
        let blk = &bi.body.blocks[bb];
        let mut states = vec![st];
        for (i, s) in blk.statements.iter().enumerate() {
            self.frames.last_mut().unwrap().loc = (bb, i);
            match &s.kind {
                StatementKind::Assign(p, r) => {
                    let mut next = vec![];
                    for st in states {
                        match self.assign(bi, base, st, p, r) {
                            Ok(v) => next.extend(v),
                            Err(e) => self.unsupported(e),
                        }
                    }
                    states = next;
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let mut next = vec![];
                    for st in states {
                        match self.resolve(base, st, place) {
                            Ok(v) => {
                                for (mut st, p) in v {
                                    let f = match st.read(&p) {
                                        Ok(Val::Enum(_, f)) => f.clone(),
                                        Ok(Val::Agg(f)) => f.clone(),
                                        _ => Rc::new(vec![]),
                                    };
                                    match st.write(&p, Val::Enum(vidx(variant_index), f)) {
                                        Ok(()) => next.push(st),
                                        Err(e) => self.unsupported(e),
                                    }
                                }
                            }
                            Err(e) => self.unsupported(e),
                        }
                    }
                    states = next;
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                    self.unsupported("copy_nonoverlapping".into());
                    states.clear();
                }
                StatementKind::StorageDead(l) => {
                    for st in states.iter_mut() {
                        st.allocs.remove(&(base + *l as u32));
                    }
                }
                _ => {}
            }
            if states.is_empty() {
                return;
            }
        }
        self.frames.last_mut().unwrap().loc = (bb, blk.statements.len());
        for st in states {
            if self.stop {
                return;
            }
            if let Err(e) = self.terminator(bi, inst, bb, base, st, pending, results) {
                self.unsupported(e);
            }
        }
    }

    fn go(&self, bi: &BodyInfo, pending: &mut BTreeMap<usize, Vec<(usize, State)>>, t: usize, st: State) {
        pending.entry(bi.rpo[t]).or_default().push((t, st));
    }

    fn terminator(&mut self, bi: &Rc<BodyInfo>, inst: &Instance, bb: usize, base: Aid, st: State, pending: &mut BTreeMap<usize, Vec<(usize, State)>>, results: &mut Outs) -> Res<()> {
        let term = &bi.body.blocks[bb].terminator;
        match &term.kind {
            TerminatorKind::Goto { target } => self.go(bi, pending, *target, st),
            TerminatorKind::Drop { target, .. } => self.go(bi, pending, *target, st),
            TerminatorKind::Return => {
                let v = st.allocs.get(&base).cloned().unwrap_or_else(unit);
                results.push((st, Out::Ret(v)));
            }
            TerminatorKind::Unreachable => {
                // a checked assumption of the compiler; infeasible by language rules
            }
            TerminatorKind::Resume | TerminatorKind::Abort => {
                let o = self.panic("abort".into());
                results.push((st, o));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(bi.body.locals()).map_err(|e| format!("{e:?}"))?;
                for (st, v) in self.operand(base, st, discr)? {
                    match v {
                        Val::Bool(b) => {
                            let t = targets.branches().find(|(v, _)| *v == b as u128).map(|x| x.1).unwrap_or(targets.otherwise());
                            self.go(bi, pending, t, st);
                        }
                        Val::Int(l) => {
                            let (_, _, bits, signed) = int_range(ty).ok_or("switch type")?;
                            let mut vals: Vec<(I, usize)> = targets
                                .branches()
                                .map(|(v, t)| {
                                    let x = if signed && bits < 128 && (v >> (bits - 1)) & 1 == 1 { I::from_u128(v) - I::pow2(bits) } else if signed && bits == 128 { I::new(v as i128) } else { I::from_u128(v) };
                                    (x, t)
                                })
                                .collect();
                            if let Some(c) = l.is_const() {
                                let t = vals.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(targets.otherwise());
                                self.go(bi, pending, t, st);
                                continue;
                            }
                            vals.sort_by(|a, b| a.0.cmp(&b.0));
                            for (v, t) in &vals {
                                let mut s = st.clone();
                                if s.eq0(&l.addc(-*v)) {
                                    self.go(bi, pending, *t, s);
                                }
                            }
                            // gaps
                            let mut lo: Option<I> = None;
                            for k in 0..=vals.len() {
                                let mut s = st.clone();
                                let mut ok = true;
                                if let Some(x) = lo {
                                    ok &= s.le0(&Lin::cst(x + I::ONE).sub(&l));
                                }
                                if k < vals.len() {
                                    ok = ok && s.le0(&l.addc(-vals[k].0 + I::ONE));
                                    lo = Some(vals[k].0);
                                }
                                if ok {
                                    self.go(bi, pending, targets.otherwise(), s);
                                }
                            }
                        }
                        o => return Err(format!("switch on {o:?}")),
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                for (st, v) in self.operand(base, st, cond)? {
                    match v {
                        Val::Bool(b) if b == *expected => self.go(bi, pending, *target, st),
                        Val::Bool(_) => {
                            let o = self.panic(msg.description().map(|s| s.to_string()).unwrap_or_else(|_| "assertion".into()));
                            results.push((st, o));
                        }
                        o => return Err(format!("assert on {o:?}")),
                    }
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                // evaluate arguments
                let mut sts: Vec<(State, Vec<Val>)> = vec![(st, vec![])];
                for a in args {
                    let mut n = vec![];
                    for (s, v) in sts {
                        for (s2, x) in self.operand(base, s, a)? {
                            let mut v = v.clone();
                            v.push(x);
                            n.push((s2, v));
                        }
                    }
                    sts = n;
                }
                let callee = {
                    let c = bi.callees.borrow().get(&bb).cloned();
                    match c {
                        Some(c) => c,
                        None => {
                            let c = self.callee(func)?;
                            bi.callees.borrow_mut().insert(bb, c.clone());
                            c
                        }
                    }
                };
                let target = match target {
                    Some(t) => *t,
                    None => {
                        // diverging call
                        let name = match func {
                            Operand::Constant(c) => match rigid(c.ty()) {
                                Some(RigidTy::FnDef(d, _)) => d.name().to_string(),
                                _ => "?".into(),
                            },
                            _ => "?".into(),
                        };
                        for (s, _) in sts {
                            let o = self.panic(format!("panic ({})", last_seg(&name)));
                            results.push((s, o));
                        }
                        return Ok(());
                    }
                };
                // live locals across the call, for collection in callees
                let mut live: Vec<usize> = bi.live_in[target].iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
                live.retain(|l| *l != destination.local || !destination.projection.is_empty());
                if !destination.projection.is_empty() {
                    live.push(destination.local);
                }
                let fi = self.frames.len() - 1;
                let saved = std::mem::replace(&mut self.frames[fi].live, live);
                for (s, v) in sts {
                    if let Callee::Mir(ci) = &callee {
                        if ci == inst && bi.tail[bb] && bi.self_tail && !self.contracts.stack.last().map_or(false, |x| x.0 == *inst && x.2.is_some()) {
                            // self tail call: jump to the entry
                            let mut local_ptr = false;
                            for x in &v {
                                ptrs(x, &mut |p| {
                                    if p.base >= base && p.base < (1 << 24) {
                                        local_ptr = true
                                    }
                                });
                            }
                            if !local_ptr {
                                let mut s = s;
                                let dead: Vec<Aid> = s.allocs.range(base..(1 << 24)).map(|x| *x.0).collect();
                                for d in dead {
                                    s.allocs.remove(&d);
                                }
                                for (i, a) in v.into_iter().enumerate() {
                                    s.allocs.insert(base + 1 + i as u32, a);
                                }
                                self.go(bi, pending, 0, s);
                                continue;
                            }
                        }
                    }
                    let outs = match self.call(&callee, func, base, v, s) {
                        Ok(o) => o,
                        Err(e) => {
                            self.unsupported(e);
                            continue;
                        }
                    };
                    for (s, o) in outs {
                        match o {
                            Out::Ret(v) => {
                                let ws = self.resolve(base, s, destination)?;
                                for (mut s, p) in ws {
                                    s.write(&p, v.clone())?;
                                    self.go(bi, pending, target, s);
                                }
                            }
                            p => results.push((s, p)),
                        }
                    }
                }
                self.frames[fi].live = saved;
            }
            TerminatorKind::InlineAsm { .. } => return Err("asm".into()),
        }
        Ok(())
    }

    // ------------------------------------------------------------------ calls
    pub fn callee(&mut self, func: &Operand) -> Res<Callee> {
        let c = match func {
            Operand::Constant(c) => c,
            _ => return Ok(Callee::Indirect),
        };
        match rigid(c.ty()) {
            Some(RigidTy::FnDef(d, a)) => self.callee_def(d, &a),
            Some(RigidTy::FnPtr(_)) => Ok(Callee::Indirect),
            o => Err(format!("callee {o:?}")),
        }
    }
    pub fn callee_def(&mut self, d: FnDef, a: &GenericArgs) -> Res<Callee> {
        let dn = norm(&d.name());
        if matches!(dn.as_str(), "std::ops::FnOnce::call_once" | "std::ops::FnMut::call_mut" | "std::ops::Fn::call") {
            let self_ty = type_args(a)[0];
            match rigid(self_ty) {
                Some(RigidTy::Closure(..)) | Some(RigidTy::FnDef(..)) | Some(RigidTy::FnPtr(..)) => return Ok(Callee::FnTrait(self_ty, last_seg(&dn).to_string().into())),
                _ => {}
            }
        }
        let i = Instance::resolve(d, a).map_err(|e| format!("cannot resolve {dn}: {e:?}"))?;
        Ok(self.callee_inst(i))
    }
    pub fn callee_inst(&mut self, i: Instance) -> Callee {
        let n = def_norm(&i);
        match i.kind {
            InstanceKind::Intrinsic => return Callee::Intrinsic(i.intrinsic_name().unwrap().to_string().into(), i),
            InstanceKind::Virtual { .. } => return Callee::Unsup(format!("virtual call {n}")),
            _ => {}
        }
        if let Some(k) = n.rfind("sv::") {
            if (k == 0 || n[..k].ends_with("::")) && !n[k + 4..].contains("::") {
                return Callee::Spec(n[k + 4..].to_string().into(), i);
            }
        }
        match self.std_callee(&n, &i) {
            Some(c) => c,
            None => Callee::Mir(i),
        }
    }
    pub fn call(&mut self, c: &Callee, func: &Operand, base: Aid, args: Vec<Val>, st: State) -> Res<Outs> {
        match c {
            Callee::Mir(i) => Ok(self.exec_fn(i, args, st)),
            Callee::Model(i) => Ok(self.exec_fn(i, args, st)),
            Callee::Native(n, i) => self.native(n, i, args, st),
            Callee::Intrinsic(n, i) => self.intrinsic(n, i, args, st),
            Callee::Spec(n, i) => self.spec(n, i, args, st),
            Callee::FnTrait(t, kind) => self.call_fn_trait(*t, kind, args, st),
            Callee::Indirect => {
                let mut out = vec![];
                for (s, f) in self.operand(base, st, func)? {
                    match f {
                        Val::Fn(i) => {
                            let c = self.callee_inst(i);
                            out.extend(self.call(&c, func, base, args.clone(), s)?);
                        }
                        o => return Err(format!("call of {o:?}")),
                    }
                }
                Ok(out)
            }
            Callee::Unsup(e) => Err(e.clone()),
        }
    }
    pub fn call_inst(&mut self, i: Instance, args: Vec<Val>, st: State) -> Res<Outs> {
        match self.callee_inst(i) {
            Callee::Mir(i) | Callee::Model(i) => Ok(self.exec_fn(&i, args, st)),
            Callee::Native(n, i) => self.native(&n, &i, args, st),
            Callee::Intrinsic(n, i) => self.intrinsic(&n, &i, args, st),
            Callee::Spec(n, i) => self.spec(&n, &i, args, st),
            Callee::Unsup(e) => Err(e),
            _ => Err("call".into()),
        }
    }
    /// args = [self, tuple]
    pub fn call_fn_trait(&mut self, t: Ty, kind: &str, args: Vec<Val>, mut st: State) -> Res<Outs> {
        let tup = match &args[1] {
            Val::Agg(v) => v.as_ref().clone(),
            o => return Err(format!("call args {o:?}")),
        };
        match rigid(t) {
            Some(RigidTy::Closure(d, a)) => {
                let i = Instance::resolve_closure(d, &a, ClosureKind::Fn).map_err(|e| format!("{e:?}"))?;
                let bi = self.body(&i).ok_or("closure body")?;
                let by_ref = matches!(rigid(bi.body.locals()[1].ty), Some(RigidTy::Ref(..)));
                let me = if by_ref && kind == "call_once" {
                    let id = fresh_aid();
                    st.allocs.insert(id, args[0].clone());
                    Val::Ptr(Rc::new(Ptr { base: id, path: vec![], meta: None }))
                } else {
                    args[0].clone()
                };
                let mut v = vec![me];
                v.extend(tup);
                Ok(self.exec_fn(&i, v, st))
            }
            Some(RigidTy::FnDef(d, a)) => match self.callee_def(d, &a)? {
                Callee::Mir(i) | Callee::Model(i) => Ok(self.exec_fn(&i, tup, st)),
                Callee::Native(n, i) => self.native(&n, &i, tup, st),
                Callee::Intrinsic(n, i) => self.intrinsic(&n, &i, tup, st),
                Callee::Spec(n, i) => self.spec(&n, &i, tup, st),
                Callee::FnTrait(t, k) => {
                    let mut v = tup;
                    let k = k.clone();
                    if v.len() == 2 { self.call_fn_trait(t, &k, std::mem::take(&mut v), st) } else { Err("fn trait".into()) }
                }
                Callee::Unsup(e) => Err(e),
                Callee::Indirect => Err("indirect".into()),
            },
            Some(RigidTy::FnPtr(_)) => {
                let f = match (&args[0], kind) {
                    (Val::Fn(i), _) => *i,
                    (Val::Ptr(p), _) => match st.read(p)? {
                        Val::Fn(i) => *i,
                        o => return Err(format!("call of {o:?}")),
                    },
                    (o, _) => return Err(format!("call of {o:?}")),
                };
                self.call_inst(f, tup, st)
            }
            o => Err(format!("Fn call on {o:?}")),
        }
    }

    // ------------------------------------------------------------------ places, operands
    pub fn resolve(&mut self, base: Aid, st: State, p: &Place) -> Res<Vec<(State, Ptr)>> {
        let mut cur = vec![(st, Ptr { base: base + p.local as u32, path: vec![], meta: None })];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    for (st, p) in cur.iter_mut() {
                        let q = match st.read(p)? {
                            Val::Ptr(q) => q.as_ref().clone(),
                            o => return Err(format!("deref of {o:?}")),
                        };
                        *p = q;
                    }
                }
                ProjectionElem::Field(i, _) => {
                    for (_, p) in cur.iter_mut() {
                        p.path.push(Pe::F(*i as u32));
                        p.meta = None;
                    }
                }
                ProjectionElem::Downcast(_) | ProjectionElem::OpaqueCast(_) => {}
                ProjectionElem::Index(l) => {
                    let mut n = vec![];
                    for (st, p) in cur {
                        let i = match st.allocs.get(&(base + *l as u32)) {
                            Some(Val::Int(i)) => i.clone(),
                            o => return Err(format!("index {o:?}")),
                        };
                        n.extend(self.index_ptr(st, p, i)?);
                    }
                    cur = n;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let mut n = vec![];
                    for (st, p) in cur {
                        let (lo, hi) = self.bounds(&st, &p)?;
                        let i = if *from_end { hi.sub(&lo).addc(I::new(-(*offset as i128))) } else { Lin::int(*offset as i128) };
                        n.extend(self.index_ptr(st, p, i)?);
                    }
                    cur = n;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    for (st, p) in cur.iter_mut() {
                        let (lo, hi) = self.bounds(st, p)?;
                        let nlo = lo.addc(I::new(*from as i128));
                        let nhi = if *from_end { hi.addc(I::new(-(*to as i128))) } else { lo.addc(I::new(*to as i128)) };
                        p.meta = Some((nlo, nhi));
                    }
                }
            }
        }
        Ok(cur)
    }
    /// [lo, hi) of the sequence a (slice) pointer denotes
    pub fn bounds(&self, st: &State, p: &Ptr) -> Res<(Lin, Lin)> {
        match &p.meta {
            Some((a, b)) => Ok((a.clone(), b.clone())),
            None => Ok((Lin::int(0), st.seq(p)?.len())),
        }
    }
    fn index_ptr(&mut self, st: State, p: Ptr, i: Lin) -> Res<Vec<(State, Ptr)>> {
        let (lo, _) = self.bounds(&st, &p)?;
        let sp = Ptr { meta: None, ..p };
        let v = self.materialise(st, &sp, &lo.add(&i))?;
        Ok(v.into_iter()
            .map(|(s, e)| {
                let mut q = sp.clone();
                q.path.push(Pe::E(e));
                (s, q)
            })
            .collect())
    }
    pub fn operand(&mut self, base: Aid, mut st: State, o: &Operand) -> Res<Vec<(State, Val)>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let mut out = vec![];
                for (st, p) in self.resolve(base, st, p)? {
                    let v = st.read(&p)?.clone();
                    out.push((st, v));
                }
                Ok(out)
            }
            Operand::Constant(c) => {
                if let Some(RigidTy::FnDef(..)) = rigid(c.ty()) {
                    return Ok(vec![(st, unit())]);
                }
                let v = decode_const(&c.const_, &mut st)?;
                Ok(vec![(st, v)])
            }
            Operand::RuntimeChecks(r) => Ok(vec![(st, Val::Bool(matches!(r, RuntimeChecks::OverflowChecks)))]),
        }
    }

    fn assign(&mut self, bi: &Rc<BodyInfo>, base: Aid, st: State, p: &Place, r: &Rvalue) -> Res<Vec<State>> {
        let vals = self.rvalue(bi, base, st, r)?;
        let mut out = vec![];
        for (st, v) in vals {
            for (mut st, q) in self.resolve(base, st, p)? {
                st.write(&q, v.clone())?;
                out.push(st);
            }
        }
        Ok(out)
    }

    fn rvalue(&mut self, bi: &Rc<BodyInfo>, base: Aid, st: State, r: &Rvalue) -> Res<Vec<(State, Val)>> {
        let locals = bi.body.locals();
        match r {
            Rvalue::Use(o, _) => self.operand(base, st, o),
            Rvalue::CopyForDeref(p) => self.operand(base, st, &Operand::Copy(p.clone())),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                if let Rvalue::Reborrow(..) = r {
                    return self.operand(base, st, &Operand::Copy(p.clone()));
                }
                if let Some(ProjectionElem::Deref) = p.projection.last() {
                    // a reborrow of an opaque reference is the same opaque reference
                    let pre = Place { local: p.local, projection: p.projection[..p.projection.len() - 1].to_vec() };
                    let v = self.resolve(base, st.clone(), &pre)?;
                    if v.len() == 1 {
                        if let Val::Tok(t) = v[0].0.read(&v[0].1)? {
                            let t = Val::Tok(t.clone());
                            return Ok(vec![(v[0].0.clone(), t)]);
                        }
                    }
                }
                Ok(self.resolve(base, st, p)?.into_iter().map(|(s, p)| (s, Val::Ptr(Rc::new(p)))).collect())
            }
            Rvalue::Discriminant(p) => {
                let ty = p.ty(locals).map_err(|e| format!("{e:?}"))?;
                let mut out = vec![];
                for (st, q) in self.resolve(base, st, p)? {
                    let v = discr_val(st.read(&q)?, ty)?;
                    out.push((st, v));
                }
                Ok(out)
            }
            Rvalue::Len(p) => {
                let mut out = vec![];
                for (st, q) in self.resolve(base, st, p)? {
                    let (lo, hi) = self.bounds(&st, &q)?;
                    out.push((st, Val::Int(hi.sub(&lo))));
                }
                Ok(out)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut sts: Vec<(State, Vec<Val>)> = vec![(st, vec![])];
                for a in ops {
                    let mut n = vec![];
                    for (s, v) in sts {
                        for (s2, x) in self.operand(base, s, a)? {
                            let mut v = v.clone();
                            v.push(x);
                            n.push((s2, v));
                        }
                    }
                    sts = n;
                }
                let mut out = vec![];
                for (s, v) in sts {
                    let x = match k {
                        AggregateKind::Array(t) => {
                            let segs = v.into_iter().enumerate().map(|(i, x)| Seg { end: Lin::int(i as i128 + 1), body: SegBody::One(fresh_eid(), x) }).collect();
                            Val::Seq(Rc::new(Seq { ranges: is_range_elem(*t), segs }))
                        }
                        AggregateKind::Tuple | AggregateKind::Closure(..) => agg(v),
                        AggregateKind::Adt(d, vi, _, _, active) => {
                            if active.is_some() {
                                return Err("union".into());
                            }
                            match d.kind() {
                                AdtKind::Enum => Val::Enum(vidx(vi), Rc::new(v)),
                                AdtKind::Struct => agg(v),
                                AdtKind::Union => return Err("union".into()),
                            }
                        }
                        AggregateKind::RawPtr(..) => match (&v[0], &v[1]) {
                            (Val::Ptr(p), Val::Int(n)) => {
                                let (lo, _) = self.bounds(&s, p).unwrap_or((Lin::int(0), Lin::int(0)));
                                Val::Ptr(Rc::new(Ptr { base: p.base, path: p.path.clone(), meta: Some((lo.clone(), lo.add(n))) }))
                            }
                            (Val::Ptr(_), _) => v[0].clone(),
                            _ => return Err("raw pointer aggregate".into()),
                        },
                        o => return Err(format!("aggregate {o:?}")),
                    };
                    out.push((s, x));
                }
                Ok(out)
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                if n > 64 {
                    return Err("large array".into());
                }
                let t = o.ty(locals).map_err(|e| format!("{e:?}"))?;
                Ok(self
                    .operand(base, st, o)?
                    .into_iter()
                    .map(|(s, v)| {
                        let segs = (0..n).map(|i| Seg { end: Lin::int(i as i128 + 1), body: SegBody::One(fresh_eid(), v.clone()) }).collect();
                        (s, Val::Seq(Rc::new(Seq { ranges: is_range_elem(t), segs })))
                    })
                    .collect())
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ty = a.ty(locals).map_err(|e| format!("{e:?}"))?;
                let mut out = vec![];
                for (s, x) in self.operand(base, st, a)? {
                    for (s, y) in self.operand(base, s, b)? {
                        out.extend(self.binop(s, *op, &x, &y, ty)?);
                    }
                }
                Ok(out)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ty = a.ty(locals).map_err(|e| format!("{e:?}"))?;
                let mut out = vec![];
                for (s, x) in self.operand(base, st, a)? {
                    for (s, y) in self.operand(base, s, b)? {
                        for (s, v, o) in self.arith(s, *op, &x, &y, ty)? {
                            out.push((s, agg(vec![v, Val::Bool(o)])));
                        }
                    }
                }
                Ok(out)
            }
            Rvalue::UnaryOp(op, a) => {
                let ty = a.ty(locals).map_err(|e| format!("{e:?}"))?;
                let mut out = vec![];
                for (s, x) in self.operand(base, st, a)? {
                    match (op, &x) {
                        (UnOp::Not, Val::Bool(b)) => out.push((s, Val::Bool(!b))),
                        (UnOp::Not, Val::Int(l)) => {
                            let (_, mx, _, signed) = int_range(ty).ok_or("not")?;
                            let r = if signed { l.neg().addc(I::new(-1)) } else { Lin::cst(mx).sub(l) };
                            out.push((s, Val::Int(r)));
                        }
                        (UnOp::Neg, Val::Int(l)) => out.extend(self.wrap(s, l.neg(), ty)?.into_iter().map(|(s, v, _)| (s, v))),
                        (UnOp::PtrMetadata, Val::Ptr(p)) => {
                            let m = match &p.meta {
                                Some((lo, hi)) => Val::Int(hi.sub(lo)),
                                None => unit(),
                            };
                            out.push((s, m));
                        }
                        o => return Err(format!("unary {o:?}")),
                    }
                }
                Ok(out)
            }
            Rvalue::Cast(k, o, to) => {
                let from = o.ty(locals).map_err(|e| format!("{e:?}"))?;
                let mut out = vec![];
                for (s, x) in self.operand(base, st, o)? {
                    out.extend(self.cast(s, k, x, from, *to, o)?);
                }
                Ok(out)
            }
            Rvalue::ThreadLocalRef(_) => Err("thread local".into()),
        }
    }

    pub fn cast(&mut self, st: State, k: &CastKind, x: Val, from: Ty, to: Ty, _o: &Operand) -> Res<Vec<(State, Val)>> {
        match k {
            CastKind::IntToInt => {
                let l = match &x {
                    Val::Int(l) => l.clone(),
                    Val::Bool(b) => Lin::int(*b as i128),
                    Val::Enum(..) => match discr_val(&x, from)? {
                        Val::Int(l) => l,
                        _ => return Err("enum cast".into()),
                    },
                    o => return Err(format!("cast of {o:?}")),
                };
                if rigid(to).map_or(false, |r| matches!(r, RigidTy::Char)) {
                    return Ok(vec![(st, Val::Int(l))]);
                }
                Ok(self.wrap(st, l, to)?.into_iter().map(|(s, v, _)| (s, v)).collect())
            }
            CastKind::PointerCoercion(PointerCoercion::Unsize) => match (&x, rigid(peel1(from)), rigid(peel1(to))) {
                (Val::Ptr(p), Some(RigidTy::Array(_, n)), Some(RigidTy::Slice(_))) => {
                    let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                    Ok(vec![(st, Val::Ptr(Rc::new(Ptr { base: p.base, path: p.path.clone(), meta: Some((Lin::int(0), Lin::int(n as i128))) })))])
                }
                (Val::Ptr(_), _, Some(RigidTy::Dynamic(..))) => Ok(vec![(st, Val::Tok("dyn".into()))]),
                (Val::Tok(_), _, _) => Ok(vec![(st, x)]),
                _ => Err(format!("unsize {from} -> {to}")),
            },
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => match rigid(from) {
                Some(RigidTy::FnDef(d, a)) => Ok(vec![(st, Val::Fn(Instance::resolve_for_fn_ptr(d, &a).map_err(|e| format!("{e:?}"))?))]),
                _ => Err("reify".into()),
            },
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match rigid(from) {
                Some(RigidTy::Closure(d, a)) => Ok(vec![(st, Val::Fn(Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?))]),
                _ => Err("reify".into()),
            },
            CastKind::PointerCoercion(_) | CastKind::Subtype => Ok(vec![(st, x)]),
            CastKind::PtrToPtr => match &x {
                Val::Ptr(p) => {
                    let (a, b) = (peel1(from), peel1(to));
                    if a == b || matches!(rigid(b), Some(RigidTy::Slice(_))) {
                        Ok(vec![(st, x)])
                    } else if p.meta.is_none() && (transparent(a) == b || a == transparent(b)) {
                        Ok(vec![(st, x)])
                    } else {
                        Err(format!("pointer cast {from} -> {to}"))
                    }
                }
                _ => Err("pointer cast".into()),
            },
            CastKind::Transmute => self.cast_transmute(st, x, from, to),
            o => Err(format!("cast {o:?} {from} -> {to}")),
        }
    }

    pub fn cast_transmute(&mut self, st: State, x: Val, from: Ty, to: Ty) -> Res<Vec<(State, Val)>> {
        if from == to {
            return Ok(vec![(st, x)]);
        }
        match (&x, int_range(from), int_range(to)) {
            (Val::Int(l), Some(_), Some(_)) => {
                if rigid(to).map_or(false, |r| matches!(r, RigidTy::Char)) {
                    let mut out = vec![];
                    for (s, ok) in self.char_valid(st, l) {
                        if ok {
                            out.push((s, Val::Int(l.clone())));
                        } else {
                            self.alarm(s, "undefined behaviour: unchecked conversion to an invalid char".into());
                        }
                    }
                    return Ok(out);
                }
                Ok(self.wrap(st, l.clone(), to)?.into_iter().map(|(s, v, _)| (s, v)).collect())
            }
            _ => {
                if let (Some(RigidTy::Ref(..)) | Some(RigidTy::RawPtr(..)), Some(RigidTy::Ref(..)) | Some(RigidTy::RawPtr(..))) = (rigid(from), rigid(to)) {
                    if peel1(from) == peel1(to) {
                        return Ok(vec![(st, x)]);
                    }
                }
                let nonzero = |t: Ty| adt_last(t).as_deref() == Some("NonZero");
                let wrap_nz = |l: &Lin| agg(vec![agg(vec![Val::Int(l.clone())])]);
                if let (Val::Int(l), Some((mn, ..))) = (&x, int_range(from)) {
                    // `Option<NonZero<_>>` is laid out as the number with 0 for `None`
                    if adt_last(to).as_deref() == Some("Option") && mn == I::ZERO && opt_arg(to).map_or(false, nonzero) {
                        let l = l.clone();
                        return Ok(self.fork_le(st, &l).into_iter().map(|(s, z)| (s, if z { crate::natives::none() } else { crate::natives::some(wrap_nz(&l)) })).collect());
                    }
                    if nonzero(to) {
                        return Ok(vec![(st, wrap_nz(l))]);
                    }
                }
                if nonzero(from) && int_range(to).is_some() {
                    if let Val::Agg(a) = &x {
                        if let Some(Val::Agg(b)) = a.first() {
                            if let Some(Val::Int(l)) = b.first() {
                                return Ok(vec![(st, Val::Int(l.clone()))]);
                            }
                        }
                    }
                }
                if let (Val::Enum(..), Some(_)) = (&x, int_range(to)) {
                    let v = discr_val(&x, from)?;
                    return Ok(vec![(st, v)]);
                }
                Err(format!("transmute {from} -> {to}"))
            }
        }
    }

    // ------------------------------------------------------------------ arithmetic
    /// reduce a mathematical value into a machine type: (state, value, wrapped?)
    pub fn wrap(&mut self, st: State, l: Lin, ty: Ty) -> Res<Vec<(State, Val, bool)>> {
        let (mn, mx, bits, _) = int_range(ty).ok_or_else(|| format!("not an integer type {ty}"))?;
        if let Some(c) = l.is_const() {
            let mut v = c;
            let m = I::pow2(bits);
            if v < mn || v > mx {
                v = (v - mn).rem_floor(m) + mn;
                return Ok(vec![(st, Val::Int(Lin::cst(v)), true)]);
            }
            return Ok(vec![(st, Val::Int(l), false)]);
        }
        let hi_ok = st.store.entails_le0(&l.addc(-mx));
        let lo_ok = st.store.entails_le0(&Lin::cst(mn).sub(&l));
        if hi_ok && lo_ok {
            return Ok(vec![(st, Val::Int(l), false)]);
        }
        let mut out = vec![];
        // in range
        let mut s = st.clone();
        if s.le0(&l.addc(-mx)) && s.le0(&Lin::cst(mn).sub(&l)) {
            out.push((s, Val::Int(l.clone()), false));
        }
        let m = I::pow2(bits);
        let buckets = |bound: I, up: bool| -> Option<i128> {
            if bound.is_inf() {
                return None;
            }
            let d = if up { (bound - mx - I::ONE).div_floor(m) + I::ONE } else { (mn - I::ONE + bound).div_floor(m) + I::ONE };
            d.to_i128()
        };
        for up in [true, false] {
            if (up && hi_ok) || (!up && lo_ok) {
                continue;
            }
            let ub = if up { st.store.ub(&l) } else { st.store.ub(&l.neg()) };
            match buckets(ub, up) {
                Some(n) if n <= 6 => {
                    for k in 1..=n.max(0) {
                        let off = if up { -m.mul(I::new(k)) } else { m.mul(I::new(k)) };
                        let v = l.addc(off);
                        let mut s = st.clone();
                        if s.le0(&v.addc(-mx)) && s.le0(&Lin::cst(mn).sub(&v)) {
                            out.push((s, Val::Int(v), true));
                        }
                    }
                }
                _ => {
                    // one turn only, as a case of its own: its models need no search for k
                    if !self.cfg.fold {
                        let v = l.addc(if up { -m } else { m });
                        let mut s = st.clone();
                        if s.le0(&v.addc(-mx)) && s.le0(&Lin::cst(mn).sub(&v)) {
                            out.push((s, Val::Int(v), true));
                        }
                    }
                    // l = v + m*k, k >= 1 (up) or <= -1
                    let mut s = st.clone();
                    let ok = if up { s.le0(&Lin::cst(mx + I::ONE).sub(&l)) } else { s.le0(&l.addc(I::ONE - mn)) };
                    if ok {
                        let k = fresh(SORT_INT);
                        let v = l.add_scaled(&Lin::sym(k), -m);
                        let r = fresh(SORT_INT);
                        let lr = Lin::sym(r);
                        let mut f = s.eq0(&lr.sub(&v)) && s.le0(&lr.addc(-mx)) && s.le0(&Lin::cst(mn).sub(&lr));
                        f = f && if up { s.le0(&Lin::int(1).sub(&Lin::sym(k))) } else { s.le0(&Lin::sym(k).addc(I::ONE)) };
                        if f {
                            out.push((s, Val::Int(lr), true));
                        }
                    }
                }
            }
        }
        Ok(out)
    }
    /// arithmetic with wrap information
    pub fn arith(&mut self, mut st: State, op: BinOp, x: &Val, y: &Val, ty: Ty) -> Res<Vec<(State, Val, bool)>> {
        let (a, b) = match (x, y) {
            (Val::Int(a), Val::Int(b)) => (a, b),
            o => return Err(format!("arithmetic on {o:?}")),
        };
        let r = match op {
            BinOp::Add | BinOp::AddUnchecked => a.add(b),
            BinOp::Sub | BinOp::SubUnchecked => a.sub(b),
            BinOp::Mul | BinOp::MulUnchecked => match (a.is_const(), b.is_const()) {
                (_, Some(k)) => a.scale(k),
                (Some(k), _) => b.scale(k),
                _ => {
                    let (mn, mx, _, _) = int_range(ty).ok_or("mul")?;
                    let s = fresh(SORT_INT);
                    let mut out = vec![];
                    st.exact = false;
                    st.le0(&Lin::sym(s).addc(-mx));
                    st.le0(&Lin::cst(mn).sub(&Lin::sym(s)));
                    out.push((st.clone(), Val::Int(Lin::sym(s)), false));
                    out.push((st, Val::Int(Lin::sym(s)), true));
                    return Ok(out);
                }
            },
            _ => return Err(format!("checked {op:?}")),
        };
        self.wrap(st, r, ty)
    }
    pub fn tri(&self, st: State, a: &Lin, b: &Lin) -> Vec<(State, i32)> {
        let d = a.sub(b);
        if let Some(c) = d.is_const() {
            return vec![(st, c.signum())];
        }
        let mut out = vec![];
        let mut s = st.clone();
        if s.le0(&d.addc(I::ONE)) {
            out.push((s, -1));
        }
        let mut s = st.clone();
        if s.eq0(&d) {
            out.push((s, 0));
        }
        let mut s = st;
        if s.le0(&d.neg().addc(I::ONE)) {
            out.push((s, 1));
        }
        out
    }
    /// fork on a <= b + c?
    pub fn fork_le(&self, st: State, l: &Lin) -> Vec<(State, bool)> {
        if let Some(c) = l.is_const() {
            return vec![(st, c <= I::ZERO)];
        }
        let mut out = vec![];
        let mut s = st.clone();
        if s.le0(l) {
            out.push((s, true));
        }
        let mut s = st;
        if s.le0(&l.neg().addc(I::ONE)) {
            out.push((s, false));
        }
        out
    }
    pub fn binop(&mut self, st: State, op: BinOp, x: &Val, y: &Val, ty: Ty) -> Res<Vec<(State, Val)>> {
        match op {
            BinOp::Add | BinOp::Sub | BinOp::Mul => Ok(self.arith(st, op, x, y, ty)?.into_iter().map(|(s, v, _)| (s, v)).collect()),
            BinOp::AddUnchecked | BinOp::SubUnchecked | BinOp::MulUnchecked => {
                // wrapping here is undefined behaviour
                let mut out = vec![];
                for (s, v, o) in self.arith(st, op, x, y, ty)? {
                    if o {
                        self.alarm(s, "undefined behaviour: unchecked arithmetic overflows".into());
                    } else {
                        out.push((s, v));
                    }
                }
                Ok(out)
            }
            BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp => {
                let (a, b) = match (x, y) {
                    (Val::Int(a), Val::Int(b)) => (a.clone(), b.clone()),
                    (Val::Bool(a), Val::Bool(b)) => (Lin::int(*a as i128), Lin::int(*b as i128)),
                    (Val::Ptr(a), Val::Ptr(b)) if matches!(op, BinOp::Eq | BinOp::Ne) => {
                        let e = a == b;
                        return Ok(vec![(st, Val::Bool(e == (op == BinOp::Eq)))]);
                    }
                    (Val::Agg(a), Val::Agg(b)) if a.is_empty() && b.is_empty() => (Lin::int(0), Lin::int(0)),
                    o => return Err(format!("comparison of {o:?}")),
                };
                Ok(match op {
                    BinOp::Lt => self.fork_le(st, &a.sub(&b).addc(I::ONE)).into_iter().map(|(s, b)| (s, Val::Bool(b))).collect(),
                    BinOp::Le => self.fork_le(st, &a.sub(&b)).into_iter().map(|(s, b)| (s, Val::Bool(b))).collect(),
                    BinOp::Gt => self.fork_le(st, &b.sub(&a).addc(I::ONE)).into_iter().map(|(s, b)| (s, Val::Bool(b))).collect(),
                    BinOp::Ge => self.fork_le(st, &b.sub(&a)).into_iter().map(|(s, b)| (s, Val::Bool(b))).collect(),
                    BinOp::Eq => self.tri(st, &a, &b).into_iter().map(|(s, k)| (s, Val::Bool(k == 0))).collect(),
                    BinOp::Ne => self.tri(st, &a, &b).into_iter().map(|(s, k)| (s, Val::Bool(k != 0))).collect(),
                    _ => self.tri(st, &a, &b).into_iter().map(|(s, k)| (s, Val::Enum((k + 1) as u32, Rc::new(vec![])))).collect(),
                })
            }
            BinOp::BitAnd | BinOp::BitOr | BinOp::BitXor => match (x, y) {
                (Val::Bool(a), Val::Bool(b)) => Ok(vec![(
                    st,
                    Val::Bool(match op {
                        BinOp::BitAnd => *a & *b,
                        BinOp::BitOr => *a | *b,
                        _ => *a ^ *b,
                    }),
                )]),
                (Val::Int(a), Val::Int(b)) => {
                    let (mn, mx, bits, _) = int_range(ty).ok_or("bit op")?;
                    if let (Some(a), Some(b)) = (a.is_const(), b.is_const()) {
                        let (a, b) = (a.low_u128(), b.low_u128());
                        let v = match op {
                            BinOp::BitAnd => a & b,
                            BinOp::BitOr => a | b,
                            _ => a ^ b,
                        };
                        let v = if mn.is_neg() { I::new(v as i128) } else { I::from_u128(v) };
                        return Ok(self.wrap(st, Lin::cst(v), ty)?.into_iter().map(|(s, v, _)| (s, v)).collect());
                    }
                    if op == BinOp::BitAnd {
                        // mask 2^k - 1
                        for (v, m) in [(a, b.is_const()), (b, a.is_const())] {
                            if let Some(m) = m {
                                for k in 0..bits {
                                    if I::pow2(k) - I::ONE == m {
                                        return self.divrem(st, v, I::pow2(k), true);
                                    }
                                }
                            }
                        }
                    }
                    let mut st = st;
                    st.exact = false;
                    let s = fresh(SORT_INT);
                    st.le0(&Lin::sym(s).addc(-mx));
                    st.le0(&Lin::cst(mn).sub(&Lin::sym(s)));
                    Ok(vec![(st, Val::Int(Lin::sym(s)))])
                }
                o => Err(format!("bit op on {o:?}")),
            },
            BinOp::Div | BinOp::Rem => match (x, y) {
                (Val::Int(a), Val::Int(b)) => {
                    let k = b.is_const().ok_or("division by a variable")?;
                    if k.signum() <= 0 {
                        return Err("division".into());
                    }
                    if !st.store.entails_le0(&a.neg()) {
                        return Err("division of a possibly negative value".into());
                    }
                    self.divrem(st, a, k, op == BinOp::Rem)
                }
                o => Err(format!("division of {o:?}")),
            },
            BinOp::Shl | BinOp::Shr | BinOp::ShlUnchecked | BinOp::ShrUnchecked => match (x, y) {
                (Val::Int(a), Val::Int(b)) => {
                    let k = b.is_const().and_then(|c| c.to_i128()).ok_or("shift by a variable")? as u32;
                    if matches!(op, BinOp::Shl | BinOp::ShlUnchecked) {
                        Ok(self.wrap(st, a.scale(I::pow2(k)), ty)?.into_iter().map(|(s, v, _)| (s, v)).collect())
                    } else {
                        self.divrem(st, a, I::pow2(k), false)
                    }
                }
                o => Err(format!("shift of {o:?}")),
            },
            BinOp::Offset => Err("pointer offset".into()),
        }
    }
    /// floor division / remainder by a positive constant
    fn divrem(&mut self, mut st: State, a: &Lin, k: I, rem: bool) -> Res<Vec<(State, Val)>> {
        if let Some(c) = a.is_const() {
            let v = if rem { c.rem_floor(k) } else { c.div_floor(k) };
            return Ok(vec![(st, Val::Int(Lin::cst(v)))]);
        }
        let q = fresh(SORT_INT);
        // q*k <= a < q*k + k
        let r = a.add_scaled(&Lin::sym(q), -k);
        if !st.le0(&r.neg()) || !st.le0(&r.addc(I::ONE - k)) {
            return Ok(vec![]);
        }
        if rem {
            let s = fresh(SORT_INT);
            st.eq0(&Lin::sym(s).sub(&r));
            st.le0(&Lin::sym(s).neg());
            st.le0(&Lin::sym(s).addc(I::ONE - k));
            Ok(vec![(st, Val::Int(Lin::sym(s)))])
        } else {
            let ub = st.store.ub_cheap(a);
            if !ub.is_inf() {
                st.le0(&Lin::sym(q).addc(-ub.div_floor(k)));
            }
            let lb = st.store.ub_cheap(&a.neg());
            if !lb.is_inf() {
                st.le0(&Lin::cst((-lb).div_floor(k)).sub(&Lin::sym(q)));
            }
            Ok(vec![(st, Val::Int(Lin::sym(q)))])
        }
    }

    // ------------------------------------------------------------------ sequences
    /// Make the element at `pos` individually addressable. Positions outside the
    /// sequence are not produced.
    pub fn materialise(&mut self, st: State, sp: &Ptr, pos: &Lin) -> Res<Vec<(State, Eid)>> {
        let seq = st.seq(sp)?.clone();
        let mut out = vec![];
        for i in 0..seq.segs.len() {
            let (lo, hi) = (seq.start(i), seq.segs[i].end.clone());
            let mut s = st.clone();
            if !(s.le0(&lo.sub(pos)) && s.le0(&pos.sub(&hi).addc(I::ONE))) {
                continue;
            }
            match &seq.segs[i].body {
                SegBody::One(e, _) => out.push((s, *e)),
                SegBody::Star(c, shapes) => {
                    for sh in shapes.iter() {
                        let mut s = s.clone();
                        let v = match inst_shape(&mut s, sh) {
                            Some(v) => v,
                            None => continue,
                        };
                        let e = fresh_eid();
                        let before_empty = s.is_eq(&lo, pos);
                        let after = pos.addc(I::ONE);
                        let after_empty = s.is_eq(&hi, &after);
                        let mut mid = vec![];
                        if !before_empty {
                            mid.push(Seg { end: pos.clone(), body: SegBody::Star(*c, shapes.clone()) });
                        }
                        mid.push(Seg { end: after, body: SegBody::One(e, v) });
                        if !after_empty {
                            mid.push(Seg { end: hi.clone(), body: SegBody::Star(*c, shapes.clone()) });
                        }
                        s.with_seq(sp, |q| {
                            q.segs.splice(i..=i, mid);
                        })?;
                        out.push((s, e));
                    }
                }
            }
        }
        Ok(out)
    }
    /// Make `pos` a segment boundary; returns the index of the first segment at or after it.
    pub fn cut(&mut self, st: State, sp: &Ptr, pos: &Lin) -> Res<Vec<(State, usize)>> {
        let seq = st.seq(sp)?.clone();
        for i in 0..=seq.segs.len() {
            if st.is_eq(&seq.start(i), pos) {
                return Ok(vec![(st, i)]);
            }
        }
        let mut out = vec![];
        for i in 0..=seq.segs.len() {
            let lo = seq.start(i);
            // exactly at the start of segment i, and not at an earlier boundary
            let mut s = st.clone();
            if s.eq0(&lo.sub(pos)) && (i == 0 || s.le0(&seq.start(i - 1).sub(pos).addc(I::ONE))) {
                out.push((s, i));
            }
            if i < seq.segs.len() {
                if let SegBody::Star(c, sh) = &seq.segs[i].body {
                    let hi = seq.segs[i].end.clone();
                    let mut s = st.clone();
                    if s.le0(&lo.sub(pos).addc(I::ONE)) && s.le0(&pos.sub(&hi).addc(I::ONE)) {
                        let (c, sh, pos) = (*c, sh.clone(), pos.clone());
                        s.with_seq(sp, |q| {
                            q.segs.insert(i, Seg { end: pos, body: SegBody::Star(c, sh) });
                        })?;
                        out.push((s, i + 1));
                    }
                }
            }
        }
        Ok(out)
    }
    pub fn seq_insert(&mut self, st: State, sp: &Ptr, pos: &Lin, v: Val) -> Res<Vec<State>> {
        let mut out = vec![];
        for (mut s, i) in self.cut(st, sp, pos)? {
            let pos1 = pos.addc(I::ONE);
            let v = v.clone();
            s.with_seq(sp, |q| {
                for g in q.segs[i..].iter_mut() {
                    g.end = g.end.addc(I::ONE);
                }
                q.segs.insert(i, Seg { end: pos1, body: SegBody::One(fresh_eid(), v) });
            })?;
            out.push(s);
        }
        Ok(out)
    }
    /// remove the element with the given id
    pub fn seq_take(&mut self, st: &mut State, sp: &Ptr, e: Eid) -> Res<Val> {
        st.with_seq(sp, |q| {
            let i = q.segs.iter().position(|g| matches!(&g.body, SegBody::One(x, _) if *x == e)).ok_or("lost element")?;
            let g = q.segs.remove(i);
            for h in q.segs[i..].iter_mut() {
                h.end = h.end.addc(I::new(-1));
            }
            match g.body {
                SegBody::One(_, v) => Ok::<Val, String>(v),
                _ => Err("star".into()),
            }
        })?
    }
    pub fn seq_remove(&mut self, st: State, sp: &Ptr, pos: &Lin) -> Res<Vec<(State, Val)>> {
        let mut out = vec![];
        for (mut s, e) in self.materialise(st, sp, pos)? {
            let v = self.seq_take(&mut s, sp, e)?;
            out.push((s, v));
        }
        Ok(out)
    }
}
pub fn peel1(t: Ty) -> Ty {
    match rigid(t) {
        Some(RigidTy::Ref(_, t, _)) | Some(RigidTy::RawPtr(t, _)) => t,
        _ => t,
    }
}
fn transparent(t: Ty) -> Ty {
    // MaybeUninit / ManuallyDrop / Cell wrappers are not looked through
    t
}
pub fn discr_val(v: &Val, ty: Ty) -> Res<Val> {
    match v {
        Val::Enum(k, _) => {
            if let Some(RigidTy::Adt(d, _)) = rigid(ty) {
                let vs = d.variants();
                let dv = d.discriminant_for_variant(vs[*k as usize].idx());
                let (_, _, bits, signed) = int_range(dv.ty).ok_or("discriminant type")?;
                let m = dv.val;
                let x = if signed && bits < 128 && (m >> (bits - 1)) & 1 == 1 {
                    let masked = m & ((1u128 << bits) - 1);
                    I::from_u128(masked) - I::pow2(bits)
                } else if signed && bits == 128 {
                    I::new(m as i128)
                } else {
                    I::from_u128(m)
                };
                Ok(Val::Int(Lin::cst(x)))
            } else {
                Err("discriminant".into())
            }
        }
        Val::Bool(b) => Ok(int(*b as i128)),
        Val::Agg(_) => Ok(int(0)),
        o => Err(format!("discriminant of {o:?}")),
    }
}
pub fn inst_shape(s: &mut State, sh: &Shape) -> Option<Val> {
    let m: HashMap<Sym, Sym> = sh.locals.iter().map(|&l| (l, fresh(sort(l)))).collect();
    for &(a, b, c) in &sh.cons {
        let (a, b) = (*m.get(&a).unwrap_or(&a), *m.get(&b).unwrap_or(&b));
        if !s.store.add_diff(a, b, c) {
            return None;
        }
    }
    let v = map_leaves(&sh.val, &mut |l| l.subst(&mut |x| m.get(&x).map(|y| Lin::sym(*y))));
    Some(refresh_eids(&v))
}
pub fn refresh_eids(v: &Val) -> Val {
    if !has_seq(v) {
        return v.clone();
    }
    match v {
        Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(refresh_eids).collect())),
        Val::Enum(k, x) => Val::Enum(*k, Rc::new(x.iter().map(refresh_eids).collect())),
        Val::Seq(s) => Val::Seq(Rc::new(Seq {
            ranges: s.ranges,
            segs: s
                .segs
                .iter()
                .map(|g| Seg {
                    end: g.end.clone(),
                    body: match &g.body {
                        SegBody::One(_, v) => SegBody::One(fresh_eid(), refresh_eids(v)),
                        b => b.clone(),
                    },
                })
                .collect(),
        })),
        _ => v.clone(),
    }
}
/// add a state, merging it exactly with one of equal memory
fn push_merged(v: &mut Vec<State>, s: State) {
    for o in v.iter_mut().rev().take(200) {
        if o.allocs == s.allocs && o.globals == s.globals && o.exact == s.exact {
            if let Some(j) = o.store.exact_join(&s.store) {
                o.store = j;
                o.unroll = o.unroll.min(s.unroll);
                return;
            }
        }
    }
    v.push(s);
}
fn merge_out(v: &mut Outs, s: State, o: Out, joins: &mut u64) {
    // bounded effort: only the latest states are candidates
    for (t, p) in v.iter_mut().rev().take(200) {
        if *p == o && t.allocs == s.allocs && t.globals == s.globals && t.exact == s.exact {
            if let Some(j) = t.store.exact_join(&s.store) {
                t.store = j;
                *joins += 1;
                return;
            }
        }
    }
    v.push((s, o));
}

/// A tuple-variant or tuple-struct constructor used as a function.
fn ctor(inst: &Instance, args: &[Val]) -> Option<Val> {
    let sig = inst.ty().kind().fn_sig()?.skip_binder();
    let d = match rigid(sig.output()) {
        Some(RigidTy::Adt(d, _)) => d,
        _ => return None,
    };
    let n = def_norm(inst);
    let adt = norm(&d.name());
    match d.kind() {
        AdtKind::Struct if last_seg(&n) == last_seg(&adt) => {
            if d.variants()[0].fields().len() != args.len() || !matches!(rigid(inst.ty()), Some(RigidTy::FnDef(..))) || !is_ctor_name(&n) {
                return None;
            }
            Some(agg(args.to_vec()))
        }
        AdtKind::Enum => {
            if !is_ctor_name(&n) {
                return None;
            }
            let k = d.variants().iter().position(|v| v.name() == last_seg(&n))?;
            if d.variants()[k].fields().len() != args.len() {
                return None;
            }
            Some(Val::Enum(k as u32, Rc::new(args.to_vec())))
        }
        _ => None,
    }
}
fn is_ctor_name(n: &str) -> bool {
    last_seg(n).chars().next().map_or(false, |c| c.is_uppercase())
}

fn opt_arg(t: Ty) -> Option<Ty> {
    match rigid(t) {
        Some(RigidTy::Adt(_, a)) => type_args(&a).first().copied(),
        _ => None,
    }
}
