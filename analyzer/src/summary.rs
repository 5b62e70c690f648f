//! Function summaries. A loop-free function whose arguments are read-only and made of
//! booleans, discriminants and element-valued leaves is analysed once in an
//! unconstrained context; each call then conjoins the summary with the caller's state.
use crate::interp::*;
use crate::lin::*;
use crate::num::*;
use crate::store::*;
use crate::tys::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::Mutability;
use rustc_public::ty::*;
use std::collections::HashMap;
use std::rc::Rc;

const SUM_AID: Aid = 1 << 30;

#[derive(Clone)]
pub struct Case {
    cons: Rc<Vec<(Sym, Sym, I)>>,
    ret: Val,
}
#[derive(Default)]
pub struct Summaries {
    pool: HashMap<u32, Vec<Sym>>,
    cache: HashMap<(Instance, Vec<u64>), Option<Rc<Vec<Case>>>>,
    /// instances that cannot be summarised at all
    no: HashMap<Instance, bool>,
    pub hits: u64,
    pub busy: u32,
}
#[derive(Default)]
struct Abs {
    key: Vec<u64>,
    lins: Vec<Lin>,
    syms: Vec<Sym>,
    ptrs: Vec<(Ptr, Val)>,
}

fn has_mut_ref(t: Ty, depth: u32) -> bool {
    if depth > 5 {
        return true;
    }
    match rigid(t) {
        Some(RigidTy::Ref(_, i, m)) => m == Mutability::Mut || has_mut_ref(i, depth + 1),
        Some(RigidTy::RawPtr(..)) => true,
        Some(RigidTy::Tuple(v)) => v.iter().any(|t| has_mut_ref(*t, depth + 1)),
        Some(RigidTy::Closure(..)) | Some(RigidTy::FnPtr(..)) | Some(RigidTy::Dynamic(..)) | Some(RigidTy::Slice(..)) | Some(RigidTy::Str) => true,
        Some(RigidTy::Adt(_, a)) => type_args(&a).iter().any(|t| has_mut_ref(*t, depth + 1)),
        _ => false,
    }
}

impl Ctx {
    fn abs_val(&mut self, st: &State, v: &Val, a: &mut Abs) -> Option<Val> {
        if a.key.len() > 200 {
            return None;
        }
        Some(match v {
            Val::Bool(b) => {
                a.key.push(2 + *b as u64);
                v.clone()
            }
            Val::Undef => {
                a.key.push(4);
                v.clone()
            }
            Val::Int(l) => {
                if let Some(c) = l.is_const() {
                    a.key.push(5);
                    let c = c.to_i128()?;
                    a.key.push(c as u64);
                    a.key.push((c >> 64) as u64);
                    return Some(v.clone());
                }
                let so = l.dominant_sort();
                if so == SORT_INT {
                    return None;
                }
                let i = match a.lins.iter().position(|x| x == l) {
                    Some(i) => i,
                    None => {
                        let n = a.syms.iter().filter(|s| sort(**s) == so).count();
                        let pool = self.sums.pool.entry(so).or_default();
                        while pool.len() <= n {
                            pool.push(fresh(so));
                        }
                        a.syms.push(pool[n]);
                        a.lins.push(l.clone());
                        a.lins.len() - 1
                    }
                };
                a.key.push(6);
                a.key.push((i as u64) << 2 | so as u64);
                Val::Int(Lin::sym(a.syms[i]))
            }
            Val::Agg(f) => {
                a.key.push(7);
                a.key.push(f.len() as u64);
                let mut o = vec![];
                for x in f.iter() {
                    o.push(self.abs_val(st, x, a)?);
                }
                agg(o)
            }
            Val::Enum(k, f) => {
                a.key.push(8);
                a.key.push((*k as u64) << 8 | f.len() as u64);
                let mut o = vec![];
                for x in f.iter() {
                    o.push(self.abs_val(st, x, a)?);
                }
                Val::Enum(*k, Rc::new(o))
            }
            Val::Ptr(p) => {
                if p.meta.is_some() {
                    return None;
                }
                a.key.push(9);
                if let Some(i) = a.ptrs.iter().position(|x| x.0 == **p) {
                    a.key.push(i as u64);
                    return Some(Val::Ptr(Rc::new(Ptr { base: SUM_AID + i as u32, path: vec![], meta: None })));
                }
                let i = a.ptrs.len();
                a.key.push(i as u64);
                a.ptrs.push((p.as_ref().clone(), Val::Undef));
                let t = st.read(p).ok()?;
                let t = self.abs_val(st, t, a)?;
                a.ptrs[i].1 = t;
                Val::Ptr(Rc::new(Ptr { base: SUM_AID + i as u32, path: vec![], meta: None }))
            }
            _ => return None,
        })
    }
    fn summarisable(&mut self, inst: &Instance) -> bool {
        if let Some(b) = self.sums.no.get(inst) {
            return !*b;
        }
        let ok = match self.body(inst) {
            Some(b) => {
                let n = b.body.arg_locals().len();
                b.heads.is_empty() && !b.self_tail && n > 0 && b.body.spread_arg().is_none() && b.body.arg_locals().iter().all(|l| !has_mut_ref(l.ty, 0)) && !has_mut_ref(b.body.locals()[0].ty, 0)
            }
            None => false,
        };
        self.sums.no.insert(*inst, !ok);
        ok
    }
    /// not an operation whose results `sv::remember` keeps
    fn summary_pure(&self, inst: &Instance) -> bool {
        !matches!(last_seg(&def_norm(inst)), "intersection" | "union" | "complement" | "disjoint" | "intersects")
    }
    pub fn try_summary(&mut self, inst: &Instance, args: &[Val], st: &State) -> Option<Outs> {
        if self.remember && self.contracts.stack.is_empty() && !self.summary_pure(inst) {
            return None;
        }
        if self.frames.is_empty() || !self.summarisable(inst) {
            return None;
        }
        let mut a = Abs::default();
        let mut aargs = vec![];
        for v in args {
            match self.abs_val(st, v, &mut a) {
                Some(x) => aargs.push(x),
                None => return None,
            }
        }
        if a.lins.is_empty() {
            return None;
        }
        let key = (*inst, std::mem::take(&mut a.key));
        let cases = match self.sums.cache.get(&key) {
            Some(Some(c)) => c.clone(),
            Some(None) => return None,
            None => {
                let r = if self.sums.busy > 24 { None } else { self.make_summary(inst, aargs, &a, st) };
                let r = r.map(Rc::new);
                self.sums.cache.insert(key, r.clone());
                r?
            }
        };
        self.sums.hits += 1;
        self.steps += 1;
        let bi = self.body(inst)?;
        let map: HashMap<Sym, Lin> = a.syms.iter().cloned().zip(a.lins.iter().cloned()).collect();
        let img = |s: Sym| -> Lin {
            if s == ZERO {
                Lin::int(0)
            } else {
                map.get(&s).cloned().unwrap_or_else(|| Lin::sym(s))
            }
        };
        let mut out = vec![];
        for c in cases.iter() {
            let mut s = st.clone();
            let mut ok = true;
            for &(x, y, k) in c.cons.iter() {
                if !s.le0(&img(x).sub(&img(y)).addc(-k)) {
                    ok = false;
                    break;
                }
            }
            if !ok {
                continue;
            }
            let v = map_leaves(&c.ret, &mut |l| l.subst(&mut |s| map.get(&s).cloned()));
            let v = map_ptrs(&v, &mut |p| {
                let i = (p.base - SUM_AID) as usize;
                let mut q = a.ptrs[i].0.clone();
                q.path.extend(p.path.iter().cloned());
                q
            });
            if self.cfg.trace && bi.repo {
                s.note(bi.name.clone(), None);
            }
            out.push((s, Out::Ret(v)));
        }
        Some(out)
    }
    fn make_summary(&mut self, inst: &Instance, args: Vec<Val>, a: &Abs, caller: &State) -> Option<Vec<Case>> {
        let mut st = State::new();
        st.globals = Rc::new(vec![]);
        if let (Some(mn), Some(mx)) = (self.smin, self.smax) {
            let mut g = caller.store.clone();
            g.keep_only(&|s| s == mn || s == mx);
            st.store = g;
            st.globals = Rc::new(vec![mn, mx]);
        }
        // the argument symbols stay live: the summary is about them
        let mut g = st.globals.as_ref().clone();
        g.extend(a.syms.iter().cloned());
        st.globals = Rc::new(g);
        for (i, (_, v)) in a.ptrs.iter().enumerate() {
            st.allocs.insert(SUM_AID + i as u32, v.clone());
        }
        let (na, nu, nc, ns) = (self.alarms.len(), self.unsup.clone(), self.checks, self.stop);
        // a summary is computed with no caller frames: nothing outside is live
        let frames = std::mem::take(&mut self.frames);
        let probe = self.probe.take();
        let trace = std::mem::replace(&mut self.cfg.trace, false);
        let steps = self.steps;
        let cap = std::mem::replace(&mut self.cfg.max_steps, steps + 20_000);
        self.sums.busy += 1;
        let outs = self.exec_body(inst, args, st);
        self.sums.busy -= 1;
        self.cfg.max_steps = cap;
        self.frames = frames;
        self.probe = probe;
        self.cfg.trace = trace;
        let clean = self.alarms.len() == na && self.unsup == nu && self.checks == nc && self.stop == ns;
        if !clean {
            self.alarms.truncate(na);
            self.unsup = nu;
            self.checks = nc;
            self.stop = ns;
            return None;
        }
        let known = |s: Sym| a.syms.contains(&s) || Some(s) == self.smin || Some(s) == self.smax || Some(s) == self.sdef || s == ZERO;
        let mut cases = vec![];
        if outs.len() > 64 {
            return None;
        }
        for (mut s, o) in outs {
            let v = match o {
                Out::Ret(v) => v,
                _ => return None,
            };
            if !s.exact {
                return None;
            }
            let mut ok = true;
            leaves(&v, &mut |l| ok &= l.t.iter().all(|x| known(x.0)));
            ptrs(&v, &mut |p| ok &= p.base >= SUM_AID && p.meta.is_none());
            if !ok || has_seq(&v) || matches!(v, Val::Iter(_) | Val::View(_)) {
                return None;
            }
            s.store.keep_only(&|x| known(x));
            if !s.store.extras.is_empty() {
                return None;
            }
            let cons: Vec<_> = s.store.constraints().into_iter().filter(|(x, y, _)| a.syms.contains(x) || a.syms.contains(y)).collect();
            cases.push(Case { cons: Rc::new(cons), ret: v });
        }
        Some(cases)
    }
}
