//! Single- and multi-objective instances under histories of building and transformation
use crate::common::*;
use crate::oracle::*;
use crate::p09::{mk_card, mk_pb, Kind};
use crate::p12::{pb_holds, read, vars_of, Raw};
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::instances::fio::dimacs::{McnfLine, WcnfLine};
use rustsat::instances::fio::opb;
use rustsat::instances::{
    BasicVarManager, Cnf, ManageVars, MultiOptInstance, ObjectVarManager, Objective, OptInstance, RandReindVarManager,
    ReindexVars, ReindexingVarManager, SatInstance,
};
use rustsat::types::constraints::PbConstraint;
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use std::collections::BTreeSet;

const N: usize = 4;
type C = Vec<i32>;
type Basic = BasicVarManager;
type SoftC = (Vec<(Clause, usize)>, isize);
type SoftL = (Vec<(Lit, usize)>, isize);

#[derive(Clone, Debug)]
enum Op {
    Hard(C),
    Card(Kind, C, usize),
    Pb(Kind, Vec<(i32, isize)>, isize),
    SoftLit(usize, usize, i32),
    SoftInt(usize, isize, i32),
    SoftCl(usize, usize, C),
    Off(usize, isize),
    Norm(usize),
    Compose,
    Cls,
    Lits,
    /// hard clauses and soft clauses as objective rebuilt through iterators
    Lines,
    Data,
    Reindex(u8),
    Shuffle,
    ChangeVm,
    Serde,
}

/// Both kinds of instances
trait Ins: Clone + PartialEq + Sized + serde::Serialize + serde::de::DeserializeOwned {
    fn make(n: usize) -> Self;
    fn cons(&mut self) -> &mut SatInstance;
    fn cons_ref(&self) -> &SatInstance;
    fn obj(&mut self, i: usize) -> &mut Objective;
    fn objs(&self) -> Vec<Objective>;
    fn split(self) -> (SatInstance, Vec<Objective>);
    fn join(s: SatInstance, o: Vec<Objective>) -> Self;
    fn to_cls(self) -> (Cnf, Vec<SoftC>, Basic);
    fn to_lits(self) -> (Cnf, Vec<SoftL>, Basic);
    fn change(self) -> (Self, Basic);
    fn reind<R: ReindexVars>(self, r: R, ordered: bool) -> (Self, R);
    fn shuf(self) -> Self;
    fn costs(&self, a: &Assignment) -> Option<Vec<isize>>;
    fn vset(&self) -> BTreeSet<Var>;
    fn maxv(&self) -> Option<Var>;
    fn from_lines(hard: &[Clause], soft: &[SoftC]) -> Self;
    fn from_data(d: Vec<opb::Data>) -> Option<Self>;
}

impl Ins for OptInstance {
    fn make(n: usize) -> Self {
        assert!(n == 1);
        OptInstance::new()
    }
    fn cons(&mut self) -> &mut SatInstance {
        self.constraints_mut()
    }
    fn cons_ref(&self) -> &SatInstance {
        self.constraints_ref()
    }
    fn obj(&mut self, _: usize) -> &mut Objective {
        self.objective_mut()
    }
    fn objs(&self) -> Vec<Objective> {
        vec![self.objective_ref().clone()]
    }
    fn split(self) -> (SatInstance, Vec<Objective>) {
        let (a, b) = self.decompose();
        (a, vec![b])
    }
    fn join(s: SatInstance, o: Vec<Objective>) -> Self {
        OptInstance::compose(s, o.into_iter().next().unwrap())
    }
    fn to_cls(self) -> (Cnf, Vec<SoftC>, Basic) {
        let (a, b, c) = self.into_hard_cls_soft_cls();
        (a, vec![(b.0.into_iter().collect(), b.1)], c)
    }
    fn to_lits(self) -> (Cnf, Vec<SoftL>, Basic) {
        let (a, b, c) = self.into_hard_cls_soft_lits();
        (a, vec![(b.0.into_iter().collect(), b.1)], c)
    }
    fn change(self) -> (Self, Basic) {
        let (y, vm) = self.change_var_manager(|v| ObjectVarManager::from_next_free(Var::new(v.n_used())));
        let (y, _) = y.change_var_manager(|v| Basic::from_next_free(Var::new(v.n_used())));
        (y, vm)
    }
    fn reind<R: ReindexVars>(self, r: R, ordered: bool) -> (Self, R) {
        let y = if ordered { self.reindex_ordered(r) } else { self.reindex(r) };
        y.change_var_manager(|v| Basic::from_next_free(Var::new(v.n_used())))
    }
    fn shuf(self) -> Self {
        self.shuffle()
    }
    fn costs(&self, a: &Assignment) -> Option<Vec<isize>> {
        self.cost(a).map(|c| vec![c])
    }
    fn vset(&self) -> BTreeSet<Var> {
        self.var_set()
    }
    fn maxv(&self) -> Option<Var> {
        self.max_var()
    }
    fn from_lines(hard: &[Clause], soft: &[SoftC]) -> Self {
        let mut v = vec![WcnfLine::Comment("x".into())];
        v.extend(soft[0].0.iter().map(|(c, w)| WcnfLine::Soft(c.clone(), *w)));
        v.extend(hard.iter().map(|c| WcnfLine::Hard(c.clone())));
        v.into_iter().collect()
    }
    fn from_data(_: Vec<opb::Data>) -> Option<Self> {
        None
    }
}

impl Ins for MultiOptInstance {
    fn make(n: usize) -> Self {
        MultiOptInstance::new(n)
    }
    fn cons(&mut self) -> &mut SatInstance {
        self.constraints_mut()
    }
    fn cons_ref(&self) -> &SatInstance {
        self.constraints_ref()
    }
    fn obj(&mut self, i: usize) -> &mut Objective {
        if i % 2 == 0 {
            self.objective_mut(i)
        } else {
            self.iter_obj_mut().nth(i).unwrap()
        }
    }
    fn objs(&self) -> Vec<Objective> {
        let v: Vec<Objective> = self.iter_obj().cloned().collect();
        assert!(v.len() == self.n_objectives());
        for (i, o) in v.iter().enumerate() {
            assert!(o == self.objective_ref(i));
        }
        v
    }
    fn split(self) -> (SatInstance, Vec<Objective>) {
        self.decompose()
    }
    fn join(s: SatInstance, o: Vec<Objective>) -> Self {
        MultiOptInstance::compose(s, o)
    }
    fn to_cls(self) -> (Cnf, Vec<SoftC>, Basic) {
        let (a, b, c) = self.into_hard_cls_soft_cls();
        (a, b.into_iter().map(|b| (b.0.into_iter().collect(), b.1)).collect(), c)
    }
    fn to_lits(self) -> (Cnf, Vec<SoftL>, Basic) {
        let (a, b, c) = self.into_hard_cls_soft_lits();
        (a, b.into_iter().map(|b| (b.0.into_iter().collect(), b.1)).collect(), c)
    }
    fn change(self) -> (Self, Basic) {
        let (y, vm) = self.change_var_manager(|v| ObjectVarManager::from_next_free(Var::new(v.n_used())));
        let (y, _) = y.change_var_manager(|v| Basic::from_next_free(Var::new(v.n_used())));
        (y, vm)
    }
    fn reind<R: ReindexVars>(self, r: R, ordered: bool) -> (Self, R) {
        // a default re-indexer is needed for changing managers
        let y = if ordered { self.reindex_ordered(r) } else { self.reindex(r) };
        y.change_var_manager(|v| Basic::from_next_free(Var::new(v.n_used())))
    }
    fn shuf(self) -> Self {
        self.shuffle()
    }
    fn costs(&self, a: &Assignment) -> Option<Vec<isize>> {
        self.cost(a)
    }
    fn vset(&self) -> BTreeSet<Var> {
        self.var_set()
    }
    fn maxv(&self) -> Option<Var> {
        self.max_var()
    }
    fn from_lines(hard: &[Clause], soft: &[SoftC]) -> Self {
        let mut v = vec![McnfLine::Comment("x".into())];
        // objectives interleaved, the last one first
        let most = soft.iter().map(|s| s.0.len()).max().unwrap_or(0);
        for i in 0..most {
            for (k, s) in soft.iter().enumerate().rev() {
                if let Some((c, w)) = s.0.get(i) {
                    v.push(McnfLine::Soft(c.clone(), *w, k));
                }
            }
        }
        v.extend(hard.iter().map(|c| McnfLine::Hard(c.clone())));
        v.into_iter().collect()
    }
    fn from_data(d: Vec<opb::Data>) -> Option<Self> {
        Some(d.into_iter().collect())
    }
}

/// Feasibility and costs of all assignments of the original variables
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Model {
    tab: u64,
    cost: Vec<Vec<isize>>,
    at: Vec<Option<u32>>,
    aux: bool,
}

type Terms = Vec<(Vec<(Vec<Lit>, usize)>, isize)>;

fn terms(os: &[Objective]) -> Terms {
    os.iter()
        .map(|o| (o.iter_soft_cls().into_iter().map(|(c, w)| (c.iter().copied().collect(), w)).collect(), o.offset()))
        .collect()
}

fn cost_of(ts: &Terms, f: &dyn Fn(Lit) -> bool) -> Vec<isize> {
    ts.iter()
        .map(|(t, o)| o + t.iter().map(|(c, w)| if c.iter().any(|&l| f(l)) { 0 } else { *w as isize }).sum::<isize>())
        .collect()
}

/// feasible assignments of the original variables with the cheapest extension in each objective;
/// an error when there is none that is cheapest in all objectives at once
fn best(r: &Raw, ts: &Terms, at: &[Option<u32>]) -> Result<Vec<Option<Vec<isize>>>, String> {
    let is_cl = |p: &&PbConstraint| matches!(p, PbConstraint::Lb(_)) && p.bound() == 1 && p.iter().all(|x| x.1 >= 1);
    let mut cls = r.cls.clone();
    cls.extend(r.pbs.iter().filter(is_cl).map(|p| p.iter().map(|x| x.0).collect::<Clause>()));
    let r = &Raw { cls, pbs: r.pbs.iter().filter(|p| !is_cl(p)).cloned().collect() };
    let ovars: BTreeSet<u32> = ts.iter().flat_map(|(t, _)| t.iter().flat_map(|(c, _)| c.iter().map(|l| l.vidx32()))).collect();
    let mut vs = vars_of(r);
    let in_obj: Vec<u32> = ovars.iter().copied().filter(|v| !at.contains(&Some(*v))).collect();
    vs.extend(&ovars);
    let aux: Vec<u32> = vs.iter().copied().filter(|v| !at.contains(&Some(*v))).collect();
    let orig = |l: Lit, m: u32| at.iter().position(|x| *x == Some(l.vidx32())).map(|i| (m >> i & 1 == 1) != l.is_neg());
    let mut out = vec![];
    let mut d = Dpll::from_clauses(&r.cls);
    for m in 0..1u32 << N {
        let mut found: Vec<Vec<isize>> = vec![];
        // without PB constraints only the auxiliary variables of the objectives are enumerated
        let en = if r.pbs.is_empty() { &in_obj } else { &aux };
        assert!(en.len() <= 12, "too many auxiliary variables for enumeration: {}", en.len());
        for e in 0..1u32 << en.len() {
            let f = |l: Lit| match orig(l, m) {
                Some(b) => b,
                None => (e >> en.iter().position(|&a| a == l.vidx32()).unwrap() & 1 == 1) != l.is_neg(),
            };
            let ok = if r.pbs.is_empty() {
                if aux.is_empty() {
                    r.cls.iter().all(|c| c.iter().any(|&l| f(l)))
                } else {
                    let mut a: Vec<Lit> = (0..N).filter_map(|i| at[i].map(|v| Lit::new(v, m >> i & 1 == 0))).collect();
                    a.extend(en.iter().map(|&v| Lit::new(v, !f(Lit::new(v, false)))));
                    d.sat(&a)
                }
            } else {
                r.cls.iter().all(|c| c.iter().any(|&l| f(l))) && r.pbs.iter().all(|p| pb_holds(p, &f))
            };
            if ok {
                found.push(cost_of(ts, &f));
            }
        }
        if found.is_empty() {
            out.push(None);
            continue;
        }
        let low: Vec<isize> = (0..ts.len()).map(|k| found.iter().map(|f| f[k]).min().unwrap()).collect();
        if !found.contains(&low) {
            return Err(format!("no extension of {m:b} is cheapest in all objectives at once: {found:?}"));
        }
        out.push(Some(low));
    }
    Ok(out)
}

fn observe<I: Ins>(t: &mut Tally, x: &I, md: &Model, op: &Op) -> Result<(), String> {
    let os = x.objs();
    ensure_eq!(os.len(), md.cost.len(), "number of objectives after {op:?}");
    let r = read(x.cons_ref());
    let ts = terms(&os);
    let got = best(&r, &ts, &md.at).map_err(|e| format!("{e} after {op:?}"))?;
    for m in 0..1usize << N {
        let want = (md.tab >> m & 1 == 1).then(|| md.cost.iter().map(|c| c[m]).collect::<Vec<_>>());
        ensure_eq!(got[m], want, "feasibility and costs under {m:b} after {op:?} (clauses {} PBs {:?} objectives {os:?})", show(&r.cls), r.pbs);
    }
    t.step(1 << N);
    let mut vs = vars_of(&r);
    vs.extend(ts.iter().flat_map(|(t, _)| t.iter().flat_map(|(c, _)| c.iter().map(|l| l.vidx32()))));
    ensure_eq!(x.vset().into_iter().map(|v| v.idx32()).collect::<BTreeSet<_>>(), vs, "set of variables after {op:?}");
    ensure_eq!(x.maxv(), x.cons_ref().max_var(), "maximum variable");
    // the library's evaluation
    let top = vs.last().map_or(0, |v| v + 1);
    if !md.aux && top <= 8 {
        for m in 0..1usize << N {
            let mut a: Assignment = vec![TernaryVal::False; top as usize].into_iter().collect();
            for (i, v) in md.at.iter().enumerate() {
                if let Some(v) = v {
                    a.assign_var(Var::new(*v), if m >> i & 1 == 1 { TernaryVal::True } else { TernaryVal::False });
                }
            }
            let want = (md.tab >> m & 1 == 1).then(|| md.cost.iter().map(|c| c[m]).collect::<Vec<_>>());
            ensure_eq!(x.costs(&a), want, "cost under {m:b} after {op:?}");
        }
        t.step(1 << N);
    }
    Ok(())
}

fn free(md: &mut Model) -> Result<(), String> {
    for i in 0..N {
        if md.at[i].is_none() {
            for m in 0..1usize << N {
                let o = m ^ (1 << i);
                if md.tab >> m & 1 != md.tab >> o & 1 || (md.tab >> m & 1 == 1 && md.cost.iter().any(|c| c[m] != c[o])) {
                    return Err(format!("variable {i} is relevant but has no place any more"));
                }
            }
        }
    }
    Ok(())
}

fn case<I: Ins>(t: &mut Tally, n: usize, ops: &[Op]) -> Result<(), String> {
    let mut x = I::make(n);
    let mut md = Model {
        tab: truth(N, |_| true) as u64,
        cost: vec![vec![0; 1 << N]; n],
        at: (0..N as u32).map(Some).collect(),
        aux: false,
    };
    for op in ops {
        let map = |c: &[i32]| -> Option<Vec<i32>> {
            c.iter().map(|&i| md.at[i.unsigned_abs() as usize - 1].map(|v| (v as i32 + 1) * i.signum())).collect()
        };
        let soft = |md: &mut Model, k: usize, w: isize, f: &dyn Fn(u32) -> bool| {
            for m in 0..1usize << N {
                if f(m as u32) {
                    md.cost[k][m] += w;
                }
            }
        };
        let used = |x: &I| -> BTreeSet<u32> { x.vset().into_iter().map(|v| v.idx32()).collect() };
        match op {
            Op::Hard(c) => {
                let Some(r) = map(c) else { return Ok(()) };
                x.cons().add_clause(cl(&r));
                md.tab &= truth(N, |m| cl_holds(m, &ls(c))) as u64;
            }
            Op::Card(k, c, b) => {
                let Some(r) = map(c) else { return Ok(()) };
                x.cons().add_card_constr(mk_card(*k, &r, *b));
                let p = PbConstraint::from(mk_card(*k, c, *b));
                md.tab &= truth(N, |m| pb_holds(&p, &|l| holds(m, l))) as u64;
            }
            Op::Pb(k, c, b) => {
                let Some(r) = map(&c.iter().map(|x| x.0).collect::<Vec<_>>()) else { return Ok(()) };
                let rc: Vec<(i32, isize)> = r.iter().zip(c).map(|(l, x)| (*l, x.1)).collect();
                x.cons().add_pb_constr(mk_pb(*k, &rc, *b));
                let p = mk_pb(*k, c, *b);
                md.tab &= truth(N, |m| pb_holds(&p, &|l| holds(m, l))) as u64;
            }
            Op::SoftLit(k, w, c) => {
                let Some(r) = map(&[*c]) else { return Ok(()) };
                x.obj(*k).increase_soft_lit(*w, l(r[0]));
                soft(&mut md, *k, *w as isize, &|m| holds(m, l(*c)));
            }
            Op::SoftInt(k, w, c) => {
                let Some(r) = map(&[*c]) else { return Ok(()) };
                x.obj(*k).increase_soft_lit_int(*w, l(r[0]));
                soft(&mut md, *k, *w, &|m| holds(m, l(*c)));
            }
            Op::SoftCl(k, w, c) => {
                let Some(r) = map(c) else { return Ok(()) };
                x.obj(*k).increase_soft_clause(*w, cl(&r));
                soft(&mut md, *k, *w as isize, &|m| !cl_holds(m, &ls(c)));
            }
            Op::Off(k, o) => {
                x.obj(*k).increase_offset(*o);
                soft(&mut md, *k, *o, &|_| true);
            }
            Op::Norm(k) => {
                let o = x.obj(*k);
                *o = std::mem::take(o).normalize();
            }
            Op::Compose => {
                let (s, o) = x.split();
                let m = s.n_vars();
                x = I::join(s, o);
                for v in used(&x) {
                    check!(v < m, "variable {v} is not marked as used in the decomposed instance ({m} in use)");
                }
                ensure_eq!(x.cons_ref().n_vars(), m, "variables in use after composing");
            }
            Op::Cls | Op::Lits => {
                let before = used(&x);
                let lim = x.cons_ref().n_vars();
                let (f, os, vm) = if matches!(op, Op::Cls) {
                    let (f, s, vm) = x.to_cls();
                    let os: Vec<Objective> = s
                        .into_iter()
                        .map(|(v, off)| {
                            let mut o: Objective = v.into_iter().collect();
                            o.increase_offset(off);
                            o
                        })
                        .collect();
                    (f, os, vm)
                } else {
                    let (f, s, vm) = x.to_lits();
                    let os: Vec<Objective> = s
                        .into_iter()
                        .map(|(v, off)| {
                            let mut o: Objective = v.into_iter().collect();
                            o.increase_offset(off);
                            o
                        })
                        .collect();
                    (f, os, vm)
                };
                let next = vm.n_used();
                check!(next >= lim, "variables got lost: {next} in use instead of {lim}");
                let mut s = SatInstance::new_with_manager(vm);
                f.into_iter().for_each(|c| s.add_clause(c));
                ensure_eq!(s.n_vars(), next, "variables used by the clauses beyond the returned manager");
                x = I::join(s, os);
                ensure_eq!(x.cons_ref().n_vars(), next, "variables used by the objectives beyond the returned manager");
                for v in used(&x) {
                    check!(before.contains(&v) || v >= lim, "auxiliary variable {v} is not fresh ({lim} were in use)");
                }
                // variables that no longer (or never) occurred may be taken by auxiliary ones
                for w in &mut md.at {
                    if w.is_some_and(|v| !before.contains(&v)) {
                        *w = None;
                    }
                }
                free(&mut md)?;
            }
            Op::Lines => {
                let before = used(&x);
                let (f, s, _) = x.to_cls();
                let hard: Vec<Clause> = f.into_iter().collect();
                x = I::from_lines(&hard, &s);
                let have = x.objs().len();
                check!(have <= n, "{have} objectives from lines of {n}");
                let (c, mut os) = x.split();
                os.resize(n, Objective::default());
                for (o, (_, off)) in os.iter_mut().zip(&s) {
                    o.increase_offset(*off);
                }
                x = I::join(c, os);
                for w in &mut md.at {
                    if w.is_some_and(|v| !before.contains(&v)) {
                        *w = None;
                    }
                }
                free(&mut md)?;
            }
            Op::Data => {
                if x.objs().iter().any(|o| o.n_clauses() > 0) {
                    return Ok(());
                }
                let mut d = vec![opb::Data::Cmt("* x".into())];
                for (k, o) in x.objs().iter().enumerate() {
                    let terms: Vec<(usize, Lit)> = o.iter_soft_lits().unwrap().into_iter().map(|(l, w)| (w, l)).collect();
                    d.push(opb::Data::Obj(if k % 2 == 0 {
                        opb::Objective { sense: opb::ObjectiveSense::Minimize, terms, offset: o.offset() }
                    } else {
                        // sum of w * l as maximum of the negated
                        let s: isize = terms.iter().map(|t| t.0 as isize).sum();
                        opb::Objective {
                            sense: opb::ObjectiveSense::Maximize,
                            terms: terms.into_iter().map(|(w, l)| (w, !l)).collect(),
                            offset: -(o.offset() + s),
                        }
                    }));
                }
                let (p, _) = x.cons_ref().clone().into_pbs();
                d.extend(p.into_iter().map(opb::Data::Constr));
                let Some(y) = I::from_data(d) else { return Ok(()) };
                x = y;
            }
            Op::Reindex(k) => {
                let old = x.vset();
                let top = x.cons_ref().n_vars().max(old.last().map_or(0, |v| v.idx32() + 1));
                let img: Vec<Option<u32>> = if *k < 2 {
                    let (y, mut r) = x.reind(ReindexingVarManager::default(), *k == 1);
                    ensure_eq!(y.cons_ref().n_vars() as usize, old.len(), "variables after closing the gaps");
                    x = y;
                    (0..top.max(N as u32)).map(|v| old.contains(&Var::new(v)).then(|| r.reindex(Var::new(v)).idx32())).collect()
                } else {
                    let (y, mut r) = x.reind(RandReindVarManager::init(top), *k == 3);
                    x = y;
                    (0..top.max(N as u32)).map(|v| old.contains(&Var::new(v)).then(|| r.reindex(Var::new(v)).idx32())).collect()
                };
                if *k == 1 {
                    let seq: Vec<u32> = img.iter().flatten().copied().collect();
                    ensure_eq!(seq, (0..old.len() as u32).collect::<Vec<_>>(), "order after ordered re-indexing");
                }
                let exp: BTreeSet<Var> = old.iter().map(|v| Var::new(img[v.idx()].unwrap())).collect();
                ensure_eq!(x.vset(), exp, "variables after re-indexing");
                for w in &mut md.at {
                    *w = w.and_then(|v| img[v as usize]);
                }
                free(&mut md)?;
            }
            Op::Shuffle => x = x.shuf(),
            Op::ChangeVm => {
                let m = x.cons_ref().n_vars();
                let (y, vm) = x.change();
                ensure_eq!((y.cons_ref().n_vars(), vm.n_used()), (m, m), "variables in use with the new manager");
                x = y;
            }
            Op::Serde => {
                // JSON cannot hold clauses as keys
                let Ok(s) = serde_json::to_string(&x) else { return Ok(()) };
                let y: I = serde_json::from_str(&s).map_err(|e| format!("deserialising: {e}"))?;
                check!(x == y, "serialising changes the instance");
                x = y;
            }
        }
        // an auxiliary variable is one without place
        md.aux = x.vset().iter().any(|v| !md.at.contains(&Some(v.idx32())));
        t.state((&md, x.cons_ref().n_vars()));
        t.outcome(if md.tab == 0 { "infeasible" } else { "feasible" });
        observe(t, &x, &md, op)?;
    }
    Ok(())
}

fn alphabet(n: usize, full: bool) -> Vec<Op> {
    let mut al = vec![
        Op::Hard(vec![1, -2]),
        Op::Hard(vec![-1, 3, 4]),
        Op::Card(Kind::Ub, vec![1, 2, -3], 1),
        Op::Pb(Kind::Ub, vec![(1, 2), (-3, 3), (2, 2)], 4),
        Op::Compose,
        Op::Cls,
        Op::Lits,
        Op::Lines,
        Op::Reindex(0),
        Op::Reindex(1),
        Op::Shuffle,
        Op::ChangeVm,
        Op::Serde,
    ];
    if full {
        al.extend([Op::Hard(vec![]), Op::Card(Kind::Eq, vec![3, -4], 1), Op::Reindex(2), Op::Reindex(3)]);
    }
    if n != 1 {
        al.push(Op::Data);
    }
    for k in 0..n {
        let s = if k == 0 { 1 } else { -1 };
        al.extend([
            Op::SoftLit(k, 1, s),
            Op::SoftLit(k, 2, -4 * s),
            Op::SoftCl(k, 1, vec![2, 3 * s]),
            Op::SoftCl(k, 2, vec![-s, 4]),
            Op::Off(k, 2),
            Op::Norm(k),
        ]);
        if full {
            al.extend([
                Op::SoftInt(k, -3, 2 * s),
                Op::SoftCl(k, 1, vec![3, -3]),
                Op::SoftCl(k, 1, vec![2 * s]),
                Op::SoftCl(k, 2, vec![]),
                Op::SoftCl(k, 1, vec![3, 3, 1]),
                Op::Off(k, -3),
            ]);
        }
    }
    al
}

fn runs<I: Ins>(cx: &Ctx, name: &str, n: usize, depth: usize, full: bool) {
    let al = alphabet(n, full);
    let len = al.len();
    cx.run_idx(
        name,
        len.pow(depth as u32),
        |mut i| {
            (0..depth)
                .map(|_| {
                    let o = al[i % len].clone();
                    i /= len;
                    o
                })
                .collect::<Vec<_>>()
        },
        |t, c| case::<I>(t, n, c),
    );
    cx.bound(&format!("{name} depth"), depth);
}

pub fn run(cx: &Ctx) {
    runs::<OptInstance>(cx, "single", 1, cx.pick(3, 4), true);
    runs::<OptInstance>(cx, "single-long", 1, cx.pick(5, 5), false);
    runs::<MultiOptInstance>(cx, "multi0", 0, cx.pick(3, 4), true);
    runs::<MultiOptInstance>(cx, "multi1", 1, 3, true);
    runs::<MultiOptInstance>(cx, "multi2", 2, cx.pick(3, 4), true);
    runs::<MultiOptInstance>(cx, "multi2-long", 2, cx.pick(4, 4), false);
    cx.bound("variables", N);
    cx.assume("auxiliary variables are existentially quantified by the harness DPLL oracle or by enumeration");
}
