//! Certified encodings: the whole proof is checked by an independent checker, every clause against
//! the constraint it is paired with, and the clauses against the truth
use crate::common::*;
use crate::oracle::*;
use crate::p02::{no_input_excluded, verify};
use crate::p09::{mk_card, mk_pb, Kind, KINDS};
use crate::rt::*;
use crate::veripb::*;
use crate::{check, ensure_eq};
use pigeons::{AbsConstraintId, Conclusion, OutputGuarantee, Proof};
use rustsat::encodings::card::cert as cc;
use rustsat::encodings::card::simulators as csim;
use rustsat::encodings::card::{BoundBoth as _, BoundLower as _, BoundUpper as _, Totalizer};
use rustsat::encodings::cert::{CollectClauses as CertCollect, ConstraintEncodingError, EncodingError};
use rustsat::encodings::pb::cert as pc;
use rustsat::encodings::pb::simulators::{Card, Double, Inverted};
use rustsat::encodings::pb::{self, GeneralizedTotalizer};
use rustsat::encodings::{CollectClauses, EnforceError};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Clause, Lit, Var};
use rustsat::OutOfMemory;
use std::collections::BTreeSet;

type Pr = Proof<Vec<u8>>;

#[derive(Default)]
pub struct CCol {
    pub cls: Vec<(Clause, usize)>,
    pub plain: usize,
}
impl CollectClauses for CCol {
    fn n_clauses(&self) -> usize {
        self.cls.len()
    }
    fn extend_clauses<T: IntoIterator<Item = Clause>>(&mut self, it: T) -> Result<(), OutOfMemory> {
        let n = self.cls.len();
        self.cls.extend(it.into_iter().map(|c| (c, 0)));
        self.plain += self.cls.len() - n;
        Ok(())
    }
}
impl CertCollect for CCol {
    fn extend_cert_clauses<T: IntoIterator<Item = (Clause, AbsConstraintId)>>(&mut self, it: T) -> Result<(), OutOfMemory> {
        self.cls.extend(it.into_iter().map(|(c, i)| (c, i.to_string().parse().unwrap())));
        Ok(())
    }
}

/// `(positive weight, literal)` sum against a bound as proof constraints, equalities as two
fn inputs(ck: &mut Checker, k: Kind, lits: &[(i32, i128)], b: i128) -> Vec<Pb> {
    let ts: Vec<(i128, u32, bool)> = lits.iter().map(|&(x, w)| (w, ck.var(&format!("x{}", x.abs())).unwrap(), x < 0)).collect();
    let ge = Pb::new(ts.iter().copied(), b);
    let le = Pb::new(ts.iter().map(|&(w, v, n)| (-w, v, n)), -b);
    match k {
        Kind::Lb => vec![ge],
        Kind::Ub => vec![le],
        Kind::Eq => vec![ge, le],
    }
}

fn finish(t: &mut Tally, mut ck: Checker, proof: Pr, col: &CCol) -> Result<Checker, String> {
    let txt = proof.conclude(OutputGuarantee::None, &Conclusion::<Var>::None).map_err(|e| e.to_string())?;
    let txt = String::from_utf8(txt).map_err(|e| e.to_string())?;
    ck.check(&txt).map_err(|e| format!("{e}\nproof:\n{txt}"))?;
    check!(ck.output.as_deref() == Some("NONE") && ck.conclusion.as_deref() == Some("NONE"), "wrong conclusion");
    check!(col.plain == 0, "clauses without proof identifier");
    for (c, id) in &col.cls {
        let lits: Vec<(u32, bool)> = c.iter().map(|l| Ok::<_, String>((ck.var(&format!("x{}", l.vidx() + 1))?, l.is_neg()))).collect::<Result<_, _>>()?;
        let p = ck.get(*id).ok_or_else(|| format!("clause {c:?} is paired with constraint {id}, which does not exist or was deleted\nproof:\n{txt}"))?;
        check!(p.implies_clause(&lits), "clause {c:?} is paired with constraint {id}, which does not imply it: {p:?} {:?}\nproof:\n{txt}", ck.names);
        t.step(1);
    }
    t.step(ck.rules.values().sum());
    for (k, n) in &ck.rules {
        if let Some(x) = t.outcomes.get_mut(k) {
            *x += n;
        } else {
            t.outcomes.insert(k.clone(), *n);
        }
    }
    Ok(ck)
}

#[derive(Clone, Debug)]
pub struct Case {
    pool: Vec<(i32, usize)>,
    gap: u32,
    /// identifiers used in the proof before
    pre: usize,
    ops: Vec<Op>,
}

/// Uniform view on the certified encodings
trait Enc: Sized {
    fn make() -> Self;
    fn ext(&mut self, l: &[(Lit, usize)]);
    fn op(&mut self, op: &Op, col: &mut CCol, vm: &mut BasicVarManager, p: &mut Pr) -> Option<Result<(), EncodingError>>;
    fn ub(&self, _b: usize) -> Option<Result<Vec<Lit>, bool>> {
        None
    }
    fn lb(&self, _b: usize) -> Option<Result<Vec<Lit>, bool>> {
        None
    }
    fn eq(&self, _b: usize) -> Option<Result<Vec<Lit>, bool>> {
        None
    }
    fn weighted() -> bool {
        true
    }
}
fn un(e: EnforceError) -> bool {
    matches!(e, EnforceError::Unsat)
}
macro_rules! upper_ops {
    ($m:ident) => {
        fn op(&mut self, op: &Op, col: &mut CCol, vm: &mut BasicVarManager, p: &mut Pr) -> Option<Result<(), EncodingError>> {
            Some(match op {
                Op::Ub(r) => $m::BoundUpper::encode_ub_cert(self, *r, col, vm, p),
                Op::UbC(r) => $m::BoundUpperIncremental::encode_ub_change_cert(self, *r, col, vm, p),
                _ => return None,
            })
        }
    };
}
macro_rules! lower_ops {
    ($m:ident) => {
        fn op(&mut self, op: &Op, col: &mut CCol, vm: &mut BasicVarManager, p: &mut Pr) -> Option<Result<(), EncodingError>> {
            Some(match op {
                Op::Lb(r) => $m::BoundLower::encode_lb_cert(self, *r, col, vm, p),
                Op::LbC(r) => $m::BoundLowerIncremental::encode_lb_change_cert(self, *r, col, vm, p),
                _ => return None,
            })
        }
    };
}
macro_rules! both_ops {
    ($m:ident) => {
        fn op(&mut self, op: &Op, col: &mut CCol, vm: &mut BasicVarManager, p: &mut Pr) -> Option<Result<(), EncodingError>> {
            Some(match op {
                Op::Ub(r) => $m::BoundUpper::encode_ub_cert(self, *r, col, vm, p),
                Op::UbC(r) => $m::BoundUpperIncremental::encode_ub_change_cert(self, *r, col, vm, p),
                Op::Lb(r) => $m::BoundLower::encode_lb_cert(self, *r, col, vm, p),
                Op::LbC(r) => $m::BoundLowerIncremental::encode_lb_change_cert(self, *r, col, vm, p),
                Op::Both(r) => $m::BoundBoth::encode_both_cert(self, *r, col, vm, p),
                Op::BothC(r) => $m::BoundBothIncremental::encode_both_change_cert(self, *r, col, vm, p),
                _ => return None,
            })
        }
    };
}
macro_rules! card_enc {
    ($t:ty) => {
        impl Enc for $t {
            fn make() -> Self {
                Self::default()
            }
            fn ext(&mut self, l: &[(Lit, usize)]) {
                self.extend(l.iter().map(|x| x.0));
            }
            both_ops!(cc);
            fn ub(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
                Some(self.enforce_ub(b).map_err(|_| false))
            }
            fn lb(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
                Some(self.enforce_lb(b).map_err(un))
            }
            fn eq(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
                Some(self.enforce_eq(b).map_err(un))
            }
            fn weighted() -> bool {
                false
            }
        }
    };
}
type Tot = Totalizer;
type Gte = GeneralizedTotalizer;
card_enc!(Tot);
card_enc!(csim::Inverted<Tot>);
card_enc!(csim::Double<Tot, csim::Inverted<Tot>>);
macro_rules! pb_common {
    () => {
        fn make() -> Self {
            Self::default()
        }
        fn ext(&mut self, l: &[(Lit, usize)]) {
            self.extend(l.iter().copied());
        }
    };
}
macro_rules! pb_ub {
    () => {
        fn ub(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
            Some(pb::BoundUpper::enforce_ub(self, b).map_err(un))
        }
    };
}
macro_rules! pb_lb {
    () => {
        fn lb(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
            Some(pb::BoundLower::enforce_lb(self, b).map_err(un))
        }
    };
}
macro_rules! pb_eq {
    () => {
        fn eq(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
            Some(pb::BoundBoth::enforce_eq(self, b).map_err(un))
        }
    };
}
impl Enc for Gte {
    pb_common!();
    upper_ops!(pc);
    pb_ub!();
}
impl Enc for Inverted<Gte> {
    pb_common!();
    lower_ops!(pc);
    pb_lb!();
}
impl Enc for Inverted<Inverted<Gte>> {
    pb_common!();
    upper_ops!(pc);
    pb_ub!();
}
impl Enc for Double<Gte, Inverted<Gte>> {
    pb_common!();
    both_ops!(pc);
    pb_ub!();
    pb_lb!();
    pb_eq!();
}
impl Enc for Card<Tot> {
    pb_common!();
    both_ops!(pc);
    pb_ub!();
    pb_lb!();
    pb_eq!();
}
impl Enc for Inverted<Card<Tot>> {
    pb_common!();
    both_ops!(pc);
    pb_ub!();
    pb_lb!();
    pb_eq!();
}

fn hist<E: Enc>(t: &mut Tally, c: &Case) -> Result<(), String> {
    if !E::weighted() && c.pool.iter().any(|x| x.1 != 1) {
        return Ok(());
    }
    let pool: Vec<(Lit, usize)> = c.pool.iter().map(|x| (l(x.0), x.1)).collect();
    let nv = pool.iter().map(|l| l.0.vidx() + 1).max().unwrap_or(0);
    let from = nv + c.gap as usize;
    let mut enc = E::make();
    let mut vm = BasicVarManager::from_next_free(Var::new(from as u32));
    let mut col = CCol::default();
    let mut ck = Checker::default();
    let x = ck.var("x1")?;
    ck.formula(vec![Pb::new([(1, x, false), (1, x, true)], 1); c.pre]);
    let mut proof = Proof::new(vec![], c.pre, false).map_err(|e| e.to_string())?;
    let mut n = 0;
    let (mut ub, mut lb): (BTreeSet<usize>, BTreeSet<usize>) = Default::default();
    let hi = pool.iter().map(|x| x.1).sum::<usize>() + 2;
    let in_rg = |r: &Rg| (0..=hi).filter(|&x| rg_has(r, x)).collect::<BTreeSet<_>>();
    let mut did = false;
    for op in &c.ops {
        if let Op::Ext(k) = op {
            let k = (*k).min(pool.len() - n);
            enc.ext(&pool[n..n + k]);
            n += k;
            if k > 0 {
                ub.clear();
                lb.clear();
            }
        } else if let Some(r) = enc.op(op, &mut col, &mut vm, &mut proof) {
            r.map_err(|e| e.to_string())?;
            did = true;
            // only the last call has to be enforceable
            ub.clear();
            lb.clear();
            match op {
                Op::Ub(r) | Op::UbC(r) => ub = in_rg(r),
                Op::Lb(r) | Op::LbC(r) => lb = in_rg(r),
                Op::Both(r) | Op::BothC(r) => {
                    ub = in_rg(r);
                    lb = ub.clone();
                }
                _ => (),
            }
        }
        t.step(1);
        t.state((&c.pool, n, &ub, &lb));
    }
    if !did {
        return Ok(());
    }
    finish(t, ck, proof, &col)?;
    let next = vm.new_var().idx().max(from);
    let col = Col(col.cls.into_iter().map(|c| c.0).collect());
    fresh_ok(&col.0, nv, from, next)?;
    let w = &pool[..n];
    let total = w.iter().map(|x| x.1).sum::<usize>();
    no_input_excluded(t, &col, nv)?;
    verify(t, &col, nv, w, total + 1, &|b| ub.contains(&b), &|b| enc.ub(b), |s, b| s <= b, "<=")?;
    verify(t, &col, nv, w, total + 1, &|b| lb.contains(&b), &|b| enc.lb(b), |s, b| s >= b, ">=")?;
    verify(t, &col, nv, w, total + 1, &|b| ub.contains(&b) && lb.contains(&b), &|b| enc.eq(b), |s, b| s == b, "=")
}

/// encoding again into a second collector, with the same proof
fn fresh<E: Enc>(t: &mut Tally, c: &(Vec<(i32, usize)>, Op, Op)) -> Result<(), String> {
    let (pool, o1, o2) = c;
    if !E::weighted() && pool.iter().any(|x| x.1 != 1) {
        return Ok(());
    }
    let pool: Vec<(Lit, usize)> = pool.iter().map(|x| (l(x.0), x.1)).collect();
    let nv = pool.len();
    let mut enc = E::make();
    enc.ext(&pool);
    let mut vm = BasicVarManager::from_next_free(Var::new(nv as u32));
    let (mut c1, mut c2) = (CCol::default(), CCol::default());
    let mut proof = Proof::new(vec![], 0, false).map_err(|e| e.to_string())?;
    let Some(r) = enc.op(o1, &mut c1, &mut vm, &mut proof) else { return Ok(()) };
    r.map_err(|e| e.to_string())?;
    let Some(r) = enc.op(o2, &mut c2, &mut vm, &mut proof) else { return Ok(()) };
    r.map_err(|e| e.to_string())?;
    t.state(c);
    let second = c2.cls.iter().map(|c| c.0.clone()).collect();
    c2.cls.extend(c1.cls);
    finish(t, Checker::default(), proof, &c2)?;
    let col = Col(second);
    let total = pool.iter().map(|x| x.1).sum::<usize>();
    no_input_excluded(t, &col, nv)?;
    let (mut ub, mut lb) = (None, None);
    match o2 {
        Op::Ub(r) => ub = Some(*r),
        Op::Lb(r) => lb = Some(*r),
        Op::Both(r) => {
            ub = Some(*r);
            lb = ub;
        }
        _ => unreachable!(),
    }
    let has = |r: Option<Rg>, b: usize| r.is_some_and(|r| rg_has(&r, b));
    // what was only encoded into the first collector cannot be judged
    verify(t, &col, nv, &pool, total + 1, &|b| has(ub, b), &|b| if has(ub, b) { enc.ub(b) } else { None }, |s, b| s <= b, "<=")?;
    verify(t, &col, nv, &pool, total + 1, &|b| has(lb, b), &|b| if has(lb, b) { enc.lb(b) } else { None }, |s, b| s >= b, ">=")
}

/// a whole constraint; `others` unrelated constraints precede it in the proof
#[derive(Clone, Debug)]
pub struct Con {
    k: Kind,
    lits: Vec<(i32, isize)>,
    b: isize,
    others: usize,
}

fn constr(
    t: &mut Tally,
    c: &Con,
    f: &dyn Fn(AbsConstraintId, &mut CCol, &mut BasicVarManager, &mut Pr) -> Result<Result<(), ConstraintEncodingError>, String>,
) -> Result<(), String> {
    let nv = c.lits.iter().map(|x| x.0.unsigned_abs() as usize).max().unwrap_or(0);
    let mut vm = BasicVarManager::from_next_free(Var::new(nv as u32 + 1));
    let mut col = CCol::default();
    let mut ck = Checker::default();
    let x = ck.var("x1")?;
    let mut cs = vec![Pb::new([(1, x, false), (1, x, true)], 1); c.others];
    let lits: Vec<(i32, i128)> = c.lits.iter().map(|x| (x.0, x.1 as i128)).collect();
    cs.extend(inputs(&mut ck, c.k, &lits, c.b as i128));
    let n = cs.len();
    ck.formula(cs);
    let mut proof = Proof::new(vec![], n, false).map_err(|e| e.to_string())?;
    t.state((c.k, &c.lits, c.b));
    let sat = |m: u32| {
        let s: i128 = c.lits.iter().map(|&(x, w)| if holds(m, l(x)) { w as i128 } else { 0 }).sum();
        c.k.sat(s, c.b as i128)
    };
    let r = f(AbsConstraintId::new(c.others + 1), &mut col, &mut vm, &mut proof)?;
    finish(t, ck, proof, &col)?;
    match r {
        Err(ConstraintEncodingError::Unsat) => {
            check!(!(0..1u32 << nv).any(sat), "called unsatisfiable, which it is not");
            t.outcome("unsat");
            return Ok(());
        }
        r => r.map_err(|e| e.to_string())?,
    }
    let next = vm.new_var().idx();
    let col = Col(col.cls.into_iter().map(|c| c.0).collect());
    fresh_ok(&col.0, nv, nv + 1, next)?;
    let mut s = Dpll::from_clauses(&col.0);
    for m in 0..1u32 << nv {
        t.step(1);
        ensure_eq!(s.sat(&cube(m, nv)), sat(m), "input {m:b} allowed; clauses {}", show(&col.0));
    }
    Ok(())
}

fn def_card(t: &mut Tally, c: &Con) -> Result<(), String> {
    constr(t, c, &|id, col, vm, p| {
        let v: Vec<i32> = c.lits.iter().map(|x| x.0).collect();
        Ok(cc::default_encode_cardinality_constraint((mk_card(c.k, &v, c.b as usize), id), col, vm, p).map_err(Into::into))
    })
}
fn trait_card<E: cc::BoundBoth + FromIterator<Lit>>(t: &mut Tally, c: &Con) -> Result<(), String> {
    constr(t, c, &|id, col, vm, p| {
        let v: Vec<i32> = c.lits.iter().map(|x| x.0).collect();
        Ok(E::encode_constr_cert((mk_card(c.k, &v, c.b as usize), id), col, vm, p))
    })
}
fn def_pb(t: &mut Tally, c: &Con) -> Result<(), String> {
    constr(t, c, &|id, col, vm, p| Ok(pc::default_encode_pb_constraint((mk_pb(c.k, &c.lits, c.b), id), col, vm, p).map_err(Into::into)))
}
fn via_pb<E: pc::BoundBoth + FromIterator<(Lit, usize)>>(t: &mut Tally, c: &Con) -> Result<(), String> {
    constr(t, c, &|id, col, vm, p| {
        Ok(pc::encode_pb_constraint::<E, _, _>((mk_pb(c.k, &c.lits, c.b), id), col, vm, p).map_err(Into::into))
    })
}
fn trait_pb<E: pc::BoundBoth + FromIterator<(Lit, usize)>>(t: &mut Tally, c: &Con) -> Result<(), String> {
    constr(t, c, &|id, col, vm, p| Ok(E::encode_constr_cert((mk_pb(c.k, &c.lits, c.b), id), col, vm, p)))
}

pub fn run(cx: &Ctx) {
    // whole constraints
    let mut cards = vec![];
    for k in KINDS {
        for n in 0..=cx.pick(5, 7usize) {
            for b in 0..=n + 1 {
                for pat in 0..3usize {
                    let v: Vec<(i32, isize)> = (1..=n as i32).map(|i| (if pat == 1 && i % 2 == 0 || pat == 2 { -i } else { i }, 1)).collect();
                    cards.push(Con { k, lits: v, b: b as isize, others: pat });
                }
            }
        }
        for v in seqs(&[1, -1, 2, 3], 2, cx.pick(4, 5)) {
            for b in 0..=v.len() + 1 {
                cards.push(Con { k, lits: v.iter().map(|&x| (x, 1)).collect(), b: b as isize, others: 1 });
            }
        }
    }
    cx.run("card-default", &cards, def_card);
    cx.run("card-totalizer", &cards, trait_card::<Tot>);
    cx.run("card-inverted", &cards, trait_card::<csim::Inverted<Tot>>);
    cx.run("card-double", &cards, trait_card::<csim::Double<Tot, csim::Inverted<Tot>>>);
    let mut pbs = vec![];
    let mut pools: Vec<Vec<(i32, isize)>> = vec![vec![]];
    for n in 1..=3usize {
        for w in seqs(&[-2isize, -1, 1, 2, 3, 5], n, n) {
            pools.push(w.iter().enumerate().map(|(i, &w)| (if i == 1 { -2 } else { i as i32 + 1 }, w)).collect());
        }
    }
    for w in seqs(&[1isize, 2, 4], 4, cx.pick(4, 5)) {
        pools.push(w.iter().enumerate().map(|(i, &w)| (if i == 2 { -3 } else { i as i32 + 1 }, w)).collect());
    }
    for lits in [[1, 1, 2], [1, -1, 2], [2, 1, -2], [1, 1, 1]] {
        for w in seqs(&[1isize, 2, 3, -1], 3, 3) {
            pools.push(lits.iter().copied().zip(w.iter().copied()).collect());
        }
    }
    for p in &pools {
        let lo: isize = p.iter().map(|x| x.1.min(0)).sum();
        let hi: isize = p.iter().map(|x| x.1.max(0)).sum();
        for b in lo - 1..=hi + 1 {
            for k in KINDS {
                pbs.push(Con { k, lits: p.clone(), b, others: (b.rem_euclid(3)) as usize });
            }
        }
    }
    type Dbl = Double<Gte, Inverted<Gte>>;
    cx.run("pb-default", &pbs, def_pb);
    cx.run("pb-double", &pbs, trait_pb::<Dbl>);
    let units: Vec<Con> = cards.iter().filter(|c| c.others < 2).cloned().collect();
    cx.run("pb-card", &units, trait_pb::<Card<Tot>>);
    cx.run("pb-card-via", &units, via_pb::<Card<Tot>>);
    // ranges
    let mut a = vec![];
    let mut rp: Vec<Vec<(i32, usize)>> = vec![vec![]];
    for n in 1..=cx.pick(5, 6) {
        rp.push((1..=n).map(|i| (if i % 3 == 2 { -i } else { i }, 1)).collect());
    }
    for n in 1..=3usize {
        for w in seqs(&[1usize, 2, 3], n, n) {
            if w.iter().any(|x| *x > 1) {
                rp.push(w.iter().enumerate().map(|(i, &w)| (if i == 1 { -2 } else { i as i32 + 1 }, w)).collect());
            }
        }
    }
    for w in [[1usize, 2, 4, 2], [2, 2, 3, 3], [1, 1, 2, 1], [5, 3, 1, 1], [4, 2, 1, 3]] {
        rp.push(w.iter().enumerate().map(|(i, &w)| (if i == 2 { -3 } else { i as i32 + 1 }, w)).collect());
    }
    rp.push(vec![(1, 1), (1, 1), (-2, 1), (2, 1)]);
    rp.push(vec![(1, 2), (1, 1), (-1, 2), (2, 3)]);
    for p in &rp {
        let n = p.len();
        let total: usize = p.iter().map(|x| x.1).sum();
        let mut rs = if total <= 4 { all_ranges(total + 1) } else { vec![] };
        if rs.is_empty() {
            for x in 0..=total + 1 {
                for y in x..=total + 1 {
                    rs.push(rii(x, y));
                }
            }
            rs.push((std::ops::Bound::Unbounded, std::ops::Bound::Unbounded));
        }
        for r in rs {
            for op in [Op::Ub(r), Op::UbC(r), Op::Lb(r), Op::LbC(r), Op::Both(r), Op::BothC(r)] {
                a.push(Case { pool: p.clone(), gap: 0, pre: 0, ops: vec![Op::Ext(n), op] });
            }
        }
    }
    type F = fn(&mut Tally, &Case) -> Result<(), String>;
    let encs: Vec<(&str, F)> = vec![
        ("totalizer", hist::<Tot>),
        ("inverted-totalizer", hist::<csim::Inverted<Tot>>),
        ("double-totalizer", hist::<csim::Double<Tot, csim::Inverted<Tot>>>),
        ("gte", hist::<Gte>),
        ("inverted-gte", hist::<Inverted<Gte>>),
        ("double-gte", hist::<Dbl>),
        ("inverted-inverted-gte", hist::<Inverted<Inverted<Gte>>>),
        ("card", hist::<Card<Tot>>),
        ("inverted-card", hist::<Inverted<Card<Tot>>>),
    ];
    for (n, f) in &encs {
        cx.run(&format!("{n}-ranges"), &a, |t, c| f(t, c));
    }
    // histories
    let letters = |s: usize| {
        vec![
            Op::Ext(1),
            Op::Ext(2),
            Op::UbC(rii(0, 0)),
            Op::UbC(rii(1, 2)),
            Op::UbC(rii(2, s)),
            Op::LbC(rii(1, 1)),
            Op::LbC(rii(2, 4)),
            Op::BothC(rii(2, 3)),
            Op::Ub(rii(2, 3)),
            Op::Lb(rii(1, 3)),
            Op::Both(rii(1, s)),
        ]
    };
    let hp: Vec<Vec<(i32, usize)>> = vec![
        vec![(1, 1), (-2, 1), (3, 1), (4, 1), (-5, 1), (6, 1)],
        vec![(1, 1), (-2, 2), (3, 3), (4, 2), (-5, 4)],
        vec![(1, 2), (2, 2), (-3, 2), (4, 1), (5, 1)],
        vec![(1, 1), (1, 1), (-2, 1), (-1, 1), (2, 1)],
        vec![(1, 1), (1, 2), (-2, 3), (-1, 1), (2, 1)],
    ];
    let mut b = vec![];
    for p in &hp {
        let total: usize = p.iter().map(|x| x.1).sum();
        for s in [Op::Ext(1), Op::Ext(2), Op::Ext(3)] {
            for tail in seqs(&letters(total), 1, cx.pick(3, 4)) {
                if tail.iter().filter(|o| matches!(o, Op::Ext(_))).count() > 2 {
                    continue;
                }
                let mut ops = vec![s];
                ops.extend(tail);
                b.push(Case { pool: p.clone(), gap: (b.len() % 2) as u32, pre: b.len() % 3, ops });
            }
        }
    }
    for (n, f) in &encs {
        cx.run(&format!("{n}-histories"), &b, |t, c| f(t, c));
    }
    let mut d = vec![];
    for p in [&rp[2], &rp[3], &rp[4], &vec![(1, 2), (-2, 1), (3, 3)], &vec![(1, 1), (-2, 2), (3, 4), (4, 1)]] {
        let total: usize = p.iter().map(|x| x.1).sum();
        let mk: [fn(Rg) -> Op; 3] = [Op::Ub, Op::Lb, Op::Both];
        for f1 in mk {
            for f2 in mk {
                for a in 0..=total {
                    for b in [a, (a + 2).min(total)] {
                        for x in 0..=total {
                            for y in [x, (x + 1).min(total), total] {
                                d.push((p.clone(), f1(rii(a, b)), f2(rii(x, y))));
                            }
                        }
                    }
                }
            }
        }
    }
    cx.run("totalizer-fresh", &d, fresh::<Tot>);
    cx.run("inverted-totalizer-fresh", &d, fresh::<csim::Inverted<Tot>>);
    cx.run("double-totalizer-fresh", &d, fresh::<csim::Double<Tot, csim::Inverted<Tot>>>);
    cx.run("gte-fresh", &d, fresh::<Gte>);
    cx.run("inverted-gte-fresh", &d, fresh::<Inverted<Gte>>);
    cx.run("double-gte-fresh", &d, fresh::<Dbl>);
    cx.run("card-fresh", &d, fresh::<Card<Tot>>);
    cx.bound("history_depth", cx.pick(4, 5));
}
