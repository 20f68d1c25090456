//! Satisfiability instances under histories of building and transformation
use crate::common::*;
use crate::oracle::*;
use crate::p09::{mk_card, mk_pb, Kind};
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::encodings::CollectClauses;
use rustsat::instances::fio::dimacs::CnfLine;
use rustsat::instances::{BasicVarManager, Cnf, ManageVars, ObjectVarManager, RandReindVarManager, ReindexVars, ReindexingVarManager, SatInstance};
use rustsat::types::constraints::{CardConstraint, ConstraintRef, PbConstraint};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use std::collections::BTreeSet;

/// variables of the model; histories may use fewer
const N: usize = 5;
type C = Vec<i32>;

#[derive(Clone, Debug)]
enum Op {
    Clause(C),
    Nary(C),
    Unit(i32),
    Binary(i32, i32),
    Ternary(i32, i32, i32),
    And(u8),
    AndAssign(u8),
    Imp(u8, C, C),
    Card(Kind, C, usize),
    Pb(Kind, Vec<(i32, isize)>, isize),
    /// clauses through `Extend`
    ExtCl(Vec<C>),
    /// clauses through the collector interface
    Collect(Vec<C>),
    /// extension by another instance with all kinds of constraints
    ExtInst,
    AndInst(bool),
    NewVar,
    Sanitize,
    Cnf,
    /// conversion with given encoders
    CnfWith(u8),
    IntoCnf,
    Pbs,
    /// renamings: 0 default, 1 ordered, 2 random, 3 random ordered
    Reindex(u8),
    Shuffle,
    ChangeVm,
    FromCnf,
    Rebuild,
    Serde,
}

/// The model: the meaning of a solution over the named variables plus the renaming of them
#[derive(Clone)]
struct Model {
    /// truth table over the N original variables
    tab: u64,
    /// where the original variable is now; `None`: not occurring any more (or forgotten in a renaming)
    at: Vec<Option<u32>>,
    /// constraints that are held, by kind (clauses unknown after encoding)
    n_cl: Option<usize>,
    n_card: usize,
    n_pb: usize,
    /// auxiliary variables were introduced
    aux: bool,
    /// next free variable, if the history determines it
    next: Option<u32>,
}

fn full() -> u64 {
    truth(N, |_| true) as u64
}

fn other() -> SatInstance {
    let mut o: SatInstance = SatInstance::new();
    o.add_clause(cl(&[2, -3]));
    o.add_card_constr(CardConstraint::new_lb([l(1), l(2), l(3)], 2));
    o.add_pb_constr(PbConstraint::new_ub([(l(1), 2), (l(3), 1), (l(-2), 2)], 3));
    o
}
fn other_tab() -> u64 {
    truth(N, |m| {
        let h = |i: i32| usize::from(holds(m, l(i)));
        cl_holds(m, &ls(&[2, -3])) && h(1) + h(2) + h(3) >= 2 && 2 * h(1) + h(3) + 2 * h(-2) <= 3
    }) as u64
}

fn imp_tab(k: u8, a: &[Lit], b: &[Lit]) -> u64 {
    let all = |s: &[Lit], m: u32| s.iter().all(|&l| holds(m, l));
    let any = |s: &[Lit], m: u32| s.iter().any(|&l| holds(m, l));
    truth(N, |m| match k {
        0 | 1 | 3 | 5 => !all(a, m) || any(b, m),
        2 | 8 => !all(a, m) || all(b, m),
        4 | 6 => !any(a, m) || any(b, m),
        _ => !any(a, m) || all(b, m),
    }) as u64
}

/// Constraints of an instance as data, read through the public interface
pub struct Raw {
    pub cls: Vec<Clause>,
    pub pbs: Vec<PbConstraint>,
}

pub fn vars_of(r: &Raw) -> BTreeSet<u32> {
    r.cls.iter().flat_map(|c| c.iter().map(|l| l.vidx32())).chain(r.pbs.iter().flat_map(|p| p.iter().map(|(l, _)| l.vidx32()))).collect()
}

pub fn pb_holds(p: &PbConstraint, f: &dyn Fn(Lit) -> bool) -> bool {
    let s: isize = p.iter().map(|(l, w)| if f(*l) { *w as isize } else { 0 }).sum();
    match p {
        PbConstraint::Ub(_) => s <= p.bound(),
        PbConstraint::Lb(_) => s >= p.bound(),
        PbConstraint::Eq(_) => s == p.bound(),
    }
}

/// renames `x` over `at` and moves the auxiliary variables behind
fn solutions(r: &Raw, at: &[Option<u32>]) -> u64 {
    // clauses in PB form
    let is_cl = |p: &&PbConstraint| matches!(p, PbConstraint::Lb(_)) && p.bound() == 1 && p.iter().all(|x| x.1 >= 1);
    let mut cls = r.cls.clone();
    cls.extend(r.pbs.iter().filter(is_cl).map(|p| p.iter().map(|x| x.0).collect::<Clause>()));
    let r = &Raw { cls, pbs: r.pbs.iter().filter(|p| !is_cl(p)).cloned().collect() };
    let vs = vars_of(r);
    let aux: Vec<u32> = vs.iter().copied().filter(|v| !at.contains(&Some(*v))).collect();
    if aux.is_empty() {
        return truth(N, |m| {
            let f = |l: Lit| {
                let i = at.iter().position(|x| *x == Some(l.vidx32())).unwrap();
                (m >> i & 1 == 1) != l.is_neg()
            };
            r.cls.iter().all(|c| c.iter().any(|&l| f(l))) && r.pbs.iter().all(|p| pb_holds(p, &f))
        }) as u64;
    }
    // with auxiliary variables: the constraints are clauses, or small enough to enumerate
    if r.pbs.is_empty() {
        let d = std::cell::RefCell::new(Dpll::from_clauses(&r.cls));
        return truth(N, |m| {
            let a: Vec<Lit> = (0..N).filter_map(|i| at[i].map(|v| Lit::new(v, m >> i & 1 == 0))).collect();
            d.borrow_mut().sat(&a)
        }) as u64;
    }
    assert!(aux.len() <= 14, "too many auxiliary variables for enumeration: {}", aux.len());
    truth(N, |m| {
        (0..1u32 << aux.len()).any(|e| {
            let f = |l: Lit| {
                let v = match at.iter().position(|x| *x == Some(l.vidx32())) {
                    Some(i) => m >> i & 1 == 1,
                    None => e >> aux.iter().position(|&a| a == l.vidx32()).unwrap() & 1 == 1,
                };
                v != l.is_neg()
            };
            r.cls.iter().all(|c| c.iter().any(|&l| f(l))) && r.pbs.iter().all(|p| pb_holds(p, &f))
        })
    }) as u64
}

pub fn read<VM: ManageVars + Clone>(x: &SatInstance<VM>) -> Raw {
    // the constraints other than clauses are only visible through conversion
    let cls: Vec<Clause> = x.cnf().iter().cloned().collect();
    let n = cls.len();
    let (mut pbs, _) = x.clone().into_pbs();
    pbs.truncate(pbs.len().saturating_sub(n));
    Raw { cls, pbs }
}

fn observe<VM: ManageVars + Clone>(t: &mut Tally, x: &SatInstance<VM>, md: &Model, op: &Op) -> Result<(), String> {
    if let Some(n) = md.n_cl {
        ensure_eq!(x.n_clauses(), n, "number of clauses after {op:?}");
    }
    ensure_eq!(x.n_clauses(), x.cnf().len(), "clauses counted after {op:?}");
    ensure_eq!(x.n_cards(), md.n_card, "number of cardinality constraints after {op:?}");
    ensure_eq!(x.n_pbs(), md.n_pb, "number of PB constraints after {op:?}");
    ensure_eq!(x.n_constraints(), x.n_clauses() + x.n_cards() + x.n_pbs(), "number of constraints after {op:?}");
    let r = read(x);
    let vs = vars_of(&r);
    let set: BTreeSet<u32> = x.var_set().into_iter().map(|v| v.idx32()).collect();
    ensure_eq!(set, vs, "set of variables after {op:?}");
    let next = x.n_vars();
    ensure_eq!(x.max_var().map_or(0, |v| v.idx32() + 1), next, "maximum variable after {op:?}");
    if let Some(m) = vs.last() {
        check!(*m < next, "variable {m} occurs but only {next} are in use after {op:?}");
    }
    if let Some(n) = md.next {
        ensure_eq!(next, n, "variables in use after {op:?}");
    }
    let s = solutions(&r, &md.at);
    check!(s == md.tab, "solutions after {op:?}: {:b} instead of {:b} (clauses {} pbs {:?})", s, md.tab, show(&r.cls), r.pbs);
    t.step(9);
    // evaluation
    if !md.aux && next <= 16 {
        for m in 0..1u32 << N {
            let mut a: Assignment = vec![TernaryVal::False; next as usize].into_iter().collect();
            for (i, v) in md.at.iter().enumerate() {
                if let Some(v) = v {
                    a.assign_var(Var::new(*v), if m >> i & 1 == 1 { TernaryVal::True } else { TernaryVal::False });
                }
            }
            let exp = md.tab >> m & 1 == 1;
            ensure_eq!(x.evaluate(&a), if exp { TernaryVal::True } else { TernaryVal::False }, "evaluation under {m:b} after {op:?}");
            match x.unsat_constraint(&a) {
                None => check!(exp, "no unsatisfied constraint found under {m:b} after {op:?}"),
                Some(c) => {
                    check!(!exp, "constraint {c} reported as unsatisfied under {m:b} after {op:?}");
                    let v = match c {
                        ConstraintRef::Clause(c) => c.evaluate(&a),
                        ConstraintRef::Card(c) => c.evaluate(&a),
                        ConstraintRef::Pb(c) => c.evaluate(&a),
                    };
                    ensure_eq!(v, TernaryVal::False, "reported constraint under {m:b}");
                }
            }
        }
        t.step(64);
        // under the empty assignment: decided only if every completion agrees
        match x.evaluate(&Assignment::default()) {
            TernaryVal::True => check!(md.tab == full(), "true under the empty assignment after {op:?}"),
            TernaryVal::False => check!(md.tab == 0, "false under the empty assignment after {op:?}"),
            TernaryVal::DontCare => (),
        }
    }
    Ok(())
}

type Inst = SatInstance;

/// the renamed instance goes on with a basic manager that starts at the same next variable
fn rebase<R: ReindexVars>(x: SatInstance<R>) -> (Inst, R) {
    x.change_var_manager(|r| BasicVarManager::from_next_free(Var::new(r.n_used())))
}

fn case(t: &mut Tally, ops: &[Op]) -> Result<(), String> {
    let mut x: Inst = SatInstance::new();
    let mut md = Model { tab: full(), at: (0..N as u32).map(Some).collect(), n_cl: Some(0), n_card: 0, n_pb: 0, aux: false, next: Some(0) };
    for op in ops {
        // after a renaming further constraints speak about the renamed variables
        let map = |c: &[i32]| -> Option<Vec<i32>> {
            c.iter().map(|&i| md.at[i.unsigned_abs() as usize - 1].map(|v| (v as i32 + 1) * i.signum())).collect()
        };
        let used = |md: &mut Model, c: &[i32]| {
            if let Some(n) = &mut md.next {
                for i in c {
                    *n = (*n).max(i.unsigned_abs());
                }
            }
        };
        let mut added: Vec<C> = vec![];
        match op {
            Op::Clause(c) => {
                let Some(r) = map(c) else { return Ok(()) };
                x.add_clause(cl(&r));
                used(&mut md, &r);
                added.push(c.clone());
            }
            Op::Nary(c) => {
                let Some(r) = map(c) else { return Ok(()) };
                x.add_nary(&ls(&r));
                used(&mut md, &r);
                added.push(c.clone());
            }
            Op::Unit(a) => {
                let Some(r) = map(&[*a]) else { return Ok(()) };
                x.add_unit(l(r[0]));
                used(&mut md, &r);
                added.push(vec![*a]);
            }
            Op::Binary(a, b) => {
                let Some(r) = map(&[*a, *b]) else { return Ok(()) };
                x.add_binary(l(r[0]), l(r[1]));
                used(&mut md, &r);
                added.push(vec![*a, *b]);
            }
            Op::Ternary(a, b, c) => {
                let Some(r) = map(&[*a, *b, *c]) else { return Ok(()) };
                x.add_ternary(l(r[0]), l(r[1]), l(r[2]));
                used(&mut md, &r);
                added.push(vec![*a, *b, *c]);
            }
            Op::And(k) | Op::AndAssign(k) => {
                let cs: Vec<C> = match k {
                    0 => vec![vec![2]],
                    1 => vec![vec![-3]],
                    2 => vec![vec![3, -1]],
                    _ => vec![vec![-2, 4], vec![1, 2]],
                };
                let Some(r) = cs.iter().map(|c| map(c)).collect::<Option<Vec<_>>>() else { return Ok(()) };
                let f: Cnf = r.iter().map(|c| cl(c)).collect();
                if matches!(op, Op::And(_)) {
                    x = match k {
                        0 => x & l(r[0][0]).var(),
                        1 => x & l(r[0][0]),
                        2 => x & cl(&r[0]),
                        _ => x & f,
                    };
                } else {
                    match k {
                        0 => x &= l(r[0][0]).var(),
                        1 => x &= l(r[0][0]),
                        2 => x &= cl(&r[0]),
                        _ => x &= f,
                    }
                }
                r.iter().for_each(|c| used(&mut md, c));
                added.extend(cs);
            }
            Op::Imp(k, a, b) => {
                let (Some(ra), Some(rb)) = (map(a), map(b)) else { return Ok(()) };
                let (la, lb) = (ls(&ra), ls(&rb));
                match k {
                    0 => x.add_lit_impl_lit(la[0], lb[0]),
                    1 => x.add_lit_impl_clause(la[0], &lb),
                    2 => x.add_lit_impl_cube(la[0], &lb),
                    3 => x.add_cube_impl_lit(&la, lb[0]),
                    4 => x.add_clause_impl_lit(&la, lb[0]),
                    5 => x.add_cube_impl_clause(&la, &lb),
                    6 => x.add_clause_impl_clause(&la, &lb),
                    7 => x.add_clause_impl_cube(&la, &lb),
                    _ => x.add_cube_impl_cube(&la, &lb),
                }
                used(&mut md, &ra);
                used(&mut md, &rb);
                md.tab &= imp_tab(*k, &ls(a), &ls(b));
                md.n_cl = md.n_cl.map(|n| match k {
                    0 | 1 | 3 | 5 => n + 1,
                    2 | 8 => n + b.len(),
                    4 | 6 => n + a.len(),
                    _ => n + a.len() * b.len(),
                });
            }
            Op::Card(k, c, b) => {
                let Some(r) = map(c) else { return Ok(()) };
                x.add_card_constr(mk_card(*k, &r, *b));
                used(&mut md, &r);
                let p = PbConstraint::from(mk_card(*k, c, *b));
                md.tab &= truth(N, |m| pb_holds(&p, &|l| holds(m, l))) as u64;
                md.n_card += 1;
            }
            Op::Pb(k, c, b) => {
                let Some(r) = map(&c.iter().map(|x| x.0).collect::<Vec<_>>()) else { return Ok(()) };
                let rc: Vec<(i32, isize)> = r.iter().zip(c).map(|(l, x)| (*l, x.1)).collect();
                x.add_pb_constr(mk_pb(*k, &rc, *b));
                used(&mut md, &r);
                if c.iter().any(|x| x.1 == 0) {
                    // a term with coefficient zero may be dropped
                    md.next = None;
                }
                md.tab &= truth(N, |m| {
                    let s: isize = c.iter().map(|(i, w)| if holds(m, l(*i)) { *w } else { 0 }).sum();
                    match k {
                        Kind::Ub => s <= *b,
                        Kind::Lb => s >= *b,
                        Kind::Eq => s == *b,
                    }
                }) as u64;
                md.n_pb += 1;
            }
            Op::ExtCl(v) | Op::Collect(v) => {
                let Some(r) = v.iter().map(|c| map(c)).collect::<Option<Vec<_>>>() else { return Ok(()) };
                let it = r.iter().map(|c| cl(c)).collect::<Vec<_>>();
                if matches!(op, Op::ExtCl(_)) {
                    Extend::<Clause>::extend(&mut x, it);
                } else {
                    let n = CollectClauses::n_clauses(&x);
                    x.extend_clauses(it).map_err(|e| format!("{e}"))?;
                    ensure_eq!(CollectClauses::n_clauses(&x), n + v.len(), "collected clauses");
                }
                r.iter().for_each(|c| used(&mut md, c));
                added.extend(v.iter().cloned());
            }
            Op::ExtInst | Op::AndInst(_) => {
                if (0..3).any(|i| md.at[i] != Some(i as u32)) || md.at.iter().skip(3).any(|v| v.is_some_and(|v| v < 3)) {
                    // a renamed instance is not combined
                    return Ok(());
                }
                match op {
                    Op::ExtInst => x.extend(other()),
                    Op::AndInst(false) => x = x & other(),
                    _ => x &= other(),
                }
                used(&mut md, &[3]);
                md.tab &= other_tab();
                md.n_cl = md.n_cl.map(|n| n + 1);
                md.n_card += 1;
                md.n_pb += 1;
            }
            Op::NewVar => {
                let (b, s) = (x.n_vars(), x.var_set());
                let v = x.new_var();
                let n = x.new_lit();
                ensure_eq!((v.idx32(), n), (b, Lit::new(b + 1, false)), "new variable");
                check!(!s.contains(&v) && !s.contains(&n.var()), "new variable {v} already occurs");
                ensure_eq!(x.var_manager_ref().n_used(), b + 2, "variables in use");
                md.next = md.next.map(|n| n + 2);
                // variables of the model in the part that was handed out anew do not occur
                for w in &mut md.at {
                    if w.is_some_and(|w| w >= b) {
                        *w = None;
                    }
                }
                free(&mut md);
            }
            Op::Sanitize => {
                let keep = x.n_vars();
                x = x.sanitize();
                check!(x.n_vars() >= keep, "variables got lost in sanitising");
                for c in x.cnf() {
                    let s: BTreeSet<Lit> = c.iter().copied().collect();
                    check!(s.len() == c.len() && !s.iter().any(|l| s.contains(&!*l)), "clause {c} after sanitising");
                }
                let unsat_form = x.n_cards() == 0 && x.n_pbs() == 0 && x.n_clauses() == 2;
                check!(x.n_pbs() <= md.n_pb && x.n_cards() <= md.n_card + md.n_pb, "constraints appear in sanitising");
                let r = read(&x);
                for p in &r.pbs[..x.n_pbs()] {
                    check!(!p.is_tautology() && !p.is_unsat() && !p.is_positive_assignment() && !p.is_negative_assignment() && !p.is_clause() && !p.is_card(), "{p} after sanitising");
                }
                for p in &r.pbs[x.n_pbs()..] {
                    check!(!p.is_tautology() && !p.is_unsat() && !p.is_positive_assignment() && !p.is_negative_assignment() && !p.is_clause(), "{p} after sanitising");
                }
                md.n_card = x.n_cards();
                md.n_pb = x.n_pbs();
                md.n_cl = None;
                if unsat_form {
                    md.next = None;
                }
            }
            Op::Cnf | Op::CnfWith(_) | Op::IntoCnf => {
                let b = x.n_vars();
                let before: BTreeSet<u32> = vars_of(&read(&x));
                match op {
                    Op::Cnf => x.convert_to_cnf(),
                    Op::IntoCnf => {
                        let (f, vm) = x.into_cnf();
                        x = SatInstance::new_with_manager(vm);
                        Extend::<Clause>::extend(&mut x, f);
                    }
                    Op::CnfWith(k) => {
                        use rustsat::encodings::{card, pb};
                        let (mut nc, mut np) = (0, 0);
                        let ce = |c: CardConstraint, f: &mut Cnf, vm: &mut dyn ManageVars| {
                            nc += 1;
                            card::encode_cardinality_constraint::<card::Totalizer, _>(c, f, vm).unwrap();
                        };
                        let pe = |c: PbConstraint, f: &mut Cnf, vm: &mut dyn ManageVars| {
                            np += 1;
                            pb::encode_pb_constraint::<pb::DoubleGeneralizedTotalizer, _>(c, f, vm).unwrap();
                        };
                        if *k == 0 {
                            x.convert_to_cnf_with_encoders(ce, pe);
                        } else {
                            let (f, vm) = x.into_cnf_with_encoders(ce, pe);
                            x = SatInstance::new_with_manager(vm);
                            x &= f;
                        }
                        ensure_eq!((nc, np), (md.n_card, md.n_pb), "constraints given to the encoders");
                    }
                    _ => unreachable!(),
                }
                ensure_eq!((x.n_cards(), x.n_pbs()), (0, 0), "constraints left after {op:?}");
                for v in x.var_set() {
                    check!(before.contains(&v.idx32()) || v.idx32() >= b, "auxiliary variable {v} is not fresh ({b} were in use)");
                }
                if md.n_card + md.n_pb > 0 {
                    md.n_cl = None;
                    md.next = None;
                    md.aux = x.n_vars() > b || md.aux;
                    for w in &mut md.at {
                        if w.is_some_and(|w| w >= b) {
                            *w = None;
                        }
                    }
                }
                md.n_card = 0;
                md.n_pb = 0;
            }
            Op::Pbs => {
                let n = x.n_constraints();
                let (p, vm) = x.into_pbs();
                ensure_eq!(p.len(), n, "number of PB constraints");
                x = SatInstance::new_with_manager(vm);
                for p in p {
                    x.add_pb_constr(p);
                }
                md.n_cl = Some(0);
                md.n_card = 0;
                md.n_pb = n;
            }
            Op::Reindex(k) => {
                let old = x.var_set();
                let n = x.n_vars();
                let (y, img): (Inst, Vec<Option<u32>>) = if *k < 2 {
                    let start = ReindexingVarManager::default();
                    let y = if *k == 0 { x.reindex(start) } else { x.reindex_ordered(start) };
                    ensure_eq!(y.n_vars() as usize, old.len(), "variables after closing the gaps");
                    let (y, mut r) = rebase(y);
                    let img: Vec<Option<u32>> =
                        (0..n.max(N as u32)).map(|v| old.contains(&Var::new(v)).then(|| r.reindex(Var::new(v)).idx32())).collect();
                    if *k == 1 {
                        let seq: Vec<u32> = img.iter().flatten().copied().collect();
                        ensure_eq!(seq, (0..old.len() as u32).collect::<Vec<_>>(), "order after ordered re-indexing");
                    }
                    for (v, i) in img.iter().enumerate() {
                        if let Some(i) = i {
                            ensure_eq!(r.reverse(Var::new(*i)), Some(Var::new(v as u32)), "reverse renaming");
                        }
                    }
                    md.next = Some(old.len() as u32);
                    (y, img)
                } else {
                    let start = RandReindVarManager::init(n);
                    let y = if *k == 2 { x.reindex(start) } else { x.reindex_ordered(start) };
                    let (y, mut r) = rebase(y);
                    ensure_eq!(y.n_vars(), n, "variables after random re-indexing");
                    (y, (0..n.max(N as u32)).map(|v| Some(r.reindex(Var::new(v)).idx32())).collect())
                };
                x = y;
                let new = x.var_set();
                let exp: BTreeSet<Var> = old.iter().map(|v| Var::new(img[v.idx()].unwrap())).collect();
                ensure_eq!(new, exp, "variables after re-indexing");
                for w in &mut md.at {
                    *w = w.and_then(|v| img[v as usize]);
                }
                free(&mut md);
            }
            Op::Shuffle => x = x.shuffle(),
            Op::ChangeVm => {
                let n = x.n_vars();
                let (y, vm) = x.change_var_manager(|v| ObjectVarManager::from_next_free(Var::new(v.n_used())));
                ensure_eq!(vm.n_used(), n, "returned manager");
                ensure_eq!(y.n_vars(), n, "variables under the new manager");
                let (y, _) = y.change_var_manager(|v| BasicVarManager::from_next_free(Var::new(v.n_used())));
                x = y;
            }
            Op::FromCnf => {
                if md.n_card + md.n_pb > 0 {
                    return Ok(());
                }
                let f = x.cnf().clone();
                x = SatInstance::from(f);
                md.next = None;
            }
            Op::Rebuild => {
                if md.n_pb + md.n_card == 0 {
                    let lines: Vec<CnfLine> =
                        x.cnf().iter().flat_map(|c| [CnfLine::Comment("x".into()), CnfLine::Clause(c.clone())]).collect();
                    let a: Inst = lines.into_iter().collect();
                    let b: Inst = x.cnf().iter().cloned().collect();
                    check!(a == b, "building from lines and from clauses differs");
                    x = a;
                } else {
                    let r = read(&x);
                    let mut y: Inst = r.pbs.into_iter().collect();
                    Extend::<Clause>::extend(&mut y, r.cls);
                    md.n_pb += md.n_card;
                    md.n_card = 0;
                    x = y;
                }
                md.next = None;
            }
            Op::Serde => {
                let s = serde_json::to_string(&x).unwrap();
                let y: Inst = serde_json::from_str(&s).map_err(|e| format!("deserialising: {e}"))?;
                check!(x == y, "serialising changes the instance");
                x = y;
            }
        }
        for c in &added {
            md.n_cl = md.n_cl.map(|n| n + 1);
            let c = ls(c);
            md.tab &= truth(N, |m| cl_holds(m, &c)) as u64;
        }
        t.state((md.tab, &md.at, md.n_card, md.n_pb, x.n_vars()));
        t.outcome(if md.tab == 0 { "unsat" } else if md.tab == full() { "all" } else { "some" });
        observe(t, &x, &md, op)?;
    }
    Ok(())
}

/// a variable without place has to be irrelevant
fn free(md: &mut Model) {
    for i in 0..N {
        if md.at[i].is_none() {
            let pos = truth(N, |m| md.tab >> (m | 1 << i) & 1 == 1) as u64;
            let neg = truth(N, |m| md.tab >> (m & !(1 << i)) & 1 == 1) as u64;
            assert!(pos == neg, "internal: relevant variable without place");
        }
    }
}

pub fn run(cx: &Ctx) {
    // every small constraint alone, under every pair of transformations
    let lits = [1, -1, 2, -2, 3];
    let mut single = vec![];
    for c in seqs(&lits, 0, 3) {
        single.push(Op::Clause(c.clone()));
        for k in [Kind::Ub, Kind::Lb, Kind::Eq] {
            for b in 0..=c.len() + 1 {
                single.push(Op::Card(k, c.clone(), b));
            }
        }
    }
    let terms: Vec<(i32, isize)> = lits.iter().flat_map(|&l| cx.pick(vec![-1, 2], vec![-2, -1, 0, 1, 2]).into_iter().map(move |w| (l, w))).collect();
    for c in seqs(&terms, 0, cx.pick(2, 3)) {
        for k in [Kind::Ub, Kind::Lb, Kind::Eq] {
            for b in -3..=3 {
                single.push(Op::Pb(k, c.clone(), b));
            }
        }
    }
    let trans = vec![
        Op::NewVar,
        Op::Sanitize,
        Op::Cnf,
        Op::CnfWith(0),
        Op::CnfWith(1),
        Op::IntoCnf,
        Op::Pbs,
        Op::Reindex(0),
        Op::Reindex(1),
        Op::Reindex(2),
        Op::Reindex(3),
        Op::Shuffle,
        Op::ChangeVm,
        Op::FromCnf,
        Op::Rebuild,
        Op::Serde,
    ];
    let tails = seqs(&trans, 1, 2);
    cx.run_idx(
        "single",
        single.len() * tails.len(),
        |i| {
            let mut ops = vec![single[i / tails.len()].clone()];
            ops.extend(tails[i % tails.len()].iter().cloned());
            ops
        },
        |t, c| case(t, c),
    );
    // histories
    let mut al = vec![
        Op::Clause(vec![1, -2]),
        Op::Nary(vec![]),
        Op::Nary(vec![3, 3, -4]),
        Op::Unit(-2),
        Op::Binary(4, 1),
        Op::Ternary(1, -1, 5),
        Op::And(0),
        Op::And(1),
        Op::And(2),
        Op::And(3),
        Op::AndAssign(0),
        Op::AndAssign(1),
        Op::AndAssign(2),
        Op::AndAssign(3),
        Op::Card(Kind::Ub, vec![1, 2, -4], 1),
        Op::Card(Kind::Eq, vec![3, -2, 5], 2),
        Op::Card(Kind::Lb, vec![1, 4], 1),
        Op::Pb(Kind::Ub, vec![(1, 2), (-3, 3), (2, 2)], 4),
        Op::Pb(Kind::Eq, vec![(4, 1), (1, -2), (-2, 1)], 0),
        Op::Pb(Kind::Lb, vec![(2, 2), (5, 2), (3, 2)], 3),
        Op::ExtCl(vec![vec![-1, 5], vec![2]]),
        Op::Collect(vec![vec![-4, 2], vec![3, 5, 1]]),
        Op::ExtInst,
        Op::AndInst(false),
        Op::AndInst(true),
    ];
    for k in 0..9u8 {
        let a = if k <= 2 { vec![1] } else { vec![1, -5] };
        let b = if [0, 3, 4].contains(&k) { vec![4] } else { vec![4, -2] };
        al.push(Op::Imp(k, a, b));
    }
    al.extend(trans);
    let depth = cx.pick(3, 4);
    let len = al.len();
    cx.run_idx(
        "histories",
        len.pow(depth as u32),
        |mut i| {
            (0..depth)
                .map(|_| {
                    let o = al[i % len].clone();
                    i /= len;
                    o
                })
                .collect::<Vec<_>>()
        },
        |t, c| case(t, c),
    );
    cx.bound("depth", depth);
    cx.assume("auxiliary variables are existentially quantified by the harness DPLL oracle or by enumeration");
}
