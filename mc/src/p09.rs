//! Constraint types: predicates, conversions and evaluation against counting
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::types::constraints::{CardConstraint, PbConstraint, PbToCardError};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Ub,
    Lb,
    Eq,
}
pub const KINDS: [Kind; 3] = [Kind::Ub, Kind::Lb, Kind::Eq];
impl Kind {
    pub fn sat(self, sum: i128, b: i128) -> bool {
        match self {
            Kind::Ub => sum <= b,
            Kind::Lb => sum >= b,
            Kind::Eq => sum == b,
        }
    }
}

/// truth table of a cardinality constraint read through its public interface
pub fn card_table(c: &CardConstraint, n: usize) -> u128 {
    let k = match c {
        CardConstraint::Ub(_) => Kind::Ub,
        CardConstraint::Lb(_) => Kind::Lb,
        CardConstraint::Eq(_) => Kind::Eq,
    };
    let lits: Vec<Lit> = c.iter().copied().collect();
    let b = c.bound() as i128;
    truth(n, |m| k.sat(lits.iter().filter(|&&l| holds(m, l)).count() as i128, b))
}
pub fn pb_table(c: &PbConstraint, n: usize) -> u128 {
    let k = match c {
        PbConstraint::Ub(_) => Kind::Ub,
        PbConstraint::Lb(_) => Kind::Lb,
        PbConstraint::Eq(_) => Kind::Eq,
    };
    let lits: Vec<(Lit, usize)> = c.iter().copied().collect();
    let b = c.bound() as i128;
    truth(n, |m| k.sat(lits.iter().map(|&(l, w)| if holds(m, l) { w as i128 } else { 0 }).sum(), b))
}
pub fn clause_table<C: AsRef<[Lit]> + ?Sized>(c: &C, n: usize) -> u128 {
    let c = c.as_ref();
    truth(n, |m| cl_holds(m, c))
}
pub fn all_true(lits: &[Lit], n: usize) -> u128 {
    truth(n, |m| lits.iter().all(|&l| holds(m, l)))
}
fn all_false(lits: &[Lit], n: usize) -> u128 {
    truth(n, |m| lits.iter().all(|&l| !holds(m, l)))
}
pub fn full(n: usize) -> u128 {
    truth(n, |_| true)
}

pub fn mk_card(k: Kind, lits: &[i32], b: usize) -> CardConstraint {
    match k {
        Kind::Ub => CardConstraint::new_ub(ls(lits), b),
        Kind::Lb => CardConstraint::new_lb(ls(lits), b),
        Kind::Eq => CardConstraint::new_eq(ls(lits), b),
    }
}
pub fn mk_pb(k: Kind, lits: &[(i32, isize)], b: isize) -> PbConstraint {
    let it: Vec<(Lit, isize)> = lits.iter().map(|&(x, w)| (l(x), w)).collect();
    match k {
        Kind::Ub => PbConstraint::new_ub(it, b),
        Kind::Lb => PbConstraint::new_lb(it, b),
        Kind::Eq => PbConstraint::new_eq(it, b),
    }
}

/// All partial assignments over n variables: value per variable 0 unassigned, 1 true, 2 false;
/// unassigned variables at the end may be missing altogether
fn partials(n: usize) -> Vec<(Vec<u8>, bool)> {
    let vals = product(&vec![vec![0u8, 1, 2]; n]);
    let mut out: Vec<(Vec<u8>, bool)> = vals.iter().map(|v| (v.clone(), false)).collect();
    out.extend(vals.into_iter().filter(|v| v.last() == Some(&0)).map(|v| (v, true)));
    out
}
fn assignment(p: &(Vec<u8>, bool)) -> Assignment {
    let mut v: Vec<TernaryVal> =
        p.0.iter().map(|x| [TernaryVal::DontCare, TernaryVal::True, TernaryVal::False][*x as usize]).collect();
    if p.1 {
        while v.last() == Some(&TernaryVal::DontCare) {
            v.pop();
        }
    }
    v.into_iter().collect()
}
fn val(p: &[u8], l: Lit) -> Option<bool> {
    match p[l.vidx()] {
        0 => None,
        1 => Some(!l.is_neg()),
        _ => Some(l.is_neg()),
    }
}

/// evaluation under partial assignments is sound, and decides whenever the interval of possible
/// sums decides
fn eval_ok(
    t: &mut Tally,
    n: usize,
    k: Kind,
    lits: &[(Lit, i128)],
    b: i128,
    table: u128,
    ev: impl Fn(&Assignment) -> TernaryVal,
) -> Result<(), String> {
    for p in partials(n) {
        let a = assignment(&p);
        let got = ev(&a);
        t.step(1);
        let compat = truth(n, |m| (0..n).all(|v| p.0[v] == 0 || (p.0[v] == 1) == (m >> v & 1 == 1)));
        let lo: i128 = lits.iter().map(|&(l, w)| if val(&p.0, l) == Some(true) { w } else { 0 }).sum();
        let hi: i128 = lits.iter().map(|&(l, w)| if val(&p.0, l) == Some(false) { 0 } else { w }).sum();
        let interval = match k {
            Kind::Ub if hi <= b => Some(true),
            Kind::Ub if lo > b => Some(false),
            Kind::Lb if lo >= b => Some(true),
            Kind::Lb if hi < b => Some(false),
            Kind::Eq if lo == b && hi == b => Some(true),
            Kind::Eq if b < lo || b > hi => Some(false),
            _ => None,
        };
        match got {
            TernaryVal::True => check!(table & compat == compat, "called satisfied under {p:?}, but an extension violates it"),
            TernaryVal::False => check!(table & compat == 0, "called violated under {p:?}, but an extension satisfies it"),
            TernaryVal::DontCare => check!(interval.is_none(), "called undecided under {p:?}, but all extensions agree on {interval:?}"),
        }
        t.outcome(&format!("{got:?}"));
    }
    Ok(())
}

type CardCase = (Kind, Vec<i32>, usize);

fn card(t: &mut Tally, c: &CardCase) -> Result<(), String> {
    let (k, li, b) = c;
    let n = 3;
    let lits = ls(li);
    let want = truth(n, |m| k.sat(lits.iter().filter(|&&l| holds(m, l)).count() as i128, *b as i128));
    let cc = mk_card(*k, li, *b);
    t.state(c);
    t.step(1);
    ensure_eq!(card_table(&cc, n), want, "constraint");
    ensure_eq!((cc.len(), cc.n_lits(), cc.is_empty(), cc.bound()), (li.len(), li.len(), li.is_empty(), *b), "accessors");
    let distinct = (0..3).all(|v| lits.iter().filter(|l| l.vidx() == v).count() <= 1);
    // built step by step
    let mut inc = mk_card(*k, &[], 0);
    inc.add(lits[..lits.len() / 2].to_vec());
    inc.set_bound(*b);
    inc.add(lits[lits.len() / 2..].to_vec());
    ensure_eq!(inc, cc, "constraint built incrementally");
    // predicates
    let preds = [
        ("tautology", cc.is_tautology(), full(n)),
        ("unsat", cc.is_unsat(), 0),
        ("positive assignment", cc.is_positive_assignment(), all_true(&lits, n)),
        ("negative assignment", cc.is_negative_assignment(), all_false(&lits, n)),
    ];
    for (i, (name, got, table)) in preds.iter().enumerate() {
        check!(!got || want == *table, "called {name}, which it is not");
        check!(*got || want != *table || !distinct || i >= 2, "not called {name}, which it is");
    }
    if distinct && li.len() > 1 && *b > 0 && *k != Kind::Ub && !preds[1].1 {
        ensure_eq!(preds[2].1, want == all_true(&lits, n), "positive assignment");
    }
    match cc.clone().into_clause() {
        Ok(cl) => {
            check!(cc.is_clause(), "not called a clause, but converted");
            ensure_eq!(clause_table(&cl, n), want, "clause {cl:?}");
            t.outcome("clause");
        }
        Err(_) => {
            check!(!cc.is_clause(), "called a clause, but not converted");
            let anycl = distinct && li.len() > 1 && *k != Kind::Eq
                && (want == clause_table(&lits, n) || want == truth(n, |m| lits.iter().any(|&l| !holds(m, l))));
            check!(!anycl, "not called a clause, which it is");
        }
    }
    // conversions
    ensure_eq!(card_table(&cc.clone().normalize(), n), want, "normalized");
    let mut rev = li.clone();
    rev.reverse();
    ensure_eq!(mk_card(*k, &rev, *b).normalize(), cc.clone().normalize(), "normal form of permuted constraint");
    ensure_eq!(pb_table(&PbConstraint::from(cc.clone()), n), want, "as pseudo-boolean constraint");
    let mut a = cc.clone().into_lits();
    a.sort_unstable();
    let mut b2 = lits.clone();
    b2.sort_unstable();
    ensure_eq!(a, b2, "literals");
    match cc.clone() {
        CardConstraint::Ub(u) => {
            ensure_eq!(card_table(&CardConstraint::Lb(u.clone().invert()), n), want, "inverted");
            ensure_eq!((u.is_tautology(), u.is_negative_assignment(), u.is_clause()), (cc.is_tautology(), cc.is_negative_assignment(), cc.is_clause()), "predicates");
            ensure_eq!(u.decompose(), (lits.clone(), *b), "decomposed");
        }
        CardConstraint::Lb(u) => {
            if !cc.is_unsat() {
                ensure_eq!(card_table(&CardConstraint::Ub(u.clone().invert()), n), want, "inverted");
            }
            ensure_eq!((u.is_tautology(), u.is_unsat(), u.is_positive_assignment(), u.is_clause()), (cc.is_tautology(), cc.is_unsat(), cc.is_positive_assignment(), cc.is_clause()), "predicates");
            ensure_eq!(u.decompose(), (lits.clone(), *b), "decomposed");
        }
        CardConstraint::Eq(u) => {
            let (x, y) = u.clone().split();
            ensure_eq!(card_table(&CardConstraint::Lb(x), n) & card_table(&CardConstraint::Ub(y), n), want, "split");
            ensure_eq!(u.decompose(), (lits.clone(), *b), "decomposed");
        }
    }
    let w: Vec<(Lit, i128)> = lits.iter().map(|&l| (l, 1)).collect();
    eval_ok(t, n, *k, &w, *b as i128, want, |a| cc.evaluate(a))
}

pub type PbCase = (Kind, Vec<(i32, isize)>, isize);

fn pb(t: &mut Tally, c: &PbCase) -> Result<(), String> {
    let (k, li, b) = c;
    let n = 3;
    let lits: Vec<(Lit, i128)> = li.iter().map(|&(x, w)| (l(x), w as i128)).collect();
    let sum = |m: u32| -> i128 { lits.iter().map(|&(l, w)| if holds(m, l) { w } else { 0 }).sum() };
    let want = truth(n, |m| k.sat(sum(m), *b as i128));
    let pc = mk_pb(*k, li, *b);
    t.state(c);
    t.step(1);
    ensure_eq!(pb_table(&pc, n), want, "constraint");
    let mut inc = mk_pb(*k, &li[..li.len() / 2], *b);
    inc.add(li[li.len() / 2..].iter().map(|&(x, w)| (l(x), w)).collect::<Vec<_>>());
    ensure_eq!(inc, pc, "constraint built incrementally");
    let nonneg = li.iter().all(|x| x.1 >= 0);
    if nonneg {
        let u: Vec<(Lit, usize)> = li.iter().map(|&(x, w)| (l(x), w as usize)).collect();
        let d = match k {
            Kind::Ub => PbConstraint::new_ub_unsigned(u, *b),
            Kind::Lb => PbConstraint::new_lb_unsigned(u, *b),
            Kind::Eq => PbConstraint::new_eq_unsigned(u, *b),
        };
        ensure_eq!(d, pc, "constraint from unsigned weights");
    }
    let mut sb = pc.clone();
    sb.set_bound(pc.bound() + 1);
    ensure_eq!(sb.bound(), pc.bound() + 1, "set bound");
    // literals as stored
    let sl: Vec<(Lit, usize)> = pc.iter().copied().collect();
    let only: Vec<Lit> = sl.iter().map(|x| x.0).collect();
    ensure_eq!(pc.weight_sum(), sl.iter().map(|x| x.1).sum::<usize>(), "weight sum");
    ensure_eq!(pc.clone().into_lits().into_iter().collect::<Vec<_>>(), sl, "literals");
    ensure_eq!((pc.len(), pc.n_lits(), pc.is_empty()), (sl.len(), sl.len(), sl.is_empty()), "accessors");
    let distinct = (0..3).all(|v| only.iter().filter(|l| l.vidx() == v).count() <= 1) && sl.iter().all(|x| x.1 > 0);
    for (i, (name, got, table)) in [
        ("tautology", pc.is_tautology(), full(n)),
        ("unsat", pc.is_unsat(), 0),
        ("positive assignment", pc.is_positive_assignment(), all_true(&only, n)),
        ("negative assignment", pc.is_negative_assignment(), all_false(&only, n)),
    ]
    .iter()
    .enumerate()
    {
        check!(!got || want == *table, "called {name}, which it is not");
        // recognising every unsatisfiable equality would be a subset sum problem
        let complete = distinct && (i == 0 || i == 1 && *k != Kind::Eq);
        check!(*got || want != *table || !complete, "not called {name}, which it is");
    }
    if distinct && only.len() > 1 && *k == Kind::Lb && want != 0 {
        ensure_eq!(pc.is_positive_assignment(), want == all_true(&only, n), "positive assignment");
    }
    if distinct && only.len() > 1 && *k == Kind::Ub && want != 0 {
        ensure_eq!(pc.is_negative_assignment(), want == all_false(&only, n), "negative assignment");
    }
    match pc.clone().into_clause() {
        Ok(cl) => {
            check!(pc.is_clause(), "not called a clause, but converted");
            ensure_eq!(clause_table(&cl, n), want, "clause {cl:?}");
            t.outcome("clause");
        }
        Err(_) => {
            check!(!pc.is_clause(), "called a clause, but not converted");
            let anycl = distinct && only.len() > 1 && *k != Kind::Eq
                && (want == clause_table(&only, n) || want == truth(n, |m| only.iter().any(|&l| !holds(m, l))));
            check!(!anycl, "not called a clause, which it is");
        }
    }
    let uniform = sl.windows(2).all(|w| w[0].1 == w[1].1) && !sl.is_empty();
    ensure_eq!(pc.is_card(), uniform, "is_card");
    match pc.clone().into_card_constr() {
        Ok(cc) => {
            ensure_eq!(card_table(&cc, n), want, "cardinality constraint {cc}");
            check!(uniform || sl.is_empty(), "converted to {cc} although weights differ");
            t.outcome("card");
        }
        Err(PbToCardError::Unsat) => check!(want == 0, "conversion claims unsatisfiability"),
        Err(PbToCardError::Tautology) => check!(want == full(n), "conversion claims tautology"),
        Err(PbToCardError::NotACard) => check!(!uniform, "conversion refused although all weights are equal"),
    }
    if !pc.is_unsat() && !pc.is_tautology() {
        ensure_eq!(card_table(&pc.clone().extend_to_card_constr(), n), want, "extended to cardinality constraint");
    }
    let nf = pc.clone().normalize();
    ensure_eq!(pb_table(&nf, n), want, "normalized");
    ensure_eq!(nf.clone().normalize(), nf, "normal form normalized again");
    let nl: Vec<Lit> = nf.iter().map(|x| x.0).collect();
    check!((1..nl.len()).all(|i| nl[i - 1] < nl[i]), "normal form {nf} has repeated or unsorted literals");
    let mut rev = li.clone();
    rev.reverse();
    ensure_eq!(mk_pb(*k, &rev, *b).normalize(), nf, "normal form of permuted constraint");
    match pc.clone() {
        PbConstraint::Ub(u) => {
            ensure_eq!(pb_table(&PbConstraint::Lb(u.clone().invert()), n), want, "inverted");
            ensure_eq!(u.clone().invert().invert(), u, "inverted twice");
            ensure_eq!((u.is_tautology(), u.is_unsat(), u.is_negative_assignment(), u.is_clause()), (pc.is_tautology(), pc.is_unsat(), pc.is_negative_assignment(), pc.is_clause()), "predicates");
            ensure_eq!(u.decompose(), (sl.clone(), pc.bound()), "decomposed");
        }
        PbConstraint::Lb(u) => {
            ensure_eq!(pb_table(&PbConstraint::Ub(u.clone().invert()), n), want, "inverted");
            ensure_eq!(u.clone().invert().invert(), u, "inverted twice");
            ensure_eq!(u.decompose(), (sl.clone(), pc.bound()), "decomposed");
        }
        PbConstraint::Eq(u) => {
            let (x, y) = u.clone().split();
            ensure_eq!(pb_table(&PbConstraint::Lb(x), n) & pb_table(&PbConstraint::Ub(y), n), want, "split");
            ensure_eq!(u.decompose(), (sl.clone(), pc.bound()), "decomposed");
        }
    }
    let w: Vec<(Lit, i128)> = sl.iter().map(|&(l, w)| (l, w as i128)).collect();
    eval_ok(t, n, *k, &w, pc.bound() as i128, want, |a| pc.evaluate(a))
}

fn huge(t: &mut Tally, c: &(Kind, Vec<(i32, usize)>, isize)) -> Result<(), String> {
    // weights near the ends of the integer range: evaluation only
    let (k, li, b) = c;
    let n = 3;
    let u: Vec<(Lit, usize)> = li.iter().map(|&(x, w)| (l(x), w)).collect();
    let w: Vec<(Lit, i128)> = u.iter().map(|&(l, w)| (l, w as i128)).collect();
    let want = truth(n, |m| k.sat(w.iter().map(|&(l, w)| if holds(m, l) { w } else { 0 }).sum(), *b as i128));
    let pc = match k {
        Kind::Ub => PbConstraint::new_ub_unsigned(u, *b),
        Kind::Lb => PbConstraint::new_lb_unsigned(u, *b),
        Kind::Eq => PbConstraint::new_eq_unsigned(u, *b),
    };
    t.state(c);
    eval_ok(t, n, *k, &w, *b as i128, want, |a| pc.evaluate(a))
}

fn clause(t: &mut Tally, c: &Vec<i32>) -> Result<(), String> {
    let n = 3;
    let x: Clause = cl(c);
    let want = clause_table(&x, n);
    t.state(c);
    ensure_eq!(card_table(&CardConstraint::from(x.clone()), n), want, "as cardinality constraint");
    ensure_eq!(pb_table(&PbConstraint::from(x.clone()), n), want, "as pseudo-boolean constraint");
    if c.len() == 1 {
        ensure_eq!(card_table(&CardConstraint::new_unit(x[0]), n), want, "unit cardinality constraint");
        ensure_eq!(pb_table(&PbConstraint::new_unit(x[0]), n), want, "unit pseudo-boolean constraint");
    }
    for p in partials(n) {
        let a = assignment(&p);
        let e = x.evaluate(&a);
        let vals: Vec<Option<bool>> = x.iter().map(|&l| val(&p.0, l)).collect();
        let w = if vals.contains(&Some(true)) {
            TernaryVal::True
        } else if vals.iter().all(|v| *v == Some(false)) {
            TernaryVal::False
        } else {
            TernaryVal::DontCare
        };
        t.step(1);
        ensure_eq!(e, w, "clause under {p:?}");
    }
    Ok(())
}

/// All literal sequences up to length `hi` over three variables
pub fn lit_seqs(hi: usize) -> Vec<Vec<i32>> {
    seqs(&[1, -1, 2, -2, 3, -3], 0, hi)
}
pub fn card_cases(hi: usize) -> Vec<CardCase> {
    let mut v = vec![];
    for s in lit_seqs(hi) {
        for b in 0..=s.len() + 1 {
            for k in KINDS {
                v.push((k, s.clone(), b));
            }
        }
    }
    v
}
pub fn pb_cases(ws: &[isize], hi: usize) -> Vec<PbCase> {
    let mut v = vec![];
    for s in lit_seqs(hi) {
        // symmetric sign patterns only matter once per variable order
        if s.first().is_some_and(|&x| x != 1) {
            continue;
        }
        for w in seqs(ws, s.len(), s.len()) {
            let li: Vec<(i32, isize)> = s.iter().copied().zip(w).collect();
            let lo: isize = li.iter().map(|x| x.1.min(0)).sum();
            let hi: isize = li.iter().map(|x| x.1.max(0)).sum();
            for b in lo - 1..=hi + 1 {
                for k in KINDS {
                    v.push((k, li.clone(), b));
                }
            }
        }
    }
    v
}

pub fn run(cx: &Ctx) {
    let a = card_cases(cx.pick(5, 6));
    cx.run("card", &a, card);
    let b = pb_cases(cx.pick(&[-3, -2, -1, 0, 1, 2, 3, 5][..], &[-7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8][..]), 3);
    cx.run("pb", &b, pb);
    let d = pb_cases(cx.pick(&[0, 1, 2], &[-2, 0, 1, 2, 3]), 4);
    cx.run("pb-four", &d, pb);
    let h = [1usize, 5, usize::MAX >> 1, (usize::MAX >> 1) + 1, (usize::MAX >> 1) - 1];
    let mut e = vec![];
    for w in seqs(&h, 1, 3) {
        if w.iter().try_fold(0usize, |a, &x| a.checked_add(x)).is_none() {
            continue;
        }
        for b in [isize::MIN, -1, 0, 1, 4, 5, 6, isize::MAX - 1, isize::MAX] {
            for k in KINDS {
                e.push((k, w.iter().enumerate().map(|(i, &x)| (i as i32 + 1, x)).collect::<Vec<_>>(), b));
            }
        }
    }
    cx.run("huge-weights", &e, huge);
    cx.run("clauses", &lit_seqs(4), clause);
    cx.bound("card_literals", cx.pick(5, 6));
    cx.bound("pb_literals", "3 with 8 (11) weights, 4 with 3 (5) weights");
    cx.bound("assignments", "all 27 partial assignments over three variables, dense and truncated");
}
