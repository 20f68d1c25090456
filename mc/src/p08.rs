//! Atomic encodings against their logical reading
use crate::common::*;
use crate::ensure_eq;
use crate::oracle::*;
use crate::p09::{card_table, mk_card, mk_pb, pb_table, Kind, PbCase};
use crate::rt::*;
use rustsat::encodings::atomics::*;
use rustsat::types::{Clause, Lit};

const N: usize = 4;
fn tab(cls: impl IntoIterator<Item = Clause>) -> u128 {
    let v: Vec<Clause> = cls.into_iter().collect();
    truth(N, |m| v.iter().all(|c| cl_holds(m, c.as_ref())))
}
fn imp(a: impl Fn(u32) -> bool, b: impl Fn(u32) -> bool) -> u128 {
    truth(N, |m| !a(m) || b(m))
}

fn clauses(t: &mut Tally, c: &(Vec<i32>, Vec<i32>)) -> Result<(), String> {
    let (a, b) = (ls(&c.0), ls(&c.1));
    let all = |s: &[Lit], m: u32| s.iter().all(|&l| holds(m, l));
    let any = |s: &[Lit], m: u32| s.iter().any(|&l| holds(m, l));
    t.state(c);
    t.step(1);
    if a.len() == 1 && b.len() == 1 {
        ensure_eq!(tab([lit_impl_lit(a[0], b[0])]), imp(|m| holds(m, a[0]), |m| holds(m, b[0])), "lit -> lit");
    }
    if a.len() == 1 {
        ensure_eq!(tab([lit_impl_clause(a[0], &b)]), imp(|m| holds(m, a[0]), |m| any(&b, m)), "lit -> clause");
        ensure_eq!(tab(lit_impl_cube(a[0], &b)), imp(|m| holds(m, a[0]), |m| all(&b, m)), "lit -> cube");
    }
    if b.len() == 1 {
        ensure_eq!(tab([cube_impl_lit(&a, b[0])]), imp(|m| all(&a, m), |m| holds(m, b[0])), "cube -> lit");
        ensure_eq!(tab(clause_impl_lit(&a, b[0])), imp(|m| any(&a, m), |m| holds(m, b[0])), "clause -> lit");
    }
    ensure_eq!(tab([cube_impl_clause(&a, &b)]), imp(|m| all(&a, m), |m| any(&b, m)), "cube -> clause");
    ensure_eq!(tab(clause_impl_clause(&a, &b)), imp(|m| any(&a, m), |m| any(&b, m)), "clause -> clause");
    ensure_eq!(tab(clause_impl_cube(&a, &b)), imp(|m| any(&a, m), |m| all(&b, m)), "clause -> cube");
    ensure_eq!(tab(cube_impl_cube(&a, &b)), imp(|m| all(&a, m), |m| all(&b, m)), "cube -> cube");
    Ok(())
}

fn card(t: &mut Tally, c: &(Kind, Vec<i32>, usize, i32)) -> Result<(), String> {
    let (k, li, b, r) = c;
    let cc = mk_card(*k, li, *b);
    if cc.is_unsat() {
        return Ok(());
    }
    let x = l(*r);
    let tb = card_table(&cc, N);
    let lt = truth(N, |m| holds(m, x));
    let full = truth(N, |_| true);
    t.state(c);
    t.step(2);
    t.outcome(if tb == full { "tautology" } else { "contingent" });
    let f = lit_impl_card(x, &cc);
    ensure_eq!(pb_table(&f, N), full & !lt | tb, "lit -> card: {f}");
    let f = card_impl_lit(&cc, x);
    ensure_eq!(pb_table(&f, N), full & !tb | lt, "card -> lit: {f}");
    Ok(())
}
fn pb(t: &mut Tally, c: &(PbCase, i32)) -> Result<(), String> {
    let ((k, li, b), r) = c;
    let pc = mk_pb(*k, li, *b);
    if pc.is_unsat() {
        return Ok(());
    }
    let x = l(*r);
    let tb = pb_table(&pc, N);
    let lt = truth(N, |m| holds(m, x));
    let full = truth(N, |_| true);
    t.state(c);
    t.step(2);
    t.outcome(if tb == full { "tautology" } else { "contingent" });
    let f = lit_impl_pb(x, &pc);
    ensure_eq!(pb_table(&f, N), full & !lt | tb, "lit -> pb: {f}");
    let f = pb_impl_lit(&pc, x);
    ensure_eq!(pb_table(&f, N), full & !tb | lt, "pb -> lit: {f}");
    Ok(())
}

pub fn run(cx: &Ctx) {
    let s = seqs(&[1, -1, 2, -2, 3, -3], 0, cx.pick(3, 4));
    let mut a = vec![];
    for x in &s {
        for y in &s {
            a.push((x.clone(), y.clone()));
        }
    }
    cx.run("clauses", &a, clauses);
    let mut b = vec![];
    for (k, li, bd) in crate::p09::card_cases(cx.pick(4, 5)) {
        if k == Kind::Eq {
            continue;
        }
        for bd in if bd == 0 { vec![0, 7] } else { vec![bd] } {
            // a fresh literal, and one that occurs in the constraint
            for r in [4, -4, 1, -2] {
                b.push((k, li.clone(), bd, r));
            }
        }
    }
    cx.run("card", &b, card);
    let mut d = vec![];
    for c in crate::p09::pb_cases(cx.pick(&[-2, -1, 0, 1, 2, 3], &[-5, -2, -1, 0, 1, 2, 3, 4, 7]), 3) {
        if c.0 == Kind::Eq {
            continue;
        }
        for r in [4, -4, 1, -2] {
            d.push((c.clone(), r));
        }
    }
    cx.run("pb", &d, pb);
    cx.bound("operands", cx.pick(3, 4));
    cx.bound("constraints", "cardinality up to 4 (5) literals over three variables, pseudo-Boolean up to 3 literals with 6 (9) weights; reifying literal fresh or occurring in the constraint");
}
