//! One-shot constraint encodings against truth tables
use crate::check;
use crate::common::*;
use crate::ensure_eq;
use crate::oracle::*;
use crate::p09::{card_cases, mk_card, mk_pb, pb_cases, Kind, PbCase, KINDS};
use crate::rt::*;
use rustsat::encodings::card::simulators as csim;
use rustsat::encodings::card::{self, BoundBoth as CB, Totalizer};
use rustsat::encodings::pb::simulators::{Card, Double, Inverted};
use rustsat::encodings::pb::{self, BinaryAdder, BoundBoth as PB, BoundLower, BoundUpper, DynamicPolyWatchdog, GeneralizedTotalizer as Gte};
use rustsat::encodings::ConstraintEncodingError as E;
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Lit, Var};

fn done(t: &mut Tally, col: &Col, vm: &mut BasicVarManager, n: usize, want: u128, how: &str) -> Result<(), String> {
    fresh_ok(&col.0, n, n + 2, vm.new_var().idx())?;
    let got = projection(&col.0, n, &[]);
    t.step(1 << n);
    ensure_eq!(got, want, "solutions of {how}: {}", show(&col.0));
    Ok(())
}
fn vm(n: usize) -> BasicVarManager {
    BasicVarManager::from_next_free(Var::new(n as u32 + 2))
}

fn card_one<T: CB + FromIterator<Lit>>(t: &mut Tally, c: &CardConstraint, n: usize, want: u128, name: &str) -> Result<(), String> {
    let (mut col, mut m) = (Col::default(), vm(n));
    card::encode_cardinality_constraint::<T, _>(c.clone(), &mut col, &mut m).map_err(|e| e.to_string())?;
    done(t, &col, &mut m, n, want, &format!("{name} (dispatching)"))?;
    let (mut col, mut m) = (Col::default(), vm(n));
    match T::encode_constr(c.clone(), &mut col, &mut m) {
        Ok(()) => done(t, &col, &mut m, n, want, name),
        Err(E::Unsat) => {
            check!(want == 0, "{name} calls the constraint unsatisfiable");
            Ok(())
        }
        Err(e) => Err(e.to_string()),
    }
}
fn card_case(t: &mut Tally, c: &(Kind, Vec<i32>, usize)) -> Result<(), String> {
    let (k, li, b) = c;
    let lits = ls(li);
    let n = lits.iter().map(|l| l.vidx() + 1).max().unwrap_or(1).max(3);
    let want = truth(n, |m| k.sat(lits.iter().filter(|&&l| holds(m, l)).count() as i128, *b as i128));
    let cc = mk_card(*k, li, *b);
    t.state(c);
    t.outcome(if want == 0 { "unsat" } else { "sat" });
    let (mut col, mut m) = (Col::default(), vm(n));
    card::default_encode_cardinality_constraint(cc.clone(), &mut col, &mut m).map_err(|e| e.to_string())?;
    done(t, &col, &mut m, n, want, "default")?;
    type D = csim::Double<Totalizer, csim::Inverted<Totalizer>>;
    card_one::<Totalizer>(t, &cc, n, want, "totalizer")?;
    card_one::<csim::Inverted<Totalizer>>(t, &cc, n, want, "inverted")?;
    card_one::<D>(t, &cc, n, want, "double")?;
    card_one::<csim::Inverted<D>>(t, &cc, n, want, "inverted double")?;
    Ok(())
}

fn pb_one<T: PB + FromIterator<(Lit, usize)>>(t: &mut Tally, c: &PbConstraint, n: usize, want: u128, name: &str) -> Result<(), String> {
    let (mut col, mut m) = (Col::default(), vm(n));
    pb::encode_pb_constraint::<T, _>(c.clone(), &mut col, &mut m).map_err(|e| e.to_string())?;
    done(t, &col, &mut m, n, want, &format!("{name} (dispatching)"))?;
    let (mut col, mut m) = (Col::default(), vm(n));
    match T::encode_constr(c.clone(), &mut col, &mut m) {
        Ok(()) => done(t, &col, &mut m, n, want, name),
        Err(E::Unsat) => {
            check!(want == 0, "{name} calls the constraint unsatisfiable");
            Ok(())
        }
        Err(e) => Err(e.to_string()),
    }
}
fn pb_half<U: BoundUpper + FromIterator<(Lit, usize)>, L: BoundLower + FromIterator<(Lit, usize)>>(
    t: &mut Tally,
    c: &PbConstraint,
    n: usize,
    want: u128,
    name: &str,
) -> Result<(), String> {
    let (mut col, mut m) = (Col::default(), vm(n));
    let r = match c.clone() {
        PbConstraint::Ub(u) => U::encode_ub_constr(u, &mut col, &mut m),
        PbConstraint::Lb(u) => L::encode_lb_constr(u, &mut col, &mut m),
        PbConstraint::Eq(_) => return Ok(()),
    };
    match r {
        Ok(()) => done(t, &col, &mut m, n, want, name),
        Err(E::Unsat) => {
            check!(want == 0, "{name} calls the constraint unsatisfiable");
            Ok(())
        }
        Err(e) => Err(e.to_string()),
    }
}
fn pb_case(t: &mut Tally, c: &PbCase) -> Result<(), String> {
    let (k, li, b) = c;
    let lits: Vec<(Lit, i128)> = li.iter().map(|&(x, w)| (l(x), w as i128)).collect();
    let n = lits.iter().map(|x| x.0.vidx() + 1).max().unwrap_or(1).max(3);
    let want = truth(n, |m| k.sat(lits.iter().map(|&(l, w)| if holds(m, l) { w } else { 0 }).sum(), *b as i128));
    let pc = mk_pb(*k, li, *b);
    t.state(c);
    t.outcome(if want == 0 { "unsat" } else { "sat" });
    let (mut col, mut m) = (Col::default(), vm(n));
    pb::default_encode_pb_constraint(pc.clone(), &mut col, &mut m).map_err(|e| e.to_string())?;
    done(t, &col, &mut m, n, want, "default")?;
    pb_one::<Double<Gte, Inverted<Gte>>>(t, &pc, n, want, "generalized totalizer")?;
    pb_one::<BinaryAdder>(t, &pc, n, want, "adder")?;
    pb_one::<Inverted<BinaryAdder>>(t, &pc, n, want, "inverted adder")?;
    pb_one::<Double<DynamicPolyWatchdog, Inverted<DynamicPolyWatchdog>>>(t, &pc, n, want, "watchdog")?;
    pb_one::<Card<Totalizer>>(t, &pc, n, want, "cardinality simulator")?;
    pb_one::<Double<BinaryAdder, Inverted<Gte>>>(t, &pc, n, want, "adder and generalized totalizer")?;
    pb_half::<Gte, Inverted<Gte>>(t, &pc, n, want, "one-sided generalized totalizer")?;
    pb_half::<DynamicPolyWatchdog, Inverted<DynamicPolyWatchdog>>(t, &pc, n, want, "one-sided watchdog")?;
    Ok(())
}

pub fn run(cx: &Ctx) {
    let mut a = card_cases(cx.pick(5, 6));
    for n in 5..=cx.pick(6, 7) {
        for b in 0..=n + 1 {
            for k in KINDS {
                a.push((k, (1..=n as i32).map(|i| if i == 3 { -i } else { i }).collect(), b));
            }
        }
    }
    cx.run("card", &a, card_case);
    let b = pb_cases(cx.pick(&[-3, -2, 0, 1, 2, 4][..], &[-5, -3, -2, -1, 0, 1, 2, 3, 4, 7][..]), 3);
    cx.run("pb", &b, pb_case);
    let b4 = pb_cases(cx.pick(&[1, 2], &[-2, 1, 2, 3]), 4);
    cx.run("pb-four", &b4, pb_case);
    // distinct variables, wider weights
    let mut d = vec![];
    for n in 4..=cx.pick(5, 6) {
        for w in seqs(cx.pick(&[1, 2, 3, 5][..], &[1, 2, 3, 4, 7][..]), n, n) {
            if w.windows(2).any(|x| x[0] > x[1]) {
                continue;
            }
            let s: isize = w.iter().sum();
            for b in -1..=s + 1 {
                for k in KINDS {
                    d.push((k, w.iter().enumerate().map(|(i, &x)| (if i == 1 { -2 } else { i as i32 + 1 }, x)).collect(), b));
                }
            }
        }
    }
    cx.run("pb-wide", &d, pb_case);
    cx.bound("card", "all literal sequences up to 5 (6) literals over three variables with repetitions and complements, all bounds, all comparisons; chains up to 6 (7) literals");
    cx.bound("pb", "all literal sequences up to 3 with weights from {-3,-2,0,1,2,4} (10 weights), up to 4 with weights from {1,2} ({-2,1,2,3}), all bounds; 5 (6) distinct literals with weights up to 5 (7)");
}
