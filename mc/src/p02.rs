use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::encodings::card::simulators::{Double, Inverted};
use rustsat::encodings::card::*;
use rustsat::encodings::{EncodeStats, EnforceError};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Lit, Var};
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Case {
    /// pool of inputs, consumed from the front
    pub pool: &'static [i32],
    pub gap: u32,
    pub ops: Vec<Op>,
}

/// Checks all bounds against the truth, given what must be available
pub fn verify(
    t: &mut Tally,
    col: &Col,
    n_vars: usize,
    weights: &[(Lit, usize)],
    max_b: usize,
    must: &dyn Fn(usize) -> bool,
    enforce: &dyn Fn(usize) -> Option<Result<Vec<Lit>, bool>>,
    cmp: fn(usize, usize) -> bool,
    what: &str,
) -> Result<(), String> {
    let mut s = Dpll::from_clauses(&col.0);
    let sum = |m: u32| -> usize { weights.iter().map(|(l, w)| if holds(m, *l) { *w } else { 0 }).sum() };
    let total: usize = weights.iter().map(|w| w.1).sum();
    for b in 0..=max_b {
        let Some(r) = enforce(b) else { continue };
        match r {
            Ok(asm) => {
                t.outcome(&format!("{what} enforced"));
                for m in 0..(1u32 << n_vars) {
                    let mut a = cube(m, n_vars);
                    a.extend_from_slice(&asm);
                    let got = s.sat(&a);
                    let want = cmp(sum(m), b);
                    t.step(1);
                    if got != want {
                        return Err(format!(
                            "enforcing {what} {b}: inputs {m:b} (sum {}) {} but should be {}; assumptions {:?}; clauses {}",
                            sum(m),
                            if got { "allowed" } else { "forbidden" },
                            if want { "allowed" } else { "forbidden" },
                            asm.iter().map(|l| l.to_ipasir()).collect::<Vec<_>>(),
                            show(&col.0)
                        ));
                    }
                }
            }
            Err(unsat) => {
                t.step(1);
                t.outcome(if unsat { "unsat reported" } else { "not encoded" });
                if unsat {
                    // must be impossible under every input
                    let possible = (0..(1u32 << n_vars)).any(|m| cmp(sum(m), b));
                    check!(!possible, "{what} {b} reported as unsatisfiable but some input satisfies it");
                } else {
                    check!(!must(b), "{what} {b} refused as not encoded although it is in an encoded range (total {total})");
                }
            }
        }
    }
    Ok(())
}

pub fn no_input_excluded(t: &mut Tally, col: &Col, n_vars: usize) -> Result<(), String> {
    let mut s = Dpll::from_clauses(&col.0);
    for m in 0..(1u32 << n_vars) {
        t.step(1);
        check!(
            s.sat(&cube(m, n_vars)),
            "the clauses alone exclude input {m:b}: {}",
            show(&col.0)
        );
    }
    Ok(())
}

fn ere(e: EnforceError) -> bool {
    matches!(e, EnforceError::Unsat)
}

fn hist<E>(t: &mut Tally, c: &Case) -> Result<(), String>
where
    E: BoundBothIncremental + Default + Extend<Lit> + EncodeStats,
{
    let pool = ls(c.pool);
    let nv = pool.iter().map(|l| l.vidx() + 1).max().unwrap_or(0);
    let from = nv + c.gap as usize;
    let mut enc = E::default();
    let mut vm = BasicVarManager::from_next_free(Var::new(from as u32));
    let mut col = Col::default();
    let mut n = 0;
    let (mut ub, mut lb): (BTreeSet<usize>, BTreeSet<usize>) = Default::default();
    let hi = pool.len() + 2;
    let in_rg = |r: &Rg| (0..=hi).filter(|&x| rg_has(r, x)).collect::<BTreeSet<_>>();
    let e2s = |e: rustsat::OutOfMemory| e.to_string();
    // number of variables after reserving
    let mut res = None;
    for op in &c.ops {
        match op {
            Op::Ext(k) => {
                let k = (*k).min(pool.len() - n);
                enc.extend(pool[n..n + k].iter().copied());
                n += k;
                if k > 0 {
                    ub.clear();
                    lb.clear();
                    res = None;
                }
            }
            Op::Reserve => {
                enc.reserve(&mut vm);
                res = Some(vm.n_used());
            }
            Op::Ub(r) => {
                enc.encode_ub(*r, &mut col, &mut vm).map_err(e2s)?;
                ub = in_rg(r);
            }
            Op::UbC(r) => {
                enc.encode_ub_change(*r, &mut col, &mut vm).map_err(e2s)?;
                ub.extend(in_rg(r));
            }
            Op::Lb(r) => {
                enc.encode_lb(*r, &mut col, &mut vm).map_err(e2s)?;
                lb = in_rg(r);
            }
            Op::LbC(r) => {
                enc.encode_lb_change(*r, &mut col, &mut vm).map_err(e2s)?;
                lb.extend(in_rg(r));
            }
            Op::Both(r) => {
                enc.encode_both(*r, &mut col, &mut vm).map_err(e2s)?;
                ub = in_rg(r);
                lb = in_rg(r);
            }
            Op::BothC(r) => {
                enc.encode_both_change(*r, &mut col, &mut vm).map_err(e2s)?;
                ub.extend(in_rg(r));
                lb.extend(in_rg(r));
            }
        }
        t.step(1);
        t.state((c.pool, n, &ub, &lb));
        ensure_eq!(enc.n_lits(), n, "n_lits after {op:?}");
        if let Some(r) = res {
            ensure_eq!(vm.n_used(), r, "variables after {op:?}, although all had been reserved");
        }
    }
    let mut next = vm.new_var().idx();
    // manager may be behind the inputs only, never behind handed out variables
    next = next.max(from);
    fresh_ok(&col.0, nv, from, next)?;
    ensure_eq!(enc.n_clauses(), col.0.len(), "n_clauses");
    let w: Vec<(Lit, usize)> = pool[..n].iter().map(|&l| (l, 1)).collect();
    no_input_excluded(t, &col, nv)?;
    verify(t, &col, nv, &w, n + 2, &|b| ub.contains(&b), &|b| Some(enc.enforce_ub(b).map_err(|_| false)), |s, b| s <= b, "<=")?;
    verify(t, &col, nv, &w, n + 2, &|b| lb.contains(&b), &|b| Some(enc.enforce_lb(b).map_err(ere)), |s, b| s >= b, ">=")?;
    verify(
        t,
        &col,
        nv,
        &w,
        n + 2,
        &|b| ub.contains(&b) && lb.contains(&b),
        &|b| Some(enc.enforce_eq(b).map_err(ere)),
        |s, b| s == b,
        "=",
    )?;
    Ok(())
}

/// fresh encoding into a second collector: upper (lower) bounds must be usable there
fn fresh<E>(t: &mut Tally, c: &(usize, u8, Rg, u8, Rg)) -> Result<(), String>
where
    E: BoundBothIncremental + Default + FromIterator<Lit>,
{
    let (n, up1, r1, up2, r2) = c;
    let pool: Vec<Lit> = (0..*n as u32).map(|v| Lit::new(v, v == 1)).collect();
    let mut enc = E::from_iter(pool.iter().copied());
    let mut vm = BasicVarManager::from_next_free(Var::new(*n as u32));
    let mut c1 = Col::default();
    let mut c2 = Col::default();
    let e2s = |e: rustsat::OutOfMemory| e.to_string();
    for (k, r, col) in [(up1, r1, &mut c1), (up2, r2, &mut c2)] {
        match k {
            0 => enc.encode_ub(*r, col, &mut vm),
            1 => enc.encode_lb(*r, col, &mut vm),
            _ => enc.encode_both(*r, col, &mut vm),
        }
        .map_err(e2s)?;
    }
    t.state(c);
    let w: Vec<(Lit, usize)> = pool.iter().map(|&l| (l, 1)).collect();
    no_input_excluded(t, &c2, *n)?;
    if *up2 != 1 {
        verify(t, &c2, *n, &w, n + 1, &|b| rg_has(r2, b), &|b| Some(enc.enforce_ub(b).map_err(|_| false)), |s, b| s <= b, "<=")?;
    }
    if *up2 != 0 {
        verify(t, &c2, *n, &w, n + 1, &|b| rg_has(r2, b), &|b| Some(enc.enforce_lb(b).map_err(ere)), |s, b| s >= b, ">=")?;
    }
    Ok(())
}

pub const POOLS: [&[i32]; 4] = [
    &[1, 2, 3, 4, 5, 6, 7],
    &[-1, 2, -3, -4, 5, -6, 7],
    &[1, 1, -2, 3, 2, 1, -3],
    &[3, -1, -1, -1, 2, -3, -2],
];

pub fn run(cx: &Ctx) {
    type F = fn(&mut Tally, &Case) -> Result<(), String>;
    type Tot = Totalizer;
    let encs: Vec<(&str, F)> = vec![
        ("totalizer", hist::<Tot>),
        ("inverted", hist::<Inverted<Tot>>),
        ("double", hist::<Double<Tot, Tot>>),
        ("double-inverted", hist::<Double<Tot, Inverted<Tot>>>),
        ("inverted-double", hist::<Inverted<Double<Inverted<Tot>, Tot>>>),
        ("inverted-inverted", hist::<Inverted<Inverted<Tot>>>),
    ];
    // (A) one or two additions, then a single call with every range form
    let mut a = vec![];
    for n in 0..=cx.pick(5usize, 7) {
        for r in all_ranges(n + 1) {
            for k in 0..3 {
                for chg in [false, true] {
                    let op = match (k, chg) {
                        (0, false) => Op::Ub(r),
                        (0, true) => Op::UbC(r),
                        (1, false) => Op::Lb(r),
                        (1, true) => Op::LbC(r),
                        (_, false) => Op::Both(r),
                        (_, true) => Op::BothC(r),
                    };
                    let pool = POOLS[(n + k) % 2];
                    a.push(Case { pool: &pool[..n], gap: 0, ops: vec![Op::Ext(n), op] });
                    if n == 4 || n == 3 {
                        a.push(Case { pool: &POOLS[2][..n], gap: 0, ops: vec![Op::Ext(n), op] });
                        a.push(Case { pool: &POOLS[3][..n], gap: 0, ops: vec![Op::Ext(n - 1), Op::Ext(1), Op::Reserve, op] });
                    }
                }
            }
        }
    }
    // (B) histories
    let letters = vec![
        Op::Ext(1),
        Op::Ext(2),
        Op::Ext(3),
        Op::Reserve,
        Op::UbC(rii(0, 0)),
        Op::UbC(rii(1, 1)),
        Op::UbC(rii(2, 3)),
        Op::UbC(rii(0, 2)),
        Op::LbC(rii(1, 1)),
        Op::LbC(rii(2, 2)),
        Op::LbC(rii(3, 4)),
        Op::BothC(rii(1, 2)),
        Op::Ub(rii(1, 2)),
        Op::Lb(rii(2, 2)),
        Op::Both(rii(1, 3)),
    ];
    let starts = [Op::Ext(1), Op::Ext(2), Op::Ext(4), Op::Reserve];
    let mut b = vec![];
    for s in starts {
        for tail in seqs(&letters, 1, cx.pick(3, 4)) {
            let exts = tail.iter().filter(|o| matches!(o, Op::Ext(_))).count();
            // the last operation of a history is an encoding one or an addition right after one
            if matches!(tail.last(), Some(Op::Reserve)) && tail.len() > 2 {
                continue;
            }
            if exts > 2 {
                continue;
            }
            let mut ops = vec![s];
            ops.extend(tail);
            let i = b.len();
            b.push(Case { pool: &POOLS[i % 4][..6], gap: (i % 2) as u32 * 3, ops });
        }
    }
    cx.bound("inputs", cx.pick(5, 7));
    cx.bound("history_depth", cx.pick(4, 5));
    for (name, f) in &encs {
        cx.run(&format!("{name}-ranges"), &a, |t, c| f(t, c));
    }
    for (name, f) in &encs[..if cx.thorough { 6 } else { 5 }] {
        cx.run(&format!("{name}-histories"), &b, |t, c| f(t, c));
    }
    let mut d = vec![];
    for n in 1..=4usize {
        for r1 in 0..=n {
            for r2 in 0..=n {
                for e1 in r1..=n {
                    for e2 in r2..=n {
                        for (u1, u2) in [(0u8, 0u8), (1, 1), (0, 1), (1, 0), (2, 2), (0, 2), (2, 0), (1, 2), (2, 1)] {
                            d.push((n, u1, rii(r1, e1), u2, rii(r2, e2)));
                        }
                    }
                }
            }
        }
    }
    cx.run("totalizer-fresh", &d, fresh::<Tot>);
    cx.run("inverted-fresh", &d, fresh::<Inverted<Tot>>);
    cx.run("double-fresh", &d, fresh::<Double<Tot, Inverted<Tot>>>);
}
