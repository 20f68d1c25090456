use crate::check;
use crate::common::*;
use crate::ensure_eq;
use crate::oracle::*;
use crate::p02::no_input_excluded;
use crate::rt::*;
use rustsat::encodings::pb::{BoundUpper, BoundUpperIncremental, DynamicPolyWatchdog, Encode, EncodeIncremental};
use rustsat::encodings::{EncodeStats, EnforceError};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Clause, Lit, Var};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum O {
    Prec(usize),
    Enc(Rg),
    Fresh(Rg),
    Reserve,
    /// harden to sums in `lo..=hi` (original weights); the clauses are only used for the next checks
    Limit(usize, usize),
}
#[derive(Clone, Debug)]
struct Case {
    w: Vec<usize>,
    ops: Vec<O>,
}

fn rem(w: &[usize], enc: Option<usize>) -> Vec<usize> {
    w.iter().map(|&x| enc.map_or(x, |d| x % d)).filter(|&x| x > 0).collect()
}

fn case(t: &mut Tally, c: &Case) -> Result<(), String> {
    let n = c.w.len();
    let lits: Vec<Lit> = (0..n).map(|v| Lit::new(v as u32, v == 1)).collect();
    let mut e: DynamicPolyWatchdog = lits.iter().copied().zip(c.w.iter().copied()).collect();
    let mut vm = BasicVarManager::from_next_free(Var::new(n as u32));
    let mut col = Col::default();
    // model: set precision, encoded precision (of the structure), encoded range
    let mut prec = 1usize;
    let mut built: Option<usize> = None;
    let mut enc: Option<(usize, Rg)> = None;
    let total: usize = c.w.iter().sum();
    let maxw = c.w.iter().copied().max().unwrap_or(0);
    // number of variables after reserving
    let mut res = None;
    for op in &c.ops {
        t.step(1);
        t.state((&c.w, prec, built, enc));
        match op {
            O::Prec(d) => {
                let r = e.set_precision(*d);
                let d1 = (*d).max(1);
                if !d1.is_power_of_two() {
                    check!(r.is_err(), "precision {d} accepted although it is no power of two");
                } else if built.is_some() && d1 > prec {
                    check!(r.is_err(), "precision decrease from {prec} to {d} accepted after encoding");
                } else {
                    check!(r.is_ok(), "precision {d} refused: {r:?}");
                    if d1 != prec {
                        enc = None;
                        res = None;
                    }
                    prec = d1;
                }
            }
            O::Reserve => {
                e.reserve(&mut vm);
                res = Some(vm.n_used());
                if n > 1 && built.is_none() && prec <= maxw {
                    built = Some(prec);
                }
            }
            O::Enc(r) | O::Fresh(r) => {
                if matches!(op, O::Enc(_)) {
                    e.encode_ub_change(*r, &mut col, &mut vm).map_err(|x| x.to_string())?;
                } else {
                    e.encode_ub(*r, &mut col, &mut vm).map_err(|x| x.to_string())?;
                }
                if n > 1 && (0..total).any(|x| rg_has(r, x)) {
                    if built.is_some() || prec <= maxw {
                        built = Some(prec);
                    }
                    enc = Some((prec, *r));
                } else if n <= 1 {
                    enc = Some((prec, *r));
                }
            }
            O::Limit(lo, hi) => {
                // only meaningful on a built encoding
                if enc.is_none() {
                    continue;
                }
                let mut lim = Col::default();
                e.limit_range(*lo..=*hi, &mut lim).map_err(|x| x.to_string())?;
                bounds(t, c, &lits, &e, &[&col.0[..], &lim.0[..]].concat(), enc, prec, Some((*lo, *hi)))
                    .map_err(|m| format!("after limiting to {lo}..={hi} with {}: {m}", show(&lim.0)))?;
                for cl in &lim.0 {
                    ensure_eq!(cl.len(), 1, "hardening clause {cl:?}");
                }
                continue;
            }
        }
        if let Some(r) = res {
            ensure_eq!(vm.n_used(), r, "variables after {op:?}, although all had been reserved");
        }
        if n > 1 {
            let r = rem(&c.w, built);
            let want = r.iter().max().map_or(1, |m| 1usize << m.ilog2());
            ensure_eq!(e.next_precision(), want, "next precision after {op:?}");
            ensure_eq!(e.is_max_precision(), r.is_empty(), "maximum precision after {op:?}");
        }
    }
    let next = vm.new_var().idx();
    fresh_ok(&col.0, n, n, next)?;
    ensure_eq!(e.n_clauses(), col.0.len(), "n_clauses");
    ensure_eq!(e.weight_sum(), total, "weight sum");
    no_input_excluded(t, &col, n)?;
    bounds(t, c, &lits, &e, &col.0, enc, prec, None)
}

#[allow(clippy::too_many_arguments)]
fn bounds(
    t: &mut Tally,
    c: &Case,
    lits: &[Lit],
    e: &DynamicPolyWatchdog,
    cls: &[Clause],
    enc: Option<(usize, Rg)>,
    prec: usize,
    limit: Option<(usize, usize)>,
) -> Result<(), String> {
    let n = lits.len();
    let mut s = Dpll::from_clauses(cls);
    let sum = |m: u32, d: usize| -> usize { (0..n).map(|i| if holds(m, lits[i]) { c.w[i] / d } else { 0 }).sum() };
    let rtotal: usize = c.w.iter().map(|w| w / prec).sum();
    for b in 0..=rtotal + 1 {
        let must = enc.is_some_and(|(p, r)| p == prec && rg_has(&r, b)) || n == 0;
        if limit.is_some_and(|(lo, hi)| b * prec < lo || b * prec > hi) {
            continue;
        }
        match e.enforce_ub(b) {
            Ok(a) => {
                t.outcome("enforced");
                for m in 0..(1u32 << n) {
                    let mut asm = cube(m, n);
                    asm.extend_from_slice(&a);
                    let got = s.sat(&asm);
                    let want = sum(m, prec) <= b;
                    t.step(1);
                    if got && !want {
                        return Err(format!(
                            "enforcing <= {b} at precision {prec}: inputs {m:b} (sum {}) allowed; assumptions {a:?}",
                            sum(m, prec)
                        ));
                    }
                    if !got && want && limit.is_none_or(|(lo, hi)| (lo..=hi).contains(&sum(m, 1))) {
                        return Err(format!(
                            "enforcing <= {b} at precision {prec}: inputs {m:b} (rounded sum {}, sum {}) forbidden; assumptions {a:?}",
                            sum(m, prec),
                            sum(m, 1)
                        ));
                    }
                }
            }
            Err(EnforceError::Unsat) => return Err(format!("upper bound {b} called unsatisfiable")),
            Err(EnforceError::NotEncoded) => {
                t.outcome("not encoded");
                check!(!must, "bound {b} refused as not encoded at precision {prec} although {enc:?} is encoded");
            }
        }
        // coarse bounds never exceed the bound, and are the best ones that need no additional variables
        if n > 1 && enc.is_some_and(|(p, _)| p == prec) {
            let cb = e.coarse_ub(b);
            check!(cb <= b, "coarse bound {cb} of {b}");
            ensure_eq!(e.coarse_ub(cb), cb, "coarse bound of the coarse bound");
            if let Ok(a) = e.enforce_ub(cb) {
                check!(cb == b || a.len() <= 1, "coarse bound {cb} of {b} still needs {a:?}");
            }
            t.step(1);
        }
        check!(e.next_higher(b) > b, "next higher value of {b}");
    }
    Ok(())
}

pub fn run(cx: &Ctx) {
    let mut ws: Vec<Vec<usize>> = vec![vec![]];
    for n in 1..=2 {
        ws.extend(seqs(&(1..=cx.pick(9, 17)).collect::<Vec<_>>(), n, n));
    }
    ws.extend(seqs(cx.pick(&[1, 2, 3, 4, 6, 8][..], &[1, 2, 3, 4, 5, 6, 7, 8, 11][..]), 3, 3));
    ws.extend(seqs(cx.pick(&[1, 3, 4][..], &[1, 2, 3, 4, 6][..]), 4, 4));
    ws.extend([vec![1, 1, 1, 1, 1], vec![1, 2, 4, 8], vec![7, 7, 7], vec![16, 1], vec![16, 9, 2], vec![5, 3, 8, 7]]);
    // (A) every descending precision sequence, with an encoding call of every kind at each step
    let mut a = vec![];
    for w in &ws {
        let total: usize = w.iter().sum();
        let ps = [16usize, 8, 4, 2, 1];
        for mask in 1..(1u32 << 5) {
            let sel: Vec<usize> = (0..5).filter(|i| mask >> i & 1 == 1).map(|i| ps[i]).collect();
            if sel.len() > cx.pick(3, 4) || sel[0] > 2 * w.iter().copied().max().unwrap_or(1) {
                continue;
            }
            // ranges per step: everything, or a part
            for rm in 0..(1u32 << sel.len()) {
                let mut ops = vec![];
                for (i, &p) in sel.iter().enumerate() {
                    ops.push(O::Prec(p));
                    let r = if rm >> i & 1 == 0 { rii(0, total) } else { rii(1, (total / p / 2).max(1)) };
                    ops.push(O::Enc(r));
                }
                a.push(Case { w: w.clone(), ops });
            }
        }
    }
    cx.run("precision-sequences", &a, case);
    // (B) free histories
    let letters = |w: &[usize]| {
        let t: usize = w.iter().sum();
        vec![
            O::Prec(1),
            O::Prec(2),
            O::Prec(4),
            O::Prec(0),
            O::Prec(3),
            O::Reserve,
            O::Enc(rii(0, t)),
            O::Enc(rii(1, 2)),
            O::Enc(rii(2, t / 2)),
            O::Fresh(rii(0, 1)),
            O::Fresh(rii(0, t)),
        ]
    };
    let mut b = vec![];
    for w in [vec![5, 3], vec![4, 8, 4], vec![1, 2, 6], vec![7, 1, 3], vec![3], vec![4, 4], vec![8, 3, 2], vec![2, 2, 1, 5]] {
        for ops in seqs(&letters(&w), 1, cx.pick(4, 5)) {
            b.push(Case { w: w.clone(), ops });
        }
    }
    cx.run("histories", &b, case);
    // (C) limiting the range
    let mut d = vec![];
    for w in ws.iter().filter(|w| w.len() >= 2 && w.iter().sum::<usize>() <= cx.pick(17, 30)) {
        let total: usize = w.iter().sum();
        for seq in [&[1usize][..], &[2], &[4], &[2, 1], &[4, 1], &[4, 2], &[4, 2, 1]] {
            if seq[0] > *w.iter().max().unwrap() {
                continue;
            }
            for lo in 0..=total {
                for hi in lo..=total {
                    let mut ops = vec![];
                    for &p in seq {
                        ops.push(O::Prec(p));
                        ops.push(O::Enc(rii(0, total)));
                    }
                    ops.push(O::Limit(lo, hi));
                    d.push(Case { w: w.clone(), ops });
                }
            }
        }
    }
    cx.run("limit-range", &d, case);
    cx.bound("weights", "all vectors of two weights up to 9 (17), of three from {1,2,3,4,6,8} (9 values), of four from {1,3,4} (5 values)");
    cx.bound("precisions", "all descending sequences of up to 3 (4) of 16,8,4,2,1");
    cx.bound("history_depth", cx.pick(4, 5));
}
