//! P20 solver answers; P21 states and statistics
use crate::common::{cl, ls};
use crate::drv::Traits;
use crate::sol::{create, solvers};
use crate::hist::*;
use crate::rt::{seqs, Ctx, Tally};
use crate::{check, ensure_eq};
use rustsat::solvers::SolverResult;
use rustsat::types::{Lit, TernaryVal};

pub fn alphabet() -> Vec<Op> {
    use Op::*;
    let mut a: Vec<Op> = [
        &[][..],
        &[1],
        &[-1],
        &[-2],
        &[1, 2],
        &[-1, 2],
        &[1, -2],
        &[-1, -2],
        &[2, -3],
        &[1, 2, 3],
        &[-1, -3, 4],
        &[1, 1, -3],
        &[1, -1],
        &[-2, 2, 3],
        &[4],
    ]
    .iter()
    .map(|c| Add(c.to_vec()))
    .collect();
    a.push(Solve);
    a.extend(
        [&[][..], &[1], &[-1], &[2], &[1, 2], &[-1, -2], &[3, -3], &[1, 1], &[-2, 1, -2], &[4, -1], &[6], &[-6, 1], &[-4, 3, -1]]
            .iter()
            .map(|c| Assume(c.to_vec())),
    );
    a.push(Reserve(2));
    a.push(Reserve(7));
    a
}

fn core_alphabet() -> Vec<Op> {
    use Op::*;
    vec![
        Add(vec![1, 2]),
        Add(vec![-1, 2]),
        Add(vec![-2, 3]),
        Add(vec![-3]),
        Solve,
        Assume(vec![-2]),
        Assume(vec![1, -3]),
        Assume(vec![2, 3]),
    ]
}

/// Solvers with queries on the variables the model has no entry for cannot be run without reserve
pub fn usable(tr: Traits, ops: &[Op]) -> Vec<Op> {
    ops.iter()
        .filter(|o| tr.incremental || !matches!(o, Op::Assume(_)))
        .cloned()
        .collect()
}

/// All sequences of exactly `depth` letters by index
pub fn nth(alpha: &[Op], depth: usize, mut i: usize) -> Vec<Op> {
    let mut h = vec![];
    for _ in 0..depth {
        h.push(alpha[i % alpha.len()].clone());
        i /= alpha.len();
    }
    h
}

/// All histories of a length (all prefixes are observed on the way), or up to a length
pub fn group(cx: &Ctx, lab: &str, name: &str, tr: Traits, a: &[Op], depth: usize, w: &What) {
    let n = a.len();
    if w.last_only {
        let tot = (0..=depth).map(|d| n.pow(d as u32)).sum();
        let make = |mut i: usize| {
            let mut d = 0;
            while i >= n.pow(d as u32) {
                i -= n.pow(d as u32);
                d += 1;
            }
            nth(a, d, i)
        };
        cx.run_forked(lab, tot, make, |t, h| run(name, tr, h, w, t));
    } else {
        cx.run_forked(lab, n.pow(depth as u32), |i| nth(a, depth, i), |t, h| run(name, tr, h, w, t));
    }
}

pub fn histories(cx: &Ctx, w: &What) {
    let full = alphabet();
    let depth = cx.pick(3, 4);
    let deep = cx.pick(if w.last_only { 5 } else { 6 }, 7);
    cx.bound("history length, all calls", depth);
    cx.bound("history length, core calls", deep);
    for (name, tr) in solvers() {
        let variant = name.starts_with("cadical-");
        let a = usable(tr, &full);
        let dp = if variant { depth - 1 } else { depth };
        group(cx, &format!("{name}-histories"), name, tr, &a, dp, w);
        let a = usable(tr, &core_alphabet());
        let dp = if variant { deep - 1 } else { deep };
        group(cx, &format!("{name}-deep"), name, tr, &a, dp, w);
    }
}

/// All clauses over three variables
pub fn clauses() -> Vec<Vec<i32>> {
    let mut out = vec![];
    for m in 0..27 {
        let mut c = vec![];
        let mut x = m;
        for v in 1..=3 {
            match x % 3 {
                1 => c.push(v),
                2 => c.push(-v),
                _ => (),
            }
            x /= 3;
        }
        out.push(c);
    }
    out
}

fn formula(name: &str, tr: Traits, f: &[Vec<i32>], t: &mut Tally) -> Result<(), String> {
    let w = What { answers: true, states: false, last_only: false };
    let mut d = create(name);
    let mut m = Model::new(tr);
    for (i, c) in f.iter().enumerate() {
        step(d.as_mut(), tr, &mut m, i, &Op::Add(c.clone()), &w, t)?;
    }
    t.state(m.table);
    if !tr.incremental || tr.one_shot {
        step(d.as_mut(), tr, &mut m, 0, &Op::Solve, &w, t)?;
        return observe(d.as_mut(), tr, &mut m, &w, t);
    }
    // all partial assignments of the variables as assumptions, in turn on the same solver
    for a in clauses() {
        let a = ls(&a);
        let r = d.solve_assumps(&a).unwrap().map_err(|e| format!("solve_assumps fails: {e}"))?;
        t.step(1);
        let sat = m.table & cube_tt(&a) != 0;
        ensure_eq!(r, if sat { SolverResult::Sat } else { SolverResult::Unsat }, "verdict under {a:?}");
        if sat {
            let v = |x: Lit| d.lit_val(x).unwrap_or(TernaryVal::DontCare);
            satisfies(&m, &a, &v).map_err(|e| format!("under {a:?}: {e}"))?;
        } else {
            let core = d.core().unwrap().map_err(|e| e.to_string())?;
            for c in &core {
                check!(a.contains(&!*c), "core literal {c:?} is no negated assumption of {a:?}");
            }
            let neg: Vec<Lit> = core.iter().map(|c| !*c).collect();
            check!(m.table & cube_tt(&neg) == 0, "core {core:?} under {a:?} is not entailed by the clauses");
        }
    }
    step(d.as_mut(), tr, &mut m, 0, &Op::Solve, &w, t)?;
    observe(d.as_mut(), tr, &mut m, &w, t)
}

/// Pigeon hole formulas and parity chains: search with conflicts, restarts and simplification
pub fn structured() -> Vec<(String, Vec<Vec<i32>>, bool)> {
    let mut out = vec![];
    for p in 2..=6usize {
        for h in 1..=6usize {
            let v = |i: usize, j: usize| (i * h + j + 1) as i32;
            let mut f: Vec<Vec<i32>> = (0..p).map(|i| (0..h).map(|j| v(i, j)).collect()).collect();
            for j in 0..h {
                for i in 0..p {
                    for k in 0..i {
                        f.push(vec![-v(i, j), -v(k, j)]);
                    }
                }
            }
            out.push((format!("php {p} {h}"), f, p <= h));
        }
    }
    for n in 2..=9 {
        for odd in [false, true] {
            // a cycle of equalities and (if odd) one inequality, doubled with an auxiliary layer
            let mut f = vec![];
            for i in 0..n {
                let (a, b) = (i + 1, (i + 1) % n + 1);
                let c = n + 1 + i;
                let flip = if odd && i == 0 { -1 } else { 1 };
                for s in [1, -1] {
                    f.push(vec![a, -s * c, s * b * flip]);
                    f.push(vec![-a, s * c, -s * b * flip]);
                    f.push(vec![a, s * c, s * b * flip]);
                    f.push(vec![-a, -s * c, -s * b * flip]);
                }
            }
            out.push((format!("cycle {n} {odd}"), f, true));
        }
    }
    out
}

pub fn run_p20(cx: &Ctx) {
    let w = What { answers: true, states: false, last_only: false };
    let cls = clauses();
    let k = cx.pick(3, 4);
    cx.bound("clauses per formula over three variables, all assumption vectors", k);
    let fs: Vec<Vec<Vec<i32>>> = seqs(&(0..cls.len()).collect::<Vec<_>>(), 0, k)
        .into_iter()
        .filter(|f| k < 3 || f.windows(2).all(|w| w[0] <= w[1]) || f.len() < 3)
        .map(|f| f.iter().map(|&i| cls[i].clone()).collect())
        .collect();
    for (name, tr) in solvers() {
        cx.run_forked(&format!("{name}-formulas"), fs.len(), |i| fs[i].clone(), |t, f| formula(name, tr, f, t));
    }
    let st = structured();
    for (name, tr) in solvers() {
        cx.run_forked(&format!("{name}-structured"), st.len(), |i| st[i].clone(), |t, (lab, f, expect)| {
            let mut d = create(name);
            let mut o = crate::oracle::Dpll::new();
            if tr.reserved.is_some() {
                for v in 0..40 {
                    let _ = d.freeze(rustsat::types::Var::new(v));
                }
            }
            for (i, c) in f.iter().enumerate() {
                d.add(&cl(c), i).map_err(|e| e.to_string())?;
                o.add(ls(c));
            }
            if lab.starts_with("cycle") {
                // no expectation by construction: the oracle decides
                let e = o.sat(&[]);
                return check_big(d.as_mut(), tr, f, e, &mut o, t);
            }
            check_big(d.as_mut(), tr, f, *expect, &mut o, t)
        });
    }
    histories(cx, &w);
    if crate::sol::solvers().iter().any(|s| s.0 == "glucose-simp") {
        // without freezing, preprocessing may eliminate what is used later
        let tr = Traits { reserved: None, internal_clauses: true, ..crate::drv::INC };
        let a = core_alphabet();
        cx.run_forked("glucose-simp-unfrozen", a.len().pow(5), |i| nth(&a, 5, i), |t, h| run("glucose-simp-free", tr, h, &w, t));
    }
}

fn check_big(
    d: &mut dyn crate::drv::Drv,
    tr: Traits,
    f: &[Vec<i32>],
    expect: bool,
    o: &mut crate::oracle::Dpll,
    t: &mut Tally,
) -> Result<(), String> {
    let r = d.solve().map_err(|e| e.to_string())?;
    t.step(1);
    ensure_eq!(r, if expect { SolverResult::Sat } else { SolverResult::Unsat }, "verdict");
    let model = |d: &dyn crate::drv::Drv, a: &[Lit]| -> Result<(), String> {
        for c in f {
            check!(ls(c).iter().any(|x| d.lit_val(*x).unwrap() == TernaryVal::True) || contradictory(&ls(c)), "model violates {c:?}");
        }
        for x in a {
            check!(d.lit_val(*x).unwrap() == TernaryVal::True, "model violates assumption {x:?}");
        }
        Ok(())
    };
    if expect {
        model(d, &[])?;
    }
    if !tr.incremental || tr.one_shot {
        return Ok(());
    }
    let nv = f.iter().flatten().map(|x| x.abs()).max().unwrap();
    for i in 1..=nv.min(8) {
        for s in [1, -1] {
            for j in [0, (i % nv) + 1, -((i + 2) % nv) - 1] {
                let mut a = vec![i * s];
                if j != 0 {
                    a.push(j);
                }
                let a = ls(&a);
                let r = d.solve_assumps(&a).unwrap().map_err(|e| e.to_string())?;
                let e = expect && o.sat(&a);
                t.step(1);
                ensure_eq!(r, if e { SolverResult::Sat } else { SolverResult::Unsat }, "verdict under {a:?}");
                if e {
                    model(d, &a)?;
                } else {
                    let core = d.core().unwrap().map_err(|e| e.to_string())?;
                    check!(core.iter().all(|c| a.contains(&!*c)), "core {core:?} of {a:?}");
                    let n: Vec<Lit> = core.iter().map(|c| !*c).collect();
                    check!(!expect || !o.sat(&n), "core {core:?} not entailed");
                }
            }
        }
    }
    Ok(())
}

pub fn run_p21(cx: &Ctx) {
    histories(cx, &What { answers: false, states: true, last_only: true });
}
