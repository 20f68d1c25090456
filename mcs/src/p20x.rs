//! Calls only CaDiCaL has: temporary clauses, simplification, root values
use crate::common::{cl, l, ls};
use crate::hist::{contradictory, cube_tt, tt, NV};
use crate::p20::clauses;
use crate::rt::{Ctx, Tally};
use crate::{check, ensure_eq};
use rustsat::solvers::{Solve, SolveIncremental, SolverResult};
use rustsat::types::{Lit, TernaryVal, Var};

pub type Cad = rustsat_cadical::CaDiCaL<'static, 'static>;

#[derive(Clone, Debug)]
pub enum X {
    Add(Vec<i32>),
    Tmp(Vec<i32>),
    Solve,
    Assume(Vec<i32>),
    Simp(u32),
    SimpA(Vec<i32>, u32),

}

/// What the clauses say
pub struct M {
    pub clauses: Vec<Vec<Lit>>,
    pub table: u16,
    /// literals of the temporary clause
    pub tmp: Option<Vec<Lit>>,
    /// verdict of the last call with its assumptions and temporary clause
    pub last: Option<(bool, Vec<Lit>, Option<Vec<Lit>>)>,
    /// that call was a full query and not simplification
    pub full: bool,
}

impl M {
    pub fn new() -> Self {
        M { clauses: vec![], table: !0, tmp: None, last: None, full: false }
    }
}

fn with(m: &M, a: &[Lit], tmp: &Option<Vec<Lit>>) -> u16 {
    if contradictory(a) {
        return 0;
    }
    m.table & cube_tt(a) & tmp.as_ref().map_or(!0, |c| tt(c))
}

pub fn step(s: &mut Cad, m: &mut M, op: &X, t: &mut Tally) -> Result<(), String> {
    t.step(1);
    match op {
        X::Add(c) => {
            s.add_clause(cl(c)).map_err(|e| e.to_string())?;
            m.table &= tt(&ls(c));
            m.clauses.push(ls(c));
            if m.last.take().is_some() {
                m.tmp = None;
            }
        }
        X::Tmp(c) => {
            s.add_tmp_clause(&cl(c)).map_err(|e| e.to_string())?;
            m.tmp = Some(ls(c));
            m.last = None;
        }
        X::Solve | X::Assume(_) | X::Simp(_) | X::SimpA(..) => {
            let a = match op {
                X::Assume(a) | X::SimpA(a, _) => ls(a),
                _ => vec![],
            };
            let r = match op {
                X::Solve => s.solve(),
                X::Assume(_) => s.solve_assumps(&a),
                X::Simp(n) => s.simplify(*n),
                X::SimpA(_, n) => s.simplify_assumps(&a, *n),
                _ => unreachable!(),
            }
            .map_err(|e| format!("call fails: {e}"))?;
            let simp = matches!(op, X::Simp(_) | X::SimpA(..));
            t.outcome(&format!("{} {r:?}", if simp { "simplify" } else { "solve" }));
            // after a solve call the temporary clause is gone; the answer of a satisfied query stays
            let cached = matches!((&m.last, op), (Some((true, ..)), X::Solve | X::Simp(_)));
            let tmp = if m.last.is_some() && !cached { None } else { m.tmp.clone() };
            let (asm, tmp) = match (&m.last, cached) {
                (Some((_, a, c)), true) => (a.clone(), c.clone()),
                _ => (a, tmp),
            };
            let sat = with(m, &asm, &tmp) != 0;
            match r {
                SolverResult::Interrupted => {
                    check!(simp, "solving is interrupted without reason");
                    m.last = None;
                    // both are reset by simplification
                    m.tmp = None;
                }
                r => {
                    ensure_eq!(r == SolverResult::Sat, sat, "satisfiability with assumptions {asm:?} and temporary clause {tmp:?}");
                    m.full = !simp;
                    m.last = Some((sat, asm, tmp));
                }
            }
        }

    }
    t.state((m.table, format!("{:?}", m.last), &m.tmp));
    observe(s, m, t)
}

pub fn observe(s: &mut Cad, m: &M, t: &mut Tally) -> Result<(), String> {
    for v in 0..NV as u32 {
        let x = Lit::positive(v);
        let (a, b) = (s.current_lit_val(x), s.current_lit_val(!x));
        ensure_eq!(b, crate::hist::neg(a), "root values of variable {v} and its negation");
        if a != TernaryVal::DontCare {
            let e = if a == TernaryVal::True { x } else { !x };
            check!(m.table & cube_tt(&[!e]) == 0, "root value {e:?} is not entailed by the clauses");
        }
        t.step(1);
    }
    match &m.last {
        Some((true, a, tmp)) => {
            let v = |x: Lit| s.lit_val(x).map_err(|e| e.to_string());
            for c in m.clauses.iter().chain(tmp) {
                let mut ok = contradictory(c);
                for x in c {
                    ok |= v(*x)? == TernaryVal::True;
                }
                check!(ok, "model does not satisfy the clause {c:?}");
            }
            for x in a {
                ensure_eq!(v(*x)?, TernaryVal::True, "value of the assumption {x:?}");
            }
            check!(s.tmp_clause_in_core().is_err() && s.core().is_err(), "a core is reported after sat");
            let _ = Var::new(0);
        }
        Some((false, a, tmp)) => {
            let core = s.core().map_err(|e| e.to_string())?;
            let in_core = s.tmp_clause_in_core().map_err(|e| e.to_string())?;
            t.outcome(&format!("core of {} tmp {in_core}", core.len()));
            check!(core.iter().all(|c| a.contains(&!*c)), "core {core:?} is not over the assumptions {a:?}");
            check!(!in_core || tmp.is_some(), "the temporary clause is in the core, but there is none");
            let neg: Vec<Lit> = core.iter().map(|c| !*c).collect();
            let no = if in_core { tmp.clone() } else { None };
            ensure_eq!(with(m, &neg, &no), 0, "models of the clauses with the core {core:?}, temporary clause in it: {in_core}");
        }
        None => {
            check!(s.lit_val(l(1)).is_err(), "values without a satisfied query");
            check!(s.core().is_err() && s.tmp_clause_in_core().is_err(), "a core without an unsatisfied query");
        }
    }
    t.step(1);
    Ok(())
}

pub fn alphabet() -> Vec<X> {
    use X::*;
    let mut a: Vec<X> = [&[1, 2][..], &[-1, 2], &[-2], &[1, -2, 3], &[-3, -1], &[]].iter().map(|c| Add(c.to_vec())).collect();
    a.extend([&[1][..], &[-1, -2], &[3, 2], &[], &[2, -2], &[4, -4, 4]].iter().map(|c| Tmp(c.to_vec())));
    a.push(Solve);
    a.extend([&[1][..], &[-1, 2], &[-2, -3], &[], &[3, -3]].iter().map(|c| Assume(c.to_vec())));
    a.extend([Simp(0), Simp(2), SimpA(vec![1], 1), SimpA(vec![-2], 0), SimpA(vec![-1, 3], 3)]);
    a
}

pub fn run(cx: &Ctx) {
    let a = alphabet();
    let depth = cx.pick(4, 5);
    cx.bound("history length, calls only CaDiCaL has", depth);
    let n = a.len();
    cx.run_forked("cadical-extra", n.pow(depth as u32), |mut i| {
        let mut h = vec![];
        for _ in 0..depth {
            h.push(a[i % n].clone());
            i /= n;
        }
        h
    }, |t, h| {
        let mut s = Cad::default();
        let mut m = M::new();
        for (i, op) in h.iter().enumerate() {
            step(&mut s, &mut m, op, t).map_err(|e| format!("call {i} ({op:?}): {e}"))?;
        }
        Ok(())
    });
    // all formulas with all temporary clauses and assumptions in turn on one solver
    let cls = clauses();
    let k = cls.len();
    cx.run_forked("cadical-temporary", k * k, |i| vec![cls[i / k].clone(), cls[i % k].clone()], |t, f| {
        let mut s = Cad::default();
        let mut m = M::new();
        for c in f {
            step(&mut s, &mut m, &X::Add(c.clone()), t)?;
        }
        for c in &cls {
            for a in [&[][..], &[1], &[-1], &[2, -3], &[-2, 3], &[1, 2, 3]] {
                step(&mut s, &mut m, &X::Tmp(c.clone()), t).map_err(|e| format!("temporary {c:?}: {e}"))?;
                let op = if a.is_empty() { X::Solve } else { X::Assume(a.to_vec()) };
                step(&mut s, &mut m, &op, t).map_err(|e| format!("temporary {c:?} and {a:?}: {e}"))?;
            }
            step(&mut s, &mut m, &X::Solve, t).map_err(|e| format!("after temporary {c:?}: {e}"))?;
        }
        Ok(())
    });
}
