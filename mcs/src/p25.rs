//! P25 termination, limits, callbacks, phases, freezing and flips
use crate::common::{cl, ls};
use crate::drv::{Drv, Traits};
use crate::hist::*;
use crate::oracle::Dpll;
use crate::p20::{group, structured, usable};
use crate::rt::{Ctx, Tally};
use crate::sol::{create, solvers};
use crate::{check, ensure_eq};
use rustsat::solvers::{ControlSignal, SolverResult};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const W: What = What { answers: true, states: false, last_only: false };

fn alphabet(small: bool) -> Vec<Op> {
    use Op::*;
    let mut a = vec![
        Add(vec![1, 2]),
        Add(vec![-1, 2, 3]),
        Add(vec![-2, -3]),
        Add(vec![-1, -2, 3]),
        Solve,
        Assume(vec![1]),
        Assume(vec![-1, -2]),
        Conf(Some(0)),
        Conf(None),
        Phase(1),
        Phase(-3),
        Freeze(1),
        Melt(1),
        Flip(1),
        Flip(-2),
        Interrupt,
    ];
    if !small {
        a.extend([
            Add(vec![-1]),
            Add(vec![1, -3]),
            Add(vec![-4, 3, 2]),
            Assume(vec![]),
            Assume(vec![4, -2]),
            Conf(Some(1)),
            Dec(Some(0)),
            Dec(Some(1)),
            Dec(None),
            Props(Some(0)),
            Props(Some(2)),
            Props(None),
            Phase(-1),
            Phase(4),
            Unphase(0),
            Unphase(5),
            Freeze(3),
            Freeze(5),
            Melt(3),
            Flip(3),
            Flip(-4),
            Propagate(vec![2], true),
        ]);
    }
    a
}

struct Formula {
    name: String,
    clauses: Vec<Vec<i32>>,
    nv: i32,
    /// assumption vectors with their verdicts, the first one is empty
    queries: Vec<(Vec<Lit>, bool)>,
    /// satisfiable unless the last variable is false
    hard: bool,
}

fn formulas(cx: &Ctx) -> Vec<Formula> {
    let mut all: Vec<(String, Vec<Vec<i32>>)> = structured()
        .into_iter()
        .filter(|(n, _, _)| {
            let small = ["php 3 2", "php 4 3", "php 5 4", "php 4 4", "php 3 4", "cycle 5 true", "cycle 6 false", "cycle 9 true"];
            cx.thorough || small.contains(&n.as_str())
        })
        .map(|(n, f, _)| (n, f))
        .collect();
    all.push(("empty clause".into(), vec![vec![1, 2], vec![]]));
    all.push(("chain".into(), (1..12).map(|i| vec![-i, i + 1]).collect()));
    // all but one assignment of five variables is forbidden
    let mut f = vec![];
    for a in 0..32 {
        if a != 13 {
            f.push((0..5).map(|v| if a >> v & 1 == 1 { -(v + 1) } else { v + 1 }).collect());
        }
    }
    all.push(("single model".into(), f));
    all.into_iter().map(formula).collect()
}

/// Takes long enough for restarts if the last variable is false, and is easy otherwise
fn hard() -> Formula {
    // pigeons and holes
    let (p, h) = (9, 8);
    let v = |i: i32, j: i32| i * h + j + 1;
    let nv = p * h + 1;
    let mut f: Vec<Vec<i32>> = vec![];
    for i in 0..p {
        f.push((0..h).map(|j| v(i, j)).chain([nv]).collect());
        for j in 0..h {
            f.extend((0..i).map(|k| vec![-v(i, j), -v(k, j)]));
        }
    }
    let queries = vec![(ls(&[]), true), (ls(&[1]), true), (ls(&[-1, 2]), true), (ls(&[nv, 1 - nv]), true), (ls(&[-nv, 1]), false)];
    Formula { name: "guarded php".into(), clauses: f, nv, queries, hard: true }
}

fn formula((name, clauses): (String, Vec<Vec<i32>>)) -> Formula {
    {
        {
            let mut o = Dpll::new();
            for c in &clauses {
                o.add(ls(c));
            }
            let nv = clauses.iter().flatten().map(|x| x.abs()).max().unwrap();
            let queries = [vec![], vec![1], vec![-1, 2], vec![nv, -(nv - 1)], vec![-nv, 1]]
                .iter()
                .map(|a| (ls(a), o.sat(&ls(a))))
                .collect();
            Formula { name, clauses, nv, queries, hard: false }
        }
    }
}

fn load(name: &str, tr: Traits, f: &Formula) -> Result<Box<dyn Drv>, String> {
    let mut d = create(name);
    for (i, c) in f.clauses.iter().enumerate() {
        d.add(&cl(c), i).map_err(|e| e.to_string())?;
    }
    if tr.reserved.is_some() {
        for v in 0..f.nv {
            let _ = d.freeze(Var::new(v as u32));
        }
    }
    Ok(d)
}

/// Query `q`; true if it was answered and not stopped
fn query(d: &mut dyn Drv, f: &Formula, q: usize, may_stop: bool, t: &mut Tally) -> Result<bool, String> {
    let (a, expect) = &f.queries[q];
    t.step(1);
    let r = if q == 0 {
        d.solve()
    } else {
        match d.solve_assumps(a) {
            Some(r) => r,
            None => return Ok(false),
        }
    };
    let r = r.map_err(|e| format!("query {a:?} fails: {e}"))?;
    t.outcome(&format!("{r:?}, may stop {may_stop}"));
    if r == SolverResult::Interrupted {
        check!(may_stop, "query {a:?} is interrupted without reason");
        let v = d.lit_val(Lit::positive(0));
        check!(v.is_err(), "lit_val answers {v:?} after an interrupted call");
        if let Some(c) = d.core() {
            check!(c.is_err(), "core answers {c:?} after an interrupted call");
        }
        return Ok(false);
    }
    ensure_eq!(r, if *expect { SolverResult::Sat } else { SolverResult::Unsat }, "verdict of query {a:?}");
    if *expect {
        for c in &f.clauses {
            check!(ls(c).iter().any(|x| d.lit_val(*x).unwrap() == TernaryVal::True), "model of query {a:?} violates {c:?}");
        }
        for x in a {
            check!(d.lit_val(*x).unwrap() == TernaryVal::True, "model of query {a:?} violates {x:?}");
        }
    } else if let Some(c) = d.core() {
        let c = c.map_err(|e| e.to_string())?;
        check!(c.iter().all(|c| a.contains(&!*c)), "core {c:?} of query {a:?}");
        if f.hard {
            check!(c.contains(&Lit::positive(f.nv as u32 - 1)), "core {c:?} of query {a:?} is not entailed");
            return Ok(true);
        }
        let mut o = Dpll::new();
        for c in &f.clauses {
            o.add(ls(c));
        }
        let n: Vec<Lit> = c.iter().map(|c| !*c).collect();
        check!(!o.sat(&n), "core {c:?} of query {a:?} is not entailed");
    }
    Ok(true)
}

/// All queries, none of them may be stopped
fn final_answers(d: &mut dyn Drv, tr: Traits, f: &Formula, t: &mut Tally) -> Result<(), String> {
    if tr.dead_after_stop && d.stats().n_terminated > 0 {
        for _ in 0..2 {
            check!(d.solve().is_err() && d.add(&cl(&[1]), 0).is_err(), "solver is usable after an interrupted call");
            check!(d.lit_val(Lit::positive(0)).is_err(), "solver has a model after an interrupted call");
        }
        return Ok(());
    }
    query(d, f, 0, false, t).map_err(|e| format!("afterwards: {e}"))?;
    if tr.incremental {
        for q in (0..f.queries.len()).rev().filter(|q| !f.hard || *q != 4) {
            query(d, f, q, false, t).map_err(|e| format!("afterwards: {e}"))?;
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Lim {
    Conf,
    Dec,
    Props,
}

fn set(d: &mut dyn Drv, l: Lim, n: Option<u32>) -> Result<bool, String> {
    let r = match l {
        Lim::Conf => d.limit_conflicts(n),
        Lim::Dec => d.limit_decisions(n),
        Lim::Props => d.limit_propagations(n),
    };
    match r {
        None => Ok(false),
        Some(r) => r.map(|()| true).map_err(|e| format!("setting limit {l:?} {n:?} fails: {e}")),
    }
}

fn limits(name: &str, tr: Traits, f: &Formula, l: Lim, n: u32, q: usize, t: &mut Tally) -> Result<(), String> {
    let mut d = load(name, tr, f)?;
    if !set(d.as_mut(), l, Some(n))? {
        return Ok(());
    }
    let done = query(d.as_mut(), f, q, n < 1_000_000, t)?;
    t.state((f.name.clone(), format!("{l:?}"), n, q, done));
    if n % 2 == 0 {
        query(d.as_mut(), f, (q + 1) % f.queries.len(), n < 1_000_000, t)?;
    }
    if tr.one_shot_limits && n % 4 == 1 {
        // a limit holds for one call only
        return final_answers(d.as_mut(), tr, f, t);
    }
    set(d.as_mut(), l, None)?;
    final_answers(d.as_mut(), tr, f, t)
}

/// The terminator requests termination (or interrupts through the interrupter) in its k-th call
fn terminate(name: &str, tr: Traits, f: &Formula, k: usize, mode: usize, q: usize, t: &mut Tally) -> Result<(), String> {
    let mut d = load(name, tr, f)?;
    let calls = Rc::new(Cell::new(0usize));
    let fire = Rc::new(Cell::new(true));
    let (c, g) = (calls.clone(), fire.clone());
    let int = d.interrupter();
    if mode > 0 && int.is_none() {
        return Ok(());
    }
    let cb = Box::new(move || {
        let n = c.get();
        c.set(n + 1);
        match (g.get() && n == k, mode) {
            (true, 0) => ControlSignal::Terminate,
            (true, _) => {
                int.as_ref().unwrap()();
                ControlSignal::Continue
            }
            _ => ControlSignal::Continue,
        }
    });
    if !d.attach_term(cb) {
        return Ok(());
    }
    let done = query(d.as_mut(), f, q, true, t)?;
    t.state((f.name.clone(), k.min(calls.get()), mode, q, done));
    if mode == 0 {
        check!(done || calls.get() > k, "call is interrupted but termination was never requested ({} calls)", calls.get());
    }
    match k % 3 {
        0 => d.detach_term(),
        1 => fire.set(false),
        _ => {
            check!(d.attach_term(Box::new(|| ControlSignal::Continue)), "terminator");
        }
    }
    let before = calls.get();
    final_answers(d.as_mut(), tr, f, t)?;
    check!(k % 3 == 1 || calls.get() == before, "detached terminator is called");
    Ok(())
}

fn interrupt_first(name: &str, tr: Traits, f: &Formula, q: usize, again: bool, t: &mut Tally) -> Result<(), String> {
    let mut d = load(name, tr, f)?;
    if q > 2 {
        query(d.as_mut(), f, 0, false, t)?;
    }
    if d.interrupt().is_none() {
        return Ok(());
    }
    let done = query(d.as_mut(), f, q, true, t)?;
    t.state((f.name.clone(), q, again, done));
    if tr.dead_after_stop {
        return final_answers(d.as_mut(), tr, f, t);
    }
    if again {
        d.interrupt();
        query(d.as_mut(), f, (q + 1) % f.queries.len(), true, t)?;
    } else if done {
        // the request may still be pending
        query(d.as_mut(), f, (q + 2) % f.queries.len(), true, t)?;
    }
    // what was requested before the last call is over with it
    query(d.as_mut(), f, 1, true, t)?;
    final_answers(d.as_mut(), tr, f, t)
}

fn learn(name: &str, tr: Traits, f: &Formula, max: usize, order: usize, t: &mut Tally) -> Result<(), String> {
    let mut d = create(name);
    let got: Rc<RefCell<Vec<Clause>>> = Rc::default();
    let g = got.clone();
    if !d.attach_learn(Box::new(move |c| g.borrow_mut().push(c)), max) {
        return Ok(());
    }
    let mut o = Dpll::new();
    for (i, c) in f.clauses.iter().enumerate() {
        d.add(&cl(c), i).map_err(|e| e.to_string())?;
        o.add(ls(c));
    }
    for i in 0..f.queries.len() {
        let q = (i * (order + 1) + order) % f.queries.len();
        query(d.as_mut(), f, q, false, t)?;
        for c in got.borrow_mut().drain(..) {
            t.step(1);
            check!(c.len() <= max, "learned clause {c:?} is longer than {max}");
            let v: Vec<Lit> = c.iter().copied().collect();
            check!(o.entails(&v), "learned clause {c:?} is not entailed (query {q})");
            t.state((f.name.clone(), format!("{c:?}")));
            t.outcome(&format!("learned clause of length {}", c.len()));
        }
    }
    d.detach_learn();
    check!(Rc::strong_count(&got) == 1, "learner is not dropped by detaching");
    final_answers(d.as_mut(), tr, f, t)
}

/// Sequences of attaching and detaching callbacks
fn callbacks(name: &str, tr: Traits, f: &Formula, ops: &[usize], t: &mut Tally) -> Result<(), String> {
    let mut d = load(name, tr, f)?;
    // (calls, stop) of terminators and calls of learners with the clauses
    let mut term: Option<Rc<Cell<usize>>> = None;
    let mut stop = false;
    let mut lrn: Option<Rc<RefCell<Vec<Clause>>>> = None;
    let mut old_t: Vec<(Rc<Cell<usize>>, usize)> = vec![];
    let mut old_l: Vec<Rc<RefCell<Vec<Clause>>>> = vec![];
    let mut o = Dpll::new();
    for c in &f.clauses {
        o.add(ls(c));
    }
    for (i, op) in ops.iter().enumerate() {
        match op {
            0 | 1 => {
                let c = Rc::new(Cell::new(0));
                let (k, s) = (c.clone(), *op == 1);
                let cb = Box::new(move || {
                    k.set(k.get() + 1);
                    if s {
                        ControlSignal::Terminate
                    } else {
                        ControlSignal::Continue
                    }
                });
                if !d.attach_term(cb) {
                    return Ok(());
                }
                if let Some(x) = term.replace(c) {
                    let n = x.get();
                    old_t.push((x, n));
                }
                stop = *op == 1;
            }
            2 => {
                d.detach_term();
                if let Some(x) = term.take() {
                    let n = x.get();
                    old_t.push((x, n));
                }
                stop = false;
            }
            3 => {
                let c: Rc<RefCell<Vec<Clause>>> = Rc::default();
                let k = c.clone();
                if !d.attach_learn(Box::new(move |c| k.borrow_mut().push(c)), 3) {
                    return Ok(());
                }
                old_l.extend(lrn.replace(c));
            }
            4 => {
                d.detach_learn();
                old_l.extend(lrn.take());
            }
            _ => {
                query(d.as_mut(), f, (op + i) % f.queries.len(), stop, t).map_err(|e| format!("call {i}: {e}"))?;
            }
        }
        t.state((format!("{:?}", term.is_some()), stop, lrn.is_some(), *op));
        if let Some(x) = &term {
            check!(Rc::strong_count(x) == 2, "after call {i}: the attached terminator was dropped");
        }
        if let Some(x) = &lrn {
            check!(Rc::strong_count(x) == 2, "after call {i}: the attached learner was dropped");
            for c in x.borrow_mut().drain(..) {
                let v: Vec<Lit> = c.iter().copied().collect();
                check!(c.len() <= 3 && o.entails(&v), "learned clause {c:?} is too long or not entailed");
            }
        }
        for (x, n) in &old_t {
            check!(x.get() == *n, "after call {i}: a detached terminator was called");
            check!(Rc::strong_count(x) == 1, "after call {i}: a detached terminator was not dropped");
        }
        for x in &old_l {
            check!(x.borrow().is_empty(), "after call {i}: a detached learner was called");
            check!(Rc::strong_count(x) == 1, "after call {i}: a detached learner was not dropped");
        }
    }
    drop(d);
    if let Some(x) = &term {
        check!(Rc::strong_count(x) == 1, "terminator is leaked");
    }
    if let Some(x) = &lrn {
        check!(Rc::strong_count(x) == 1, "learner is leaked");
    }
    Ok(())
}

/// A call is stopped after an earlier call was answered
fn stopped_later(name: &str, tr: Traits, f: &Formula, q1: usize, q2: usize, l: Lim, n: u32, t: &mut Tally) -> Result<(), String> {
    if f.hard && q1 == 4 && (n > 0 || q2 > 1) {
        return Ok(());
    }
    let mut d = load(name, tr, f)?;
    query(d.as_mut(), f, q1, false, t)?;
    if !set(d.as_mut(), l, Some(n))? {
        return Ok(());
    }
    let done = query(d.as_mut(), f, q2, true, t)?;
    t.state((f.name.clone(), q1, q2, format!("{l:?}"), n, done));
    set(d.as_mut(), l, None)?;
    final_answers(d.as_mut(), tr, f, t)
}

fn used(d: &dyn Drv, l: Lim) -> Option<usize> {
    let (p, e, c) = d.internal()?;
    Some(match l {
        Lim::Conf => c,
        Lim::Dec => e,
        Lim::Props => p,
    })
}

/// A limit stops a call when it is reached, neither earlier nor much later
fn effective(name: &str, tr: Traits, f: &Formula, l: Lim, q: usize, n: u32, t: &mut Tally) -> Result<(), String> {
    let mut d = load(name, tr, f)?;
    if d.internal().is_none() || !set(d.as_mut(), l, Some(n))? {
        return Ok(());
    }
    let before = used(d.as_ref(), l).unwrap();
    let done = query(d.as_mut(), f, q, true, t)?;
    let u = used(d.as_ref(), l).unwrap() - before;
    t.state((f.name.clone(), format!("{l:?}"), q, n, done));
    if done {
        // Glucose looks at its limits when it restarts
        let slack = match l {
            Lim::Conf if name.starts_with("glucose") => 2_000,
            _ if name.starts_with("glucose") => 20_000,
            Lim::Props => 100,
            _ => 10,
        };
        check!(u <= n as usize + slack, "{l:?} limit {n} is not respected, {u} are used");
    } else {
        check!(u >= n as usize, "{l:?} limit {n} stops the call after {u}");
    }
    Ok(())
}

fn models(f: &[Vec<i32>], nv: i32) -> Vec<u32> {
    (0..1 << nv).filter(|m| f.iter().all(|c| c.iter().any(|x| (m >> (x.abs() - 1) & 1 == 1) == (*x > 0)))).collect()
}

/// Phases that satisfy all clauses are the model that is found
fn phased(name: &str, f: &[Vec<i32>], nv: i32, models: &[u32], (m1, m2, un): (usize, usize, usize), t: &mut Tally) -> Result<(), String> {
    let mut d = create(if name == "cadical" { "cadical-phases" } else { name });
    for (i, c) in f.iter().enumerate() {
        d.add(&cl(c), i).map_err(|e| e.to_string())?;
    }
    for (k, m) in [models[m1], models[m2]].into_iter().enumerate() {
        for v in 0..nv as u32 {
            if un == 1 && k == 1 {
                let _ = d.unphase(Var::new(v));
            }
            match d.phase(Lit::new(v, m >> v & 1 == 0)) {
                None => return Ok(()),
                Some(r) => r.map_err(|e| e.to_string())?,
            }
        }
        let r = if k == 0 { d.solve() } else { d.solve_assumps(&[]).unwrap() };
        ensure_eq!(r.map_err(|e| e.to_string())?, SolverResult::Sat, "verdict");
        t.step(1);
        t.state((f, m1, m2, un, k));
        for v in 0..nv as u32 {
            let l = Lit::new(v, m >> v & 1 == 0);
            ensure_eq!(d.lit_val(l).map_err(|e| e.to_string())?, TernaryVal::True, "call {k}: value of {l} with the phases {m:b}");
        }
    }
    Ok(())
}

pub fn run_p25(cx: &Ctx) {
    let fs = formulas(cx);
    let nf = fs.len();
    let mut hfs = formulas(cx);
    hfs.push(hard());
    let nh = hfs.len();
    let (d1, d2) = (3, cx.pick(4, 5));
    let lim = cx.pick(24, 200);
    let term = cx.pick(40, 400);
    let depth = cx.pick(5, 6);
    cx.bound("formulas", nf);
    cx.bound("history length, all calls", d1);
    cx.bound("history length, core calls", d2);
    cx.bound("limits from 0 to", lim);
    cx.bound("calls of the terminator after which termination is requested", term);
    cx.bound("length of attach/detach sequences", depth);
    for (name, tr) in solvers().into_iter().filter(|s| !s.1.one_shot) {
        let nq = if tr.incremental { 5 } else { 1 };
        let (fs, hfs) = (&fs, &hfs);
        let a = usable(tr, &alphabet(false));
        group(cx, &format!("{name}-histories"), name, tr, &a, d1, &W);
        let a = usable(tr, &alphabet(true));
        group(cx, &format!("{name}-deep"), name, tr, &a, d2, &W);
        cx.run_forked(
            &format!("{name}-limits"),
            nf * lim * 3 * nq,
            |i| (i % nf, [Lim::Conf, Lim::Dec, Lim::Props][i / nf % 3], i / nf / 3 % nq, i / nf / 3 / nq),
            |t, &(i, l, q, n)| limits(name, tr, &fs[i], l, if n + 1 == lim { i32::MAX as u32 } else { n as u32 }, q, t),
        );
        cx.run_forked(
            &format!("{name}-terminate"),
            nf * term * 2 * nq,
            |i| (i % nf, i / nf % 2, i / nf / 2 % nq, i / nf / 2 / nq),
            |t, &(i, mode, q, k)| terminate(name, tr, &fs[i], k, mode, q, t),
        );
        cx.run_forked(
            &format!("{name}-interrupt"),
            nh * 2 * nq,
            |i| (i % nh, i / nh % 2 == 1, i / nh / 2),
            |t, &(i, again, q)| interrupt_first(name, tr, &hfs[i], q, again, t),
        );
        let el = cx.pick(8, 100);
        cx.run_forked(
            &format!("{name}-effective limits"),
            nh * 3 * nq * el,
            |i| (i % nh, [Lim::Conf, Lim::Dec, Lim::Props][i / nh % 3], i / nh / 3 % nq, (i / nh / 3 / nq) as u32),
            |t, &(i, l, q, n)| effective(name, tr, &hfs[i], l, q, n, t),
        );
        if tr.incremental {
            let ln = cx.pick(3, 12);
            cx.run_forked(
                &format!("{name}-stopped later"),
                nh * 3 * nq * nq * ln,
                |i| (i % nh, [Lim::Conf, Lim::Dec, Lim::Props][i / nh % 3], i / nh / 3 % nq, i / nh / 3 / nq % nq, (i / nh / 3 / nq / nq) as u32),
                |t, &(i, l, q1, q2, n)| stopped_later(name, tr, &hfs[i], q1, q2, l, n, t),
            );
            let forms: Vec<Vec<Vec<i32>>> = vec![
                vec![vec![1, 2, 3, 4]],
                vec![vec![1, 2], vec![-1, 3], vec![-2, -3, 4]],
                vec![vec![-1, -2], vec![-3, -4], vec![1, 4]],
                vec![vec![1, 2, 3], vec![-1, -2, -3], vec![2, -4], vec![-2, 4]],
                vec![vec![-1, 2], vec![-2, 3], vec![-3, 4]],
            ];
            let cases: Vec<(usize, usize, usize, usize)> = forms
                .iter()
                .enumerate()
                .flat_map(|(i, f)| {
                    let n = models(f, 4).len();
                    (0..n * n * 2).map(move |k| (i, k % n, k / n % n, k / n / n))
                })
                .collect();
            cx.run_forked(
                &format!("{name}-phases"),
                if name.starts_with("cadical-") { 0 } else { cases.len() },
                |i| cases[i],
                |t, &(i, m1, m2, un)| phased(name, &forms[i], 4, &models(&forms[i], 4), (m1, m2, un), t),
            );
            let maxs = [0, 1, 2, 3, 5, 100, i32::MAX as usize, i32::MAX as usize + 1, usize::MAX];
            cx.run_forked(
                &format!("{name}-learn"),
                nf * maxs.len() * 4,
                |i| (i % nf, maxs[i / nf % maxs.len()], i / nf / maxs.len()),
                |t, &(i, max, order)| learn(name, tr, &fs[i], max, order, t),
            );
            let n = 7usize.pow(depth as u32);
            cx.run_forked(
                &format!("{name}-callbacks"),
                n * 2,
                |i| (i / n, (0..depth).map(|k| i / 7usize.pow(k as u32) % 7).collect::<Vec<_>>()),
                |t, (i, ops)| callbacks(name, tr, &fs[*i], ops, t),
            );
        }
    }
}
