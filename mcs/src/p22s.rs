//! P22 the simulation of incremental solving over solvers that fail or are interrupted at any call
use crate::common::{cl, ls};
use crate::drv::add_via;
use crate::oracle::Dpll;
use crate::rt::{seqs, Ctx, Tally};
use crate::{check, ensure_eq};
use rustsat::solvers::simulators::Incremental;
use rustsat::solvers::{Initialize, Solve, SolveIncremental, SolveStats, SolverResult, SolverState, StateError};
use rustsat::types::{Cl, Clause, Lit, TernaryVal, Var};
use std::cell::RefCell;

/// What happens to a call of the simulated solver
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Error,
    Interrupt,
}

#[derive(Default)]
struct World {
    /// calls made to simulated solvers so far, which of them are solve calls
    calls: Vec<bool>,
    faults: Vec<(usize, Fault)>,
    /// faults that took place
    hit: usize,
    /// solvers may be used after they have been solved
    loose: bool,
    /// the last misuse of a solver
    misuse: Option<&'static str>,
}

thread_local!(static WORLD: RefCell<World> = RefCell::default());

fn fault(solve: bool) -> Option<Fault> {
    WORLD.with(|w| {
        let mut w = w.borrow_mut();
        let i = w.calls.len();
        w.calls.push(solve);
        let f = w.faults.iter().find(|f| f.0 == i).map(|f| f.1);
        let f = if f == Some(Fault::Interrupt) && !solve { None } else { f };
        w.hit += usize::from(f.is_some());
        f
    })
}

/// A solver that can be solved a single time, or (loose) that remembers everything it is told
pub struct Simple {
    db: Dpll,
    res: Option<SolverResult>,
    model: Vec<Lit>,
    vars: u32,
}

impl Simple {
    fn usable(&self) -> anyhow::Result<()> {
        if self.res.is_some() {
            WORLD.with(|w| {
                let mut w = w.borrow_mut();
                if w.loose {
                    return Ok(());
                }
                w.misuse = Some("a solver that cannot be used after solving is used again");
                anyhow::bail!("misuse")
            })?;
        }
        Ok(())
    }
}

pub struct Init;
impl Initialize<Simple> for Init {
    fn init() -> Simple {
        Simple { db: Dpll::new(), res: None, model: vec![], vars: 0 }
    }
}

impl Solve for Simple {
    fn signature(&self) -> &'static str {
        "simple"
    }
    fn solve(&mut self) -> anyhow::Result<SolverResult> {
        self.usable()?;
        match fault(true) {
            Some(Fault::Error) => anyhow::bail!("injected"),
            Some(Fault::Interrupt) => {
                self.res = Some(SolverResult::Interrupted);
                return Ok(SolverResult::Interrupted);
            }
            None => (),
        }
        let mut m: Vec<Lit> = vec![];
        let r = if self.db.sat(&[]) {
            for v in 0..self.vars {
                m.push(Lit::positive(v));
                if !self.db.sat(&m) {
                    *m.last_mut().unwrap() = Lit::negative(v);
                }
            }
            SolverResult::Sat
        } else {
            SolverResult::Unsat
        };
        self.model = m;
        self.res = Some(r);
        Ok(r)
    }
    fn lit_val(&self, lit: Lit) -> anyhow::Result<TernaryVal> {
        if self.res != Some(SolverResult::Sat) {
            anyhow::bail!(StateError { required_state: SolverState::Sat, actual_state: SolverState::Input });
        }
        Ok(if self.model.contains(&lit) {
            TernaryVal::True
        } else if self.model.contains(&!lit) {
            TernaryVal::False
        } else {
            TernaryVal::DontCare
        })
    }
    fn add_clause_ref<C: AsRef<Cl> + ?Sized>(&mut self, clause: &C) -> anyhow::Result<()> {
        self.usable()?;
        if fault(false).is_some() {
            anyhow::bail!("injected");
        }
        let c: Vec<Lit> = clause.as_ref().iter().copied().collect();
        self.vars = c.iter().map(|l| l.vidx32() + 1).max().unwrap_or(0).max(self.vars);
        self.db.add(c);
        self.res = None;
        Ok(())
    }
}

impl Extend<Clause> for Simple {
    fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
        iter.into_iter().for_each(|c| self.add_clause(c).unwrap());
    }
}
impl<'a, C: AsRef<Cl> + ?Sized> Extend<&'a C> for Simple {
    fn extend<T: IntoIterator<Item = &'a C>>(&mut self, iter: T) {
        iter.into_iter().for_each(|c| self.add_clause_ref(c).unwrap());
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Add(&'static [i32]),
    Solve,
    Assume(&'static [i32]),
}
use Op::*;

/// Runs a history, returns the kinds of the calls made to the simulated solvers
fn history(t: &mut Tally, h: &[Op], loose: bool, faults: &[(usize, Fault)]) -> Result<Vec<bool>, String> {
    WORLD.with(|w| *w.borrow_mut() = World { loose, faults: faults.to_vec(), ..World::default() });
    let hits = || WORLD.with(|w| w.borrow().hit);
    let mut s = Incremental::<Simple, Init>::default();
    // an error on adding a clause leaves it open whether it has been added
    let mut sure: Vec<Vec<i32>> = vec![];
    let mut open: Vec<Vec<i32>> = vec![];
    let (mut n_sat, mut n_unsat, mut n_int, mut errs) = (0, 0, 0, 0usize);
    let mut mv = 0;
    let db = |a: &[Vec<i32>], b: &[Vec<i32>]| {
        let mut d = Dpll::new();
        a.iter().chain(b).for_each(|c| d.add(ls(c)));
        d
    };
    for (i, op) in h.iter().enumerate() {
        let before = hits();
        let what = format!("step {i} {op:?}");
        let fail = |e: anyhow::Error, errs: &mut usize| -> Result<(), String> {
            *errs += 1;
            // only a failure of the simulated solver, now or earlier, is a reason for an error
            check!(hits() > before || (*errs > 1 && hits() > 0), "{what}: {e}: {:?}", WORLD.with(|w| w.borrow().misuse));
            Ok(())
        };
        let (asm, r): (&[i32], _) = match op {
            Add(c) => {
                match add_via(&mut s, &cl(c), i) {
                    Ok(()) => {
                        sure.push(c.to_vec());
                        mv = mv.max(c.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0));
                    }
                    Err(e) => {
                        fail(e, &mut errs)?;
                        open.push(c.to_vec());
                    }
                }
                check!(s.lit_val(ls(&[1])[0]).is_err(), "{what}: value after adding a clause");
                check!(s.core().is_err(), "{what}: core after adding a clause");
                continue;
            }
            Solve => (&[], s.solve()),
            Assume(a) => (a, s.solve_assumps(&ls(a))),
        };
        mv = mv.max(asm.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                fail(e, &mut errs)?;
                check!(s.core().is_err(), "{what}: core after an error");
                check!(s.lit_val(ls(&[1])[0]).is_err(), "{what}: value after an error");
                continue;
            }
        };
        t.outcome(&format!("{r:?}"));
        t.step(1);
        match r {
            SolverResult::Interrupted => {
                check!(hits() > before, "{what}: interrupted");
                n_int += 1;
                check!(s.core().is_err(), "{what}: core after an interrupt");
                check!(s.lit_val(ls(&[1])[0]).is_err(), "{what}: value after an interrupt");
            }
            SolverResult::Sat => {
                n_sat += 1;
                check!(db(&sure, &[]).sat(&ls(asm)), "{what}: satisfiable");
                check!(s.core().is_err(), "{what}: core when satisfiable");
                let val = |x: i32| s.lit_val(ls(&[x])[0]).map_err(|e| format!("{what}: {e}"));
                for c in &sure {
                    let mut ok = c.iter().any(|x| c.contains(&-x));
                    for x in c {
                        ok |= val(*x)? == TernaryVal::True;
                    }
                    check!(ok, "{what}: model does not satisfy {c:?}");
                }
                for x in asm {
                    ensure_eq!(val(*x)?, TernaryVal::True, "{what}: assumption {x}");
                }
            }
            SolverResult::Unsat => {
                n_unsat += 1;
                check!(!db(&sure, &open).sat(&ls(asm)), "{what}: unsatisfiable");
                let core = s.core().map_err(|e| format!("{what}: {e}"))?;
                check!(core.iter().all(|l| ls(asm).contains(&!*l)), "{what}: core {core:?}");
                let neg: Vec<Lit> = core.iter().map(|l| !*l).collect();
                check!(!db(&sure, &open).sat(&neg), "{what}: core {core:?} is not entailed");
                check!(s.lit_val(ls(&[1])[0]).is_err(), "{what}: value when unsatisfiable");
            }
        }
        // the verdict is remembered until something changes
        let calls = WORLD.with(|w| w.borrow().calls.len());
        if r == SolverResult::Sat {
            ensure_eq!(s.solve().ok(), Some(r), "{what}: verdict asked for again");
            ensure_eq!(WORLD.with(|w| w.borrow().calls.len()), calls, "{what}: calls for a known verdict");
        }
        let st = s.stats();
        if !h[..i].iter().any(|o| matches!(o, Solve)) {
            // answers to solve() that were known before are not counted
            let again = h[..=i].iter().filter(|o| matches!(o, Solve)).count();
            check!(st.n_sat + st.n_unsat + st.n_terminated + again >= n_sat + n_unsat + n_int, "{what}: number of calls {st:?}");
        }
        check!(st.n_sat <= n_sat && st.n_unsat <= n_unsat, "{what}: verdicts {st:?}");
        ensure_eq!(st.n_terminated, n_int, "{what}: terminated calls");
        check!(st.n_clauses >= sure.len() && st.n_clauses <= sure.len() + open.len(), "{what}: {} clauses", st.n_clauses);
        if errs == 0 {
            ensure_eq!(st.max_var, mv.checked_sub(1).map(Var::new), "{what}: maximum variable");
        }
        t.state((&sure, asm.len(), format!("{r:?}")));
    }
    Ok(WORLD.with(|w| w.borrow().calls.clone()))
}

pub fn run(cx: &Ctx) {
    let depth = cx.pick(4, 5);
    let a: Vec<Op> = vec![
        Add(&[1]), Add(&[-1, 2]), Add(&[3, -4, 1, 2]), Add(&[]), Add(&[-9, 8, 5, 6, 7, -2]),
        Solve, Assume(&[]), Assume(&[-1]), Assume(&[-2]), Assume(&[3, -2]), Assume(&[11]),
    ];
    cx.bound("history length of simulated incremental solving with faults", depth);
    let mut hs = seqs(&a, 1, depth);
    hs.retain(|h| h.iter().any(|o| !matches!(o, Add(_))));
    // long clauses, every one of which matters
    let long: &[&[i32]] = &[&[1, 2, 3, 4], &[-1, 2, 3, 4], &[-2, 3, 4], &[-3, 4], &[-4, 5, -5, 6], &[-4]];
    for k in 0..=long.len() {
        let mut h: Vec<Op> = vec![Solve];
        for (i, c) in long.iter().enumerate() {
            h.push(Add(c));
            if i >= k {
                h.push(if i % 2 == 0 { Solve } else { Assume(&[-4]) });
            }
        }
        h.push(Solve);
        hs.push(h);
    }
    cx.bound("faults", "an error or interrupt of any single call of the simulated solver (thorough: any two)");
    let two = cx.pick(false, true);
    cx.run("faults in simulated solvers", &hs, |t, h| {
        for loose in [false, true] {
            let calls = history(t, h, loose, &[])?;
            for (i, &solve) in calls.iter().enumerate() {
                for f in [Fault::Error, Fault::Interrupt] {
                    if f == Fault::Interrupt && !solve {
                        continue;
                    }
                    let e = |m: String| format!("call {i} of the simulated solver: {f:?}: {m}");
                    let calls = history(t, h, loose, &[(i, f)]).map_err(e)?;
                    if !two || h.len() > 4 {
                        continue;
                    }
                    for (j, &solve) in calls.iter().enumerate().skip(i + 1) {
                        for g in [Fault::Error, Fault::Interrupt] {
                            if g == Fault::Interrupt && !solve {
                                continue;
                            }
                            history(t, h, loose, &[(i, f), (j, g)]).map_err(|m| format!("calls {i} {j} of the simulated solver: {f:?} {g:?}: {m}"))?;
                        }
                    }
                }
            }
        }
        Ok(())
    });
}
