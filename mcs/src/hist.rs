//! Histories of calls on a solver, executed in lock step with a truth-table model
use crate::common::{cl, l, ls};
use crate::drv::{Drv, Traits};
use crate::rt::Tally;
use crate::{check, ensure_eq};
use rustsat::solvers::{PropagateResult, SolverResult, SolverState, StateError};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};

/// Variables 0..NV take part in the truth table
pub const NV: usize = 4;

#[derive(Clone, Debug)]
pub enum Op {
    Add(Vec<i32>),
    Solve,
    Assume(Vec<i32>),
    Reserve(u32),
    Phase(i32),
    Unphase(u32),
    Freeze(u32),
    Melt(u32),
    Flip(i32),
    Conf(Option<u32>),
    Dec(Option<u32>),
    Props(Option<u32>),
    Propagate(Vec<i32>, bool),
    Interrupt,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Last {
    Config,
    Input,
    Sat(Vec<Lit>),
    Unsat(Vec<Lit>),
}

pub fn tt(c: &[Lit]) -> u16 {
    let mut m = 0;
    for a in 0..1u32 << NV {
        if c.iter().any(|x| (a >> x.vidx() & 1 == 1) == x.is_pos()) {
            m |= 1 << a;
        }
    }
    m
}

pub fn cube_tt(a: &[Lit]) -> u16 {
    a.iter().fold(!0, |m, x| if x.vidx() < NV { m & tt(&[*x]) } else { m })
}

/// Literals contradict each other (also those beyond the table)
pub fn contradictory(a: &[Lit]) -> bool {
    a.iter().any(|x| a.contains(&!*x))
}

pub struct Model {
    pub clauses: Vec<Clause>,
    pub table: u16,
    pub last: Last,
    pub sat: usize,
    pub unsat: usize,
    pub term: usize,
    pub len_sum: usize,
    /// variables that must / may be known to the solver
    pub must: Option<usize>,
    pub may: Option<usize>,
    /// a limit or interrupt allows the next solve call to stop early
    pub may_stop: bool,
    /// stays until changed (MiniSat's budgets, interrupt)
    pub sticky_stop: [bool; 3],
    /// an interrupt was requested and no solve call executed since
    pub pending: bool,
    pub frozen: [i32; 8],
}

impl Model {
    pub fn new(t: Traits) -> Self {
        Model {
            clauses: vec![],
            table: !0,
            last: if t.configuring { Last::Config } else { Last::Input },
            sat: 0,
            unsat: 0,
            term: 0,
            len_sum: 0,
            must: None,
            may: t.reserved,
            may_stop: false,
            sticky_stop: [t.may_stop, false, false],
            pending: false,
            frozen: [0; 8],
        }
    }
    fn may_use(&mut self, v: usize) {
        self.may = Some(self.may.map_or(v, |m| m.max(v)));
    }
    fn solved(&self) -> bool {
        matches!(self.last, Last::Sat(_) | Last::Unsat(_))
    }
}

fn state_err<T: std::fmt::Debug>(r: anyhow::Result<T>, req: SolverState, m: &Model, what: &str) -> Result<(), String> {
    match r {
        Ok(v) => Err(format!("{what} answers {v:?} in a state without such an answer ({:?})", m.last)),
        Err(e) => match e.downcast::<StateError>() {
            Ok(e) => {
                ensure_eq!(e.required_state, req, "{what}: required state of the error");
                let act = match m.last {
                    Last::Config => vec![SolverState::Configuring, SolverState::Input],
                    Last::Input => vec![SolverState::Input],
                    Last::Sat(_) => vec![SolverState::Sat],
                    Last::Unsat(_) => vec![SolverState::Unsat],
                };
                check!(act.contains(&e.actual_state), "{what}: actual state {:?}, expected one of {act:?}", e.actual_state);
                Ok(())
            }
            Err(e) => Err(format!("{what}: error is no state error: {e}")),
        },
    }
}

/// A (partial) assignment satisfies clauses and assumptions whatever the open variables are
pub fn satisfies(m: &Model, asm: &[Lit], val: &dyn Fn(Lit) -> TernaryVal) -> Result<(), String> {
    for c in &m.clauses {
        let ok = c.iter().any(|x| val(*x) == TernaryVal::True) || contradictory(AsRef::<[Lit]>::as_ref(c));
        check!(ok, "model does not satisfy the clause {c:?}");
    }
    for a in asm {
        check!(val(*a) == TernaryVal::True, "model does not satisfy the assumption {a:?}");
    }
    Ok(())
}

pub struct What {
    /// verdicts, models, cores (P20)
    pub answers: bool,
    /// states and statistics (P21)
    pub states: bool,
    /// observe at the end only
    pub last_only: bool,
}

/// Compares everything that can be observed
pub fn observe(d: &mut dyn Drv, tr: Traits, m: &mut Model, w: &What, t: &mut Tally) -> Result<(), String> {
    const PROBE: [i32; 8] = [1, 2, 3, 4, 5, 6, 9, 200];
    match m.last.clone() {
        Last::Sat(asm) => {
            if w.answers {
                let get = |x: Lit| d.lit_val(x);
                for p in PROBE {
                    let (a, b) = (
                        get(l(p)).map_err(|e| format!("lit_val({p}) fails after sat: {e}"))?,
                        get(l(-p)).map_err(|e| format!("lit_val(-{p}) fails after sat: {e}"))?,
                    );
                    ensure_eq!(b, neg(a), "value of literal -{p} while {p} is {a:?}");
                    let c = d.var_val(l(p).var()).map_err(|e| format!("var_val({p}) fails after sat: {e}"))?;
                    ensure_eq!(c, a, "var_val({p}) against lit_val");
                    t.step(3);
                }
                satisfies(m, &asm, &|x| get(x).unwrap())?;
                for hv in [0u32, 3, 5, 11] {
                    let s: Assignment = d.solution(Var::new(hv)).map_err(|e| format!("solution fails after sat: {e}"))?;
                    for v in 0..=hv {
                        ensure_eq!(s.var_value(Var::new(v)), get(Lit::positive(v)).unwrap(), "solution({hv}) for variable {v}");
                    }
                    ensure_eq!(s.var_value(Var::new(hv + 1)), TernaryVal::DontCare, "solution({hv}) beyond its end");
                    t.step(1);
                }
                let s = d.full_solution().map_err(|e| format!("full_solution fails after sat: {e}"))?;
                satisfies(m, &asm, &|x| s.lit_value(x)).map_err(|e| format!("full_solution: {e}"))?;
            }
            if w.states {
                if let Some(r) = d.core() {
                    state_err(r, SolverState::Unsat, m, "core()")?;
                    t.step(1);
                }
            }
        }
        last => {
            if w.states {
                for p in [1, -2, 4, 9] {
                    state_err(d.lit_val(l(p)), SolverState::Sat, m, "lit_val")?;
                    state_err(d.var_val(l(p).var()), SolverState::Sat, m, "var_val")?;
                }
                state_err(d.solution(Var::new(2)), SolverState::Sat, m, "solution")?;
                state_err(d.full_solution(), SolverState::Sat, m, "full_solution")?;
                if let Some(r) = d.flippable(l(1)) {
                    state_err(r, SolverState::Sat, m, "is_flippable")?;
                }
                if let Some(r) = d.flip(l(1)) {
                    state_err(r, SolverState::Sat, m, "flip_lit")?;
                }
                t.step(6);
            }
            match (last, d.core()) {
                (_, None) => (),
                (Last::Unsat(asm), Some(core)) => {
                    if w.answers {
                        let core = core.map_err(|e| format!("core() fails after unsat: {e}"))?;
                        for c in &core {
                            check!(asm.contains(&!*c), "core literal {c:?} is no negated assumption of {asm:?}");
                        }
                        let neg: Vec<Lit> = core.iter().map(|c| !*c).collect();
                        check!(
                            m.table & cube_tt(&neg) == 0 || contradictory(&neg),
                            "core {core:?} is not entailed by the clauses"
                        );
                        let again = d.core().unwrap().map_err(|e| e.to_string())?;
                        ensure_eq!(again, core, "core() called again");
                        t.step(2);
                    }
                }
                (_, Some(r)) => {
                    if w.states {
                        state_err(r, SolverState::Unsat, m, "core()")?;
                        t.step(1);
                    }
                }
            }
        }
    }
    if w.states {
        let s = d.stats();
        let (sat, unsat, term, ncl, mv, nv, ns) = d.stat_parts();
        ensure_eq!((sat, unsat, term), (m.sat, m.unsat, m.term), "numbers of (sat, unsat, terminated) solve calls");
        ensure_eq!((s.n_sat, s.n_unsat, s.n_terminated), (m.sat, m.unsat, m.term), "stats(): (sat, unsat, terminated)");
        ensure_eq!(ns, m.sat + m.unsat + m.term, "n_solves");
        ensure_eq!(s.n_clauses, ncl, "stats().n_clauses against n_clauses()");
        ensure_eq!(s.max_var, mv, "stats().max_var against max_var()");
        ensure_eq!(nv, mv.map_or(0, |v| v.idx() + 1), "n_vars against max_var");
        if tr.internal_clauses {
            check!(ncl <= m.clauses.len(), "n_clauses is {ncl} after adding {}", m.clauses.len());
        } else {
            ensure_eq!(ncl, m.clauses.len(), "n_clauses");
        }
        let avg = if m.clauses.is_empty() { 0.0 } else { m.len_sum as f32 / m.clauses.len() as f32 };
        check!((s.avg_clause_len - avg).abs() < 1e-4, "average clause length {} instead of {avg}", s.avg_clause_len);
        let mvi = mv.map(|v| v.idx());
        check!(m.must <= mvi && mvi <= m.may, "max_var is {mvi:?}, must be between {:?} and {:?}", m.must, m.may);
        t.step(8);
    }
    Ok(())
}

pub fn neg(a: TernaryVal) -> TernaryVal {
    match a {
        TernaryVal::True => TernaryVal::False,
        TernaryVal::False => TernaryVal::True,
        x => x,
    }
}

/// Executes one call on solver and model and compares its result. Returns false if the solver does
/// not offer the call
pub fn step(d: &mut dyn Drv, tr: Traits, m: &mut Model, i: usize, op: &Op, w: &What, t: &mut Tally) -> Result<bool, String> {
    t.step(1);
    if tr.dead_after_stop && m.term > 0 {
        let r = match op {
            Op::Add(c) => d.add(&cl(c), i),
            Op::Solve => d.solve().map(|_| ()),
            _ => return Ok(true),
        };
        check!(r.is_err(), "call is accepted after an interrupted one");
        return Ok(true);
    }
    match op {
        Op::Add(c) => {
            let c: Clause = cl(c);
            let r = d.add(&c, i);
            if !tr.incremental && m.solved() {
                if w.states {
                    state_err(r, SolverState::Input, m, "adding a clause")?;
                }
                return Ok(true);
            }
            r.map_err(|e| format!("adding a clause fails: {e}"))?;
            for x in &c {
                m.must = Some(m.must.map_or(x.vidx(), |v| v.max(x.vidx())));
                m.may_use(x.vidx());
            }
            m.table &= tt(AsRef::<[Lit]>::as_ref(&c));
            m.len_sum += c.len();
            m.clauses.push(c);
            m.last = Last::Input;
        }
        Op::Solve => {
            let cached = match &m.last {
                Last::Sat(_) => true,
                Last::Unsat(a) => a.is_empty() || !tr.incremental,
                _ => false,
            };
            let counts = d.stats();
            let r = d.solve().map_err(|e| format!("solve fails: {e}"))?;
            let expect = if m.table != 0 { SolverResult::Sat } else { SolverResult::Unsat };
            if r == SolverResult::Interrupted {
                check!(m.may_stop || m.sticky_stop.contains(&true) || m.pending, "solve is interrupted without reason");
                m.term += 1;
                m.last = Last::Input;
            } else {
                if w.answers {
                    ensure_eq!(r, expect, "verdict");
                }
                // a cached answer is no executed query; an empty core may make the same of a query
                // under assumptions
                let now = d.stats();
                let ran = now.n_sat + now.n_unsat > counts.n_sat + counts.n_unsat;
                let may_cache = cached || (matches!(m.last, Last::Unsat(_)) && m.table == 0);
                if !cached || ran {
                    let executed = ran || !may_cache;
                    if executed {
                        match expect {
                            SolverResult::Sat => m.sat += 1,
                            _ => m.unsat += 1,
                        }
                    }
                }
                let asm = match &m.last {
                    Last::Sat(a) if !ran => a.clone(),
                    _ => vec![],
                };
                m.last = if expect == SolverResult::Sat { Last::Sat(asm) } else { Last::Unsat(vec![]) };
            }
            m.may_stop = false;
            let now = d.stats();
            m.pending &= now.n_sat + now.n_unsat + now.n_terminated == counts.n_sat + counts.n_unsat + counts.n_terminated;
            t.outcome(&format!("{r:?}"));
        }
        Op::Assume(a) => {
            let a = ls(a);
            let Some(r) = d.solve_assumps(&a) else { return Ok(false) };
            let r = r.map_err(|e| format!("solve_assumps fails: {e}"))?;
            for x in &a {
                m.may_use(x.vidx());
            }
            let sat = m.table & cube_tt(&a) != 0 && !contradictory(&a);
            let expect = if sat { SolverResult::Sat } else { SolverResult::Unsat };
            if r == SolverResult::Interrupted {
                check!(m.may_stop || m.sticky_stop.contains(&true) || m.pending, "solve_assumps is interrupted without reason");
                m.term += 1;
                m.last = Last::Input;
            } else {
                if w.answers {
                    ensure_eq!(r, expect, "verdict under {a:?}");
                }
                if sat {
                    m.sat += 1;
                    m.last = Last::Sat(a);
                } else {
                    m.unsat += 1;
                    m.last = Last::Unsat(a);
                }
            }
            m.may_stop = false;
            m.pending = false;
            t.outcome(&format!("{r:?} under assumptions"));
        }
        Op::Reserve(v) => {
            d.reserve(Var::new(*v)).map_err(|e| format!("reserve fails: {e}"))?;
            m.may_use(*v as usize);
            adapt(d, m);
        }
        Op::Phase(p) => {
            let Some(r) = d.phase(l(*p)) else { return Ok(false) };
            r.map_err(|e| format!("phase_lit fails: {e}"))?;
            m.may_use(l(*p).vidx());
            adapt(d, m);
        }
        Op::Unphase(v) => {
            let Some(r) = d.unphase(Var::new(*v)) else { return Ok(false) };
            r.map_err(|e| format!("unphase_var fails: {e}"))?;
            m.may_use(*v as usize);
            adapt(d, m);
        }
        Op::Freeze(v) => {
            let Some(r) = d.freeze(Var::new(*v)) else { return Ok(false) };
            r.map_err(|e| format!("freeze_var fails: {e}"))?;
            m.may_use(*v as usize);
            m.frozen[*v as usize] += 1;
            let f = d.is_frozen(Var::new(*v)).unwrap().map_err(|e| e.to_string())?;
            check!(f, "variable {v} is not frozen after freeze_var");
            adapt(d, m);
        }
        Op::Melt(v) => {
            // only legal for a frozen variable
            if m.frozen[*v as usize] == 0 || tr.reserved.is_some() {
                return Ok(false);
            }
            let Some(r) = d.melt(Var::new(*v)) else { return Ok(false) };
            r.map_err(|e| format!("melt_var fails: {e}"))?;
            m.frozen[*v as usize] -= 1;
            let f = d.is_frozen(Var::new(*v)).unwrap().map_err(|e| e.to_string())?;
            if m.frozen[*v as usize] == 0 {
                check!(!f, "variable {v} is frozen after melting it as often as freezing it");
            }
            adapt(d, m);
        }
        Op::Flip(p) => {
            if !matches!(m.last, Last::Sat(_)) || m.must < Some(l(*p).vidx()) {
                return Ok(false);
            }
            let Some(can) = d.flippable(l(*p)) else { return Ok(false) };
            let can = can.map_err(|e| format!("is_flippable fails: {e}"))?;
            let before = d.lit_val(l(*p)).map_err(|e| e.to_string())?;
            let done = d.flip(l(*p)).unwrap().map_err(|e| format!("flip_lit fails: {e}"))?;
            ensure_eq!(done, can, "flip_lit against is_flippable");
            let after = d.lit_val(l(*p)).map_err(|e| e.to_string())?;
            if done {
                ensure_eq!(after, neg(before), "value of {p} after flipping");
                // the flipped model satisfies the clauses, assumptions are not kept
                if let Last::Sat(a) = &mut m.last {
                    a.retain(|x| x.var() != l(*p).var());
                }
            } else {
                ensure_eq!(after, before, "value of {p} after a refused flip");
            }
            t.outcome(if done { "flipped" } else { "not flippable" });
        }
        Op::Conf(x) => {
            let Some(r) = d.limit_conflicts(*x) else { return Ok(false) };
            r.map_err(|e| format!("limit_conflicts fails: {e}"))?;
            set_limit(m, tr, 0, *x);
        }
        Op::Dec(x) => {
            let Some(r) = d.limit_decisions(*x) else { return Ok(false) };
            r.map_err(|e| format!("limit_decisions fails: {e}"))?;
            set_limit(m, tr, 1, *x);
        }
        Op::Props(x) => {
            let Some(r) = d.limit_propagations(*x) else { return Ok(false) };
            r.map_err(|e| format!("limit_propagations fails: {e}"))?;
            set_limit(m, tr, 2, *x);
        }
        Op::Propagate(a, ps) => {
            let a = ls(a);
            let Some(r) = d.propagate(&a, *ps) else { return Ok(false) };
            let r = r.map_err(|e| format!("propagate fails: {e}"))?;
            for x in &a {
                m.may_use(x.vidx());
            }
            propagated(m, &a, &r, t)?;
            m.last = if d.lit_val(l(1)).is_ok() { Last::Sat(a) } else { Last::Input };
        }
        Op::Interrupt => {
            if d.interrupt().is_none() {
                return Ok(false);
            }
            m.pending = true;
        }
    }
    Ok(true)
}

fn set_limit(m: &mut Model, tr: Traits, kind: usize, x: Option<u32>) {
    if tr.one_shot_limits {
        // CaDiCaL: for the next call only
        m.may_stop |= x.is_some();
    } else {
        m.sticky_stop[kind] = x.is_some();
    }
}

/// Calls that give no answer may leave the answers of the last solve call or drop them
fn adapt(d: &mut dyn Drv, m: &mut Model) {
    let gone = match &m.last {
        Last::Sat(_) => d.lit_val(l(1)).is_err(),
        Last::Unsat(_) => d.core().is_some_and(|c| c.is_err()),
        Last::Config => false,
        Last::Input => false,
    };
    if gone {
        m.last = Last::Input;
    }
}

/// Unit propagation; `None` on a conflict
pub fn unit_propagation(clauses: &[Clause], a: &[Lit]) -> Option<Vec<Lit>> {
    let mut set: Vec<Lit> = vec![];
    for x in a {
        if set.contains(&!*x) {
            return None;
        }
        if !set.contains(x) {
            set.push(*x);
        }
    }
    loop {
        let mut new = None;
        for c in clauses {
            if c.iter().any(|x| set.contains(x)) {
                continue;
            }
            let mut open: Vec<Lit> = c.iter().copied().filter(|x| !set.contains(&!*x)).collect();
            open.dedup();
            match open[..] {
                [] => return None,
                [x] => new = Some(x),
                _ => (),
            }
        }
        match new {
            None => return Some(set),
            Some(x) => set.push(x),
        }
    }
}

/// The result of a propagate call against unit propagation and entailment
pub fn propagated(m: &Model, a: &[Lit], r: &PropagateResult, t: &mut Tally) -> Result<(), String> {
    let table = m.table & cube_tt(a);
    let unsat = table == 0 || contradictory(a);
    let up = unit_propagation(&m.clauses, a);
    t.step(1);
    t.outcome(&format!("propagation conflict {} derived {}", r.conflict, r.propagated.len()));
    match &up {
        // an interrupted call may know less
        _ if m.pending || m.may_stop => (),
        None => check!(r.conflict, "no conflict reported for {a:?}, unit propagation has one: {:?}", r.propagated),
        Some(set) => {
            check!(!r.conflict || unsat, "conflict reported for {a:?}, but the assumptions are consistent");
            if !r.conflict {
                for x in set {
                    let root = x.vidx() < NV && m.table & !tt(&[*x]) == 0;
                    check!(
                        r.propagated.contains(x) || a.contains(x) || root,
                        "propagation of {a:?} does not report {x:?}, but {:?}",
                        r.propagated
                    );
                }
            }
        }
    }
    for x in &r.propagated {
        let entailed = if x.vidx() < NV { table & !tt(&[*x]) == 0 } else { a.contains(x) };
        check!(entailed || unsat, "propagation of {a:?} reports {x:?} which is not entailed");
    }
    if !r.conflict {
        for (i, x) in r.propagated.iter().enumerate() {
            check!(!r.propagated[..i].contains(x), "propagation of {a:?} reports {x:?} twice");
        }
    }
    Ok(())
}

/// Runs a history, observing after each call
pub fn run(name: &str, tr: Traits, h: &[Op], w: &What, t: &mut Tally) -> Result<(), String> {
    let mut d = crate::sol::create(name);
    let mut m = Model::new(tr);
    if !w.last_only || h.is_empty() {
        observe(d.as_mut(), tr, &mut m, w, t)?;
    }
    let mut gone_clause = false;
    for (i, op) in h.iter().enumerate() {
        if tr.one_shot && m.sat + m.unsat > 0 && matches!(op, Op::Add(_) | Op::Assume(_)) {
            return Ok(());
        }
        if !tr.one_shot {
            if let Op::Add(c) | Op::Assume(c) = op {
                let gone = c.iter().any(|x| d.eliminated(l(*x).var()));
                check!(!gone || tr.reserved.is_none(), "frozen variable is eliminated before call {i} ({op:?})");
                match op {
                    // documented to be refused
                    Op::Assume(_) if gone => {
                        let r = d.solve_assumps(&ls(c)).unwrap();
                        check!(r.is_err(), "assumptions over eliminated variables are accepted");
                        return Ok(());
                    }
                    _ => gone_clause |= gone,
                }
            }
        }
        let known = |e: String| if gone_clause { format!("[known:glucose-eliminated]{e}") } else { e };
        if !step(d.as_mut(), tr, &mut m, i, op, w, t).map_err(|e| format!("call {i} ({op:?}): {e}")).map_err(known)? {
            continue;
        }
        t.state((m.table, format!("{:?}", m.last), m.clauses.len(), m.may));
        if w.last_only && i + 1 < h.len() {
            continue;
        }
        observe(d.as_mut(), tr, &mut m, w, t).map_err(|e| format!("after call {i} ({op:?}): {e}")).map_err(known)?;
    }
    Ok(())
}
