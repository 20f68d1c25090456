//! P27 the events given to a proof tracer are the derivation of the solver
use crate::common::{cl, ls};
use crate::hist::{contradictory, tt, NV};
use crate::p20::structured;
use crate::p20x::{alphabet, observe, step, Cad, M, X};
use crate::rt::{Ctx, Tally};
use crate::{check, ensure_eq};
use rustsat::solvers::{Solve, SolveIncremental};
use rustsat::types::{Lit, TernaryVal};
use std::collections::BTreeMap;
use rustsat_cadical::*;
use std::cell::RefCell;
use std::rc::Rc;
use rustsat::solvers::SolverResult;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Orig(i64, bool, Vec<Lit>, bool),
    Derived(i64, bool, Vec<Lit>, Vec<i64>),
    Delete(i64, bool, Vec<Lit>),
    Weaken(i64, Vec<Lit>),
    Strengthen(i64),
    Status(SolverResult, i64),
    Finalize(i64, Vec<Lit>),
    Begin(i64),
    Query,
    Assumption(Lit),
    Constraint(Vec<Lit>),
    Reset,
    AClause(i64, Vec<Lit>, Vec<i64>),
    CUnsat(Conclusion, Vec<i64>),
    CSat(Vec<Lit>),
    CUnknown(Vec<Lit>),
    Equiv(Lit, Lit),
}

pub type Log = Rc<RefCell<Vec<Ev>>>;
struct T(Log);
impl T {
    fn p(&mut self, e: Ev) {
        self.0.borrow_mut().push(e);
    }
}
fn c(c: &CaDiCaLClause) -> Vec<Lit> {
    c.iter().collect()
}
fn ids(i: &[ClauseId]) -> Vec<i64> {
    i.iter().map(|x| x.0).collect()
}
impl TraceProof for T {
    fn add_original_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, restored: bool) {
        self.p(Ev::Orig(id.0, redundant, c(clause), restored));
    }
    fn add_derived_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause, a: &[ClauseId]) {
        self.p(Ev::Derived(id.0, redundant, c(clause), ids(a)));
    }
    fn delete_clause(&mut self, id: ClauseId, redundant: bool, clause: &CaDiCaLClause) {
        self.p(Ev::Delete(id.0, redundant, c(clause)));
    }
    fn weaken_minus(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        self.p(Ev::Weaken(id.0, c(clause)));
    }
    fn strengthen(&mut self, id: ClauseId) {
        self.p(Ev::Strengthen(id.0));
    }
    fn report_status(&mut self, status: SolverResult, id: ClauseId) {
        self.p(Ev::Status(status, id.0));
    }
    fn finalize_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause) {
        self.p(Ev::Finalize(id.0, c(clause)));
    }
    fn begin_proof(&mut self, id: ClauseId) {
        self.p(Ev::Begin(id.0));
    }
    fn solve_query(&mut self) {
        self.p(Ev::Query);
    }
    fn add_assumption(&mut self, a: Lit) {
        self.p(Ev::Assumption(a));
    }
    fn add_constraint(&mut self, clause: &CaDiCaLClause) {
        self.p(Ev::Constraint(c(clause)));
    }
    fn reset_assumptions(&mut self) {
        self.p(Ev::Reset);
    }
    fn add_assumption_clause(&mut self, id: ClauseId, clause: &CaDiCaLClause, a: &[ClauseId]) {
        self.p(Ev::AClause(id.0, c(clause), ids(a)));
    }
    fn conclude_unsat(&mut self, k: Conclusion, f: &[ClauseId]) {
        self.p(Ev::CUnsat(k, ids(f)));
    }
    fn conclude_sat(&mut self, s: &CaDiCaLAssignment) {
        self.p(Ev::CSat(s.iter().collect()));
    }
    fn conclude_unknown(&mut self, s: &CaDiCaLAssignment) {
        self.p(Ev::CUnknown(s.iter().collect()));
    }
    fn notify_equivalence(&mut self, a: Lit, b: Lit) {
        self.p(Ev::Equiv(a, b));
    }
}

/// Normal form of a clause
fn norm(c: &[Lit]) -> Vec<Lit> {
    let mut c = c.to_vec();
    c.sort();
    c
}

fn conflict<'a>(cls: impl Iterator<Item = &'a Vec<Lit>> + Clone, neg: &[Lit]) -> bool {
    let mut set: Vec<Lit> = vec![];
    for x in neg {
        if set.contains(&!*x) {
            return true;
        }
        set.push(*x);
    }
    loop {
        let mut new = None;
        for c in cls.clone() {
            if c.iter().any(|x| set.contains(x)) {
                continue;
            }
            let mut open = c.iter().filter(|x| !set.contains(&!**x));
            let Some(x) = open.next() else { return true };
            if open.all(|y| y == x) {
                new = Some(*x);
                break;
            }
        }
        let Some(x) = new else { return false };
        set.push(x);
    }
}

/// Follows the events
#[derive(Default)]
pub struct Chk {
    pub ante: bool,
    /// the truth table of all user clauses is known
    pub table: bool,
    live: BTreeMap<i64, Vec<Lit>>,
    weak: BTreeMap<i64, Vec<Lit>>,
    max_id: i64,
    asm: Vec<Lit>,
    con: Option<Vec<Lit>>,
}

fn tt_all<'a>(c: impl Iterator<Item = &'a Vec<Lit>>) -> u16 {
    c.fold(!0, |m, c| m & tt(c))
}

impl Chk {
    fn fresh(&mut self, id: i64) -> Result<(), String> {
        check!(id > self.max_id, "identifier {id} is used again");
        self.max_id = id;
        Ok(())
    }
    fn rup(&self, cl: &[Lit], ante: &[i64]) -> Result<(), String> {
        let neg: Vec<Lit> = cl.iter().map(|x| !*x).collect();
        if !self.ante {
            check!(conflict(self.live.values(), &neg), "the clause {cl:?} does not follow by propagation from the clauses {:?}", self.live);
            return Ok(());
        }
        let mut cls = vec![];
        for i in ante {
            let Some(c) = self.live.get(i) else { return Err(format!("antecedent {i} of {cl:?} is no clause that exists")) };
            cls.push(c);
        }
        check!(conflict(cls.iter().copied(), &neg), "the clause {cl:?} does not follow by propagation from its antecedents {cls:?}");
        Ok(())
    }
    fn entailed(&self, cl: &[Lit], m: &M) -> Result<(), String> {
        if self.table && cl.iter().all(|x| x.vidx() < NV) {
            check!(m.table & !tt(cl) == 0, "the clause {cl:?} is not entailed by the clauses added");
        }
        Ok(())
    }

    /// The events of one call
    pub fn call(&mut self, op: &X, m: &M, before: bool, evs: &[Ev], s: &mut Cad, t: &mut Tally) -> Result<(), String> {
        let mut orig = vec![];
        let mut query = 0;
        let mut status = None;
        let mut concl: Vec<&Ev> = vec![];
        let mut acl: BTreeMap<i64, Vec<Lit>> = BTreeMap::new();
        let tmp = match &m.last {
            Some((_, _, c)) => c.clone(),
            None => None,
        };
        t.step(evs.len() as u64);
        for e in evs {
            match e {
                Ev::Orig(id, red, c, false) => {
                    self.fresh(*id)?;
                    check!(!red, "an original clause is redundant");
                    orig.push(norm(c));
                    self.live.insert(*id, norm(c));
                }
                Ev::Orig(id, _, c, true) => {
                    t.outcome("restored");
                    ensure_eq!(self.weak.remove(id), Some(norm(c)), "weakened clause with the identifier {id} of a restored one");
                    check!(self.live.insert(*id, norm(c)).is_none(), "the restored clause {id} exists already");
                }
                Ev::Derived(id, _, c, a) => {
                    t.outcome(if c.is_empty() { "derived empty" } else { "derived" });
                    self.fresh(*id)?;
                    self.rup(c, a)?;
                    self.entailed(c, m)?;
                    self.live.insert(*id, norm(c));
                }
                Ev::Delete(id, _, c) => {
                    ensure_eq!(self.live.remove(id), Some(norm(c)), "existing clause with the identifier {id} of a deleted one");
                }
                Ev::Weaken(id, c) => {
                    t.outcome("weakened");
                    ensure_eq!(self.live.get(id), Some(&norm(c)), "existing clause with the identifier {id} of a weakened one");
                    self.weak.insert(*id, norm(c));
                }
                Ev::Strengthen(id) => check!(self.live.contains_key(id), "the strengthened clause {id} does not exist"),
                Ev::Status(r, id) => {
                    check!(status.is_none(), "the status is reported twice");
                    status = Some((*r, *id));
                }
                Ev::Finalize(..) => return Err("a clause is finalized".into()),
                Ev::Begin(id) => check!(self.live.is_empty() && *id > self.max_id, "the proof begins again"),
                Ev::Query => query += 1,
                Ev::Assumption(a) => self.asm.push(*a),
                Ev::Constraint(c) => self.con = Some(c.clone()),
                Ev::Reset => {
                    self.asm.clear();
                    self.con = None;
                }
                Ev::AClause(id, c, a) => {
                    self.fresh(*id)?;
                    self.rup(c, a)?;
                    self.entailed(c, m)?;
                    acl.insert(*id, c.clone());
                }
                Ev::CUnsat(..) | Ev::CSat(_) | Ev::CUnknown(_) => concl.push(e),
                Ev::Equiv(a, b) => {
                    self.entailed(&[!*a, *b], m)?;
                    self.entailed(&[*a, !*b], m)?;
                }
            }
        }
        match op {
            X::Add(c) => ensure_eq!(orig, vec![norm(&ls(c))], "original clauses of an added clause"),
            _ => check!(orig.is_empty(), "original clauses {orig:?} from a call that adds none"),
        }
        // nothing is lost: what exists or may be restored is equivalent to what was added
        if self.table {
            let now = tt_all(self.live.values().chain(self.weak.values()));
            ensure_eq!(now, m.table, "models of the clauses that exist according to the events");
        }
        let call = matches!(op, X::Solve | X::Assume(_) | X::Simp(_) | X::SimpA(..));
        if !call {
            check!(query == 0 && status.is_none() && concl.is_empty(), "a query is reported by a call that is none");
            return Ok(());
        }
        if query == 0 {
            check!(before && !matches!(op, X::Assume(_)), "no query is reported");
            check!(status.is_none() && concl.is_empty() && evs.is_empty(), "events without a query");
            return Ok(());
        }
        ensure_eq!(query, 1, "number of queries reported");
        ensure_eq!(concl.len(), 1, "number of conclusions reported");
        let Some((st, id)) = status else { return Err("no status is reported".into()) };
        let a = match op {
            X::Assume(a) | X::SimpA(a, _) => ls(a),
            _ => vec![],
        };
        ensure_eq!(self.asm, a, "assumptions reported");
        match (&m.last, concl[0]) {
            (None, Ev::CUnknown(trail)) => {
                ensure_eq!(st, SolverResult::Interrupted, "status reported");
                check!(trail.iter().all(|x| !trail.contains(&!*x)), "contradictory trail");
            }
            (Some((true, ..)), Ev::CSat(model)) => {
                ensure_eq!(st, SolverResult::Sat, "status reported");
                for (i, x) in model.iter().enumerate() {
                    ensure_eq!(x.vidx(), i, "variable at position {i} of the model");
                    ensure_eq!(s.lit_val(*x).map_err(|e| e.to_string())?, TernaryVal::True, "value of the literal {x:?} of the reported model");
                }
                for c in m.clauses.iter().chain(&tmp) {
                    check!(c.iter().any(|x| model.contains(x)), "the reported model does not satisfy {c:?}");
                }
                check!(a.iter().all(|x| model.contains(x)), "the reported model does not satisfy the assumptions");
                ensure_eq!(id, 0, "clause of the status");
            }
            (Some((false, ..)), Ev::CUnsat(k, ids)) => {
                ensure_eq!(st, SolverResult::Unsat, "status reported");
                let mut core = s.core().map_err(|e| e.to_string())?;
                core.sort();
                core.dedup();
                t.outcome(&format!("{k:?}"));
                match k {
                    Conclusion::Conflict => {
                        ensure_eq!(ids.len(), 1, "number of failing clauses");
                        ensure_eq!(self.live.get(&ids[0]), Some(&vec![]), "failing clause");
                        ensure_eq!(id, ids[0], "clause of the status");
                        check!(core.is_empty(), "the core {core:?} contradicts the conclusion");
                    }
                    Conclusion::Assumptions => {
                        ensure_eq!(ids.len(), 1, "number of failing clauses");
                        let Some(c) = acl.get(&ids[0]) else { return Err("the failing clause is not reported".into()) };
                        let mut c = c.clone();
                        c.sort();
                        c.dedup();
                        ensure_eq!(c, core, "literals of the failing clause against the core");
                        ensure_eq!(id, 0, "clause of the status");
                    }
                    Conclusion::Constraint => {
                        check!(s.tmp_clause_in_core().unwrap(), "the temporary clause is in the conclusion but not in the core");
                        let Some(con) = &tmp else { return Err("conclusion about a temporary clause".into()) };
                        for x in con {
                            let ok = ids.iter().filter_map(|i| acl.get(i)).any(|c| c.contains(&!*x) && c.iter().all(|y| *y == !*x || core.contains(y)));
                            check!(ok || contradictory(con), "no failing clause for the literal {x:?} of the temporary clause: {acl:?}");
                        }
                        for i in ids {
                            check!(acl.contains_key(i), "failing clause {i} is not reported");
                        }
                    }
                }
            }
            (l, e) => return Err(format!("conclusion {e:?} of a call with the result {l:?}")),
        }
        Ok(())
    }
}

fn empty_temporary(m: &M, h: &[X]) -> bool {
    m.tmp.as_ref().is_some_and(|c| c.is_empty())
        && h.iter().all(|op| match op {
            X::Add(c) | X::Tmp(c) | X::Assume(c) | X::SimpA(c, _) => c.is_empty(),
            _ => true,
        })
        && !matches!(h.last(), Some(X::Add(_) | X::Tmp(_)))
        && m.table != 0
}

/// All tracers are given the same events, from connecting to disconnecting
fn history(t: &mut Tally, h: &[X], ante: bool, cut: Option<usize>) -> Result<(), String> {
    let mut s = Cad::default();
    let log = Log::default();
    let log2 = Log::default();
    let hd = s.connect_proof_tracer(T(log.clone()), ante);
    let mut hd2 = cut.map(|_| s.connect_proof_tracer(T(log2.clone()), false));
    let mut m = M::new();
    let mut ck = Chk { ante, table: true, ..Chk::default() };
    let mut at = 0;
    for (i, op) in h.iter().enumerate() {
        if cut == Some(i) {
            let n = log2.borrow().len();
            let tr = s.disconnect_proof_tracer(hd2.take().unwrap()).map_err(|e| e.to_string())?;
            check!(Rc::ptr_eq(&tr.0, &log2) && log2.borrow().len() == n, "disconnecting changes the tracer");
        }
        let before = m.last.is_some();
        if empty_temporary(&m, &h[..=i]) {
            // has its own group
            t.outcome("empty temporary clause without variables");
            return Ok(());
        }
        step(&mut s, &mut m, op, t).map_err(|e| format!("call {i} ({op:?}): {e}"))?;
        check!(Rc::ptr_eq(&s.proof_tracer_mut(&hd).0, &log), "the tracer is another one");
        let evs: Vec<Ev> = log.borrow()[at..].to_vec();
        at += evs.len();
        ck.call(op, &m, before, &evs, &mut s, t).map_err(|e| format!("call {i} ({op:?}): {e}; events: {evs:?}"))?;
        observe(&mut s, &m, t).map_err(|e| format!("after call {i} ({op:?}): {e}"))?;
        if let Some(k) = cut {
            let (a, b) = (log.borrow(), log2.borrow());
            if i < k {
                ensure_eq!(*b, *a, "events of the second tracer");
            } else {
                check!(b.len() <= a.len() && b[..] == a[..b.len()], "events after disconnecting");
            }
        }
    }
    let n = log2.borrow().len();
    // the rest in all orders of the handles and the solver
    match h.len() % 3 {
        0 => {
            drop(s);
            drop(hd);
        }
        1 => {
            let tr = s.disconnect_proof_tracer(hd).map_err(|e| e.to_string())?;
            check!(Rc::ptr_eq(&tr.0, &log), "disconnecting returns another tracer");
            let end = log.borrow().len();
            drop(s);
            ensure_eq!(log.borrow().len(), end, "events after disconnecting");
        }
        _ => {
            drop(s);
            drop(hd2.take());
            drop(hd);
        }
    }
    if cut.is_some_and(|k| k < h.len()) {
        ensure_eq!(log2.borrow().len(), n, "events after disconnecting");
    }
    drop(hd2);
    ensure_eq!(Rc::strong_count(&log), 1, "owners of the log after dropping the tracer");
    ensure_eq!(Rc::strong_count(&log2), 1, "owners of the log after dropping the second tracer");
    Ok(())
}

/// A handle given to another solver: an error, and nothing else changes
fn wrong_solver(t: &mut Tally, h: &[X], k: usize) -> Result<(), String> {
    let (mut s, mut other) = (Cad::default(), Cad::default());
    let (log, log2, log3) = (Log::default(), Log::default(), Log::default());
    let hd = s.connect_proof_tracer(T(log.clone()), true);
    let hd2 = s.connect_proof_tracer(T(log2.clone()), true);
    let hd3 = other.connect_proof_tracer(T(log3.clone()), true);
    let mut m = M::new();
    let mut hd2 = Some(hd2);
    for (i, op) in h.iter().enumerate() {
        if i == k {
            check!(other.disconnect_proof_tracer(hd2.take().unwrap()).is_err(), "a tracer of another solver is disconnected");
            // let memory that was given back be used for something else
            let junk: Vec<Vec<u8>> = (1..40).map(|n| vec![0xff; n * 8]).collect();
            std::hint::black_box(&junk);
        }
        if empty_temporary(&m, &h[..=i]) {
            return Ok(());
        }
        step(&mut s, &mut m, op, t).map_err(|e| format!("call {i} ({op:?}): {e}"))?;
        ensure_eq!(*log2.borrow(), *log.borrow(), "events of the tracer that is still connected");
    }
    check!(log3.borrow().iter().all(|e| matches!(e, Ev::Begin(_))), "events of another solver");
    drop(s);
    drop(other);
    drop((hd, hd3));
    Ok(())
}

pub fn run_p27(cx: &Ctx) {
    let a = alphabet();
    let depth = cx.pick(4, 5);
    cx.bound("history length", depth);
    let n = a.len();
    let nth = |mut i: usize, d: usize| {
        let mut h = vec![];
        for _ in 0..d {
            h.push(a[i % n].clone());
            i /= n;
        }
        h
    };
    cx.run_forked("histories", 2 * n.pow(depth as u32), |i| (i % 2 == 1, nth(i / 2, depth)), |t, (ante, h)| history(t, h, *ante, None));
    let d = depth - 1;
    cx.run_forked("disconnect", (d + 1) * n.pow(d as u32), |i| (i % (d + 1), nth(i / (d + 1), d)), |t, (k, h)| {
        history(t, h, k % 2 == 0, Some(*k))
    });
    cx.run_forked("wrong solver", d * n.pow(d as u32), |i| (i % d, nth(i / d, d)), |t, (k, h)| wrong_solver(t, h, *k));
    let e: Vec<Vec<X>> = [X::Solve, X::Simp(0), X::Simp(2)].into_iter().map(|x| vec![X::Tmp(vec![]), x]).collect();
    cx.run_forked("empty temporary clause", 2 * e.len(), |i| (i % 2 == 1, e[i / 2].clone()), |t, (ante, h)| {
        let mut s = Cad::default();
        let hd = s.connect_proof_tracer(T(Log::default()), *ante);
        let mut m = M::new();
        for op in h {
            step(&mut s, &mut m, op, t)?;
        }
        drop(s);
        drop(hd);
        Ok(())
    });
    // learning, restarts and inprocessing
    let st = structured();
    let confs = ["", "plain", "sat", "unsat", "ilb", "every"];
    cx.run_forked("structured", st.len() * confs.len() * 2, |i| (st[i % st.len()].clone(), confs[i / st.len() % confs.len()], i / st.len() / confs.len() == 1), |t, ((_, f, _), conf, ante)| {
        let mut s = Cad::default();
        match *conf {
            "plain" => s.set_configuration(Config::Plain).unwrap(),
            "sat" => s.set_configuration(Config::Sat).unwrap(),
            "unsat" => s.set_configuration(Config::Unsat).unwrap(),
            "ilb" => s.set_option("ilb", 2).unwrap(),
            "every" => {
                for o in ["inprobing", "probe", "vivify", "elim", "subsume", "ternary", "cover", "condition", "block"] {
                    let _ = s.set_option(o, 1);
                }
                for o in ["probeint", "inprobeint", "elimint", "reduceint", "restartint", "subsumeint"] {
                    let _ = s.set_option(o, 1);
                }
            }
            _ => (),
        }
        let log = Log::default();
        let hd = s.connect_proof_tracer(T(log.clone()), *ante);
        let mut m = M::new();
        let mut ck = Chk { ante: *ante, table: false, ..Chk::default() };
        let mut at = 0;
        let nv = f.iter().flatten().map(|x| x.abs()).max().unwrap();
        let mut ops: Vec<X> = f.iter().map(|c| X::Add(c.clone())).collect();
        ops.extend([X::Simp(3), X::Solve]);
        for v in 1..=nv.min(4) {
            ops.push(X::Assume(vec![v, -(v % nv) - 1]));
            ops.push(X::Tmp(vec![-v, v % nv + 1]));
            ops.push(X::SimpA(vec![-v], 2));
            ops.push(X::Tmp(vec![-v, -(v % nv) - 1]));
            ops.push(X::Assume(vec![-((v + 1) % nv) - 1]));
        }
        ops.push(X::Solve);
        for (i, op) in ops.iter().enumerate() {
            let before = m.last.is_some();
            big_step(&mut s, &mut m, op)?;
            let evs: Vec<Ev> = log.borrow()[at..].to_vec();
            at += evs.len();
            ck.call(op, &m, before, &evs, &mut s, t).map_err(|e| format!("call {i} ({op:?}): {e}"))?;
        }
        t.state(log.borrow().len());
        drop(s);
        drop(hd);
        Ok(())
    });
}

/// Without the truth table: verdicts are taken from the solver, their proofs are checked
fn big_step(s: &mut Cad, m: &mut M, op: &X) -> Result<(), String> {
    let a = match op {
        X::Assume(a) | X::SimpA(a, _) => ls(a),
        _ => vec![],
    };
    let cached = matches!((&m.last, op), (Some((true, ..)), X::Solve | X::Simp(_)));
    let r = match op {
        X::Add(c) => {
            s.add_clause(cl(c)).map_err(|e| e.to_string())?;
            m.clauses.push(ls(c));
            m.last = None;
            return Ok(());
        }
        X::Tmp(c) => {
            s.add_tmp_clause(&cl(c)).map_err(|e| e.to_string())?;
            m.tmp = Some(ls(c));
            m.last = None;
            return Ok(());
        }
        X::Solve => s.solve(),
        X::Assume(_) => s.solve_assumps(&a),
        X::Simp(n) => s.simplify(*n),
        X::SimpA(_, n) => s.simplify_assumps(&a, *n),
    }
    .map_err(|e| e.to_string())?;
    let tmp = if m.last.is_some() && !cached { None } else { m.tmp.clone() };
    m.tmp = tmp.clone();
    m.last = match r {
        SolverResult::Interrupted => {
            m.tmp = None;
            None
        }
        _ if cached => m.last.clone(),
        r => Some((r == SolverResult::Sat, a, tmp)),
    };
    Ok(())
}
