//! The proof writer: cutting-planes expressions and whole proof histories, read back by an
//! independent reader of the proof format
use crate::common::*;
use crate::p09::{mk_card, mk_pb, Kind};
use crate::rt::*;
use crate::veripb::*;
use crate::{check, ensure_eq};
use pigeons::{
    AbsConstraintId, Axiom, Conclusion, ConstraintId, ConstraintLike, Derivation, ObjectiveLike, ObjectiveUpdate, OperationLike,
    OperationSequence, Order, OrderVar, OutputGuarantee, OutputType, Proof, ProofGoal, ProofGoalId, Substitution, SubproofElement,
    VarLike,
};
use rustsat::instances::Objective;
use rustsat::types::Var;

type V = &'static str;
type Ops = OperationSequence<V>;

// ---------------------------------------------------------------- expressions

#[derive(Clone, Debug, PartialEq, Hash)]
enum E {
    Abs(usize),
    Last(usize),
    Ax(V, bool),
    Empty,
    Mul(Box<E>, usize, u8),
    Div(Box<E>, usize, u8),
    Sat(Box<E>),
    Add(Box<E>, Box<E>, u8),
}
use E::*;

/// constraints in the database of all expressions
fn base() -> Vec<Pb> {
    vec![
        Pb::new([(2, 0, false), (1, 1, true), (3, 2, false)], 3),
        Pb::new([(1, 0, true), (4, 1, false)], 2),
        Pb::new([(5, 1, true), (2, 2, true)], 4),
    ]
}
fn vi(v: V) -> u32 {
    v[1..].parse::<u32>().unwrap() - 1
}

/// what the expression denotes; nothing for the empty sum
fn den(e: &E) -> Option<Pb> {
    Some(match e {
        Abs(i) => base()[i - 1].clone(),
        Last(i) => base()[base().len() - i].clone(),
        Ax(v, n) => Pb::new([(1, vi(v), *n)], 0),
        Empty => return None,
        Mul(_, 0, _) => return None,
        Mul(e, k, _) => den(e)?.mul(*k as i128),
        Div(e, k, _) => den(e)?.div(*k as i128),
        Sat(e) => den(e)?.saturate(),
        Add(a, b, _) => match (den(a), den(b)) {
            (Some(a), Some(b)) => a.add(&b),
            (a, b) => return a.or(b),
        },
    })
}

fn build(e: &E) -> Ops {
    match e {
        Abs(i) => Ops::from(ConstraintId::abs(*i)),
        Last(i) => Ops::from(ConstraintId::last(*i)),
        Ax(v, n) => Ops::from(v.axiom(*n)),
        Empty => Ops::empty(),
        Mul(e, k, 0) => build(e) * *k,
        Mul(e, k, 1) => *k * build(e),
        Mul(e, k, 2) => {
            let mut x = build(e);
            x *= *k;
            x
        }
        Mul(e, k, _) => match **e {
            Ax(v, n) => v.axiom(n) * *k,
            _ => build(e) * *k,
        },
        Div(e, k, 0) => build(e) / *k,
        Div(e, k, 1) => {
            let mut x = build(e);
            x /= *k;
            x
        }
        Div(e, k, _) => match **e {
            Ax(v, n) => v.axiom(n) / *k,
            _ => build(e) / *k,
        },
        Sat(e) => match **e {
            Ax(v, n) => v.axiom(n).saturate(),
            _ => build(e).saturate(),
        },
        Add(a, b, 0) => build(a) + build(b),
        Add(a, b, 1) => {
            let mut x = build(a);
            x += build(b);
            x
        }
        // operators on the operand types themselves
        Add(a, b, _) => match (&**a, &**b) {
            (Abs(i), Ax(v, n)) => AbsConstraintId::new(*i) + v.axiom(*n),
            (Last(i), Ax(v, n)) => ConstraintId::last(*i) + v.axiom(*n),
            (Ax(v, n), Abs(i)) => v.axiom(*n) + AbsConstraintId::new(*i),
            (Ax(v, n), Last(i)) => v.axiom(*n) + ConstraintId::last(*i),
            (Ax(v, n), Ax(w, m)) => v.axiom(*n) + w.axiom(*m),
            (Ax(v, n), b) => v.axiom(*n) + build(b),
            (Abs(i), b) => AbsConstraintId::new(*i) + build(b),
            (Last(i), b) => ConstraintId::last(*i) + build(b),
            (a, Abs(i)) => build(a) + AbsConstraintId::new(*i),
            (a, Last(i)) => build(a) + ConstraintId::last(*i),
            (a, Ax(v, n)) => {
                let mut x = build(a);
                x += v.axiom(*n);
                x
            }
            (a, b) => build(a) + build(b),
        },
    }
}

fn unary(e: &E, out: &mut Vec<E>) {
    let b = || Box::new(e.clone());
    let ax = matches!(e, Ax(..));
    for st in 0..if ax { 4 } else { 3 } {
        for k in 0..=3 {
            out.push(Mul(b(), k, st));
        }
    }
    for st in 0..if ax { 3 } else { 2 } {
        for k in 1..=3 {
            out.push(Div(b(), k, st));
        }
    }
    out.push(Sat(b()));
}
/// one style of each operation
fn unary_plain(e: &E, out: &mut Vec<E>) {
    let b = || Box::new(e.clone());
    out.extend([Mul(b(), 0, 0), Mul(b(), 2, 0), Div(b(), 1, 0), Div(b(), 3, 0), Sat(b())]);
}

fn expr(t: &mut Tally, e: &E) -> Result<(), String> {
    let mut p = Proof::new(vec![], 3, false).unwrap();
    let x = build(e);
    let want = den(e);
    t.state(&want);
    t.step(1);
    ensure_eq!(x.is_empty(), want.is_none(), "is_empty");
    let Some(want) = want else {
        t.outcome("empty");
        return Ok(());
    };
    t.outcome(if want.contradiction() { "contradiction" } else if want.trivial() { "trivial" } else { "constraint" });
    let id = p.operations(&x).unwrap();
    ensure_eq!(id, AbsConstraintId::new(4), "id");
    // relative ids of the next line are one further
    let txt = p.conclude::<V>(OutputGuarantee::None, &Conclusion::None).unwrap();
    let txt = String::from_utf8(txt).unwrap();
    let mut ck = checker();
    ck.formula(base());
    ck.check(&txt)?;
    check!(ck.db.len() == 4 && ck.db[3].c == want, "{txt:?} derives {:?} instead of {want:?}", ck.db.last());
    Ok(())
}

fn checker() -> Checker {
    let mut ck = Checker::default();
    for v in ["x1", "x2", "x3", "x4"] {
        ck.var(v).unwrap();
    }
    ck
}

// ---------------------------------------------------------------- weakening

fn weaken(_: &mut Tally, e: &E) -> Result<(), String> {
    let mut p = Proof::new(vec![], 3, false).unwrap();
    p.operations(&build(e).weaken()).unwrap();
    let txt = String::from_utf8(p.conclude::<V>(OutputGuarantee::None, &Conclusion::None).unwrap()).unwrap();
    let mut ck = checker();
    ck.formula(base());
    ck.check(&txt).map_err(|m| {
        let bare = txt.lines().nth(2).is_some_and(|l| l.split(' ').count() == 3 && l.ends_with(" w"));
        format!("{}{m}", if bare { "[known:weaken-var] " } else { "" })
    })
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Debug)]
struct Con(Vec<(isize, V, bool)>, isize);
impl ConstraintLike<V> for Con {
    fn rhs(&self) -> isize {
        self.1
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<V>)> {
        self.0.iter().map(|x| (x.0, x.1.axiom(x.2)))
    }
}
impl Con {
    fn pb(&self) -> Pb {
        Pb::new(self.0.iter().map(|x| (x.0 as i128, vi(x.1), x.2)), self.1 as i128)
    }
}
struct Obj(Vec<(isize, V, bool)>, isize);
impl ObjectiveLike<V> for Obj {
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<V>)> {
        self.0.iter().map(|x| (x.0, x.1.axiom(x.2)))
    }
    fn offset(&self) -> isize {
        self.1
    }
}
impl Obj {
    fn pb(&self) -> Pb {
        Pb::new(self.0.iter().map(|x| (x.0 as i128, vi(x.1), x.2)), -self.1 as i128)
    }
}
/// a constraint over the order variables
struct OCon(Vec<(isize, OrderVar<V>, bool)>, isize);
impl ConstraintLike<OrderVar<V>> for OCon {
    fn rhs(&self) -> isize {
        self.1
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<OrderVar<V>>)> {
        self.0.iter().map(|x| (x.0, x.1.axiom(x.2)))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum H {
    Comment,
    Multiline,
    Verify,
    /// number of hints
    Rup(u8),
    Pol(bool),
    /// 0: no sub-proof, otherwise shapes
    Red(u8),
    Dom(u8),
    Eq(bool),
    EqAdd(bool),
    Imp(bool),
    ImpAdd(bool),
    Sol,
    Solx,
    Soli,
    DelFirst,
    DelLastRel,
    DelTwo,
    DelProof(u8),
    /// kinds of start and end bounds; absolute or relative
    DelRange(u8),
    CoreRange(u8),
    DelSpec,
    Delc,
    Deld,
    Core,
    ObjNew(u8),
    ObjDiff,
    ObjEq,
    Level,
    Wipe,
    DefOrder(u8),
    LoadOrder,
    LoadNone,
    Strength(bool),
    ProofVar,
}
use H::*;

const LETTERS: &[H] = &[
    Comment, Multiline, Verify, Rup(0), Rup(1), Rup(2), Pol(false), Pol(true), Red(0), Red(1), Red(2), Red(3), Red(4), Dom(0), Dom(3), Eq(false), Eq(true),
    EqAdd(false), EqAdd(true), Imp(false), Imp(true), ImpAdd(false), ImpAdd(true), Sol, Solx, Soli, DelFirst, DelLastRel, DelTwo,
    DelProof(1), DelProof(4), DelRange(0), DelRange(1), DelRange(2), DelRange(3), DelRange(4), DelRange(5), DelRange(6), CoreRange(0),
    CoreRange(1), CoreRange(2), CoreRange(3), CoreRange(4), CoreRange(5), CoreRange(6), DelSpec, Delc, Deld, Core, ObjNew(0), ObjNew(1),
    ObjNew(3), ObjDiff, ObjEq, Level, Wipe, DefOrder(0), DefOrder(1), DefOrder(2), LoadOrder, LoadNone, Strength(true), Strength(false), ProofVar,
];
/// the letters that change numbering or the database
const CORE: &[H] = &[
    Rup(1), Pol(true), Red(0), Red(4), Dom(3), EqAdd(true), ImpAdd(false), Sol, Solx, Soli, DelLastRel, DelProof(4), DelRange(1), DelRange(2), DelRange(4),
    DelRange(5), CoreRange(3), DelSpec, Deld, Core, ObjNew(3), ObjDiff, ProofVar,
];

/// how the proof is started and ended
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum End {
    Drop,
    DropWith(u8),
    DropUpdated(u8),
    Conclude(u8),
}
const N_CONCL: u8 = 10;
fn concl(i: u8) -> (OutputGuarantee, Conclusion<V>, &'static str, &'static str) {
    use OutputGuarantee as G;
    let sol = || Some(vec!["x1".pos_axiom(), "x2".neg_axiom()]);
    match i {
        0 => (G::None, Conclusion::None, "NONE", "NONE"),
        1 => (G::Derivable(OutputType::Implicit), Conclusion::Sat(None), "DERIVABLE IMPLICIT", "SAT"),
        2 => (G::Derivable(OutputType::File), Conclusion::Sat(sol()), "DERIVABLE FILE", "SAT : x1 ~x2"),
        3 => (G::Equisatisfiable(OutputType::Implicit), Conclusion::Unsat(None), "EQUISATISFIABLE IMPLICIT", "UNSAT"),
        4 => (G::Equisatisfiable(OutputType::File), Conclusion::Unsat(Some(ConstraintId::abs(2))), "EQUISATISFIABLE FILE", "UNSAT : 2"),
        5 => (G::Equioptimal(OutputType::Implicit), Conclusion::Unsat(Some(ConstraintId::last(2))), "EQUIOPTIMAL IMPLICIT", "UNSAT : -2"),
        6 => (G::Equioptimal(OutputType::File), Conclusion::Bounds { range: 3..6, lb_id: None, ub_sol: None }, "EQUIOPTIMAL FILE", "BOUNDS 3 5"),
        7 => (G::None, Conclusion::Bounds { range: -3..6, lb_id: Some(ConstraintId::abs(1)), ub_sol: None }, "NONE", "BOUNDS -3 : 1 5"),
        8 => (G::None, Conclusion::Bounds { range: 0..1, lb_id: None, ub_sol: sol() }, "NONE", "BOUNDS 0 0 : x1 ~x2"),
        _ => (G::None, Conclusion::Bounds { range: 0..1, lb_id: Some(ConstraintId::last(1)), ub_sol: sol() }, "NONE", "BOUNDS 0 : -1 0 : x1 ~x2"),
    }
}

/// a sink that keeps what was written after the proof is dropped
#[derive(Clone, Default)]
struct Sink(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// what the proof should say
#[derive(Default)]
struct Model {
    /// content, live, core
    db: Vec<(Pb, bool, bool)>,
    obj: Pb,
    misc: Vec<String>,
    comments: Vec<String>,
    witnesses: Vec<(usize, Vec<String>)>,
    hints: Vec<(usize, Vec<usize>)>,
    n_pv: usize,
}
impl Model {
    fn n(&self) -> usize {
        self.db.len()
    }
    fn live(&self) -> Vec<usize> {
        (1..=self.n()).filter(|i| self.db[i - 1].1).collect()
    }
    fn push(&mut self, c: Pb) -> usize {
        self.db.push((c, true, false));
        self.n()
    }
    /// ids of a sub-proof, not live after it
    fn burn(&mut self, n: usize) {
        for _ in 0..n {
            self.db.push((Pb::default(), false, false));
        }
    }
}
const BURNT: [usize; 5] = [0, 1 + 1, 1 + 1, 1 + 1 + 2, 1 + 1 + 3 + 1 + 2];

fn deriv(b: bool, id: ConstraintId) -> Derivation<V, Con> {
    if b {
        Derivation::Rup(Con(vec![(1, "x1", false)], 1), vec![])
    } else {
        Derivation::from(Ops::from(id) * 2)
    }
}
fn goal(id: ProofGoalId, n: usize) -> ProofGoal<V, Con> {
    if n == 1 {
        let mut g = ProofGoal::empty(id);
        g.extend([deriv(true, ConstraintId::last(1))]);
        return g;
    }
    ProofGoal::new(id, (0..n).map(|i| deriv(i % 2 == 0, ConstraintId::last(1))))
}
/// sub-proofs for the number of ids in `BURNT`; hints of steps within are known
fn sub(shape: u8, id: ConstraintId) -> Vec<SubproofElement<V, Con>> {
    match shape {
        0 => vec![],
        1 => vec![deriv(true, id).into()],
        2 => vec![goal(ProofGoalId::specific(1), 0).into()],
        3 => vec![deriv(false, id).into(), goal(ProofGoalId::from(id), 1).into()],
        _ => vec![goal(ProofGoalId::specific(2), 0).into(), goal(ProofGoalId::specific(1), 2).into(), deriv(false, id).into(), goal(ProofGoalId::from(id), 1).into()],
    }
}
/// positions of the rup steps (offset of the id to the last before) in sub-proofs
fn sub_hints(shape: u8) -> &'static [usize] {
    match shape {
        1 => &[2],
        3 => &[4],
        4 => &[4, 8],
        _ => &[],
    }
}

fn hist(t: &mut Tally, c: &(Vec<H>, End)) -> Result<(), String> {
    let (hs, end) = c;
    let sink = Sink::default();
    let obj0 = Obj(vec![(1, "x1", false), (2, "x2", true)], 0);
    let mut m = Model { obj: obj0.pb(), ..Default::default() };
    let inputs = [Pb::new([(1, 0, false), (1, 1, false)], 1), Pb::new([(2, 0, false), (3, 2, true)], 2)];
    for i in &inputs {
        m.db.push((i.clone(), true, true));
    }
    let mut p = match end {
        End::DropWith(i) => {
            let (g, c, _, _) = concl(*i);
            Proof::new_with_conclusion(sink.clone(), 2, true, g, &c).unwrap()
        }
        _ => Proof::new(sink.clone(), 2, true).unwrap(),
    };
    ensure_eq!(p.first_proof_id(), AbsConstraintId::new(3), "first id");
    let none: [SubproofElement<V, Con>; 0] = [];
    for (step, h) in hs.iter().enumerate() {
        // all constraints differ
        let con = Con(vec![(1, "x1", false), (-2, "x2", true), (3, "x3", step % 2 == 0)], 10 + step as isize);
        let live = m.live();
        let last_live = live.last().copied();
        // relative when it is the last
        let rel = |id: usize| ConstraintId::last(m.n() + 1 - id);
        let mut ret = None;
        match *h {
            Comment => {
                p.comment(&format_args!("c {step} ; end")).unwrap();
                m.comments.push(format!("* c {step} ; end"));
            }
            Multiline => {
                p.multiline_comment("a b\n\nrup x\n").unwrap();
                m.comments.extend(["* a b".into(), "*".into(), "* rup x".into()]);
            }
            Verify => p.verify_num_constraints(2).unwrap(),
            Rup(n) => {
                let hints: Vec<usize> = live.iter().rev().take(n as usize).copied().collect();
                let ids: Vec<ConstraintId> = hints.iter().enumerate().map(|(i, x)| if i == 0 { rel(*x) } else { ConstraintId::abs(*x) }).collect();
                ret = Some(p.reverse_unit_prop(&con, ids).unwrap());
                let id = m.push(con.pb());
                m.hints.push((id, hints));
            }
            Pol(r) => {
                let Some(l) = last_live else { continue };
                let base = if r { Ops::from(rel(l)) } else { Ops::from(ConstraintId::abs(l)) };
                let x = base * 2 + "x3".pos_axiom() * (20 + step);
                ret = Some(p.operations(&x).unwrap());
                let c = m.db[l - 1].0.mul(2).add(&Pb::new([(20 + step as i128, 2, false)], 0));
                m.push(c);
            }
            Red(s) | Dom(s) => {
                let Some(l) = last_live else { continue };
                let subs = match s {
                    0 => vec!["x1".substitute_fixed(true), "x2".substitute_literal("x3".neg_axiom()), Substitution::from("x4".neg_axiom())],
                    1 => vec![Substitution::from("x1".pos_axiom())],
                    2 => vec![],
                    _ => vec!["x2".substitute_fixed(false), "x3".substitute_literal("x1".pos_axiom())],
                };
                let w = match s {
                    0 => "x1 -> 1 x2 -> ~x3 x4 -> 0",
                    1 => "x1 -> 1",
                    2 => "",
                    _ => "x2 -> 0 x3 -> x1",
                };
                let pr = sub(s, ConstraintId::abs(l));
                ret = Some(if matches!(h, Red(_)) { p.redundant(&con, subs, pr).unwrap() } else { p.dominated(&con, subs, pr).unwrap() });
                let n = m.n();
                for x in sub_hints(s) {
                    m.hints.push((n + x, vec![]));
                }
                m.burn(BURNT[s as usize]);
                let id = m.push(con.pb());
                m.witnesses.push((id, w.split_whitespace().map(String::from).collect()));
            }
            Eq(x) | EqAdd(x) | Imp(x) | ImpAdd(x) => {
                let id = if x { last_live.map(ConstraintId::abs) } else { None };
                match h {
                    Eq(_) => p.equals(&con, id).unwrap(),
                    Imp(_) => p.implied(&con, id).unwrap(),
                    EqAdd(_) => ret = Some(p.equals_add(&con, id).unwrap()),
                    _ => ret = Some(p.implied_add(&con, id).unwrap()),
                }
                if ret.is_some() {
                    m.push(con.pb());
                }
                m.misc.push(format!(
                    "{} {:?} {:?}",
                    match h {
                        Eq(_) => "e",
                        EqAdd(_) => "ea",
                        Imp(_) => "i",
                        _ => "ia",
                    },
                    con.pb(),
                    if x { last_live } else { None }
                ));
            }
            Sol | Solx | Soli => {
                let a = ["x1".axiom(step % 2 == 0), "x2".neg_axiom(), "x3".axiom(step == 1)];
                let val = |v: u32| match v {
                    0 => step % 2 == 1,
                    1 => false,
                    2 => step != 1,
                    _ => false,
                };
                m.misc.push(format!("{} {}", match h { Sol => "sol", Solx => "solx", _ => "soli" }, a.map(|x| x.to_string()).join(" ")));
                match h {
                    Sol => p.solution(a).unwrap(),
                    Solx => {
                        ret = Some(p.exclude_solution(a).unwrap());
                        let c = Pb::new((0..3).map(|v| (1, v, val(v))), 1);
                        let id = m.push(c);
                        m.db[id - 1].2 = true;
                    }
                    _ => {
                        ret = Some(p.improve_solution(a).unwrap());
                        // objective at most one less than its value
                        let v: i128 = m.obj.t.iter().map(|x| if val(x.0) { x.1 } else { 0 }).sum();
                        let c = Pb { t: m.obj.t.iter().map(|x| (x.0, -x.1)).collect(), b: 1 - v };
                        let id = m.push(c);
                        m.db[id - 1].2 = true;
                    }
                }
            }
            DelFirst => {
                let Some(&l) = live.first() else { continue };
                p.delete_ids([ConstraintId::abs(l)], none.iter().map(|_| unreachable!() as SubproofElement<V, Con>)).unwrap();
                m.db[l - 1].1 = false;
            }
            DelLastRel => {
                let Some(l) = last_live else { continue };
                p.delete_ids::<V, Con, _, _>([rel(l)], []).unwrap();
                m.db[l - 1].1 = false;
            }
            DelTwo => {
                let [a, .., b] = live[..] else { continue };
                p.delete_ids::<V, Con, _, _>([ConstraintId::abs(b), rel(a)], []).unwrap();
                m.db[a - 1].1 = false;
                m.db[b - 1].1 = false;
            }
            DelProof(s) => {
                let [a, .., b] = live[..] else { continue };
                p.delete_ids([rel(b)], sub(s, ConstraintId::abs(a))).unwrap();
                let n = m.n();
                for x in sub_hints(s) {
                    m.hints.push((n + x, vec![]));
                }
                m.burn(BURNT[s as usize]);
                m.db[b - 1].1 = false;
            }
            DelRange(k) | CoreRange(k) => {
                let Some(l) = last_live else { continue };
                let f = live[0];
                let n = m.n();
                let d = matches!(h, DelRange(_));
                macro_rules! go {
                    ($r:expr) => {
                        if d {
                            p.delete_id_range($r).unwrap()
                        } else {
                            p.move_range_to_core($r).unwrap()
                        }
                    };
                }
                use std::ops::Bound;
                let r = match k {
                    0 => {
                        go!(ConstraintId::abs(l)..=ConstraintId::abs(l));
                        l..l + 1
                    }
                    1 => {
                        go!(rel(l)..=rel(n));
                        l..n + 1
                    }
                    2 => {
                        if f == l {
                            continue;
                        }
                        go!(ConstraintId::abs(f)..rel(l));
                        f..l
                    }
                    3 => {
                        go!(rel(l)..);
                        l..n + 1
                    }
                    4 => {
                        go!(..=rel(f));
                        1..f + 1
                    }
                    5 => {
                        if f == n {
                            continue;
                        }
                        go!((Bound::Excluded(rel(f)), Bound::Unbounded::<ConstraintId>));
                        f + 1..n + 1
                    }
                    _ => {
                        if f + 1 >= l {
                            continue;
                        }
                        go!((Bound::Excluded(ConstraintId::abs(f)), Bound::Excluded(ConstraintId::abs(l))));
                        f + 1..l
                    }
                };
                for i in r {
                    if m.db[i - 1].1 {
                        if d {
                            m.db[i - 1].1 = false;
                        } else {
                            m.db[i - 1].2 = true;
                        }
                    }
                }
            }
            DelSpec => {
                if !m.db[1].1 {
                    continue;
                }
                p.delete_constr(&Con(vec![(-3, "x3", false), (2, "x1", false)], -1)).unwrap();
                m.db[1].1 = false;
            }
            Delc => {
                let v: Vec<usize> = live.iter().copied().filter(|i| m.db[i - 1].2).take(2).collect();
                if v.is_empty() {
                    continue;
                }
                p.delete_core_ids(v.iter().map(|i| ConstraintId::abs(*i))).unwrap();
                for i in v {
                    m.db[i - 1].1 = false;
                }
            }
            Deld => {
                let v: Vec<usize> = live.iter().copied().filter(|i| !m.db[i - 1].2).collect();
                if v.is_empty() {
                    continue;
                }
                p.delete_derived_ids(v.iter().map(|i| rel(*i))).unwrap();
                for i in v {
                    m.db[i - 1].1 = false;
                }
            }
            Core => {
                let Some(l) = last_live else { continue };
                let ids = if live[0] == l { vec![rel(l)] } else { vec![ConstraintId::abs(live[0]), rel(l)] };
                p.move_ids_to_core(ids).unwrap();
                m.db[l - 1].2 = true;
                m.db[live[0] - 1].2 = true;
            }
            ObjNew(g) => {
                let o = Obj(vec![(3, "x3", true), (1 + step as isize, "x1", false)], [0, 5, -4][step % 3]);
                m.obj = o.pb();
                let gs: Vec<ProofGoal<V, Con>> = match g {
                    0 => vec![],
                    1 => vec![goal(ProofGoalId::specific(1), 0)],
                    _ => vec![goal(ProofGoalId::specific(1), 1), goal(ProofGoalId::specific(2), 2)],
                };
                p.update_objective(&ObjectiveUpdate::new(o, gs)).unwrap();
                let n = m.n();
                match g {
                    0 => (),
                    1 => m.burn(1),
                    _ => {
                        m.hints.push((n + 2, vec![]));
                        m.hints.push((n + 4, vec![]));
                        m.burn(5);
                    }
                }
            }
            ObjDiff => {
                let o = Obj(vec![(2, "x2", false), (-1, "x3", true)], [-2, 0, 3][step % 3]);
                m.obj = m.obj.add(&o.pb());
                p.update_objective::<V, Obj, Con>(&ObjectiveUpdate::diff(o)).unwrap();
            }
            ObjEq => {
                let o = Obj(m.obj.t.iter().map(|x| (x.1 as isize, ["x1", "x2", "x3", "x4"][x.0 as usize], false)).collect(), -m.obj.b as isize);
                p.obj_equals(&o).unwrap();
            }
            Level => {
                p.set_level(step).unwrap();
                m.misc.push(format!("# {step}"));
            }
            Wipe => {
                p.wipe_level(7 + step).unwrap();
                m.misc.push(format!("w {}", 7 + step));
            }
            DefOrder(k) => {
                let mut o: Order<V, OCon> = Order::new(format!("ord{step}"));
                ensure_eq!(o.name(), format!("ord{step}"), "order name");
                let (l, r) = o.use_var("x1");
                check!(l == OrderVar::Left("x1") && r == OrderVar::Right("x1"), "order variables");
                let d = |v: OrderVar<V>| Derivation::Rup(OCon(vec![(1, v, true)], 1), vec![ConstraintId::last(1)]);
                let mut def = vec!["def -1 u_x1 1 v_x1 >= 0".to_string()];
                let mut tr = vec!["transitivity proofgoal #1".to_string(), "transitivity rup 1 ~w_x1 >= 1 ; -1".into(), "transitivity qed -1".into()];
                let mut re: Vec<String> = vec![];
                o.add_definition_constraint(
                    OCon(vec![(-1, l, false), (1, r, false)], 0),
                    vec![d(OrderVar::FreshRight("x1"))],
                    (k == 1).then(Vec::new),
                );
                if k == 1 {
                    re.extend(["reflexivity proofgoal #1".to_string(), "reflexivity qed -1".into()]);
                }
                let mut vars = vec!["x1"];
                if k > 0 {
                    let (l2, _) = o.use_var("x2");
                    o.use_var("x1");
                    vars.push("x2");
                    o.add_definition_constraint(OCon(vec![(2, l2, true)], 1), vec![], Some(vec![d(l), d(r)]));
                    def.push("def 2 ~u_x2 >= 1".into());
                    tr.extend(["transitivity proofgoal #2".to_string(), "transitivity qed -1".into()]);
                    re.extend(["reflexivity proofgoal #2".to_string(), "reflexivity rup 1 ~u_x1 >= 1 ; -1".into(), "reflexivity rup 1 ~v_x1 >= 1 ; -1".into(), "reflexivity qed -1".into()]);
                }
                let mut used: Vec<V> = o.used_vars().collect();
                used.sort_unstable();
                ensure_eq!(used, vars, "order variables");
                p.define_order(&o).unwrap();
                let vs = |x: &str| vars.iter().map(|v| format!("{x}_{v}")).collect::<Vec<_>>().join(" ");
                m.misc.push(format!("def_order ord{step}"));
                m.misc.push(format!("left {}", vs("u")));
                m.misc.push(format!("right {}", vs("v")));
                m.misc.extend(def);
                m.misc.push(format!("fresh_right {}", vs("w")));
                m.misc.extend(tr);
                m.misc.extend(re);
            }
            LoadOrder => {
                p.load_order("ord", ["x2", "x1"]).unwrap();
                m.misc.push("load_order ord x2 x1".into());
            }
            LoadNone => {
                p.load_order::<V, _>("ord", []).unwrap();
                m.misc.push("load_order ord".into());
            }
            Strength(b) => {
                p.strengthening_to_core(b).unwrap();
                m.misc.push(format!("strengthening_to_core {}", if b { "on" } else { "off" }));
            }
            ProofVar => {
                let v = p.new_proof_var();
                let s = v.to_string();
                ret = Some(p.reverse_unit_prop(&v.pos_axiom(), []).unwrap());
                m.n_pv += 1;
                let id = m.push(Pb::new([(1, 1000 + m.n_pv as u32, false)], 1));
                m.hints.push((id, vec![]));
                m.comments.push(s);
            }
        }
        t.step(1);
        if let Some(id) = ret {
            ensure_eq!(id, AbsConstraintId::new(m.n()), "returned id");
        }
        ensure_eq!(p.next_id(), AbsConstraintId::new(m.n() + 1), "next id");
    }
    ensure_eq!(p.first_proof_id(), AbsConstraintId::new(3), "first id");
    let (wo, wc) = match end {
        End::Drop => {
            drop(p);
            ("NONE", "NONE")
        }
        End::DropWith(i) => {
            drop(p);
            (concl(*i).2, concl(*i).3)
        }
        End::DropUpdated(i) => {
            let (g, c, o, s) = concl(*i);
            p.update_default_conclusion(g, &c);
            drop(p);
            (o, s)
        }
        End::Conclude(i) => {
            let (g, c, o, s) = concl(*i);
            let w = p.conclude(g, &c).unwrap();
            check!(std::rc::Rc::ptr_eq(&w.0, &sink.0), "another writer is returned");
            (o, s)
        }
    };
    let txt = String::from_utf8(sink.0.take()).unwrap();
    t.state(&txt);
    let mut ck = checker();
    ck.lenient = true;
    ck.obj = Some(obj0.pb());
    ck.formula(inputs);
    ck.check(&txt).map_err(|e| format!("{e}\n{txt}"))?;
    ensure_eq!(ck.output.as_deref(), Some(wo), "output");
    ensure_eq!(ck.conclusion.as_deref(), Some(wc), "conclusion");
    // proof variables are pairwise different and new
    let pvs: Vec<String> = m.comments.iter().filter(|c| c.starts_with("pv")).cloned().collect();
    m.comments.retain(|c| !c.starts_with("pv"));
    let mut u = pvs.clone();
    u.sort();
    u.dedup();
    check!(u.len() == pvs.len(), "proof variables {pvs:?} are not distinct");
    for (c, _, _) in &mut m.db {
        for x in &mut c.t {
            if x.0 > 1000 {
                x.0 = ck.vars[&pvs[x.0 as usize - 1001]];
            }
        }
    }
    ensure_eq!(ck.comments, m.comments, "comments");
    ensure_eq!(ck.db.len(), m.n(), "number of constraints");
    for (i, (a, b)) in ck.db.iter().zip(&m.db).enumerate() {
        check!(a.live == b.1 && (!a.live || a.c == b.0 && a.core == b.2), "constraint {} is {a:?}, should be {b:?}\n{txt}", i + 1);
    }
    ensure_eq!(ck.obj, Some(m.obj.clone()), "objective");
    ck.witnesses.sort();
    m.witnesses.sort();
    ensure_eq!(ck.witnesses, m.witnesses, "witnesses");
    ck.hints.sort();
    m.hints.sort();
    ensure_eq!(ck.hints, m.hints, "hints");
    ensure_eq!(ck.misc, m.misc, "other lines");
    t.outcome(&format!("{} live", ck.db.iter().filter(|e| e.live).count().min(5)));
    Ok(())
}

// ---------------------------------------------------------------- rustsat types

#[derive(Clone, Debug)]
enum T {
    Clause(Vec<i32>),
    Axiom(i32),
    Card(Kind, Vec<i32>, i64),
    Pb(Kind, Vec<(i32, i64)>, i64),
    /// literals with weights, offset, via unit soft clauses
    Obj(Vec<(i32, usize)>, isize, bool),
}

fn types(t: &mut Tally, c: &T) -> Result<(), String> {
    fn text<C: ConstraintLike<Var> + ?Sized>(c: &C) -> (Vec<(isize, Axiom<Var>)>, isize) {
        (c.sum_iter().collect(), c.rhs())
    }
    struct W(Vec<(isize, Axiom<Var>)>, isize);
    impl ConstraintLike<Var> for W {
        fn rhs(&self) -> isize {
            self.1
        }
        fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<Var>)> {
            self.0.iter().copied()
        }
    }
    let mut p = Proof::new(vec![], 0, true).unwrap();
    let mut want: Vec<i128> = vec![];
    let tv = |m: u32, x: i32| (m >> (x.abs() - 1) & 1 == 1) == (x > 0);
    t.step(1);
    let is_obj = matches!(c, T::Obj(..));
    match c {
        T::Clause(v) => {
            let cl = cl(v);
            let a = text(&cl);
            p.reverse_unit_prop(&W(a.0, a.1), []).unwrap();
            p.reverse_unit_prop(&cl, []).unwrap();
            let a = text::<rustsat::types::Cl>(&cl);
            p.reverse_unit_prop(&W(a.0, a.1), []).unwrap();
            want.extend((0..16).map(|m| i128::from(v.iter().any(|x| tv(m, *x)))));
        }
        T::Axiom(x) => {
            let a = Axiom::from(l(*x));
            p.reverse_unit_prop(&a, []).unwrap();
            check!(a.var() == l(*x).var() && a.is_neg() == (*x < 0) && (!a).is_neg() == (*x > 0) && (!a).var() == a.var(), "axiom {a:?}");
            want.extend((0..16).map(|m| i128::from(tv(m, *x))));
        }
        T::Card(k, v, b) => {
            let c = mk_card(*k, v, *b as usize);
            p.reverse_unit_prop(&c, []).unwrap();
            want.extend((0..16).map(|m| {
                let n = v.iter().filter(|x| tv(m, **x)).count() as i64;
                i128::from(if *k == Kind::Ub { n <= *b } else { n >= *b })
            }));
        }
        T::Pb(k, v, b) => {
            let c = mk_pb(*k, &v.iter().map(|x| (x.0, x.1 as isize)).collect::<Vec<_>>(), *b as isize);
            p.reverse_unit_prop(&c, []).unwrap();
            want.extend((0..16).map(|m| {
                let n: i64 = v.iter().filter(|x| tv(m, x.0)).map(|x| x.1).sum();
                i128::from(if *k == Kind::Ub { n <= *b } else { n >= *b })
            }));
        }
        T::Obj(v, off, soft) => {
            let mut o = Objective::default();
            for (x, w) in v {
                if *soft {
                    o.add_soft_clause(*w, cl(&[-x]));
                } else {
                    o.add_soft_lit(*w, l(*x));
                }
            }
            o.set_offset(*off);
            p.update_objective::<Var, _, rustsat::types::Clause>(&ObjectiveUpdate::new(o, [])).unwrap();
            // adding again updates the weight
            let v: std::collections::BTreeMap<i32, usize> = v.iter().copied().collect();
            want.extend((0..16).map(|m| v.iter().filter(|x| tv(m, *x.0)).map(|x| *x.1 as i128).sum::<i128>() + *off as i128));
        }
    }
    let txt = String::from_utf8(p.conclude::<V>(OutputGuarantee::None, &Conclusion::None).unwrap()).unwrap();
    let mut ck = checker();
    ck.lenient = true;
    ck.obj = Some(Pb::default());
    ck.check(&txt)?;
    check!(ck.names.len() == 4, "variables {:?} in {txt}", ck.names);
    t.state(&txt);
    if is_obj {
        let o = ck.obj.unwrap();
        for m in 0..16u32 {
            let v = o.t.iter().filter(|x| m >> x.0 & 1 == 1).map(|x| x.1).sum::<i128>() - o.b;
            check!(v == want[m as usize], "objective is {v} instead of {} for {m:b}\n{txt}", want[m as usize]);
        }
        return Ok(());
    }
    for e in &ck.db {
        for m in 0..16u32 {
            let v = e.c.holds(|v| m >> v & 1 == 1);
            check!(i128::from(v) == want[m as usize], "constraint is {v} for {m:b}\n{txt}");
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let leaves = vec![Abs(1), Abs(2), Last(1), Ax("x1", false), Ax("x2", true), Ax("x4", false), Empty];
    let mut d1 = leaves.clone();
    for e in &leaves {
        unary(e, &mut d1);
        for f in &leaves {
            for s in 0..3 {
                d1.push(Add(Box::new(e.clone()), Box::new(f.clone()), s));
            }
        }
    }
    let mut small = leaves.clone();
    for e in &leaves {
        unary_plain(e, &mut small);
        for f in &leaves {
            small.push(Add(Box::new(e.clone()), Box::new(f.clone()), 0));
        }
    }
    let mut d2 = vec![];
    for e in &d1 {
        unary(e, &mut d2);
        for f in &leaves {
            for s in 0..3 {
                d2.push(Add(Box::new(e.clone()), Box::new(f.clone()), s));
                d2.push(Add(Box::new(f.clone()), Box::new(e.clone()), s));
            }
        }
    }
    for e in &small {
        for f in &small {
            for s in 0..3 {
                d2.push(Add(Box::new(e.clone()), Box::new(f.clone()), s));
            }
        }
    }
    ctx.bound("expressions up to operator depth 1", d1.len());
    ctx.run("expr1", &d1, expr);
    ctx.bound("expressions of operator depth 2", d2.len());
    ctx.run("expr2", &d2, expr);
    // a third level on top, one style each
    let mut s2 = small.clone();
    for e in &small {
        unary_plain(e, &mut s2);
        for f in &leaves {
            s2.push(Add(Box::new(e.clone()), Box::new(f.clone()), 0));
            s2.push(Add(Box::new(f.clone()), Box::new(e.clone()), 1));
        }
    }
    let top = ctx.pick(small.len(), s2.len());
    let n2 = s2.len();
    ctx.bound("expressions of depth 3 (sums)", top * n2);
    ctx.run_idx("expr3", top * n2, |i| Add(Box::new(s2[i / n2].clone()), Box::new(s2[i % n2].clone()), (i % 3) as u8), expr);
    ctx.run_idx("expr3-left", top * n2, |i| Sat(Box::new(Div(Box::new(Add(Box::new(s2[i % n2].clone()), Box::new(s2[i / n2].clone()), (i % 3) as u8)), 2, 0))), expr);

    ctx.run("weaken", &leaves[..4], weaken);

    // histories
    let ends: Vec<End> = [End::Drop]
        .into_iter()
        .chain((0..N_CONCL).flat_map(|i| [End::DropWith(i), End::DropUpdated(i), End::Conclude(i)]))
        .collect();
    let h1 = seqs(LETTERS, 0, 1);
    ctx.bound("proof rules and forms", LETTERS.len());
    ctx.run_idx("ends", h1.len() * ends.len(), |i| (h1[i / ends.len()].clone(), ends[i % ends.len()]), hist);
    let depth = ctx.pick(3, 4);
    let n = LETTERS.len();
    ctx.bound("history length", depth);
    ctx.run_idx(
        "histories",
        n.pow(depth),
        |i| {
            let v = (0..depth).map(|k| LETTERS[i / n.pow(k) % n]).collect();
            (v, if i % 2 == 0 { End::Drop } else { End::Conclude(0) })
        },
        hist,
    );
    let n = CORE.len();
    let depth = ctx.pick(4, 5);
    ctx.bound("history length over the rules that number, delete or change the objective", depth);
    ctx.run_idx("histories-core", n.pow(depth), |i| ((0..depth).map(|k| CORE[i / n.pow(k) % n]).collect(), End::Conclude(0)), hist);

    // the types of the library
    let lits = [1, -1, 2, -2, 3, -3, 4, -4];
    let mut ts: Vec<T> = vec![];
    let vs = seqs(&lits, 0, ctx.pick(3, 4));
    ts.extend(lits.iter().map(|x| T::Axiom(*x)));
    for v in &vs {
        ts.push(T::Clause(v.clone()));
        for k in [Kind::Ub, Kind::Lb] {
            for b in 0..=v.len() as i64 + 1 {
                ts.push(T::Card(k, v.clone(), b));
            }
        }
    }
    let ws: Vec<(i32, i64)> = [1, -2, 3].iter().flat_map(|x| [-2, -1, 1, 3].map(|w| (*x, w))).collect();
    for v in seqs(&ws, 0, ctx.pick(2, 3)) {
        let s: i64 = v.iter().map(|x| x.1.abs()).sum();
        for k in [Kind::Ub, Kind::Lb] {
            for b in -s - 1..=s + 1 {
                ts.push(T::Pb(k, v.clone(), b));
            }
        }
    }
    let ow: Vec<(i32, usize)> = [1, -2, -3, 4].iter().flat_map(|x| [1, 1, 3].map(|w| (*x, w))).collect();
    for v in seqs(&ow, 0, 3) {
        for off in [0, 2, -3] {
            for soft in [false, true] {
                ts.push(T::Obj(v.clone(), off, soft));
            }
        }
    }
    ctx.bound("constraints and objectives", ts.len());
    ctx.run("types", &ts, types);
}
