//! Parsers are total and only depend on the significant parts of their input
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::instances::fio::dimacs::{CnfBody, CnfData, CnfHeader, Mcnf, McnfData, Parser, WcnfData, WcnfHeader, WcnfHeaderData, WcnfPost22};
use rustsat::instances::fio::opb::{Data, ObjectiveSense, Options, Parser as OpbParser};
use rustsat::instances::fio::parse_sat_solver_output;
use rustsat::instances::{BasicVarManager, MultiOptInstance, OptInstance, SatInstance};
use rustsat::types::constraints::PbConstraint;
use rustsat::types::{Assignment, Clause, Lit, Var};
use std::io::Cursor;

// ---------------------------------------------------------------------------------------------
// reference grammar, written from the documentation of the formats and of the parsers' leniency

type C = Vec<i64>;
/// highest number of a variable
const TOP: i64 = i32::MAX as i64;

fn blank(c: char) -> bool {
    c == ' ' || c == '\t'
}
/// unsigned number without leading zeros
fn num(s: &str) -> Option<u128> {
    let ok = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0'));
    ok.then(|| s.parse().ok()).flatten()
}
fn r_lit(s: &str) -> Option<i64> {
    let (neg, d) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let n = num(d)?;
    if n == 0 || n > TOP as u128 {
        return None;
    }
    Some(if neg { -(n as i64) } else { n as i64 })
}
fn toks(s: &str) -> Vec<&str> {
    s.split(blank).filter(|t| !t.is_empty()).collect()
}
/// literals with an optional zero at the end
fn r_clause(t: &[&str]) -> Option<C> {
    let t = if t.last() == Some(&"0") { &t[..t.len() - 1] } else { t };
    t.iter().map(|x| r_lit(x)).collect()
}
fn r_size(s: &str) -> Option<usize> {
    num(s).and_then(|n| usize::try_from(n).ok())
}
/// significant lines
fn lines(s: &str) -> impl Iterator<Item = &str> {
    s.split('\n').map(str::trim).filter(|l| !l.is_empty())
}

/// header variables and one result per line behind the header (`None` for an error, `Some(None)` for a comment)
type Body<T> = Vec<Option<Option<T>>>;
fn r_cnf(s: &str) -> Option<(u32, usize, Body<C>)> {
    let mut it = lines(s).skip_while(|l| l.starts_with('c'));
    let t = toks(it.next()?);
    let ["p", "cnf", v, n] = t[..] else { return None };
    let (v, n) = (num(v).filter(|v| *v <= Var::MAX_IDX as u128)? as u32, r_size(n)?);
    Some((v, n, it.map(|l| if l.starts_with('c') { Some(None) } else { r_clause(&toks(l)).map(Some) }).collect()))
}
#[derive(Debug, PartialEq, Clone)]
enum W {
    Hard(C),
    Soft(usize, usize, C),
}
fn r_hard(l: &str) -> Option<W> {
    let t = toks(l);
    if t[0] != "h" || t.len() < 2 {
        return None;
    }
    r_clause(&t[1..]).map(W::Hard)
}
fn r_soft(l: &str) -> Option<W> {
    let t = toks(l);
    // a lone weight is no clause
    if t.len() < 2 {
        return None;
    }
    Some(W::Soft(0, r_size(t[0])?, r_clause(&t[1..])?))
}
type RWcnf = Option<(Option<(u32, usize, usize)>, Body<W>)>;
fn r_wcnf(s: &str) -> RWcnf {
    let mut it = lines(s).skip_while(|l| l.starts_with('c')).peekable();
    let Some(&f) = it.peek() else { return Some((None, vec![])) };
    if r_hard(f).or(r_soft(f)).is_some() {
        let b = it.map(|l| if l.starts_with('c') { Some(None) } else { r_hard(l).or(r_soft(l)).map(Some) }).collect();
        return Some((None, b));
    }
    it.next();
    let t = toks(f);
    let ["p", "wcnf", v, n, top] = t[..] else { return None };
    let v = num(v).filter(|v| *v <= Var::MAX_IDX as u128)? as u32;
    let (n, top) = (r_size(n)?, r_size(top)?);
    let b = it
        .map(|l| {
            if l.starts_with('c') {
                return Some(None);
            }
            match r_soft(l)? {
                W::Soft(_, w, c) if w >= top => Some(Some(W::Hard(c))),
                x => Some(Some(x)),
            }
        })
        .collect();
    Some((Some((v, n, top)), b))
}
fn r_mcnf(s: &str) -> Body<W> {
    lines(s)
        .map(|l| {
            if l.starts_with('c') {
                return Some(None);
            }
            if let Some(h) = r_hard(l) {
                return Some(Some(h));
            }
            let t = toks(l.strip_prefix('o')?);
            if t.len() < 3 {
                return None;
            }
            let k = r_size(t[0]).filter(|k| *k > 0)?;
            Some(Some(W::Soft(k, r_size(t[1])?, r_clause(&t[2..])?)))
        })
        .collect()
}

#[derive(Debug, PartialEq, Clone)]
enum O {
    Cmt(String),
    /// terms, operator, bound
    Con(Vec<(i128, bool, u32)>, &'static str, i128),
    Obj(bool, Vec<(i128, bool, u32)>),
}
struct P<'a>(&'a str);
impl<'a> P<'a> {
    fn sp(&mut self) -> bool {
        let n = self.0.trim_start_matches(blank);
        let r = n.len() < self.0.len();
        self.0 = n;
        r
    }
    fn eat(&mut self, x: &str) -> bool {
        let r = self.0.starts_with(x);
        if r {
            self.0 = &self.0[x.len()..];
        }
        r
    }
    /// number without leading zeros; a sign only before a number other than zero
    fn int(&mut self) -> Option<i128> {
        let s = self.0;
        let neg = s.starts_with('-');
        let signed = neg || s.starts_with('+');
        let d = &s[signed as usize..];
        let n = if !signed && d.starts_with('0') { 1 } else { d.bytes().take_while(|b| b.is_ascii_digit()).count() };
        if n == 0 || (signed && d.starts_with('0')) {
            return None;
        }
        let v: i128 = d[..n].parse().ok()?;
        if v > isize::MAX as i128 {
            return None;
        }
        self.0 = &d[n..];
        Some(if neg { -v } else { v })
    }
    fn term(&mut self, first: u32) -> Option<(i128, bool, u32)> {
        let c = self.int()?;
        if !self.sp() {
            return None;
        }
        let neg = self.eat("~") || self.eat("-");
        if !self.eat("x") {
            return None;
        }
        let n = if self.0.starts_with('0') { 1 } else { self.0.bytes().take_while(|b| b.is_ascii_digit()).count() };
        let v: u32 = self.0[..n].parse().ok()?;
        if v < first || v - first >= Var::MAX_IDX {
            return None;
        }
        self.0 = &self.0[n..];
        Some((c, neg, v - first))
    }
    fn sum(&mut self, first: u32) -> Vec<(i128, bool, u32)> {
        let mut v = vec![];
        loop {
            let save = self.0;
            if !v.is_empty() && !self.sp() {
                break;
            }
            match self.term(first) {
                Some(t) => v.push(t),
                None => {
                    self.0 = save;
                    break;
                }
            }
        }
        v
    }
    fn ending(&mut self) -> bool {
        self.sp();
        let semi = self.eat(";");
        self.sp();
        if self.0.is_empty() {
            return true;
        }
        if self.eat("\n") || self.eat("\r\n") {
            self.sp();
            return true;
        }
        semi
    }
    fn statement(&mut self, first: u32) -> Option<O> {
        self.sp();
        if self.eat("*") {
            let n = self.0.find('\n').unwrap_or(self.0.len());
            let c = self.0[..n].to_string();
            self.0 = &self.0[(n + 1).min(self.0.len())..];
            return Some(O::Cmt(c));
        }
        let max = self.0.starts_with("max:");
        if self.eat("min:") || self.eat("max:") {
            self.sp();
            let s = self.sum(first);
            // magnitudes must not overflow
            if s.iter().map(|t| t.0.abs()).sum::<i128>() > isize::MAX as i128 || !self.ending() {
                return None;
            }
            return Some(O::Obj(max, s));
        }
        let s = self.sum(first);
        self.sp();
        let op = ["<=", ">=", "<", ">", "="].into_iter().find(|o| self.0.starts_with(o))?;
        self.eat(op);
        self.sp();
        let b = self.int()?;
        if s.iter().map(|t| t.0.abs()).sum::<i128>() + b.abs() + 1 > isize::MAX as i128 || !self.ending() {
            return None;
        }
        Some(O::Con(s, op, b))
    }
}
/// one result per statement; an error drops the rest of its line
fn r_opb(s: &str, first: u32) -> Vec<Option<O>> {
    let mut v = vec![];
    for l in s.split_inclusive('\n') {
        let mut p = P(l.trim_start());
        while !p.0.is_empty() {
            let x = p.statement(first);
            let e = x.is_none();
            v.push(x);
            if e {
                break;
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------

fn clv(c: &Clause) -> C {
    c.iter().map(|l| l.to_ipasir() as i64).collect()
}
fn all<T: Clone>(b: &Body<T>) -> Option<Vec<T>> {
    b.iter().map(Option::clone).collect::<Option<Vec<_>>>().map(|v| v.into_iter().flatten().collect())
}
fn max_var(c: &[C]) -> u32 {
    c.iter().flatten().map(|l| l.unsigned_abs() as u32).max().unwrap_or(0)
}

fn one_cnf(s: &str) -> Result<(), String> {
    let want = r_cnf(s);
    let got = SatInstance::<BasicVarManager>::from_dimacs(Cursor::new(s));
    match (&got, want.as_ref().and_then(|w| all(&w.2).map(|b| (w.0, b)))) {
        (Ok(i), Some((v, cls))) => {
            ensure_eq!(i.cnf().iter().map(clv).collect::<Vec<_>>(), cls, "clauses of CNF {s:?}");
            ensure_eq!(i.n_vars(), v.max(max_var(&cls)), "variables of CNF {s:?}");
        }
        (Err(_), None) => (),
        (Ok(_), None) => return Err(format!("malformed CNF {s:?} is accepted")),
        (Err(e), Some(_)) => return Err(format!("CNF {s:?} is refused: {e}")),
    }
    // the streaming interface, with and without iterating over the head, continued behind errors
    for iterate in [false, true] {
        let mut p = Parser::<CnfHeader, _>::new(Cursor::new(s));
        if iterate {
            let r: Vec<bool> = p.by_ref().map(|x| x.is_ok()).take(s.len() + 2).collect();
            check!(r.len() <= s.len() + 1, "head of {s:?} does not end");
            if r.contains(&false) {
                continue;
            }
        }
        match (p.forward_to_body(), &want) {
            (Ok(h), Some((v, n, body))) => {
                ensure_eq!((h.n_vars, h.n_clauses), (*v, *n), "header of CNF {s:?}");
                let b: Parser<CnfBody, _> = h.body_parser;
                let r: Body<C> = b
                    .map(|x| x.ok().map(|d| if let CnfData::Clause(c) = d { Some(clv(&c)) } else { None }))
                    .take(s.len() + 2)
                    .collect();
                ensure_eq!(&r, body, "lines of CNF {s:?}");
            }
            (Err(_), None) => (),
            (g, w) => return Err(format!("CNF {s:?} read as {:?} instead of {w:?}", g.map(|h| (h.n_vars, h.n_clauses)))),
        }
    }
    Ok(())
}

fn wd(x: WcnfData) -> Option<W> {
    match x {
        WcnfData::HardClause(c) => Some(W::Hard(clv(&c))),
        WcnfData::SoftClause { weight, clause } => Some(W::Soft(0, weight, clv(&clause))),
        WcnfData::Comment(_) => None,
    }
}
/// weights of the normalised soft clauses
fn softs<'a>(it: impl Iterator<Item = &'a W>, k: usize) -> Option<Vec<(C, u128)>> {
    let mut m = std::collections::BTreeMap::<C, u128>::new();
    let mut sum = 0u128;
    for x in it {
        if let W::Soft(i, w, c) = x {
            if *i == k {
                sum += *w as u128;
                *m.entry(c.clone()).or_default() += *w as u128;
            }
        }
    }
    if sum > isize::MAX as u128 {
        return None;
    }
    Some(m.into_iter().filter(|x| x.1 > 0).collect())
}
fn obj(o: &rustsat::instances::Objective) -> Vec<(C, u128)> {
    let mut m = std::collections::BTreeMap::<C, u128>::new();
    for (c, w) in o.iter_soft_cls() {
        *m.entry(clv(&c)).or_default() += w as u128;
    }
    if o.offset() > 0 {
        *m.entry(vec![]).or_default() += o.offset() as u128;
    }
    m.into_iter().filter(|x| x.1 > 0).collect()
}

fn one_wcnf(s: &str) -> Result<(), String> {
    let want = r_wcnf(s);
    let got = OptInstance::<BasicVarManager>::from_dimacs(Cursor::new(s));
    let w = want.as_ref().and_then(|w| all(&w.1)).and_then(|b| softs(b.iter(), 0).map(|s| (b, s)));
    match (got, w) {
        (Ok(i), Some((b, so))) => {
            let hard: Vec<C> = b.iter().filter_map(|x| if let W::Hard(c) = x { Some(c.clone()) } else { None }).collect();
            ensure_eq!(i.constraints_ref().cnf().iter().map(clv).collect::<Vec<_>>(), hard, "hard clauses of WCNF {s:?}");
            ensure_eq!(obj(i.objective_ref()), so, "soft clauses of WCNF {s:?}");
        }
        (Err(_), None) => (),
        (Ok(_), None) => return Err(format!("malformed WCNF {s:?} is accepted")),
        (Err(e), Some(_)) => return Err(format!("WCNF {s:?} is refused: {e}")),
    }
    for iterate in [false, true] {
        let mut p = Parser::<WcnfHeader, _>::new(Cursor::new(s));
        if iterate {
            let r: Vec<bool> = p.by_ref().map(|x| x.is_ok()).take(s.len() + 2).collect();
            check!(r.len() <= s.len() + 1, "head of {s:?} does not end");
            if r.contains(&false) {
                continue;
            }
        }
        let (h, r): (_, Body<W>) = match (p.forward_to_body(), &want) {
            (Ok(WcnfHeaderData::Pre22 { n_vars, n_clauses, top, body_parser }), Some(_)) => {
                (Some((n_vars, n_clauses, top)), body_parser.map(|x| x.ok().map(wd)).take(s.len() + 2).collect())
            }
            (Ok(WcnfHeaderData::Post22(b)), Some(_)) => {
                let b: Parser<WcnfPost22, _> = b;
                (None, b.map(|x| x.ok().map(wd)).take(s.len() + 2).collect())
            }
            (Ok(WcnfHeaderData::Empty(_)), Some(_)) => (None, vec![]),
            (Err(_), None) => continue,
            (g, w) => return Err(format!("WCNF {s:?} read as {} instead of {w:?}", g.is_ok())),
        };
        let (wh, wb) = want.as_ref().unwrap();
        ensure_eq!(&h, wh, "header of WCNF {s:?}");
        ensure_eq!(&r, wb, "lines of WCNF {s:?}");
    }
    Ok(())
}

fn one_mcnf(s: &str) -> Result<(), String> {
    let want = r_mcnf(s);
    let r: Body<W> = Parser::<Mcnf, _>::new(Cursor::new(s))
        .map(|x| {
            x.ok().map(|d| match d {
                McnfData::HardClause(c) => Some(W::Hard(clv(&c))),
                McnfData::SoftClause { obj_idx, weight, clause } => Some(W::Soft(obj_idx, weight, clv(&clause))),
                McnfData::Comment(_) => None,
            })
        })
        .take(s.len() + 2)
        .collect();
    ensure_eq!(r, want, "lines of MCNF {s:?}");
    // memory is proportional to the highest objective index
    if want.iter().flatten().flatten().any(|w| matches!(w, W::Soft(k, ..) if *k > 10_000)) {
        return Ok(());
    }
    let n = want.iter().flatten().flatten().map(|w| if let W::Soft(k, ..) = w { *k } else { 0 }).max().unwrap_or(0);
    let w = all(&want).and_then(|b| (1..=n).map(|k| softs(b.iter(), k)).collect::<Option<Vec<_>>>().map(|s| (b, s)));
    match (MultiOptInstance::<BasicVarManager>::from_dimacs(Cursor::new(s)), w) {
        (Ok(i), Some((b, so))) => {
            let hard: Vec<C> = b.iter().filter_map(|x| if let W::Hard(c) = x { Some(c.clone()) } else { None }).collect();
            ensure_eq!(i.constraints_ref().cnf().iter().map(clv).collect::<Vec<_>>(), hard, "hard clauses of MCNF {s:?}");
            ensure_eq!(i.n_objectives(), n, "objectives of MCNF {s:?}");
            for k in 0..n {
                ensure_eq!(obj(i.objective_ref(k)), so[k], "objective {k} of MCNF {s:?}");
            }
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err(format!("malformed MCNF {s:?} is accepted")),
        (Err(e), Some(_)) => Err(format!("MCNF {s:?} is refused: {e}")),
    }
}

fn same_con(p: &PbConstraint, terms: &[(i128, bool, u32)], op: &str, b: i128) -> bool {
    // as sums over literals, for the assignments that set one literal or none
    let vars: Vec<u32> = terms.iter().map(|t| t.2).collect();
    if p.iter().any(|(l, _)| !vars.contains(&l.vidx32())) {
        return false;
    }
    let vals = |f: &dyn Fn(u32) -> bool| {
        let s: i128 = terms.iter().map(|t| if f(t.2) != t.1 { t.0 } else { 0 }).sum();
        let q: i128 = p.iter().map(|(l, w)| if f(l.vidx32()) != l.is_neg() { *w as i128 } else { 0 }).sum();
        let pb = p.bound() as i128;
        let a = match op {
            "<=" => s <= b,
            ">=" => s >= b,
            "<" => s < b,
            ">" => s > b,
            _ => s == b,
        };
        let c = match p {
            PbConstraint::Ub(_) => q <= pb,
            PbConstraint::Lb(_) => q >= pb,
            PbConstraint::Eq(_) => q == pb,
        };
        a == c
    };
    let mut u = vars.clone();
    u.sort_unstable();
    u.dedup();
    (0..1u32 << u.len().min(8)).all(|m| vals(&|v| u.iter().position(|x| *x == v).is_some_and(|i| m >> i & 1 == 1)))
}

fn one_opb(s: &str) -> Result<(), String> {
    for first in [0, 1, 2] {
        let op = Options { first_var_idx: first, no_negated_lits: first == 1 };
        let want = r_opb(s, first);
        let got: Vec<Option<Data>> = OpbParser::new(Cursor::new(s), op).map(|x| x.ok()).take(s.len() + 2).collect();
        ensure_eq!(got.len(), want.len(), "statements of OPB {s:?} read as {got:?} instead of {want:?}");
        for (g, w) in got.iter().zip(&want) {
            let ok = match (g, w) {
                (None, None) => true,
                (Some(Data::Cmt(a)), Some(O::Cmt(b))) => a.trim_start_matches('*').trim() == b.trim_start_matches('*').trim(),
                (Some(Data::Constr(p)), Some(O::Con(t, o, b))) => same_con(p, t, o, *b),
                (Some(Data::Obj(o)), Some(O::Obj(max, t))) => {
                    (o.sense == ObjectiveSense::Maximize) == *max
                        && o.offset as i128 == t.iter().map(|t| t.0.min(0)).sum::<i128>()
                        && o.terms.iter().map(|(w, l)| (*w as i128, *l)).collect::<Vec<_>>()
                            == t.iter().map(|t| (t.0.abs(), Lit::new(t.2, t.1 != (t.0 <= 0)))).collect::<Vec<_>>()
                }
                _ => false,
            };
            check!(ok, "OPB {s:?} with first index {first} is read as {g:?} instead of {w:?}");
        }
        let ok = !want.contains(&None);
        let n = want.iter().filter(|w| matches!(w, Some(O::Obj(..)))).count();
        let g = SatInstance::<BasicVarManager>::from_opb(Cursor::new(s), op).is_ok();
        ensure_eq!(g, ok && n == 0, "OPB {s:?} accepted as a decision instance, first index {first}");
        let g = OptInstance::<BasicVarManager>::from_opb(Cursor::new(s), op);
        let g_err = g.as_ref().err().map(|e| format!("{e}"));
        if !matches!(g, Err(rustsat::instances::fio::Error::ObjectiveConversionOverflow)) {
            ensure_eq!(g.is_ok(), ok && n == 1, "OPB {s:?} accepted as a single-objective instance, first index {first}, {g_err:?}");
        }
        let g = MultiOptInstance::<BasicVarManager>::from_opb(Cursor::new(s), op);
        match g {
            Err(rustsat::instances::fio::Error::ObjectiveConversionOverflow) => (),
            Ok(i) => {
                check!(ok, "malformed OPB {s:?} accepted as a multi-objective instance, first index {first}");
                ensure_eq!(i.n_objectives(), n, "objectives of OPB {s:?}");
            }
            Err(_) => check!(!ok, "OPB {s:?} refused as a multi-objective instance, first index {first}"),
        }
    }
    Ok(())
}

fn at(t: &mut Tally, s: &str, f: fn(&str) -> Result<(), String>) -> Result<(), String> {
    t.state(s);
    t.step(4);
    f(s)
}

/// everything on arbitrary bytes: no panic, and an end
fn total(t: &mut Tally, b: &[u8]) -> Result<(), String> {
    t.state(b);
    t.step(12);
    let n = b.len() + 2;
    let c = || Cursor::new(b);
    let _ = SatInstance::<BasicVarManager>::from_dimacs(c());
    let _ = OptInstance::<BasicVarManager>::from_dimacs(c());
    let _ = MultiOptInstance::<BasicVarManager>::from_dimacs(c());
    let op = Options { first_var_idx: 1, no_negated_lits: true };
    let _ = SatInstance::<BasicVarManager>::from_opb(c(), op);
    let _ = OptInstance::<BasicVarManager>::from_opb(c(), op);
    let _ = MultiOptInstance::<BasicVarManager>::from_opb(c(), op);
    let _ = parse_sat_solver_output(c());
    // errors can be shown, iteration ends
    let show = |e: &dyn std::fmt::Display| {
        check!(!format!("{e}").is_empty(), "empty error message for {b:?}");
        Ok(())
    };
    macro_rules! drain {
        ($it:expr, $what:literal) => {{
            let mut k = 0;
            for x in $it.take(n) {
                k += 1;
                if let Err(e) = x {
                    show(&e)?;
                }
            }
            check!(k < n, concat!($what, " of {:?} does not end"), b);
        }};
    }
    drain!(Parser::<Mcnf, _>::new(c()), "MCNF parser");
    drain!(OpbParser::new(c(), op), "OPB parser");
    let mut p = Parser::<CnfHeader, _>::new(c());
    drain!(p.by_ref(), "CNF head");
    match p.forward_to_body() {
        Ok(h) => drain!(h.body_parser, "CNF body"),
        Err(e) => show(&e)?,
    }
    let mut p = Parser::<WcnfHeader, _>::new(c());
    drain!(p.by_ref(), "WCNF head");
    match p.forward_to_body() {
        Ok(WcnfHeaderData::Pre22 { body_parser, .. }) => drain!(body_parser, "WCNF body"),
        Ok(WcnfHeaderData::Post22(b)) => drain!(b, "WCNF body"),
        Ok(WcnfHeaderData::Empty(_)) => (),
        Err(e) => show(&e)?,
    }
    if let Ok(s) = std::str::from_utf8(b) {
        let mut a = Assignment::default();
        let _ = a.extend_from_vline(s);
        let _ = Assignment::from_vline(s);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Fmt {
    Cnf,
    Wcnf,
    Pre22,
    Mcnf,
    Opb,
}

/// everything that is read, in a comparable form
fn meaning(f: Fmt, s: &str) -> Result<String, String> {
    let c = || Cursor::new(s.as_bytes());
    let e = |e: rustsat::instances::fio::Error| format!("{s:?} refused: {e}");
    let op = Options { first_var_idx: 1, no_negated_lits: true };
    Ok(match f {
        Fmt::Cnf => {
            let i = SatInstance::<BasicVarManager>::from_dimacs(c()).map_err(e)?;
            format!("{} {:?}", i.n_vars(), i.cnf())
        }
        Fmt::Wcnf | Fmt::Pre22 => {
            let i = OptInstance::<BasicVarManager>::from_dimacs(c()).map_err(e)?;
            format!("{} {:?} {:?}", i.constraints_ref().n_vars(), i.constraints_ref().cnf(), obj(i.objective_ref()))
        }
        Fmt::Mcnf => {
            let i = MultiOptInstance::<BasicVarManager>::from_dimacs(c()).map_err(e)?;
            format!("{} {:?} {:?}", i.constraints_ref().n_vars(), i.constraints_ref().cnf(), (0..i.n_objectives()).map(|k| obj(i.objective_ref(k))).collect::<Vec<_>>())
        }
        Fmt::Opb => {
            let i = MultiOptInstance::<BasicVarManager>::from_opb(c(), op).map_err(e)?;
            let (pbs, _) = i.constraints_ref().clone().into_pbs();
            format!("{} {pbs:?} {:?}", i.constraints_ref().n_vars(), (0..i.n_objectives()).map(|k| (i.objective_ref(k).offset(), obj(i.objective_ref(k)))).collect::<Vec<_>>())
        }
    })
}

#[derive(Clone, Debug, Hash)]
struct Shape {
    fmt: Fmt,
    base: usize,
    /// one of the gaps to insert comments or blank lines at, by bit
    cmt: u32,
    cmt_kind: usize,
    sep: usize,
    eol: usize,
    lead: usize,
    last: usize,
}
fn bases(f: Fmt) -> Vec<Vec<&'static str>> {
    match f {
        Fmt::Cnf => vec![vec!["p cnf 5 3", "1 -2 0", "3 0", "-1 2 -3 0"], vec!["p cnf 0 0"], vec!["p cnf 2 2", "0", "1 2 0"]],
        Fmt::Wcnf => vec![vec!["h 1 -2 0", "3 3 0", "1 -1 2 0"], vec!["7 1 0", "h 0"], vec!["2 0", "2 1 0", "2 1 0"]],
        Fmt::Pre22 => vec![vec!["p wcnf 4 3 9", "9 1 -2 0", "3 3 0", "1 -1 2 0"], vec!["p wcnf 1 1 2", "1 1 0"]],
        Fmt::Mcnf => vec![vec!["h 1 -2 0", "o1 3 3 0", "o 2 1 -1 2 0"], vec!["o 1 7 1 0", "h 0"]],
        Fmt::Opb => vec![
            vec!["min: 2 x1 -3 x2 ;", "1 x1 2 ~x2 >= 1 ;", "1 x3 -1 x1 = 0 ;"],
            vec!["1 x1 <= 0 ;", "max: 1 x1 ;", "min: ;"],
        ],
    }
}
fn shaped(c: &Shape) -> (String, String) {
    let b = &bases(c.fmt)[c.base];
    let plain = b.iter().map(|l| format!("{l}\n")).collect::<String>();
    let eol = ["\n", "\r\n"][c.eol];
    let cc = if c.fmt == Fmt::Opb { "*" } else { "c" };
    let mut s = String::new();
    let extra = |s: &mut String| {
        let x = match c.cmt_kind {
            0 => format!("{cc} 1 2 0"),
            1 => String::new(),
            2 => cc.to_string(),
            3 => "  \t".into(),
            _ => format!("{cc} p cnf é ; 1 x1 >= 1;"),
        };
        *s += &x;
        *s += eol;
    };
    for (i, l) in b.iter().enumerate() {
        if c.cmt >> i & 1 == 1 {
            extra(&mut s);
        }
        s += ["", " ", "\t "][c.lead];
        s += &l.replace(' ', [" ", "  ", "\t"][c.sep]);
        if i + 1 < b.len() || c.last != 1 || c.cmt >> b.len() & 1 == 1 {
            s += ["", "", " ", "\t"][c.last];
            s += eol;
        }
    }
    if c.cmt >> b.len() & 1 == 1 {
        extra(&mut s);
    }
    (plain, s)
}
fn format_case(t: &mut Tally, c: &Shape) -> Result<(), String> {
    let (plain, s) = shaped(c);
    t.state(&s);
    t.step(2);
    let a = meaning(c.fmt, &plain)?;
    let b = meaning(c.fmt, &s)?;
    check!(a == b, "{s:?} is read as {b}, without its formatting as {a}");
    Ok(())
}

pub fn run(cx: &Ctx) {
    // token sequences, separators are tokens as well
    let d = |al: &[&str], n: usize, pre: &[&str]| -> Vec<String> {
        let s = seqs(al, 0, n);
        pre.iter().flat_map(|p| s.iter().map(move |x| format!("{p}{}", x.concat()))).collect()
    };
    let run = |g: &str, al: &[&str], n: usize, pre: &[&str], f: fn(&str) -> Result<(), String>| {
        // too many to keep: decode the index
        let k = al.len();
        let mut total = 0usize;
        let mut starts = vec![];
        for len in 0..=n {
            starts.push(total);
            total += k.pow(len as u32);
        }
        cx.run_idx(
            g,
            total * pre.len(),
            |i| {
                let (p, mut i) = (i / total, i % total);
                let len = (0..=n).rev().find(|l| starts[*l] <= i).unwrap();
                i -= starts[len];
                let mut s = pre[p].to_string();
                for _ in 0..len {
                    s += al[i % k];
                    i /= k;
                }
                s
            },
            move |t, s: &String| at(t, s, f),
        );
    };
    let n = cx.pick(5, 7);
    run("cnf-head", &["p", " ", "cnf", "3", "\n", "c", "0", "-1", "wcnf"], n, &["", "p cnf ", "c x\np cnf 3 "], one_cnf);
    run("cnf-body", &["1", "-", " ", "0", "\n", "c", "2", "+"], n, &["p cnf 3 2\n", "p cnf 0 0\n1"], one_cnf);
    run("cnf-spacing", &["1", "0", " ", "\t", "\r\n", "\n", "c"], n, &["p cnf 1 1\n", ""], one_cnf);
    run("wcnf-head", &["p", " ", "wcnf", "3", "\n", "c", "0", "h"], n, &["", "p wcnf 2 ", "p wcnf 2 1 "], one_wcnf);
    run("wcnf-new", &["h", " ", "1", "0", "-", "\n", "c", "3"], n, &["", "h 1 0\n", "5 "], one_wcnf);
    run("wcnf-old", &["1", " ", "0", "-", "\n", "h", "5", "c"], n, &["p wcnf 3 2 5\n", "p wcnf 3 2 0\n5 1 0\n"], one_wcnf);
    run("mcnf", &["h", "o", " ", "1", "0", "-", "\n", "2"], n, &["", "o1 1 ", "o 2 "], one_mcnf);
    run("opb", &["1", " ", "x1", ">=", "-", ";", "\n", "~", "0"], n, &["", "1 x1 ", "1 x2 >= 1"], one_opb);
    run("opb-operators", &["<", ">", "=", "1", " ", ";", "+", "\r\n"], n, &["1 x1 ", "-2 ~x2 3 x1 "], one_opb);
    run("opb-objective", &["min:", "max:", " ", "2 x1", "*", ";", "\n", "-", "1 ~x2"], n, &["", "min: "], one_opb);
    // numbers at the ends of their ranges
    let nums = [
        "0", "1", "-1", "+1", "01", "-0", "2147483646", "2147483647", "-2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775806",
        "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "1.5", "x", "é", "",
    ];
    let pairs = seqs(&nums, 2, 2);
    let each = |f: fn(&str, &str) -> Vec<String>| -> Vec<String> { pairs.iter().flat_map(|p| f(p[0], p[1])).collect() };
    let cnf = each(|a, b| {
        vec![
            format!("p cnf {a} {b}\n"),
            format!("p cnf {a} 1\n{b} 0\n"),
            format!("p cnf 1 1\n{a} {b} 0\n1 0\n"),
        ]
    });
    cx.run("numbers-cnf", &cnf, |t, s| at(t, s, one_cnf));
    let w = each(|a, b| {
        vec![
            format!("p wcnf 1 {a} {b}\n1 1 0\n"),
            format!("p wcnf 1 1 {a}\n{b} 1 0\n"),
            format!("{a} 1 0\n{b} 1 0\n"),
            format!("{a} 1 0\n{b} 2 0\n"),
            format!("{a} {b} 0\nh 1 0"),
            format!("h {a} {b} 0"),
        ]
    });
    cx.run("numbers-wcnf", &w, |t, s| at(t, s, one_wcnf));
    let m = each(|a, b| vec![format!("o {a} {b} 1 0\n"), format!("o2 {a} 1 0\no2 {b} 2 0\n"), format!("o1 {a} 1 0\no2 {b} 1 0\n"), format!("o 1 1 {a} {b} 0\n")]);
    cx.run("numbers-mcnf", &m, |t, s| at(t, s, one_mcnf));
    let o = each(|a, b| {
        let mut v = vec![format!("1 x{a} 1 ~x{b} >= 1;\n"), format!("min: {a} x1 {b} x2;\n"), format!("max: {a} x1 {b} ~x2;\n"), format!("min: {a} x{b};\n"), format!("max: {a} ~x{b};\n")];
        for op in ["<=", ">=", "<", ">", "="] {
            v.push(format!("{a} x1 {op} {b};\n"));
            v.push(format!("{a} x1 {b} ~x2 {op} 1;\n"));
            v.push(format!("{a} x1 {b} x1 {op} -1;\n"));
        }
        v
    });
    cx.run("numbers-opb", &o, |t, s| at(t, s, one_opb));
    // formatting that does not matter
    let mut sh = vec![];
    for f in [Fmt::Cnf, Fmt::Wcnf, Fmt::Pre22, Fmt::Mcnf, Fmt::Opb] {
        for (base, b) in bases(f).iter().enumerate() {
            for cmt in 0..1u32 << (b.len() + 1) {
                for cmt_kind in 0..5 {
                    for sep in 0..3 {
                        for eol in 0..2 {
                            for lead in 0..3 {
                                for last in 0..4 {
                                    sh.push(Shape { fmt: f, base, cmt, cmt_kind, sep, eol, lead, last });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    cx.run("formatting", &sh, format_case);
    // arbitrary bytes
    let bytes: Vec<u8> = b"pcnfwho x~*min:;<>=vs+-019 \t\r\n\0\x0b\xc3\xa9\xff".to_vec();
    let small: Vec<u8> = { let mut b = bytes.clone(); b.sort_unstable(); b.dedup(); b };
    let k = small.len();
    let len = cx.pick(3, 4);
    let tot = (0..=len as u32).map(|l| k.pow(l)).sum::<usize>();
    for pre in [&b""[..], b"p cnf 1 1\n", b"h 1 0\n", b"p wcnf 1 1 1\n", b"1 x1 >= 1; ", b"s SATISFIABLE\nv "] {
        cx.run_idx(
            &format!("bytes-{}", pre.len()),
            tot,
            |mut i| {
                let mut l = 0;
                while i >= k.pow(l) {
                    i -= k.pow(l);
                    l += 1;
                }
                let mut v = pre.to_vec();
                for _ in 0..l {
                    v.push(small[i % k]);
                    i /= k;
                }
                v
            },
            |t, b: &Vec<u8>| total(t, b),
        );
    }
    // whole words with bytes that break lines or text at unexpected places
    let words: Vec<&str> = vec!["p cnf 1 1\n", "p wcnf 1 1 1\n", "h 1 0\n", "o1 1 1 0\n", "1 x1 >= 1;", "min: 1 x1;\n", "* c", "c c", "s SATISFIABLE\n", "v 1 -2 0\n", "v 01\n", "é", "\r", "\0", "x", "\n", "\u{a0}", "\u{2028}"];
    let ws = d(&words, cx.pick(3, 4), &[""]);
    cx.run("words", &ws, |t, s: &String| total(t, s.as_bytes()));
    cx.bound("tokens", n);
    cx.bound("arbitrary bytes", len);
    cx.bound("words", cx.pick(3, 4));
    cx.assume("objective indices of MCNF lines above 10000 are only parsed: the instance needs memory for each objective below the index");
}
