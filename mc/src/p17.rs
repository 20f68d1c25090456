//! OPB files: what is read means what the text says, what is written reads back
use crate::common::*;
use crate::oracle::*;
use crate::p09::*;
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::instances::fio::opb::{write_opb_lines, Data, FileLine, ObjectiveSense, Options, Parser};
use rustsat::instances::fio::Error;
use rustsat::instances::{BasicVarManager, MultiOptInstance, Objective, OptInstance, SatInstance};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit, Var};
use std::io::Cursor;

const N: usize = 3;

/// a term as text (coefficient, literal prefix, variable) with its value computed from the text
type T = (&'static str, &'static str, u32);

fn coef(s: &str) -> i128 {
    s.trim_start_matches('+').parse().unwrap()
}
/// value of the sum over the variables counted from `first`
fn value(sum: &[T], first: u32, m: u32) -> i128 {
    sum.iter().map(|&(c, p, v)| if (m >> (v - first) & 1 == 1) == p.is_empty() { coef(c) } else { 0 }).sum()
}
fn sum_text(sum: &[T], glue: &str) -> String {
    sum.iter().map(|(c, p, v)| format!("{c}{glue}{p}x{v}")).collect::<Vec<_>>().join(glue)
}
fn opts(first: u32, nn: bool) -> Options {
    Options { first_var_idx: first, no_negated_lits: nn }
}
fn parse(s: &str, first: u32) -> Result<Vec<Data>, Error> {
    Parser::new(Cursor::new(s.as_bytes()), opts(first, true)).collect()
}
fn op_holds(op: &str, a: i128, b: i128) -> bool {
    match op {
        "<=" => a <= b,
        ">=" => a >= b,
        "<" => a < b,
        ">" => a > b,
        _ => a == b,
    }
}

#[derive(Debug, Clone)]
struct Line {
    sum: Vec<T>,
    op: &'static str,
    b: &'static str,
    first: u32,
    style: usize,
}

fn constr_text(c: &Line) -> String {
    let (glue, sp, end) = [(" ", " ", ";\n"), ("  ", "", " ;"), ("\t", " ", "\n"), (" ", "\t", "; \r\n")][c.style];
    // a constraint without terms starts with the operator
    format!("{}{sp}{}{sp}{}{end}", sum_text(&c.sum, glue), c.op, c.b)
}

fn constr_line(t: &mut Tally, c: &Line) -> Result<(), String> {
    let s = constr_text(c);
    t.state(&s);
    t.step(1);
    let r = parse(&s, c.first);
    if c.sum.iter().any(|x| x.2 < c.first) {
        check!(r.is_err(), "a variable below the first index is accepted in {s:?}: {r:?}");
        return Ok(());
    }
    let r = r.map_err(|e| format!("{s:?} refused: {e}"))?;
    let [Data::Constr(pb)] = &r[..] else { return Err(format!("{s:?} read as {r:?}")) };
    let want = truth(N, |m| op_holds(c.op, value(&c.sum, c.first, m), coef(c.b)));
    for (l, _) in pb.iter() {
        check!(l.vidx() < N, "{s:?} read with literal {l}");
    }
    ensure_eq!(pb_table(pb, N), want, "solutions of {s:?} read as {pb}");
    let i: SatInstance = SatInstance::from_opb(Cursor::new(s.as_bytes()), opts(c.first, false)).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(i.n_pbs() + i.n_cards() + i.n_clauses(), 1, "constraints of the instance read from {s:?}");
    let mx = c.sum.iter().map(|x| x.2 - c.first + 1).max().unwrap_or(0);
    check!(i.n_vars() >= mx || c.sum.iter().any(|x| coef(x.0) == 0), "instance read from {s:?} has {} variables", i.n_vars());
    ensure_eq!(inst_table(&i), want, "solutions of the instance read from {s:?}");
    Ok(())
}

/// solutions through evaluation of total assignments
fn inst_table(i: &SatInstance) -> u128 {
    let (pbs, _) = i.clone().into_pbs();
    let ts: Vec<u128> = pbs.iter().map(|p| pb_table(p, N)).collect();
    ts.iter().fold(full(N), |a, b| a & b)
}

fn obj_cost(o: &Objective, m: u32) -> i128 {
    o.offset() as i128 + o.iter_soft_cls().into_iter().map(|(c, w)| if cl_holds(m, &c.iter().copied().collect::<Vec<_>>()) { 0 } else { w as i128 }).sum::<i128>()
}

#[derive(Debug, Clone)]
struct Obj {
    max: bool,
    sum: Vec<T>,
    first: u32,
    style: usize,
}

fn obj_text(c: &Obj) -> String {
    let (sp, glue, end) = [(" ", " ", ";\n"), ("", " ", " ;"), ("\t", "  ", "\n"), ("  ", "\t", "; \r\n")][c.style];
    format!("{}:{sp}{}{end}", if c.max { "max" } else { "min" }, sum_text(&c.sum, glue))
}

fn obj_line(t: &mut Tally, c: &Obj) -> Result<(), String> {
    let s = obj_text(c);
    t.state(&s);
    t.step(3);
    let r = parse(&s, c.first);
    if c.sum.iter().any(|x| x.2 < c.first) {
        check!(r.is_err(), "a variable below the first index is accepted in {s:?}: {r:?}");
        return Ok(());
    }
    let r = r.map_err(|e| format!("{s:?} refused: {e}"))?;
    let [Data::Obj(o)] = &r[..] else { return Err(format!("{s:?} read as {r:?}")) };
    ensure_eq!(o.sense == ObjectiveSense::Maximize, c.max, "direction of {s:?}");
    let want: Vec<i128> = (0..1u32 << N).map(|m| value(&c.sum, c.first, m)).collect();
    let got: Vec<i128> =
        (0..1u32 << N).map(|m| o.offset as i128 + o.terms.iter().map(|&(w, l)| if holds(m, l) { w as i128 } else { 0 }).sum::<i128>()).collect();
    ensure_eq!(got, want, "values of {s:?} read as {o:?}");
    // costs are minimized: maximization changes the sign
    let sign = if c.max { -1 } else { 1 };
    let want: Vec<i128> = want.iter().map(|v| v * sign).collect();
    let i = OptInstance::<BasicVarManager>::from_opb(Cursor::new(s.as_bytes()), opts(c.first, true)).map_err(|e| format!("{s:?}: {e}"))?;
    let got: Vec<i128> = (0..1u32 << N).map(|m| obj_cost(i.objective_ref(), m)).collect();
    ensure_eq!(got, want, "costs of the instance read from {s:?}");
    let i = MultiOptInstance::<BasicVarManager>::from_opb(Cursor::new(s.as_bytes()), opts(c.first, true)).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(i.n_objectives(), 1, "objectives of {s:?}");
    let got: Vec<i128> = (0..1u32 << N).map(|m| obj_cost(i.objective_ref(0), m)).collect();
    ensure_eq!(got, want, "costs of the multi-objective instance read from {s:?}");
    check!(matches!(SatInstance::<BasicVarManager>::from_opb(Cursor::new(s.as_bytes()), opts(c.first, true)), Err(Error::ObjInSat)), "an objective is accepted in a decision instance");
    Ok(())
}

#[derive(Debug, Clone)]
enum St {
    Txt(&'static str),
    Cmt(&'static str),
    C(Line),
    O(Obj),
}

/// several statements: order, count and kinds
fn file(t: &mut Tally, c: &Vec<St>) -> Result<(), String> {
    let mut s = String::new();
    for x in c {
        match x {
            St::Txt(x) | St::Cmt(x) => s += x,
            St::C(l) => s += &constr_text(l),
            St::O(o) => s += &obj_text(o),
        }
    }
    t.state(&s);
    t.step(4);
    let r = parse(&s, 1).map_err(|e| format!("{s:?} refused: {e}"))?;
    let items: Vec<&St> = c.iter().filter(|x| !matches!(x, St::Txt(_))).collect();
    ensure_eq!(r.len(), items.len(), "statements of {s:?} read as {r:?}");
    let mut all = full(N);
    for (a, b) in r.iter().zip(&items) {
        match (a, b) {
            (Data::Cmt(x), St::Cmt(y)) => check!(x.trim() == y.trim(), "comment {y:?} read as {x:?}"),
            (Data::Constr(p), St::C(l)) => {
                let want = truth(N, |m| op_holds(l.op, value(&l.sum, 1, m), coef(l.b)));
                ensure_eq!(pb_table(p, N), want, "constraint in {s:?}");
                all &= want;
            }
            (Data::Obj(o), St::O(b)) => ensure_eq!(o.sense == ObjectiveSense::Maximize, b.max, "direction in {s:?}"),
            (a, b) => return Err(format!("{b:?} in {s:?} read as {a:?}")),
        }
    }
    let objs: Vec<&Obj> = items.iter().filter_map(|x| if let St::O(o) = x { Some(o) } else { None }).collect();
    let cost = |o: &Obj, m: u32| if o.max { -1 } else { 1 } * value(&o.sum, 1, m);
    let inp = || Cursor::new(s.as_bytes());
    match SatInstance::<BasicVarManager>::from_opb(inp(), opts(1, true)) {
        Ok(i) => {
            check!(objs.is_empty(), "objectives of {s:?} ignored");
            ensure_eq!(inst_table(&i), all, "solutions of {s:?}");
        }
        Err(Error::ObjInSat) => check!(!objs.is_empty(), "objective reported in {s:?}"),
        Err(e) => return Err(format!("{s:?}: {e}")),
    }
    match OptInstance::<BasicVarManager>::from_opb(inp(), opts(1, true)) {
        Ok(i) => {
            ensure_eq!(objs.len(), 1, "objectives in {s:?}");
            ensure_eq!(inst_table(i.constraints_ref()), all, "solutions of {s:?}");
            for m in 0..1u32 << N {
                ensure_eq!(obj_cost(i.objective_ref(), m), cost(objs[0], m), "cost in {s:?}");
            }
            let mx = objs[0].sum.iter().map(|x| x.2).max().unwrap_or(0);
            check!(i.constraints_ref().n_vars() >= mx, "objective variables of {s:?} are not in use");
        }
        Err(Error::NoObjective) => check!(objs.is_empty(), "objective of {s:?} missed"),
        Err(Error::MultipleObjectives) => check!(objs.len() > 1, "several objectives reported in {s:?}"),
        Err(e) => return Err(format!("{s:?}: {e}")),
    }
    let i = MultiOptInstance::<BasicVarManager>::from_opb(inp(), opts(1, true)).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(i.n_objectives(), objs.len(), "objectives of {s:?}");
    ensure_eq!(inst_table(i.constraints_ref()), all, "solutions of {s:?}");
    for (k, o) in objs.iter().enumerate() {
        for m in 0..1u32 << N {
            ensure_eq!(obj_cost(i.objective_ref(k), m), cost(o, m), "cost of objective {k} in {s:?}");
        }
        check!(i.constraints_ref().n_vars() >= o.sum.iter().map(|x| x.2).max().unwrap_or(0), "objective variables of {s:?} are not in use");
    }
    Ok(())
}

#[derive(Debug, Clone, Hash)]
enum K {
    Cl(Vec<i32>),
    Card(u8, Vec<i32>, usize),
    Pb(u8, Vec<(i32, isize)>, isize),
}
const KS: [Kind; 3] = [Kind::Ub, Kind::Lb, Kind::Eq];
fn card(k: &u8, l: &[i32], b: usize) -> CardConstraint {
    mk_card(KS[*k as usize], l, b)
}
fn pb(k: &u8, l: &[(i32, isize)], b: isize) -> PbConstraint {
    mk_pb(KS[*k as usize], l, b)
}
fn k_table(k: &K) -> u128 {
    let h = |x: &i32, m: u32| holds(m, l(*x));
    match k {
        K::Cl(c) => truth(N, |m| c.iter().any(|x| h(x, m))),
        K::Card(k, c, b) => truth(N, |m| KS[*k as usize].sat(c.iter().filter(|x| h(x, m)).count() as i128, *b as i128)),
        K::Pb(k, c, b) => truth(N, |m| KS[*k as usize].sat(c.iter().map(|(x, w)| if h(x, m) { *w as i128 } else { 0 }).sum(), *b as i128)),
    }
}
fn build(ks: &[K]) -> SatInstance {
    let mut i = SatInstance::new();
    for k in ks {
        match k {
            K::Cl(c) => i.add_clause(cl(c)),
            K::Card(k, l, b) => i.add_card_constr(card(k, l, *b)),
            K::Pb(k, l, b) => i.add_pb_constr(pb(k, l, *b)),
        }
    }
    i
}
/// clauses come first, then cardinality, then pseudo-Boolean constraints
fn order(ks: &[K]) -> Vec<&K> {
    let mut v: Vec<&K> = ks.iter().collect();
    v.sort_by_key(|k| match k {
        K::Cl(_) => 0,
        K::Card(..) => 1,
        K::Pb(..) => 2,
    });
    v
}

fn ck_text(s: &str, nn: bool, first: u32) -> Result<(), String> {
    for l in s.lines() {
        check!(l.starts_with('*') || l.ends_with(';'), "line {l:?} written");
        if l.starts_with('*') {
            continue;
        }
        check!(!nn || !l.contains('~'), "negated literal in {l:?}");
        for v in l.split(['x', ' ', ';']).zip(l.split(['x', ' ', ';']).skip(1)).filter(|p| p.0.is_empty() || p.0 == "~").map(|p| p.1) {
            if let Ok(v) = v.parse::<u32>() {
                check!(l.contains(&format!("x{v}")) && v >= first || !l.contains(&format!("x{v}")), "variable {v} is below {first} in {l:?}");
            }
        }
    }
    Ok(())
}

type Wc = (Vec<K>, u32, bool);
fn write_sat_case(t: &mut Tally, c: &Wc) -> Result<(), String> {
    let (ks, first, nn) = c;
    t.state(c);
    t.step(2);
    let i = build(ks);
    let mut v = vec![];
    i.write_opb(&mut v, opts(*first, *nn)).map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&v).into_owned();
    ck_text(&s, *nn, *first)?;
    ck_constrs(&s, ks, *first, "instance")?;
    check!(s.lines().next().unwrap_or("") == format!("* #variable = {} #constraint= {}", i.n_vars(), ks.len()), "first line of {s:?}");
    let j: SatInstance = SatInstance::from_opb(Cursor::new(&v), opts(*first, *nn)).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(inst_table(&j), ks.iter().fold(full(N), |a, k| a & k_table(k)), "solutions read back from {s:?}");
    // line by line, in the order given, comments in between
    let mut lines: Vec<FileLine<Vec<(Lit, usize)>>> = vec![FileLine::Comment("x >= 1;".into())];
    for k in ks {
        lines.push(match k {
            K::Cl(c) => FileLine::Clause(cl(c)),
            K::Card(k, l, b) => FileLine::Card(card(k, l, *b)),
            K::Pb(k, l, b) => FileLine::Pb(pb(k, l, *b)),
        });
        lines.push(FileLine::Comment(String::new()));
    }
    let mut v = vec![];
    write_opb_lines(&mut v, lines.into_iter(), opts(*first, *nn)).map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&v).into_owned();
    ck_text(&s, *nn, *first)?;
    let r = parse(&s, *first).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(r.len(), 2 * ks.len() + 1, "statements of {s:?}");
    for (k, d) in ks.iter().zip(r.iter().skip(1).step_by(2)) {
        let Data::Constr(p) = d else { return Err(format!("{k:?} written and read as {d:?}")) };
        ensure_eq!(pb_table(p, N), k_table(k), "solutions of {k:?} written and read as {p} in {s:?}");
    }
    Ok(())
}

fn ck_constrs(s: &str, ks: &[K], first: u32, how: &str) -> Result<(), String> {
    let r = parse(s, first).map_err(|e| format!("{s:?} refused: {e}"))?;
    let cs: Vec<PbConstraint> = r.into_iter().filter_map(Data::constraint).collect();
    ensure_eq!(cs.len(), ks.len(), "constraints in {s:?}, {how}");
    for (k, p) in order(ks).into_iter().zip(&cs) {
        for (l, _) in p.iter() {
            check!(l.vidx() < N, "literal {l} in {s:?}, {how}");
        }
        ensure_eq!(pb_table(p, N), k_table(k), "solutions of {k:?} written and read as {p} in {s:?}, {how}");
    }
    Ok(())
}

/// soft literals with weights, or soft clauses (must be refused)
type Soft = (Vec<i32>, usize);
fn mk_obj(s: &[Soft], off: isize) -> Objective {
    let mut o = Objective::new();
    for (c, w) in s {
        // a soft literal with weight is violated if true
        if c.len() == 1 {
            o.increase_soft_lit(*w, l(c[0]));
        } else {
            o.increase_soft_clause(*w, cl(c));
        }
    }
    o.increase_offset(off);
    o
}
fn soft_cost(s: &[Soft], off: isize, m: u32) -> i128 {
    off as i128
        + s.iter()
            .map(|(c, w)| {
                let viol = if c.len() == 1 { holds(m, l(c[0])) } else { !c.iter().any(|x| holds(m, l(*x))) };
                if viol {
                    *w as i128
                } else {
                    0
                }
            })
            .sum::<i128>()
}
type Oc = (Vec<K>, Vec<Vec<Soft>>, isize, u32, bool);

/// the objectives in the file with the offsets that the comments behind them state
fn ck_objs(s: &str, softs: &[Vec<Soft>], off: isize, first: u32, comment: bool, how: &str) -> Result<(), String> {
    let r = parse(s, first).map_err(|e| format!("{s:?} refused: {e}"))?;
    let mut objs: Vec<(rustsat::instances::fio::opb::Objective, i128)> = vec![];
    for d in r {
        match d {
            Data::Obj(o) => objs.push((o, 0)),
            Data::Cmt(c) if c.contains("objective offset") => {
                objs.last_mut().ok_or("offset before the objective")?.1 = c.trim().rsplit(' ').next().unwrap_or("").parse().map_err(|_| format!("offset in {s:?}"))?;
            }
            _ => (),
        }
    }
    ensure_eq!(objs.len(), softs.len(), "objectives in {s:?}, {how}");
    for (k, ((o, extra), so)) in objs.iter().zip(softs).enumerate() {
        check!(o.sense == ObjectiveSense::Minimize, "direction of objective {k} in {s:?}");
        for m in 0..1u32 << N {
            let want = soft_cost(so, off, m);
            let got = o.offset as i128 + o.terms.iter().map(|&(w, l)| if holds(m, l) { w as i128 } else { 0 }).sum::<i128>() + extra;
            check!(got == want || !comment, "value of objective {k} for {m:b} with the stated offset is {got} instead of {want} in {s:?}, {how}");
            let base = soft_cost(so, off, 0);
            let base_got = o.offset as i128 + o.terms.iter().map(|&(w, l)| if holds(0, l) { w as i128 } else { 0 }).sum::<i128>() + extra;
            ensure_eq!(got - base_got, want - base, "value of objective {k} for {m:b} relative to the zero assignment in {s:?}, {how}");
        }
    }
    Ok(())
}

fn write_opt_case(t: &mut Tally, c: &Oc) -> Result<(), String> {
    let (ks, softs, off, first, nn) = c;
    t.state(c);
    t.step(3);
    let o = opts(*first, *nn);
    let hard_soft = |s: &Vec<Soft>| s.iter().any(|x| x.0.len() > 1);
    if softs.len() == 1 {
        let i = OptInstance::compose(build(ks), mk_obj(&softs[0], *off));
        let mut v = vec![];
        let r = i.write_opb(&mut v, o);
        let s = String::from_utf8_lossy(&v).into_owned();
        if hard_soft(&softs[0]) {
            check!(r.is_err(), "soft clauses {:?} are written as {s:?}", softs[0]);
        } else {
            r.map_err(|e| e.to_string())?;
            ck_text(&s, *nn, *first)?;
            ck_constrs(&s, ks, *first, "single")?;
            ck_objs(&s, softs, *off, *first, true, "single")?;
            let j = OptInstance::<BasicVarManager>::from_opb(Cursor::new(&v), o).map_err(|e| format!("{s:?}: {e}"))?;
            let d = obj_cost(j.objective_ref(), 0) - soft_cost(&softs[0], *off, 0);
            for m in 0..1u32 << N {
                ensure_eq!(obj_cost(j.objective_ref(), m) - d, soft_cost(&softs[0], *off, m), "cost of {m:b} read back from {s:?}");
            }
        }
    }
    let i = MultiOptInstance::compose(build(ks), softs.iter().map(|s| mk_obj(s, *off)).collect());
    let mut v = vec![];
    let r = i.write_opb(&mut v, o);
    let s = String::from_utf8_lossy(&v).into_owned();
    if softs.iter().any(hard_soft) {
        check!(r.is_err(), "soft clauses {softs:?} are written as {s:?}");
        return Ok(());
    }
    r.map_err(|e| e.to_string())?;
    ck_text(&s, *nn, *first)?;
    ck_constrs(&s, ks, *first, "multi")?;
    ck_objs(&s, softs, *off, *first, true, "multi")?;
    let j = MultiOptInstance::<BasicVarManager>::from_opb(Cursor::new(&v), o).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(j.n_objectives(), softs.len(), "objectives read back from {s:?}");
    for (k, so) in softs.iter().enumerate() {
        let d = obj_cost(j.objective_ref(k), 0) - soft_cost(so, *off, 0);
        for m in 0..1u32 << N {
            ensure_eq!(obj_cost(j.objective_ref(k), m) - d, soft_cost(so, *off, m), "cost of {m:b} read back from {s:?}");
        }
    }
    // line by line: objectives in any place
    let softs: &Vec<Vec<Soft>> = &softs.iter().map(|s| s.iter().filter(|x| x.0.len() == 1).cloned().collect()).collect();
    let mut lines = vec![];
    for k in ks {
        let K::Cl(c) = k else { continue };
        lines.push(FileLine::Clause(cl(c)));
    }
    for so in softs {
        lines.push(FileLine::Objective(so.iter().map(|(c, w)| (l(c[0]), *w)).collect::<Vec<_>>()));
        lines.push(FileLine::Comment("between".into()));
    }
    let mut v = vec![];
    write_opb_lines(&mut v, lines.into_iter(), o).map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&v).into_owned();
    ck_text(&s, *nn, *first)?;
    ck_objs(&s, softs, 0, *first, true, "lines")
}

/// the highest variable and a far first index
fn far(t: &mut Tally, c: &(u32, u32, bool)) -> Result<(), String> {
    t.state(c);
    t.step(1);
    let (first, v, neg) = *c;
    let s = format!("1 {}x{v} >= 1;\n", if neg { "~" } else { "" });
    let r = parse(&s, first);
    if v < first || v - first >= Var::MAX_IDX {
        check!(r.is_err(), "{s:?} with first index {first} is read as {r:?}");
        return Ok(());
    }
    let r = r.map_err(|e| format!("{s:?}: {e}"))?;
    let [Data::Constr(p)] = &r[..] else { return Err(format!("{r:?}")) };
    ensure_eq!(p.iter().copied().collect::<Vec<_>>(), vec![(Lit::new(v - first, neg), 1)], "{s:?} with first index {first}");
    let mut i: SatInstance = SatInstance::new();
    let mut c = Clause::new();
    c.add(Lit::new(v - first, neg));
    i.add_clause(c);
    let mut w = vec![];
    i.write_opb(&mut w, opts(first, false)).map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&w).into_owned();
    let r = parse(&s, first).map_err(|e| format!("{s:?}: {e}"))?;
    let p: Vec<PbConstraint> = r.into_iter().filter_map(Data::constraint).collect();
    ensure_eq!(p.len(), 1, "constraints of {s:?}");
    ensure_eq!(p[0].iter().copied().collect::<Vec<_>>(), vec![(Lit::new(v - first, neg), 1)], "{s:?} read back");
    Ok(())
}

pub fn run(cx: &Ctx) {
    let mk = |coefs: &[&'static str], lits: &[(&'static str, u32)]| -> Vec<T> { coefs.iter().flat_map(|c| lits.iter().map(move |x| (*c, x.0, x.1))).collect() };
    let base = [("", 1), ("~", 1), ("", 2), ("-", 2)];
    let terms = cx.pick(mk(&["-2", "-1", "0", "+1", "3"], &base), mk(&["-2", "-1", "0", "1", "+3", "12"], &base));
    let sums = seqs(&terms, 0, cx.pick(2, 3));
    let ops = ["<=", ">=", "<", ">", "="];
    let bs = ["-3", "-2", "-1", "0", "+1", "2", "3", "-4", "4"];
    let k = ops.len() * bs.len() * 2;
    cx.run_idx(
        "constraint-lines",
        sums.len() * k,
        |i| {
            let (s, r) = (i / k, i % k);
            Line { sum: sums[s].clone(), op: ops[r % 5], b: bs[r / 5 % bs.len()], first: (r / 5 / bs.len()) as u32 % 2, style: (i / 7) % 4 }
        },
        constr_line,
    );
    // variables below the first index
    let low: Vec<Line> = seqs(&mk(&["1", "-1"], &[("", 0), ("~", 1), ("", 2), ("", 3)]), 1, 2)
        .into_iter()
        .flat_map(|s| (0..4u32).flat_map(move |f| { let s = s.clone(); (0..4).map(move |st| Line { sum: s.clone(), op: ">=", b: "1", first: f, style: st }) }))
        .filter(|c| c.sum.iter().all(|x| x.2 < c.first || ((x.2 - c.first) as usize) < N))
        .collect();
    cx.run("first-index", &low, constr_line);
    let osums = seqs(&terms, 0, cx.pick(2, 3));
    cx.run_idx("objective-lines", osums.len() * 16, |i| Obj { sum: osums[i / 16].clone(), max: i % 2 == 1, first: (i / 2 % 2) as u32, style: i / 4 % 4 }, obj_line);
    let big = mk(&["4611686018427387904", "-4611686018427387903", "1"], &[("", 1), ("~", 2)]);
    let bsums = seqs(&big, 0, 1);
    cx.run_idx("large-coefficients", bsums.len() * 16, |i| Obj { sum: bsums[i / 16].clone(), max: i % 2 == 1, first: 1, style: i / 4 % 4 }, obj_line);
    let ln = |sum: Vec<T>, op, b, style| St::C(Line { sum, op, b, first: 1, style });
    let ob = |sum: Vec<T>, max, style| St::O(Obj { sum, max, first: 1, style });
    let st = vec![
        St::Txt("\n"),
        St::Txt("  \t\r\n"),
        St::Cmt("* comment 1 x1 >= 1;\n"),
        St::Cmt("*\n"),
        ln(vec![("1", "", 1), ("-2", "~", 2)], ">=", "0", 0),
        ln(vec![("1", "", 3)], "<", "1", 1),
        ln(vec![("3", "~", 1), ("+1", "", 2)], "=", "3", 2),
        ln(vec![], ">=", "0", 0),
        ob(vec![("2", "", 1), ("-1", "~", 3)], false, 0),
        ob(vec![("1", "", 2), ("-3", "", 1)], true, 1),
        ob(vec![], false, 2),
    ];
    let files = seqs(&st, 0, cx.pick(4, 5));
    cx.run("files", &files, file);
    // writing
    let lits = [1, -1, 2, -3];
    let mut al = vec![];
    for c in seqs(&lits, 0, 3) {
        al.push(K::Cl(c));
    }
    for c in seqs(&lits, 0, cx.pick(3, 4)) {
        for k in 0..3u8 {
            for b in 0..=c.len() + 1 {
                al.push(K::Card(k, c.clone(), b));
            }
        }
    }
    let pt: Vec<(i32, isize)> = lits.iter().flat_map(|&l| cx.pick(vec![-2, 0, 1, 3], vec![-2, -1, 0, 1, 3]).into_iter().map(move |w| (l, w))).collect();
    for c in seqs(&pt, 0, cx.pick(2, 3)) {
        for k in 0..3u8 {
            for b in cx.pick(vec![-3isize, -1, 0, 1, 2, 4], vec![-3, -2, -1, 0, 1, 2, 3, 4, 5]) {
                al.push(K::Pb(k, c.clone(), b));
            }
        }
    }
    let os: Vec<(u32, bool)> = [0, 1, 5].into_iter().flat_map(|f| [(f, false), (f, true)]).collect();
    cx.run_idx("write-single", al.len() * 6, |i| (vec![al[i / 6].clone()], os[i % 6].0, os[i % 6].1), write_sat_case);
    let few = vec![
        K::Cl(vec![]),
        K::Cl(vec![1, -2]),
        K::Cl(vec![-3, -3]),
        K::Card(0, vec![1, -2, 3], 1),
        K::Card(1, vec![-1, 2, -3], 2),
        K::Card(2, vec![1, 2], 0),
        K::Pb(0, vec![(1, 2), (-2, 3), (3, -1)], 2),
        K::Pb(1, vec![(-1, 2), (-3, 2)], 3),
        K::Pb(2, vec![(2, 1), (2, -2), (1, 1)], -1),
    ];
    let fs = seqs(&few, 0, cx.pick(3, 4));
    cx.run_idx("write-mixed", fs.len() * 6, |i| (fs[i / 6].clone(), os[i % 6].0, os[i % 6].1), write_sat_case);
    let sa: Vec<Soft> = vec![(vec![1], 1), (vec![1], 3), (vec![-1], 2), (vec![-2], 1), (vec![2], 4), (vec![3], 1), (vec![], 2), (vec![1, 2], 1)];
    let so = seqs(&sa, 0, cx.pick(3, 4));
    let offs = [0isize, 3, -2];
    let hard: Vec<Vec<K>> = vec![vec![], vec![few[1].clone(), few[3].clone(), few[6].clone()]];
    let m = offs.len() * 6 * hard.len();
    cx.run_idx(
        "write-objective",
        so.len() * m,
        |i| (hard[i % m / 18].clone(), vec![so[i / m].clone()], offs[i % 18 / 6], os[i % 6].0, os[i % 6].1),
        write_opt_case,
    );
    let so2 = seqs(&seqs(&sa[1..7], 0, 2), 0, cx.pick(2, 3));
    cx.run_idx("write-multi", so2.len() * 18, |i| (hard[1].clone(), so2[i / 18].clone(), offs[i % 18 / 6], os[i % 6].0, os[i % 6].1), write_opt_case);
    let vs = [0, 1, 2, 5, 6, 99, Var::MAX_IDX - 1, Var::MAX_IDX, Var::MAX_IDX + 1, Var::MAX_IDX + 4, Var::MAX_IDX + 5, Var::MAX_IDX + 6, u32::MAX - 1, u32::MAX];
    let mut fc = vec![];
    for f in [0u32, 1, 2, 5, 6, 99, 100, Var::MAX_IDX] {
        for v in vs {
            fc.push((f, v, false));
            fc.push((f, v, true));
        }
    }
    cx.run("variable-range", &fc, far);
    cx.bound("terms per sum", cx.pick(2, 3));
    cx.bound("statements per file", cx.pick(4, 5));
    cx.bound("constraints written", cx.pick(3, 4));
    cx.bound("soft literals", cx.pick(3, 4));
    cx.assume("the constant offset of an objective is compared through the comment that states it, the format has no place for it");
}
