//! Assignments as finite maps and clauses as sets
use crate::common::*;
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::types::{Assignment, Cl, Clause, InvalidVLine, Lit, TernaryVal, Var};

const TV: [TernaryVal; 3] = [TernaryVal::True, TernaryVal::False, TernaryVal::DontCare];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum O {
    Var(u32, usize),
    Lit(i32),
    Replace(bool),
    Truncate(u32),
    Line(&'static str),
    Index(u32, usize),
}

/// reference: values of the variables that have an entry
type Model = Vec<TernaryVal>;

fn set(m: &mut Model, v: usize, x: TernaryVal) {
    while m.len() <= v {
        m.push(TernaryVal::DontCare);
    }
    m[v] = x;
}

fn same(a: &Assignment, m: &Model) -> Result<(), String> {
    ensure_eq!((a.len(), a.is_empty()), (m.len(), m.is_empty()), "length of {a}");
    ensure_eq!(a.max_var(), if m.is_empty() { None } else { Some(Var::new(m.len() as u32 - 1)) }, "max_var of {a}");
    for v in 0..6u32 {
        let w = m.get(v as usize).copied().unwrap_or(TernaryVal::DontCare);
        ensure_eq!(a.var_value(Var::new(v)), w, "value of variable {v}");
        ensure_eq!(a.lit_value(Lit::positive(v)), w, "value of literal {v}");
        ensure_eq!(a.lit_value(Lit::negative(v)), !w, "value of negated literal {v}");
        if (v as usize) < m.len() {
            ensure_eq!(a[Var::new(v)], w, "index {v}");
        }
    }
    let want: Vec<Lit> = m
        .iter()
        .enumerate()
        .filter(|x| *x.1 != TernaryVal::DontCare)
        .map(|(i, x)| Lit::new(i as u32, *x == TernaryVal::False))
        .collect();
    ensure_eq!(a.iter().collect::<Vec<_>>(), want, "iteration");
    ensure_eq!(a.into_iter().collect::<Vec<_>>(), want, "iteration by reference");
    ensure_eq!(a.clone().into_iter().collect::<Vec<_>>(), want, "iteration by value");
    let txt: String = m.iter().map(|x| if *x == TernaryVal::True { '1' } else if *x == TernaryVal::False { '0' } else { '_' }).collect();
    ensure_eq!((format!("{a}"), format!("{a:?}")), (txt.clone(), txt), "text");
    ensure_eq!(*a, Assignment::from(m.clone()), "equality");
    ensure_eq!(*a, m.iter().copied().collect::<Assignment>(), "equality with collected values");
    Ok(())
}

fn hist(t: &mut Tally, ops: &Vec<O>) -> Result<(), String> {
    let mut a = Assignment::default();
    let mut m: Model = vec![];
    for op in ops {
        t.step(1);
        match op {
            O::Var(v, x) => {
                a.assign_var(Var::new(*v), TV[*x]);
                set(&mut m, *v as usize, TV[*x]);
            }
            O::Lit(x) => {
                a.assign_lit(l(*x));
                set(&mut m, l(*x).vidx(), (*x > 0).into());
            }
            O::Replace(d) => {
                a.replace_dont_care(*d);
                m.iter_mut().filter(|x| **x == TernaryVal::DontCare).for_each(|x| *x = (*d).into());
            }
            O::Truncate(v) => {
                a = a.truncate(Var::new(*v));
                m.truncate(*v as usize + 1);
            }
            O::Index(v, x) => {
                if (*v as usize) < m.len() {
                    a[Var::new(*v)] = TV[*x];
                    m[*v as usize] = TV[*x];
                }
            }
            O::Line(s) => {
                let r = a.extend_from_vline(s);
                let mut conflict = None;
                for tok in s[1..].split_whitespace() {
                    let i: i32 = tok.trim_start_matches('x').replace("-x", "-").parse().unwrap();
                    if i == 0 {
                        continue;
                    }
                    let x = l(i);
                    let cur = m.get(x.vidx()).copied().unwrap_or(TernaryVal::DontCare);
                    if cur == TernaryVal::from(i < 0) {
                        conflict = Some(x.var());
                        break;
                    }
                    set(&mut m, x.vidx(), (i > 0).into());
                }
                match (r, conflict) {
                    (Ok(()), None) => t.outcome("line accepted"),
                    (Err(InvalidVLine::ConflictingAssignment(v)), Some(w)) => {
                        ensure_eq!(v, w, "conflicting variable");
                        t.outcome("conflict");
                        // the state after an error is unspecified
                        return Ok(());
                    }
                    (r, c) => return Err(format!("value line {s:?}: {r:?}, expected conflict {c:?}")),
                }
            }
        }
        t.state(&format!("{m:?}"));
        same(&a, &m).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    Ok(())
}

/// every total or partial assignment survives every value line format
fn lines(t: &mut Tally, vals: &Vec<usize>) -> Result<(), String> {
    let m: Model = vals.iter().map(|&x| TV[x]).collect();
    let lits: Vec<i32> = m
        .iter()
        .enumerate()
        .filter(|x| *x.1 != TernaryVal::DontCare)
        .map(|(i, x)| if *x == TernaryVal::True { i as i32 + 1 } else { -(i as i32) - 1 })
        .collect();
    let mut want = m.clone();
    while want.last() == Some(&TernaryVal::DontCare) {
        want.pop();
    }
    let toks: Vec<String> = lits.iter().map(|x| x.to_string()).collect();
    let pbs: Vec<String> = lits.iter().map(|x| if *x > 0 { format!("x{x}") } else { format!("-x{}", -x) }).collect();
    let mut texts = vec![format!("v {} 0", toks.join(" ")), format!("v  {}  0 ", toks.join("  "))];
    for cut in 1..toks.len() {
        texts.push(format!("v {}\nv {} 0", toks[..cut].join(" "), toks[cut..].join(" ")));
        texts.push(format!("v {}\nv {}\nv 0\n", toks[..cut].join(" "), toks[cut..].join(" ")));
        texts.push(format!("v {}\nv {}", pbs[..cut].join(" "), pbs[cut..].join(" ")));
    }
    if !pbs.is_empty() {
        texts.push(format!("v {}", pbs.join(" ")));
        texts.push(format!("v {} ", pbs.join(" ").replace('-', "~")));
    }
    if m.iter().all(|x| *x != TernaryVal::DontCare) && m.len() > 1 {
        texts.push(format!("v {}", m.iter().map(|x| if *x == TernaryVal::True { '1' } else { '0' }).collect::<String>()));
    }
    t.state(vals);
    for s in texts {
        t.step(1);
        let a = Assignment::from_vline(&s).map_err(|e| format!("value line {s:?}: {e}"))?;
        same(&a, &want).map_err(|e| format!("from value line {s:?}: {e}"))?;
    }
    let mut full = m.clone();
    full.iter_mut().for_each(|x| {
        if *x == TernaryVal::DontCare {
            *x = TernaryVal::False;
        }
    });
    let b: Assignment = full.iter().map(|x| x.to_bool_with_def(true)).collect();
    same(&b, &full)?;
    let c: Assignment = lits.iter().map(|&x| l(x)).collect();
    same(&c, &want)
}

/// no text makes the parser panic, and nothing without the tag is accepted
fn anytext(t: &mut Tally, cs: &Vec<char>) -> Result<(), String> {
    let s: String = cs.iter().collect();
    t.state(&s);
    t.step(1);
    match Assignment::from_vline(&s) {
        Ok(a) => {
            check!(s.lines().all(|x| x.starts_with('v')) && !s.is_empty(), "value line {s:?} accepted as {a}");
            t.outcome("accepted");
        }
        Err(_) => t.outcome("refused"),
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum C {
    Add(i32),
    Or(i32),
    OrVar(u32),
    OrClause,
    Remove(i32),
    RemoveAll(i32),
    Sort,
    Extend,
}

fn sorted(c: &[Lit]) -> Vec<Lit> {
    let mut v = c.to_vec();
    v.sort();
    v
}

fn clause_hist(t: &mut Tally, ops: &Vec<C>) -> Result<(), String> {
    let mut c = Clause::new();
    let mut m: Vec<Lit> = vec![];
    for op in ops {
        t.step(1);
        match op {
            C::Add(x) => {
                c.add(l(*x));
                m.push(l(*x));
            }
            C::Or(x) => {
                c = if m.len() % 2 == 0 { c | l(*x) } else { let mut d = c; d |= l(*x); d };
                m.push(l(*x));
            }
            C::OrVar(v) => {
                c = if m.len() % 2 == 0 { c | Var::new(*v) } else { let mut d = c; d |= Var::new(*v); d };
                m.push(Lit::positive(*v));
            }
            C::OrClause => {
                let d = c.clone();
                c = if m.len() % 2 == 0 { c | d } else { let mut e = c; e |= d; e };
                m.extend(m.clone());
            }
            C::Extend => {
                c.extend([l(1), l(-1)]);
                m.extend([l(1), l(-1)]);
            }
            C::Remove(x) => {
                let had = m.contains(&l(*x));
                ensure_eq!(c.remove(l(*x)), had, "result of {op:?}");
                if let Some(i) = m.iter().position(|y| *y == l(*x)) {
                    m.remove(i);
                }
            }
            C::RemoveAll(x) => {
                let before: Vec<Lit> = c.iter().copied().filter(|y| *y != l(*x)).collect();
                ensure_eq!(c.remove_thorough(l(*x)), m.contains(&l(*x)), "result of {op:?}");
                m.retain(|y| *y != l(*x));
                ensure_eq!(c.iter().copied().collect::<Vec<_>>(), before, "order after {op:?}");
            }
            C::Sort => {
                c.sort();
                ensure_eq!(c.iter().copied().collect::<Vec<_>>(), sorted(&m), "sorted");
            }
        }
        let content: Vec<Lit> = c.iter().copied().collect();
        t.state(&content);
        ensure_eq!(sorted(&content), sorted(&m), "literals after {op:?}");
        // queries
        let taut = m.iter().any(|x| m.contains(&!*x));
        ensure_eq!((c.len(), c.is_empty(), c.is_unit(), c.is_binary()), (m.len(), m.is_empty(), m.len() == 1, m.len() == 2), "sizes");
        ensure_eq!(c.is_tautology(), taut, "is_tautology of {c}");
        let mut set = sorted(&m);
        set.dedup();
        match c.clone().normalize() {
            None => check!(taut, "{c} normalised away"),
            Some(x) => {
                check!(!taut, "tautology {c} normalised to {x}");
                ensure_eq!(x.iter().copied().collect::<Vec<_>>(), set, "normal form of {c}");
            }
        }
        match c.clone().sanitize() {
            None => check!(taut, "{c} sanitised away"),
            Some(x) => {
                check!(!taut, "tautology {c} sanitised to {x}");
                let mut keep: Vec<Lit> = vec![];
                for y in &content {
                    if !keep.contains(y) {
                        keep.push(*y);
                    }
                }
                ensure_eq!(x.iter().copied().collect::<Vec<_>>(), keep, "sanitised form of {c}");
            }
        }
        let cref: &Cl = c.as_ref();
        ensure_eq!(cref.to_owned(), c, "owned copy");
        ensure_eq!(Cl::new(&content).to_owned(), c, "borrowed slice");
        ensure_eq!(Clause::from(&content[..]), c, "from slice");
        ensure_eq!(content.iter().copied().collect::<Clause>(), c, "collected");
        let mut dr = c.clone();
        let k = dr.len() / 2;
        ensure_eq!(dr.drain(..k).collect::<Vec<_>>(), content[..k].to_vec(), "drained part");
        ensure_eq!(dr.iter().copied().collect::<Vec<_>>(), content[k..].to_vec(), "rest after draining");
    }
    Ok(())
}

/// every clause under every partial assignment, and its normal forms
fn clause_eval(t: &mut Tally, v: &Vec<i32>) -> Result<(), String> {
    let lits = ls(v);
    let c = cl(v);
    t.state(v);
    let taut = lits.iter().any(|x| lits.contains(&!*x));
    let mut keep: Vec<Lit> = vec![];
    for y in &lits {
        if !keep.contains(y) {
            keep.push(*y);
        }
    }
    match c.clone().sanitize() {
        None => check!(taut, "{c} sanitised away"),
        Some(x) => {
            check!(!taut, "tautology {c} sanitised to {x}");
            ensure_eq!(x.iter().copied().collect::<Vec<_>>(), keep, "sanitised form of {c}");
        }
    }
    match c.clone().normalize() {
        None => check!(taut, "{c} normalised away"),
        Some(x) => {
            check!(!taut, "tautology {c} normalised to {x}");
            ensure_eq!(x.iter().copied().collect::<Vec<_>>(), sorted(&keep), "normal form of {c}");
        }
    }
    for p in 0..81usize {
        let vals = [p % 3, p / 3 % 3, p / 9 % 3, p / 27];
        // the last variable decides between dense and truncated storage
        let n = if vals[3] == 2 { 4 } else { 3 };
        let a: Assignment = vals[..n].iter().map(|x| [TernaryVal::DontCare, TernaryVal::True, TernaryVal::False][*x]).collect();
        let val = |x: &Lit| match (vals[..n].get(x.vidx()).copied().unwrap_or(0), x.is_neg()) {
            (0, _) => TernaryVal::DontCare,
            (1, false) | (2, true) => TernaryVal::True,
            _ => TernaryVal::False,
        };
        let want = if lits.iter().any(|x| val(x) == TernaryVal::True) {
            TernaryVal::True
        } else if lits.iter().all(|x| val(x) == TernaryVal::False) {
            TernaryVal::False
        } else {
            TernaryVal::DontCare
        };
        ensure_eq!(c.evaluate(&a), want, "{c} evaluated under {a}");
        ensure_eq!(Cl::new(&lits).evaluate(&a), want, "borrowed {c} evaluated under {a}");
        t.step(1);
        t.outcome(&format!("clause {want:?}"));
    }
    Ok(())
}

fn ops2(t: &mut Tally, c: &(i32, i32, i32)) -> Result<(), String> {
    // operators between variables, literals and clauses
    let (x, y, z) = (l(c.0), l(c.1), l(c.2));
    t.state(c);
    t.step(1);
    let v = |c: Clause| c.iter().copied().collect::<Vec<_>>();
    ensure_eq!(v(x | y), vec![x, y], "lit | lit");
    ensure_eq!(v(x.var() | y.var()), vec![x.var().pos_lit(), y.var().pos_lit()], "var | var");
    ensure_eq!(v(x.var() | y), vec![x.var().pos_lit(), y], "var | lit");
    ensure_eq!(v(x | y.var()), vec![x, y.var().pos_lit()], "lit | var");
    ensure_eq!(v(x | (y | z)), vec![x, y, z], "lit | clause");
    ensure_eq!(v(x.var() | (y | z)), vec![x.var().pos_lit(), y, z], "var | clause");
    ensure_eq!(v(x | y | z), vec![x, y, z], "clause | lit");
    ensure_eq!(v((x | y) | z.var()), vec![x, y, z.var().pos_lit()], "clause | var");
    ensure_eq!(!x.var(), x.var().neg_lit(), "negated variable");
    ensure_eq!(-x.var(), x.var().neg_lit(), "negated variable");
    let w = |c: rustsat::instances::Cnf| c.iter().map(|x| x.iter().copied().collect::<Vec<_>>()).collect::<Vec<_>>();
    let (p, q) = (x.var().pos_lit(), y.var().pos_lit());
    ensure_eq!(w(x & y), vec![vec![x], vec![y]], "lit & lit");
    ensure_eq!(w(x.var() & y.var()), vec![vec![p], vec![q]], "var & var");
    ensure_eq!(w(x.var() & y), vec![vec![p], vec![y]], "var & lit");
    ensure_eq!(w(x & y.var()), vec![vec![x], vec![q]], "lit & var");
    ensure_eq!(w(x & (y | z)), vec![vec![x], vec![y, z]], "lit & clause");
    ensure_eq!(w(x.var() & (y | z)), vec![vec![p], vec![y, z]], "var & clause");
    ensure_eq!(w((y | z) & x), vec![vec![y, z], vec![x]], "clause & lit");
    ensure_eq!(w((y | z) & x.var()), vec![vec![y, z], vec![p]], "clause & var");
    ensure_eq!(w((y | z) & (x | z)), vec![vec![y, z], vec![x, z]], "clause & clause");
    let f = (x | y) & (y | z);
    ensure_eq!(w(x & f.clone()), vec![vec![x], vec![x, y], vec![y, z]], "lit & cnf");
    ensure_eq!(w(x.var() & f.clone()), vec![vec![p], vec![x, y], vec![y, z]], "var & cnf");
    ensure_eq!(w((z | x) & f.clone()), vec![vec![z, x], vec![x, y], vec![y, z]], "clause & cnf");
    ensure_eq!(w(f.clone() & x), vec![vec![x, y], vec![y, z], vec![x]], "cnf & lit");
    ensure_eq!(w(f.clone() & x.var()), vec![vec![x, y], vec![y, z], vec![p]], "cnf & var");
    ensure_eq!(w(f.clone() & (z | x)), vec![vec![x, y], vec![y, z], vec![z, x]], "cnf & clause");
    ensure_eq!(w(f.clone() & f.clone()), vec![vec![x, y], vec![y, z], vec![x, y], vec![y, z]], "cnf & cnf");
    let mut g = f.clone();
    g &= x;
    g &= y.var();
    g &= z | z;
    g &= f;
    ensure_eq!(w(g), vec![vec![x, y], vec![y, z], vec![x], vec![q], vec![z, z], vec![x, y], vec![y, z]], "conjoining assignments");
    Ok(())
}

pub fn run(cx: &Ctx) {
    let mut al = vec![O::Replace(true), O::Replace(false), O::Truncate(0), O::Truncate(1), O::Truncate(4)];
    for v in [0, 1, 3] {
        al.extend([O::Var(v, 0), O::Var(v, 1), O::Var(v, 2), O::Index(v, 1)]);
    }
    al.extend([O::Lit(1), O::Lit(-1), O::Lit(3), O::Lit(-3)]);
    al.extend([O::Line("v 1 -2 0"), O::Line("v -1 0"), O::Line("v x3 -x4"), O::Line("v 2 -3 2 0"), O::Line("v 1 -1 0"), O::Line("v 0")]);
    cx.run("assignment-histories", &seqs(&al, 1, cx.pick(4, 5)), hist);
    cx.run("value-lines", &seqs(&[0usize, 1, 2], 0, cx.pick(8, 10)), lines);
    cx.run("texts", &seqs(&['v', ' ', '0', '1', '2', '-', 'x', '\n', 'é'], 0, cx.pick(6, 7)), anytext);
    let cs = [
        C::Add(1), C::Add(-1), C::Add(2), C::Add(3), C::Or(-2), C::OrVar(0), C::OrClause, C::Extend,
        C::Remove(1), C::Remove(-2), C::RemoveAll(1), C::RemoveAll(-1), C::Sort,
    ];
    cx.run("clause-histories", &seqs(&cs, 1, cx.pick(5, 6)), clause_hist);
    let li = [1, -1, 2, -2, 3, -3];
    cx.run("clause-evaluation", &seqs(&[1, -1, 2, -2, 3, 4], 0, cx.pick(5, 6)), clause_eval);
    let mut tr = vec![];
    for a in li {
        for b in li {
            for c in li {
                tr.push((a, b, c));
            }
        }
    }
    cx.run("operators", &tr, ops2);
    cx.bound("assignment_history_depth", cx.pick(4, 5));
    cx.bound("clause_history_depth", cx.pick(5, 6));
    cx.bound("value_lines", "all partial assignments up to 8 (10) variables in every format and line split");
    cx.bound("texts", "all texts up to 6 (7) characters over 9 characters");
}
