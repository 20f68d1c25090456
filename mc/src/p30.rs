//! Clause collections
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::encodings::CollectClauses;
use rustsat::instances::fio::dimacs::CnfLine;
use rustsat::instances::Cnf;
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use std::collections::BTreeSet;

const N: usize = 3;
type C = Vec<i32>;

#[derive(Clone, Debug)]
enum Op {
    Add(C),
    Nary(C),
    Unit(i32),
    Binary(i32, i32),
    Ternary(i32, i32, i32),
    AndVar(u32),
    AndLit(i32),
    AndClause(C),
    AndCnf(Vec<C>),
    AndAssignVar(u32),
    AndAssignLit(i32),
    AndAssignClause(C),
    AndAssignCnf(Vec<C>),
    Front(u8),
    /// an implication between two literal lists: every form that fits the lengths
    Imp(u8, C, C),
    Extend(Vec<C>),
    /// through the collector interface with exact, unknown-upper or no size hints, or clause by clause
    Collect(u8, Vec<C>),
    Cert(Vec<C>),
    Join(Vec<C>),
    Normalize,
    Sanitize,
    Shuffle,
    Clear,
    Flip(bool),
    Rebuild(bool),
    Capacity,
    Serde,
}

struct NoHint<I>(I, bool);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.1 {
            (self.0.size_hint().0, None)
        } else {
            (0, None)
        }
    }
}

fn cnf(v: &[C]) -> Cnf {
    v.iter().map(|c| cl(c)).collect()
}
fn raw(c: &Cnf) -> Vec<Vec<Lit>> {
    c.iter().map(|c| c.iter().copied().collect()).collect()
}
fn tab(v: &[Vec<Lit>]) -> u128 {
    truth(N, |m| v.iter().all(|c| cl_holds(m, c)))
}
fn set(c: &[Lit]) -> BTreeSet<Lit> {
    c.iter().copied().collect()
}
fn taut(c: &[Lit]) -> bool {
    c.iter().any(|&l| c.contains(&!l))
}

/// the name and the logical reading of an implication over two literal lists
fn implication(k: u8, x: &mut Cnf, a: &[Lit], b: &[Lit]) -> Option<fn(&[Lit], &[Lit], u32) -> bool> {
    fn all(s: &[Lit], m: u32) -> bool {
        s.iter().all(|&l| holds(m, l))
    }
    fn any(s: &[Lit], m: u32) -> bool {
        s.iter().any(|&l| holds(m, l))
    }
    match (k, a.len(), b.len()) {
        (0, 1, 1) => x.add_lit_impl_lit(a[0], b[0]),
        (1, 1, _) => x.add_lit_impl_clause(a[0], b),
        (2, 1, _) => x.add_lit_impl_cube(a[0], b),
        (3, _, 1) => x.add_cube_impl_lit(a, b[0]),
        (4, _, 1) => x.add_clause_impl_lit(a, b[0]),
        (5, ..) => x.add_cube_impl_clause(a, b),
        (6, ..) => x.add_clause_impl_clause(a, b),
        (7, ..) => x.add_clause_impl_cube(a, b),
        (8, ..) => x.add_cube_impl_cube(a, b),
        _ => return None,
    }
    Some(match k {
        0 | 1 => |a, b, m| !all(a, m) || any(b, m),
        2 => |a, b, m| !all(a, m) || all(b, m),
        3 => |a, b, m| !all(a, m) || any(b, m),
        4 => |a, b, m| !any(a, m) || any(b, m),
        5 => |a, b, m| !all(a, m) || any(b, m),
        6 => |a, b, m| !any(a, m) || any(b, m),
        7 => |a, b, m| !any(a, m) || all(b, m),
        _ => |a, b, m| !all(a, m) || all(b, m),
    })
}

fn observe(t: &mut Tally, x: &Cnf, md: &[Vec<Lit>]) -> Result<(), String> {
    ensure_eq!(x.len(), md.len(), "length");
    ensure_eq!(x.n_clauses(), md.len(), "number of clauses");
    ensure_eq!(x.is_empty(), md.is_empty(), "is_empty");
    check!(x.capacity() >= x.len(), "capacity");
    ensure_eq!(raw(x), md.to_vec(), "clauses");
    for (i, c) in md.iter().enumerate() {
        ensure_eq!(x[i].iter().copied().collect::<Vec<_>>(), *c, "clause {i}");
    }
    ensure_eq!((&*x).into_iter().count(), md.len(), "iteration by reference");
    // evaluation under all partial assignments
    for p in 0..27u32 {
        let val = |v: u32| [TernaryVal::DontCare, TernaryVal::True, TernaryVal::False][(p / 3u32.pow(v) % 3) as usize];
        let a: Assignment = (0..N as u32).map(val).collect();
        let lv = |l: &Lit| if l.is_neg() { !val(l.vidx32()) } else { val(l.vidx32()) };
        let cv = |c: &Vec<Lit>| {
            if c.iter().any(|l| lv(l) == TernaryVal::True) {
                TernaryVal::True
            } else if c.iter().all(|l| lv(l) == TernaryVal::False) {
                TernaryVal::False
            } else {
                TernaryVal::DontCare
            }
        };
        let exp = if md.iter().any(|c| cv(c) == TernaryVal::False) {
            TernaryVal::False
        } else if md.iter().all(|c| cv(c) == TernaryVal::True) {
            TernaryVal::True
        } else {
            TernaryVal::DontCare
        };
        ensure_eq!(x.evaluate(&a), exp, "evaluation under partial assignment {p}");
    }
    t.step(30);
    Ok(())
}

fn case(t: &mut Tally, ops: &[Op]) -> Result<(), String> {
    let mut x = Cnf::default();
    let mut md: Vec<Vec<Lit>> = vec![];
    let push = |md: &mut Vec<Vec<Lit>>, v: &[C]| md.extend(v.iter().map(|c| ls(c)));
    for op in ops {
        match op {
            Op::Add(c) => {
                x.add_clause(cl(c));
                push(&mut md, &[c.clone()]);
            }
            Op::Nary(c) => {
                x.add_nary(&ls(c));
                push(&mut md, &[c.clone()]);
            }
            Op::Unit(a) => {
                x.add_unit(l(*a));
                push(&mut md, &[vec![*a]]);
            }
            Op::Binary(a, b) => {
                x.add_binary(l(*a), l(*b));
                push(&mut md, &[vec![*a, *b]]);
            }
            Op::Ternary(a, b, c) => {
                x.add_ternary(l(*a), l(*b), l(*c));
                push(&mut md, &[vec![*a, *b, *c]]);
            }
            Op::AndVar(v) => {
                x = x & Var::new(*v);
                push(&mut md, &[vec![*v as i32 + 1]]);
            }
            Op::AndLit(a) => {
                x = x & l(*a);
                push(&mut md, &[vec![*a]]);
            }
            Op::AndClause(c) => {
                x = x & cl(c);
                push(&mut md, &[c.clone()]);
            }
            Op::AndCnf(v) => {
                x = x & cnf(v);
                push(&mut md, v);
            }
            Op::AndAssignVar(v) => {
                x &= Var::new(*v);
                push(&mut md, &[vec![*v as i32 + 1]]);
            }
            Op::AndAssignLit(a) => {
                x &= l(*a);
                push(&mut md, &[vec![*a]]);
            }
            Op::AndAssignClause(c) => {
                x &= cl(c);
                push(&mut md, &[c.clone()]);
            }
            Op::AndAssignCnf(v) => {
                x &= cnf(v);
                push(&mut md, v);
            }
            Op::Front(k) => {
                let c: C = match k {
                    0 => {
                        x = Var::new(1) & x;
                        vec![2]
                    }
                    1 => {
                        x = l(-2) & x;
                        vec![-2]
                    }
                    _ => {
                        x = cl(&[1, -3]) & x;
                        vec![1, -3]
                    }
                };
                md.insert(0, ls(&c));
            }
            Op::Imp(k, a, b) => {
                let (a, b) = (ls(a), ls(b));
                let n = x.len();
                if let Some(f) = implication(*k, &mut x, &a, &b) {
                    let r = raw(&x);
                    check!(r.len() >= n && r[..n] == md[..], "{op:?} changed earlier clauses");
                    ensure_eq!(tab(&r[n..]), truth(N, |m| f(&a, &b, m)), "{op:?} added {:?}", &r[n..]);
                    md.extend_from_slice(&r[n..]);
                }
            }
            Op::Extend(v) => {
                x.extend(v.iter().map(|c| cl(c)));
                push(&mut md, v);
            }
            Op::Collect(k, v) => {
                let it = v.iter().map(|c| cl(c));
                match k {
                    0 => x.extend_clauses(it),
                    1 => x.extend_clauses(NoHint(it, true)),
                    2 => x.extend_clauses(NoHint(it, false)),
                    _ => v.iter().try_for_each(|c| CollectClauses::add_clause(&mut x, cl(c))),
                }
                .map_err(|e| format!("{e}"))?;
                push(&mut md, v);
            }
            Op::Cert(v) => {
                let id = pigeons::AbsConstraintId::new(1);
                rustsat::encodings::cert::CollectClauses::extend_cert_clauses(&mut x, v.iter().map(|c| (cl(c), id)))
                    .map_err(|e| format!("{e}"))?;
                rustsat::encodings::cert::CollectClauses::add_cert_clause(&mut x, cl(&[2, 3]), id).map_err(|e| format!("{e}"))?;
                push(&mut md, v);
                push(&mut md, &[vec![2, 3]]);
            }
            Op::Join(v) => {
                x = x.join(cnf(v));
                push(&mut md, v);
            }
            Op::Normalize => {
                let rev: Cnf = raw(&x).into_iter().rev().map(|c| c.into_iter().rev().collect::<Clause>()).collect();
                x = x.normalize();
                check!(rev.normalize() == x, "normal form depends on the order");
                let r = raw(&x);
                let exp: BTreeSet<BTreeSet<Lit>> = md.iter().filter(|c| !taut(c)).map(|c| set(c)).collect();
                let got: BTreeSet<BTreeSet<Lit>> = r.iter().map(|c| set(c)).collect();
                ensure_eq!(got, exp, "normalised clauses");
                ensure_eq!(r.len(), exp.len(), "duplicates in the normal form {r:?}");
                check!(r.iter().all(|c| c.len() == set(c).len()), "duplicate literals in the normal form {r:?}");
                check!(x.clone().normalize() == x, "normalising twice differs");
                md = r;
            }
            Op::Sanitize => {
                x = x.sanitize();
                let r = raw(&x);
                let mut exp: Vec<BTreeSet<Lit>> = md.iter().filter(|c| !taut(c)).map(|c| set(c)).collect();
                let mut got: Vec<BTreeSet<Lit>> = r.iter().map(|c| set(c)).collect();
                exp.sort();
                got.sort();
                ensure_eq!(got, exp, "sanitised clauses");
                check!(r.iter().all(|c| c.len() == set(c).len()), "duplicate literals after sanitising {r:?}");
                md = r;
            }
            Op::Shuffle => {
                x = x.shuffle();
                let r = raw(&x);
                let (mut a, mut b) = (r.clone(), md.clone());
                a.sort();
                b.sort();
                ensure_eq!(a, b, "shuffled clauses");
                md = r;
            }
            Op::Clear => {
                x.clear();
                md.clear();
            }
            Op::Flip(by_ref) => {
                if *by_ref {
                    for c in &mut x {
                        c.iter_mut().for_each(|l| *l = !*l);
                    }
                } else {
                    x.iter_mut().for_each(|c| c.iter_mut().for_each(|l| *l = !*l));
                }
                md.iter_mut().for_each(|c| c.iter_mut().for_each(|l| *l = !*l));
            }
            Op::Rebuild(lines) => {
                x = if *lines {
                    let mut v: Vec<CnfLine> = vec![CnfLine::Comment("c".into())];
                    for c in x {
                        v.push(CnfLine::Clause(c));
                        v.push(CnfLine::Comment("d".into()));
                    }
                    v.into_iter().collect()
                } else {
                    x.into_iter().collect()
                };
            }
            Op::Capacity => {
                x.try_reserve(7).map_err(|e| format!("{e}"))?;
                check!(x.capacity() >= x.len() + 7, "reserved capacity");
                let mut y = Cnf::with_capacity(5);
                check!(y.is_empty() && y.capacity() >= 5, "with_capacity");
                y.extend(x);
                x = y;
                x.shrink_to_fit();
            }
            Op::Serde => {
                let s = serde_json::to_string(&x).unwrap();
                let y: Cnf = serde_json::from_str(&s).map_err(|e| format!("deserialising: {e}"))?;
                check!(x == y, "serialising changes the clauses");
                x = y;
            }
        }
        t.state(&md);
        observe(t, &x, &md)?;
    }
    t.outcome(&format!("{} clauses", md.len().min(6)));
    Ok(())
}

/// binary constructors from two operands
fn ctor(t: &mut Tally, c: &(i32, i32, C)) -> Result<(), String> {
    let (a, b, k) = c;
    let (la, lb, va, vb) = (l(*a), l(*b), l(*a).var(), l(*b).var());
    let (pa, pb) = (va.pos_lit(), vb.pos_lit());
    let kc = cl(k);
    let kk = ls(k);
    let e = |n: &str, x: Cnf, y: Vec<Vec<Lit>>| -> Result<(), String> {
        ensure_eq!(raw(&x), y, "{n}");
        Ok(())
    };
    e("var & var", va & vb, vec![vec![pa], vec![pb]])?;
    e("var & lit", va & lb, vec![vec![pa], vec![lb]])?;
    e("var & clause", va & kc.clone(), vec![vec![pa], kk.clone()])?;
    e("lit & var", la & vb, vec![vec![la], vec![pb]])?;
    e("lit & lit", la & lb, vec![vec![la], vec![lb]])?;
    e("lit & clause", la & kc.clone(), vec![vec![la], kk.clone()])?;
    e("clause & var", kc.clone() & va, vec![kk.clone(), vec![pa]])?;
    e("clause & lit", kc.clone() & lb, vec![kk.clone(), vec![lb]])?;
    e("clause & clause", kc.clone() & cl(&[*a, *b]), vec![kk.clone(), vec![la, lb]])?;
    t.step(9);
    t.state(c);
    Ok(())
}

pub fn run(cx: &Ctx) {
    let lits = [1, -1, 2, -2, 3, -3];
    let mut cases = vec![];
    for a in lits {
        for b in lits {
            for k in seqs(&lits, 0, 2) {
                cases.push((a, b, k));
            }
        }
    }
    cx.run("constructors", &cases, ctor);
    // every implication over all literal lists, on top of one clause
    let lists = seqs(&lits, 0, cx.pick(2, 3));
    let mut cases = vec![];
    for k in 0..9u8 {
        for a in &lists {
            for b in &lists {
                cases.push(vec![Op::Unit(2), Op::Imp(k, a.clone(), b.clone())]);
            }
        }
    }
    cx.run("implications", &cases, |t, c| case(t, c));
    // normal forms of all small clause lists
    let cls = seqs(&[1, -1, 2, -2], 0, 2);
    let mut lists = seqs(&cls, 0, 2);
    let some: Vec<C> = vec![vec![], vec![1], vec![2, 1], vec![1, 2], vec![1, -1], vec![-2, 3, -2], vec![3, -2], vec![3, 1, -3]];
    lists.extend(seqs(&some, 3, cx.pick(4, 5)));
    let mut cases = vec![];
    for x in lists {
        for tail in [vec![Op::Normalize], vec![Op::Sanitize], vec![Op::Sanitize, Op::Normalize], vec![Op::Shuffle, Op::Normalize, Op::Add(vec![1])]] {
            let mut ops = vec![Op::Extend(x.clone())];
            ops.extend(tail);
            cases.push(ops);
        }
    }
    cx.run("normal-forms", &cases, |t, c| case(t, c));
    // histories
    let two: Vec<C> = vec![vec![2, 1], vec![-3]];
    let five: Vec<C> = vec![vec![1], vec![], vec![1, 2], vec![2, 1], vec![3, -3]];
    let mut al = vec![
        Op::Add(vec![1, 2]),
        Op::Add(vec![]),
        Op::Nary(vec![2, 2, 1]),
        Op::Nary(vec![1, -1]),
        Op::Unit(-1),
        Op::Binary(2, 1),
        Op::Binary(3, -3),
        Op::Ternary(1, -2, 1),
        Op::AndVar(0),
        Op::AndLit(-3),
        Op::AndClause(vec![1, 2]),
        Op::AndCnf(two.clone()),
        Op::AndAssignVar(2),
        Op::AndAssignLit(-1),
        Op::AndAssignClause(vec![]),
        Op::AndAssignCnf(two.clone()),
        Op::Front(0),
        Op::Front(1),
        Op::Front(2),
        Op::Imp(0, vec![1], vec![-2]),
        Op::Imp(6, vec![1, 2], vec![3]),
        Op::Imp(8, vec![1, 2], vec![3, -1]),
        Op::Extend(vec![]),
        Op::Extend(five.clone()),
        Op::Cert(two.clone()),
        Op::Join(five.clone()),
        Op::Normalize,
        Op::Sanitize,
        Op::Shuffle,
        Op::Clear,
        Op::Flip(false),
        Op::Flip(true),
        Op::Rebuild(false),
        Op::Rebuild(true),
        Op::Capacity,
        Op::Serde,
    ];
    for k in 0..4 {
        al.push(Op::Collect(k, five.clone()));
        al.push(Op::Collect(k, vec![]));
    }
    let depth = cx.pick(4, 5);
    let len = al.len();
    cx.run_idx(
        "histories",
        len.pow(depth as u32),
        |mut i| {
            (0..depth)
                .map(|_| {
                    let o = al[i % len].clone();
                    i /= len;
                    o
                })
                .collect::<Vec<_>>()
        },
        |t, c| case(t, c),
    );
    cx.bound("depth", depth);
}
