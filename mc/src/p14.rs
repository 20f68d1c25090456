//! Objectives under histories of operations
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::{check, ensure_eq};
use pigeons::ObjectiveLike;
use rustsat::instances::{BasicVarManager, ManageVars, Objective, ReindexVars, ReindexingVarManager};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use std::collections::{BTreeMap, BTreeSet};

const N: usize = 3;
type C = Vec<i32>;

#[derive(Clone, Debug)]
enum Op {
    AddLit(usize, i32),
    IncLit(usize, i32),
    IncInt(isize, i32),
    AddCl(usize, C),
    IncCl(usize, C),
    SetOff(isize),
    IncOff(isize),
    Normalize,
    Shuffle,
    Reindex(bool),
    /// conversion in place, the hardened clauses are kept by the model
    SoftLits,
    /// rebuilding from what iterators and conversions give
    Rebuild(u8),
}

/// Weights of literals and clauses, with the history in mind
#[derive(Clone, Hash, PartialEq, Eq, Debug, Default)]
struct Model {
    lits: BTreeMap<Lit, usize>,
    cls: BTreeMap<Vec<Lit>, usize>,
    off: isize,
    /// position of the original variables
    perm: Vec<u32>,
    /// clauses that were hardened
    hard: Vec<Vec<Lit>>,
    aux: u32,
}

/// renames literals of the model
fn rn(l: Lit, perm: &[u32]) -> Lit {
    Lit::new(perm[l.vidx()], l.is_neg())
}

fn cl_val(c: &[Lit], f: &dyn Fn(Lit) -> TernaryVal) -> TernaryVal {
    if c.iter().any(|&l| f(l) == TernaryVal::True) {
        TernaryVal::True
    } else if c.iter().all(|&l| f(l) == TernaryVal::False) {
        TernaryVal::False
    } else {
        TernaryVal::DontCare
    }
}

impl Model {
    fn cost(&self, f: &dyn Fn(Lit) -> TernaryVal) -> isize {
        let a: usize = self.lits.iter().filter(|x| f(*x.0) == TernaryVal::True).map(|x| x.1).sum();
        let b: usize = self.cls.iter().filter(|x| cl_val(x.0, f) == TernaryVal::False).map(|x| x.1).sum();
        self.off + (a + b) as isize
    }
    /// costs of all total assignments of the variables in use
    fn table(&self) -> Vec<isize> {
        let n = N + self.aux as usize;
        (0..1u32 << n).map(|m| self.cost(&|l| if holds(m, l) { TernaryVal::True } else { TernaryVal::False })).collect()
    }
    /// costs over the original variables, auxiliary ones chosen best (subject to the hardened clauses)
    fn best(&self) -> Vec<isize> {
        let tab = self.table();
        (0..1u32 << N)
            .map(|m| {
                (0..1u32 << self.aux)
                    .filter_map(|e| {
                        let mut a = 0u32;
                        for v in 0..N {
                            a |= (m >> v & 1) << self.perm[v];
                        }
                        // auxiliary variables fill the remaining places
                        let rest: Vec<u32> = (0..N as u32 + self.aux).filter(|v| !self.perm.contains(v)).collect();
                        for (i, v) in rest.iter().enumerate() {
                            a |= (e >> i & 1) << v;
                        }
                        self.hard.iter().all(|c| cl_holds(a, c)).then(|| tab[a as usize])
                    })
                    .min()
                    .unwrap_or(isize::MAX)
            })
            .collect()
    }
    fn inc_lit(&mut self, w: usize, l: Lit) {
        if w > 0 {
            *self.lits.entry(l).or_default() += w;
        }
    }
    fn inc_cl(&mut self, w: usize, c: &[Lit]) {
        match c {
            _ if w == 0 => (),
            [] => self.off += w as isize,
            [l] => self.inc_lit(w, !*l),
            _ => *self.cls.entry(c.to_vec()).or_default() += w,
        }
    }
}

fn raw(c: &Clause) -> Vec<Lit> {
    c.iter().copied().collect()
}

fn observe(t: &mut Tally, o: &Objective, md: &Model, op: &Op) -> Result<(), String> {
    let n = N as u32 + md.aux;
    // costs under all partial assignments (of the original number of variables)
    let nn = n.min(5);
    for p in 0..3u32.pow(nn) {
        let val = |v: u32| if v >= nn { TernaryVal::DontCare } else { [TernaryVal::DontCare, TernaryVal::True, TernaryVal::False][(p / 3u32.pow(v) % 3) as usize] };
        let a: Assignment = (0..nn).map(val).collect();
        let f = |l: Lit| if l.is_neg() { !val(l.vidx32()) } else { val(l.vidx32()) };
        let e = md.cost(&f);
        ensure_eq!(o.evaluate(&a), e, "cost under partial assignment {p} after {op:?}");
        ensure_eq!(o.evaluate_no_offset(&a) as isize, e - md.off, "cost without offset under partial assignment {p} after {op:?}");
    }
    t.step(2 * 3u64.pow(nn));
    ensure_eq!(o.offset(), md.off, "offset after {op:?}");
    ensure_eq!(o.constant(), md.lits.is_empty() && md.cls.is_empty(), "constant after {op:?}");
    ensure_eq!(o.is_empty(), md.lits.is_empty() && md.cls.is_empty() && md.off == 0, "is_empty after {op:?}");
    // sums of weights
    let (ls, cs): (usize, usize) = (md.lits.values().sum(), md.cls.values().sum());
    ensure_eq!(o.lit_weight_sum(), ls, "literal weight sum after {op:?}");
    ensure_eq!(o.clause_weight_sum(), cs, "clause weight sum after {op:?}");
    ensure_eq!(o.weight_sum(), ls + cs, "weight sum after {op:?}");
    // single weights
    for v in 0..n {
        for neg in [false, true] {
            let l = Lit::new(v, neg);
            ensure_eq!(o.lit_weight(l), md.lits.get(&l).copied(), "weight of literal {l} after {op:?}");
        }
    }
    for (c, w) in &md.cls {
        let k: Clause = c.iter().copied().collect();
        ensure_eq!(o.clause_weight(&k), Some(*w), "weight of clause {k} after {op:?}");
    }
    ensure_eq!(o.clause_weight(&cl(&[3, 2, 1, -1])), None, "weight of a clause that was never added");
    // what the iterators give; an entry may appear several times
    let (mut il, mut ic): (BTreeMap<Lit, usize>, BTreeMap<Vec<Lit>, usize>) = Default::default();
    let (mut nl, mut nc) = (0, 0);
    let mut ws = vec![];
    for (c, w) in o.iter_soft_cls() {
        ws.push((c.len() == 1, w));
        if c.len() == 1 {
            *il.entry(!c[0]).or_default() += w;
            nl += 1;
        } else {
            *ic.entry(raw(&c)).or_default() += w;
            nc += 1;
        }
    }
    ensure_eq!((&il, &ic), (&md.lits, &md.cls), "iterated soft clauses after {op:?}");
    ensure_eq!((o.n_lits(), o.n_clauses(), o.n_softs()), (nl, nc, nl + nc), "numbers of softs after {op:?}");
    check!(nl >= il.len() && nc >= ic.len(), "numbers of softs after {op:?}");
    if o.weighted() {
        ensure_eq!((nl, nc), (il.len(), ic.len()), "entries of a weighted objective after {op:?}");
    } else {
        check!(ws.windows(2).all(|w| w[0].1 == w[1].1), "different weights in an unweighted objective after {op:?}: {ws:?}");
    }
    let mx = |f: &dyn Fn(bool) -> bool| ws.iter().filter(|x| f(x.0)).map(|x| x.1).max();
    let mn = |f: &dyn Fn(bool) -> bool| ws.iter().filter(|x| f(x.0)).map(|x| x.1).min();
    if nl > 0 {
        ensure_eq!((o.max_lit_weight(), o.min_lit_weight()), (mx(&|x| x).unwrap(), mn(&|x| x).unwrap()), "extreme literal weights after {op:?}");
    }
    if nc > 0 {
        ensure_eq!((o.max_clause_weight(), o.min_clause_weight()), (mx(&|x| !x).unwrap(), mn(&|x| !x).unwrap()), "extreme clause weights after {op:?}");
    }
    if nl + nc > 0 {
        ensure_eq!((o.max_weight(), o.min_weight()), (mx(&|_| true).unwrap(), mn(&|_| true).unwrap()), "extreme weights after {op:?}");
    }
    match o.iter_soft_lits() {
        Ok(it) => {
            check!(nc == 0, "soft literal iterator although there are soft clauses after {op:?}");
            let mut m: BTreeMap<Lit, usize> = BTreeMap::new();
            it.into_iter().for_each(|(l, w)| *m.entry(l).or_default() += w);
            ensure_eq!(m, md.lits, "soft literals after {op:?}");
            let mut m: BTreeMap<String, isize> = BTreeMap::new();
            o.sum_iter().for_each(|(w, a)| *m.entry(format!("{a}")).or_default() += w);
            let e: BTreeMap<String, isize> =
                md.lits.iter().map(|(l, w)| (format!("{}x{}", if l.is_neg() { "~" } else { "" }, l.vidx() + 1), *w as isize)).collect();
            ensure_eq!(m, e, "objective for the proof after {op:?}");
            ensure_eq!(ObjectiveLike::offset(o), md.off, "objective offset for the proof");
        }
        Err(_) => check!(nc > 0, "no soft literal iterator although there are no soft clauses after {op:?}"),
    }
    let vs: BTreeSet<u32> = md.lits.keys().map(|l| l.vidx32()).chain(md.cls.keys().flatten().map(|l| l.vidx32())).collect();
    ensure_eq!(o.max_var().map(|v| v.idx32()), vs.last().copied(), "maximum variable after {op:?}");
    t.step(20 + 2 * u64::from(n));
    // conversions
    let tab = md.table();
    let table = |softs: &[(Vec<Lit>, usize)], off: isize, hard: &[Vec<Lit>], from: u32, to: u32| -> Vec<isize> {
        (0..1u32 << from)
            .map(|m| {
                (0..1u32 << (to - from))
                    .filter_map(|e| {
                        let a = m | e << from;
                        if !hard.iter().all(|c| cl_holds(a, c)) {
                            return None;
                        }
                        let s: usize = softs.iter().filter(|(c, _)| !cl_holds(a, c)).map(|x| x.1).sum();
                        Some(off + s as isize)
                    })
                    .min()
                    .unwrap_or(isize::MAX)
            })
            .collect()
    };
    if n > 6 {
        return Ok(());
    }
    {
        let (it, off) = o.clone().into_soft_cls();
        let s: Vec<(Vec<Lit>, usize)> = it.into_iter().map(|(c, w)| (raw(&c), w)).collect();
        ensure_eq!(table(&s, off, &[], n, n), tab, "costs of the soft clauses after {op:?}: {s:?} {off}");
        let (it, uw, off) = o.clone().into_unweighted_soft_cls();
        let s: Vec<(Vec<Lit>, usize)> = it.into_iter().map(|c| (raw(&c), uw)).collect();
        ensure_eq!(table(&s, off, &[], n, n), tab, "costs of the unweighted soft clauses after {op:?}: {s:?} {off}");
        let hardened = |f: &rustsat::instances::Cnf, next: u32| -> Result<Vec<Vec<Lit>>, String> {
            let h: Vec<Vec<Lit>> = f.iter().map(raw).collect();
            check!(h.iter().flatten().all(|l| l.vidx32() < next), "hardened clauses {h:?} use variables beyond {next}");
            Ok(h)
        };
        if n + nc as u32 <= 9 {
            let mut vm = BasicVarManager::from_next_free(Var::new(n));
            let (f, (it, off)) = o.clone().into_soft_lits(&mut vm);
            let s: Vec<(Vec<Lit>, usize)> = it.into_iter().map(|(l, w)| (vec![!l], w)).collect();
            let h = hardened(&f, vm.n_used())?;
            ensure_eq!(table(&s, off, &h, n, vm.n_used()), tab, "costs of the soft literals after {op:?}: {s:?} {off} {h:?}");
            let mut vm = BasicVarManager::from_next_free(Var::new(n));
            let (f, it, uw, off) = o.clone().into_unweighted_soft_lits(&mut vm);
            let s: Vec<(Vec<Lit>, usize)> = it.into_iter().map(|l| (vec![!l], uw)).collect();
            let h = hardened(&f, vm.n_used())?;
            ensure_eq!(table(&s, off, &h, n, vm.n_used()), tab, "costs of the unweighted soft literals after {op:?}: {s:?} {off} {h:?}");
        }
    }
    t.step(4 * tab.len() as u64);
    Ok(())
}

fn case(t: &mut Tally, ops: &[Op]) -> Result<(), String> {
    let mut o = Objective::new();
    let mut md = Model { perm: (0..N as u32).collect(), ..Model::default() };
    for op in ops {
        let p = md.perm.clone();
        let m = |i: i32| rn(l(i), &p);
        let mc = |c: &[i32]| -> Vec<Lit> { c.iter().map(|&i| rn(l(i), &p)).collect() };
        match op {
            Op::AddLit(w, i) => {
                let r = o.add_soft_lit(*w, m(*i));
                let e = if *w == 0 { md.lits.remove(&m(*i)) } else { md.lits.insert(m(*i), *w) };
                ensure_eq!(r, e, "old weight returned by {op:?}");
            }
            Op::IncLit(w, i) => {
                o.increase_soft_lit(*w, m(*i));
                md.inc_lit(*w, m(*i));
            }
            Op::IncInt(w, i) => {
                o.increase_soft_lit_int(*w, m(*i));
                if *w < 0 {
                    md.off += w;
                    md.inc_lit(w.unsigned_abs(), !m(*i));
                } else {
                    md.inc_lit(*w as usize, m(*i));
                }
            }
            Op::AddCl(w, c) => {
                let c = mc(c);
                let r = o.add_soft_clause(*w, c.iter().copied().collect());
                let e = match &c[..] {
                    [] => {
                        md.off += *w as isize;
                        None
                    }
                    [l] => {
                        if *w == 0 {
                            md.lits.remove(&!*l)
                        } else {
                            md.lits.insert(!*l, *w)
                        }
                    }
                    _ if *w == 0 => md.cls.remove(&c),
                    _ => md.cls.insert(c, *w),
                };
                ensure_eq!(r, e, "old weight returned by {op:?}");
            }
            Op::IncCl(w, c) => {
                let c = mc(c);
                o.increase_soft_clause(*w, c.iter().copied().collect());
                md.inc_cl(*w, &c);
            }
            Op::SetOff(x) => {
                o.set_offset(*x);
                md.off = *x;
            }
            Op::IncOff(x) => {
                o.increase_offset(*x);
                md.off += x;
            }
            Op::Normalize => {
                o = o.normalize();
                // the costs stay, the weights may be rearranged
                let before = md.table();
                let mut n = Model { off: o.offset(), lits: BTreeMap::new(), cls: BTreeMap::new(), ..md.clone() };
                for (c, w) in o.iter_soft_cls() {
                    let s: BTreeSet<Lit> = c.iter().copied().collect();
                    check!(s.len() == c.len() && !c.iter().any(|l| s.contains(&!*l)), "clause {c} in a normalised objective");
                    n.inc_cl(w, &raw(&c));
                }
                ensure_eq!(n.table(), before, "costs after {op:?} ({o:?})");
                md = n;
            }
            Op::Shuffle => o = o.shuffle(),
            Op::Reindex(via_used) => {
                let n = N as u32 + md.aux;
                let mut r = ReindexingVarManager::default();
                if *via_used {
                    // a start that puts the variables in reverse order
                    for v in (0..n).rev() {
                        r.reindex(Var::new(v));
                    }
                }
                o = o.reindex(&mut r);
                let img: Vec<u32> = (0..n).map(|v| r.reindex(Var::new(v)).idx32()).collect();
                check!(img.iter().all(|v| *v < n), "variables after re-indexing");
                md.lits = md.lits.iter().map(|(l, w)| (rn(*l, &img), *w)).collect();
                md.cls = md.cls.iter().map(|(c, w)| (c.iter().map(|l| rn(*l, &img)).collect(), *w)).collect();
                for c in &mut md.hard {
                    c.iter_mut().for_each(|l| *l = rn(*l, &img));
                }
                md.perm.iter_mut().for_each(|v| *v = img[*v as usize]);
            }
            Op::SoftLits => {
                let n = N as u32 + md.aux;
                if md.cls.len() + n as usize > 7 {
                    return Ok(());
                }
                let before = md.best();
                let mut vm = BasicVarManager::from_next_free(Var::new(n));
                let f = o.convert_to_soft_lits(&mut vm);
                if vm.n_used() > 8 {
                    return Ok(());
                }
                md.aux += vm.n_used() - n;
                md.hard.extend(f.iter().map(raw));
                md.cls.clear();
                md.lits.clear();
                md.off = o.offset();
                let it = o.iter_soft_lits().map_err(|_| "soft clauses left after the conversion".to_string())?;
                for (l, w) in it {
                    check!(l.vidx32() < vm.n_used(), "literal {l} was not handed out");
                    md.inc_lit(w, l);
                }
                ensure_eq!(md.best(), before, "costs after {op:?}");
            }
            Op::Rebuild(k) => {
                let off = o.offset();
                match k {
                    0 => {
                        let v: Vec<(Clause, usize)> = o.iter_soft_cls().into_iter().collect();
                        o = v.into_iter().collect();
                        o.increase_offset(off);
                    }
                    1 => {
                        let Ok(it) = o.iter_soft_lits() else { continue };
                        let v: Vec<(Lit, usize)> = it.into_iter().collect();
                        o = v.into_iter().collect();
                        o.increase_offset(off);
                    }
                    _ => {
                        let Ok(it) = o.iter_soft_lits() else { continue };
                        // negative weights on the negated literals
                        let v: Vec<(Lit, isize)> = it.into_iter().map(|(l, w)| (!l, -(w as isize))).collect();
                        let s: isize = v.iter().map(|x| x.1).sum();
                        o = v.into_iter().collect();
                        ensure_eq!(o.offset(), s, "offset from negative weights");
                        o.increase_offset(off - s);
                    }
                }
            }
        }
        t.state(&md);
        t.outcome(match (o.weighted(), md.cls.is_empty()) {
            (false, true) => "unweighted literals",
            (false, false) => "unweighted clauses",
            (true, true) => "weighted literals",
            (true, false) => "weighted clauses",
        });
        observe(t, &o, &md, op)?;
    }
    Ok(())
}

pub fn run(cx: &Ctx) {
    let mut lits_only = vec![];
    for i in [1, -1, 2] {
        for w in 0..=2 {
            lits_only.push(Op::AddLit(w, i));
        }
        for w in 1..=2 {
            lits_only.push(Op::IncLit(w, i));
        }
    }
    lits_only.extend([Op::IncLit(1, 3), Op::IncInt(-1, 1), Op::IncInt(-2, -2), Op::IncInt(2, -1), Op::IncInt(0, 3), Op::IncOff(-2), Op::Normalize]);
    let cls: Vec<C> = vec![vec![], vec![1], vec![-1], vec![1, 2], vec![2, 1], vec![1, 1], vec![1, -1], vec![-3, 2, -3]];
    let mut with_cls = vec![];
    for c in &cls {
        for w in 1..=2 {
            with_cls.push(Op::AddCl(w, c.clone()));
            with_cls.push(Op::IncCl(w, c.clone()));
        }
    }
    with_cls.extend([Op::AddCl(0, vec![1, 2]), Op::AddCl(0, vec![1]), Op::AddCl(0, vec![]), Op::IncCl(0, vec![1, 2]), Op::IncCl(0, vec![])]);
    let misc = vec![
        Op::SetOff(3),
        Op::SetOff(-1),
        Op::IncOff(2),
        Op::Normalize,
        Op::Shuffle,
        Op::Reindex(false),
        Op::Reindex(true),
        Op::SoftLits,
        Op::Rebuild(0),
        Op::Rebuild(1),
        Op::Rebuild(2),
    ];
    let go = |name: &str, al: &[Op], depth: usize| {
        let len = al.len();
        cx.run_idx(
            name,
            len.pow(depth as u32),
            |mut i| {
                (0..depth)
                    .map(|_| {
                        let o = al[i % len].clone();
                        i /= len;
                        o
                    })
                    .collect::<Vec<_>>()
            },
            |t, c| case(t, c),
        );
        cx.bound(name, depth);
    };
    go("literals", &lits_only, cx.pick(4, 5));
    let mut all = lits_only.clone();
    all.extend(with_cls.clone());
    all.extend(misc.clone());
    go("all", &all, cx.pick(3, 4));
    // longer histories over a smaller set
    let small = vec![
        Op::AddLit(1, 1),
        Op::IncLit(1, -1),
        Op::IncLit(2, 2),
        Op::IncInt(-1, 2),
        Op::IncCl(1, vec![1, 1]),
        Op::IncCl(1, vec![2, -3]),
        Op::AddCl(1, vec![2, -3]),
        Op::AddCl(2, vec![-3, 2]),
        Op::IncCl(1, vec![]),
        Op::IncOff(-3),
        Op::Normalize,
        Op::SoftLits,
        Op::Reindex(true),
    ];
    go("long", &small, cx.pick(5, 6));
    // every collection of unit-weight softs, normalised
    let units: Vec<Op> = vec![
        Op::IncLit(1, 1),
        Op::IncLit(1, -1),
        Op::IncLit(1, 2),
        Op::IncLit(1, -2),
        Op::IncLit(1, 3),
        Op::IncCl(1, vec![1, 2]),
        Op::IncCl(1, vec![2, 1, 2]),
        Op::IncCl(1, vec![3, 3]),
        Op::IncCl(1, vec![3, -3]),
    ];
    let sq = seqs(&units, 0, cx.pick(5, 6));
    cx.run_idx(
        "normalize",
        sq.len(),
        |i| {
            let mut v = sq[i].clone();
            v.push(Op::Normalize);
            v.push(Op::Normalize);
            v
        },
        |t, c| case(t, c),
    );
}
