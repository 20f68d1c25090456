use crate::common::*;
use crate::oracle::*;
use crate::p02::{no_input_excluded, verify};
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::encodings::card::simulators as csim;
use rustsat::encodings::card::Totalizer;
use rustsat::encodings::pb::simulators::{Card, Double, Inverted};
use rustsat::encodings::pb::*;
use rustsat::encodings::{EncodeStats, EnforceError};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Lit, Var};
use rustsat::OutOfMemory;
use std::collections::BTreeSet;

/// Uniform view on the pseudo-Boolean encodings; `None` means not supported by the encoding
pub trait Pbe: Sized {
    fn make() -> Self;
    fn ext(&mut self, l: Vec<(Lit, usize)>) -> bool;
    fn op(&mut self, op: &Op, col: &mut Col, vm: &mut BasicVarManager) -> Option<Result<(), OutOfMemory>>;
    fn ub(&self, _b: usize) -> Option<Result<Vec<Lit>, bool>> {
        None
    }
    fn lb(&self, _b: usize) -> Option<Result<Vec<Lit>, bool>> {
        None
    }
    fn eq(&self, _b: usize) -> Option<Result<Vec<Lit>, bool>> {
        None
    }
    fn sum(&self) -> usize;
    fn ncl(&self) -> Option<usize> {
        None
    }
    fn next_hi(&self, v: usize) -> usize;
    fn next_lo(&self, v: usize) -> usize;
    fn unweighted_only() -> bool {
        false
    }
    /// 0: no binary adder, 1: binary adder, 2: binary adder under inverted bounds
    fn adder() -> u8 {
        0
    }
    fn reserves() -> bool {
        Self::adder() == 0
    }
}
fn un(e: EnforceError) -> bool {
    matches!(e, EnforceError::Unsat)
}
macro_rules! common_fns {
    () => {
        fn ext(&mut self, l: Vec<(Lit, usize)>) -> bool {
            self.extend(l);
            true
        }
        common_fns!(noext);
    };
    (noext) => {
        fn make() -> Self {
            Self::default()
        }
        fn sum(&self) -> usize {
            self.weight_sum()
        }
        fn next_hi(&self, v: usize) -> usize {
            self.next_higher(v)
        }
        fn next_lo(&self, v: usize) -> usize {
            self.next_lower(v)
        }
    };
}
macro_rules! upper {
    ($t:ty $(, $x:item)*) => {
        impl Pbe for $t {
            common_fns!();
            fn op(&mut self, op: &Op, col: &mut Col, vm: &mut BasicVarManager) -> Option<Result<(), OutOfMemory>> {
                Some(match op {
                    Op::Reserve => {
                        self.reserve(vm);
                        Ok(())
                    }
                    Op::Ub(r) => self.encode_ub(*r, col, vm),
                    Op::UbC(r) => self.encode_ub_change(*r, col, vm),
                    _ => return None,
                })
            }
            fn ub(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
                Some(self.enforce_ub(b).map_err(un))
            }
            $($x)*
        }
    };
}
macro_rules! lower {
    ($t:ty $(, $x:item)*) => {
        impl Pbe for $t {
            common_fns!();
            fn op(&mut self, op: &Op, col: &mut Col, vm: &mut BasicVarManager) -> Option<Result<(), OutOfMemory>> {
                Some(match op {
                    Op::Reserve => {
                        self.reserve(vm);
                        Ok(())
                    }
                    Op::Lb(r) => self.encode_lb(*r, col, vm),
                    Op::LbC(r) => self.encode_lb_change(*r, col, vm),
                    _ => return None,
                })
            }
            fn lb(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
                Some(self.enforce_lb(b).map_err(un))
            }
            $($x)*
        }
    };
}
macro_rules! both {
    ($t:ty $(, $x:item)*) => {
        impl Pbe for $t {
            common_fns!();
            fn op(&mut self, op: &Op, col: &mut Col, vm: &mut BasicVarManager) -> Option<Result<(), OutOfMemory>> {
                Some(match op {
                    Op::Reserve => {
                        self.reserve(vm);
                        Ok(())
                    }
                    Op::Ub(r) => self.encode_ub(*r, col, vm),
                    Op::UbC(r) => self.encode_ub_change(*r, col, vm),
                    Op::Lb(r) => self.encode_lb(*r, col, vm),
                    Op::LbC(r) => self.encode_lb_change(*r, col, vm),
                    Op::Both(r) => self.encode_both(*r, col, vm),
                    Op::BothC(r) => self.encode_both_change(*r, col, vm),
                    Op::Ext(_) => return None,
                })
            }
            fn ub(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
                Some(self.enforce_ub(b).map_err(un))
            }
            fn lb(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
                Some(self.enforce_lb(b).map_err(un))
            }
            fn eq(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
                Some(self.enforce_eq(b).map_err(un))
            }
            $($x)*
        }
    };
}
type Gte = GeneralizedTotalizer;
upper!(Gte, fn ncl(&self) -> Option<usize> { Some(self.n_clauses()) });
lower!(Inverted<Gte>, fn ncl(&self) -> Option<usize> { Some(self.n_clauses()) });
both!(Double<Gte, Inverted<Gte>>, fn ncl(&self) -> Option<usize> { Some(self.n_clauses()) });
both!(BinaryAdder, fn adder() -> u8 { 1 }, fn ncl(&self) -> Option<usize> { Some(self.n_clauses()) });
both!(Inverted<BinaryAdder>, fn adder() -> u8 { 2 }, fn ncl(&self) -> Option<usize> { Some(self.n_clauses()) });
both!(Double<BinaryAdder, Inverted<Gte>>, fn reserves() -> bool { false }, fn ncl(&self) -> Option<usize> { Some(self.n_clauses()) });
both!(Inverted<Inverted<BinaryAdder>>, fn adder() -> u8 { 1 }, fn ncl(&self) -> Option<usize> { Some(self.n_clauses()) });
both!(Card<Totalizer>, fn unweighted_only() -> bool { false });
both!(Card<csim::Inverted<Totalizer>>, fn unweighted_only() -> bool { false });
both!(Inverted<Card<Totalizer>>, fn unweighted_only() -> bool { false });

impl Pbe for DynamicPolyWatchdog {
    fn ext(&mut self, l: Vec<(Lit, usize)>) -> bool {
        // inputs can only be given once
        if self.weight_sum() > 0 {
            return l.is_empty();
        }
        *self = l.into_iter().collect();
        true
    }
    fn op(&mut self, op: &Op, col: &mut Col, vm: &mut BasicVarManager) -> Option<Result<(), OutOfMemory>> {
        Some(match op {
            Op::Reserve => {
                self.reserve(vm);
                Ok(())
            }
            Op::Ub(r) => self.encode_ub(*r, col, vm),
            Op::UbC(r) => self.encode_ub_change(*r, col, vm),
            _ => return None,
        })
    }
    fn ub(&self, b: usize) -> Option<Result<Vec<Lit>, bool>> {
        Some(self.enforce_ub(b).map_err(un))
    }
    fn sum(&self) -> usize {
        self.weight_sum()
    }
    fn ncl(&self) -> Option<usize> {
        Some(self.n_clauses())
    }
    fn make() -> Self {
        std::iter::empty::<(Lit, usize)>().collect()
    }
    fn next_hi(&self, v: usize) -> usize {
        self.next_higher(v)
    }
    fn next_lo(&self, v: usize) -> usize {
        self.next_lower(v)
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pool: Vec<(i32, usize)>,
    gap: u32,
    ops: Vec<Op>,
}

fn hist<E: Pbe>(t: &mut Tally, c: &Case) -> Result<(), String> {
    if E::unweighted_only() && c.pool.iter().any(|x| x.1 != 1) {
        return Ok(());
    }
    let pool: Vec<(Lit, usize)> = c.pool.iter().map(|x| (l(x.0), x.1)).collect();
    let nv = pool.iter().map(|l| l.0.vidx() + 1).max().unwrap_or(0);
    let from = nv + c.gap as usize;
    let mut enc = E::make();
    let mut vm = BasicVarManager::from_next_free(Var::new(from as u32));
    let mut col = Col::default();
    let mut n = 0;
    let (mut ub, mut lb): (BTreeSet<usize>, BTreeSet<usize>) = Default::default();
    let hi = pool.iter().map(|x| x.1).sum::<usize>() + 2;
    let mut fnd = AdderFinding { kind: E::adder(), ..Default::default() };
    let in_rg = |r: &Rg| (0..=hi).filter(|&x| rg_has(r, x)).collect::<BTreeSet<_>>();
    // number of variables after reserving
    let (mut res, mut late) = (None, None);
    for op in &c.ops {
        let mut op = *op;
        if let Op::Ext(k) = &mut op {
            *k = (*k).min(pool.len() - n);
            let k = *k;
            if !enc.ext(pool[n..n + k].to_vec()) {
                return Ok(());
            }
            n += k;
            if k > 0 {
                ub.clear();
                lb.clear();
                res = None;
            }
        } else {
            match enc.op(&op, &mut col, &mut vm) {
                None => return Ok(()),
                Some(r) => r.map_err(|e| e.to_string())?,
            }
        }
        match &op {
            // reserving extends the structure, which counts as a change of the encoding
            Op::Reserve => {
                res = Some(vm.n_used());
                ub.clear();
                lb.clear();
            }
            // only the range of the last call is documented to be enforceable
            Op::Ub(r) | Op::UbC(r) => ub = in_rg(r),
            Op::Lb(r) | Op::LbC(r) => lb = in_rg(r),
            Op::Both(r) | Op::BothC(r) => {
                ub = in_rg(r);
                lb = in_rg(r);
            }
            _ => (),
        }
        t.step(1);
        fnd.op(&op, pool[..n].iter().map(|x| x.1).sum());
        let total: usize = pool[..n].iter().map(|x| x.1).sum();
        t.state((&c.pool, n, &ub, &lb));
        ensure_eq!(enc.sum(), total, "weight sum after {op:?}");
        if let Some(r) = res {
            // recorded for the adder
            if E::reserves() || vm.n_used() < r {
                ensure_eq!(vm.n_used(), r, "variables after {op:?}, although all had been reserved");
            } else if vm.n_used() > r {
                late = Some(format!("{RESERVE} variables after {op:?}, although all had been reserved: {}, not {r}", vm.n_used()));
            }
        }
    }
    let next = vm.new_var().idx().max(from);
    fresh_ok(&col.0, nv, from, next)?;
    if let Some(k) = enc.ncl() {
        ensure_eq!(k, col.0.len(), "n_clauses");
    }
    let w = &pool[..n];
    let total: usize = w.iter().map(|x| x.1).sum();
    no_input_excluded(t, &col, nv)?;
    let mut known = None;
    {
        let skip = std::cell::Cell::new(false);
        // enforcing may be refused where the recorded finding applies
        let relax = |must: bool, finding: bool, r: Option<Result<Vec<Lit>, bool>>| match r {
            Some(Err(false)) if must && finding => {
                skip.set(true);
                None
            }
            r => r,
        };
        let checks = [
            verify(t, &col, nv, w, total + 2, &|b| ub.contains(&b), &|b| relax(ub.contains(&b), fnd.refused(b, false), enc.ub(b)), |s, b| s <= b, "<="),
            verify(t, &col, nv, w, total + 2, &|b| lb.contains(&b), &|b| relax(lb.contains(&b), fnd.refused(b, true), enc.lb(b)), |s, b| s >= b, ">="),
            verify(
                t,
                &col,
                nv,
                w,
                total + 2,
                &|b| ub.contains(&b) && lb.contains(&b),
                &|b| relax(ub.contains(&b) && lb.contains(&b), fnd.refused(b, false) || fnd.refused(b, true), enc.eq(b)),
                |s, b| s == b,
                "=",
            ),
        ];
        if skip.get() {
            known = Some(format!("{SKIP} a bound is refused since its comparator exists for the other direction"));
        }
        for (k, r) in checks.into_iter().enumerate() {
            if let Err(e) = r {
                if (k != 0 && fnd.weak(true, &e)) || (k != 1 && fnd.weak(false, &e)) {
                    known = Some(format!("{CARRY} {e}"));
                } else {
                    return Err(e);
                }
            }
        }
    }
    // next higher / lower values never skip a reachable sum
    let sums: BTreeSet<usize> = (0..(1u32 << nv))
        .map(|m| w.iter().map(|x| if holds(m, x.0) { x.1 } else { 0 }).sum())
        .collect();
    for v in 0..=total {
        if v < total {
            let h = guarded(|| enc.next_hi(v)).map_err(|e| format!("next higher value of {v}: {e}"))?;
            check!(h > v, "next higher value of {v} is {h}");
            if let Some(s) = sums.iter().find(|&&s| s > v && s < h) {
                return Err(format!("next higher value of {v} is {h}, which skips the reachable sum {s}"));
            }
        }
        if v > 0 {
            let lo = guarded(|| enc.next_lo(v)).map_err(|e| format!("next lower value of {v}: {e}"))?;
            check!(lo < v, "next lower value of {v} is {lo}");
            if let Some(s) = sums.iter().find(|&&s| s < v && s > lo) {
                return Err(format!("next lower value of {v} is {lo}, which skips the reachable sum {s}"));
            }
        }
        t.step(2);
    }
    known.or(late).map_or(Ok(()), Err)
}

type Fresh = (Vec<usize>, u8, Rg, u8, Rg);
/// fresh encoding into a second collector
fn fresh<E: Pbe>(t: &mut Tally, c: &Fresh) -> Result<(), String> {
    let (ws, up1, r1, up2, r2) = c;
    let n = ws.len();
    if E::unweighted_only() && ws.iter().any(|&x| x != 1) {
        return Ok(());
    }
    let pool: Vec<(Lit, usize)> = ws.iter().enumerate().map(|(v, &w)| (Lit::new(v as u32, v == 1), w)).collect();
    let total: usize = ws.iter().sum();
    let mut enc = E::make();
    enc.ext(pool.clone());
    let mut vm = BasicVarManager::from_next_free(Var::new(n as u32));
    let mut c1 = Col::default();
    let mut c2 = Col::default();
    let mk = |k: u8, r: Rg| match k {
        0 => Op::Ub(r),
        1 => Op::Lb(r),
        _ => Op::Both(r),
    };
    match enc.op(&mk(*up1, *r1), &mut c1, &mut vm) {
        None => return Ok(()),
        Some(r) => r.map_err(|e| e.to_string())?,
    }
    match enc.op(&mk(*up2, *r2), &mut c2, &mut vm) {
        None => return Ok(()),
        Some(r) => r.map_err(|e| e.to_string())?,
    }
    t.state(c);
    no_input_excluded(t, &c2, n)?;
    let mut fnd = AdderFinding { kind: E::adder(), ..Default::default() };
    fnd.op(&mk(*up1, *r1), total);
    fnd.op(&mk(*up2, *r2), total);
    let skip = std::cell::Cell::new(false);
    let relax = |b: usize, lower: bool, r: Option<Result<Vec<Lit>, bool>>| match r {
        Some(Err(false)) if rg_has(r2, b) && fnd.refused(b, lower) => {
            skip.set(true);
            None
        }
        r => r,
    };
    if *up2 != 1 {
        verify(t, &c2, n, &pool, total + 1, &|b| rg_has(r2, b), &|b| relax(b, false, enc.ub(b)), |s, b| s <= b, "<=")?;
    }
    if *up2 != 0 {
        verify(t, &c2, n, &pool, total + 1, &|b| rg_has(r2, b), &|b| relax(b, true, enc.lb(b)), |s, b| s >= b, ">=")?;
    }
    if skip.get() {
        return Err(format!("{SKIP} a bound is refused since its comparator exists for the other direction"));
    }
    Ok(())
}

/// Model of the bookkeeping behind the two recorded findings on the binary adder: what is encoded
/// already when a call comes (values are those of the adder itself)
#[derive(Default)]
struct AdderFinding {
    kind: u8,
    if_done: bool,
    /// a half adder carry was marked as having its if direction without the clauses
    tainted: bool,
    cmp_if: BTreeSet<usize>,
    /// lower bounds that the adder skips, as bounds of the encoding under test
    skipped: BTreeSet<usize>,
}
impl AdderFinding {
    fn op(&mut self, op: &Op, total: usize) {
        if self.kind == 0 {
            return;
        }
        let inv = self.kind == 2;
        let vals = |r: &Rg, if_dir: bool| -> BTreeSet<usize> {
            let upper = if_dir != inv;
            (0..=total)
                .filter(|&b| rg_has(r, b) && if upper { b < total } else { b > 0 })
                .map(|b| if inv { total - b } else { b })
                .collect()
        };
        let (mut ub, mut lb) = (None, None);
        match op {
            Op::Ext(0) => (),
            Op::Ext(_) => {
                self.if_done = false;
                self.cmp_if.clear();
                self.skipped.clear();
            }
            Op::Reserve => (),
            Op::Ub(r) => ub = Some((r, true)),
            Op::UbC(r) => ub = Some((r, false)),
            Op::Lb(r) => lb = Some((r, true)),
            Op::LbC(r) => lb = Some((r, false)),
            Op::Both(r) => {
                ub = Some((r, true));
                lb = ub;
            }
            Op::BothC(r) => {
                ub = Some((r, false));
                lb = ub;
            }
        }
        let (i, o) = if inv { (lb, ub) } else { (ub, lb) };
        for (x, if_dir) in [(i, true), (o, false)] {
            let Some((r, fresh)) = x else { continue };
            let v = vals(r, if_dir);
            if if_dir {
                if fresh {
                    self.cmp_if.clear();
                    self.tainted = false;
                    self.if_done = false;
                }
                if !v.is_empty() {
                    self.if_done = true;
                    self.cmp_if.extend(v);
                }
            } else if !v.is_empty() {
                if !self.if_done {
                    self.tainted = true;
                }
                for x in v {
                    let b = if inv { total - x } else { x };
                    if self.cmp_if.contains(&(x - 1)) {
                        self.skipped.insert(b);
                    } else {
                        self.skipped.remove(&b);
                    }
                }
            }
        }
    }
    /// `Ok(true)` if the skipped comparator was observed
    fn refused(&self, b: usize, lower: bool) -> bool {
        self.kind != 0 && lower != (self.kind == 2) && self.skipped.contains(&b)
    }
    fn weak(&self, lower: bool, e: &str) -> bool {
        self.kind != 0 && self.tainted && lower == (self.kind == 2) && e.contains("allowed but should be forbidden")
    }
}
const CARRY: &str = "[known:adder-carry-mark]";
const RESERVE: &str = "[known:adder-reserve]";
const SKIP: &str = "[known:adder-lb-skip]";

type F = fn(&mut Tally, &Case) -> Result<(), String>;

pub fn run(cx: &Ctx) {
    let encs: Vec<(&str, F, fn(&mut Tally, &Fresh) -> Result<(), String>)> = vec![
        ("gte", hist::<Gte>, fresh::<Gte>),
        ("inverted-gte", hist::<Inverted<Gte>>, fresh::<Inverted<Gte>>),
        ("double-gte", hist::<Double<Gte, Inverted<Gte>>>, fresh::<Double<Gte, Inverted<Gte>>>),
        ("adder", hist::<BinaryAdder>, fresh::<BinaryAdder>),
        ("inverted-adder", hist::<Inverted<BinaryAdder>>, fresh::<Inverted<BinaryAdder>>),
        ("dpw", hist::<DynamicPolyWatchdog>, fresh::<DynamicPolyWatchdog>),
        ("double-adder-gte", hist::<Double<BinaryAdder, Inverted<Gte>>>, fresh::<Double<BinaryAdder, Inverted<Gte>>>),
        ("inverted-inverted-adder", hist::<Inverted<Inverted<BinaryAdder>>>, fresh::<Inverted<Inverted<BinaryAdder>>>),
        ("card", hist::<Card<Totalizer>>, fresh::<Card<Totalizer>>),
        ("card-inverted", hist::<Card<csim::Inverted<Totalizer>>>, fresh::<Card<csim::Inverted<Totalizer>>>),
        ("inverted-card", hist::<Inverted<Card<Totalizer>>>, fresh::<Inverted<Card<Totalizer>>>),
    ];
    // (A) all weight vectors x all ranges, one call
    let mut a = vec![];
    let mut pools: Vec<Vec<(i32, usize)>> = vec![vec![]];
    for n in 1..=3usize {
        for w in seqs(&(1..=cx.pick(4, 6)).collect::<Vec<usize>>(), n, n) {
            pools.push(w.iter().enumerate().map(|(i, &w)| (if i == 1 { -2 } else { i as i32 + 1 }, w)).collect());
        }
    }
    for w in seqs(&[1usize, 2, 3], 4, 4) {
        pools.push(w.iter().enumerate().map(|(i, &w)| (if i == 2 { -3 } else { i as i32 + 1 }, w)).collect());
    }
    pools.push((1..=5).map(|i| (i, 1)).collect());
    // repeated and complementary literals
    for lits in [[1, 1, 2], [1, -1, 2], [1, 2, 1], [2, 1, -2], [1, 1, 1]] {
        for w in seqs(&[1usize, 2, 3], 3, 3) {
            pools.push(lits.iter().copied().zip(w.iter().copied()).collect());
        }
    }
    // literals without weight
    for n in 1..=3usize {
        for w in seqs(&[0usize, 1, 3], n, n) {
            if w.contains(&0) {
                pools.push(w.iter().enumerate().map(|(i, &w)| (if i == 1 { -2 } else { i as i32 + 1 }, w)).collect());
            }
        }
    }
    for p in &pools {
        let n = p.len();
        let total: usize = p.iter().map(|x| x.1).sum();
        let full = n <= 2 || (n == 3 && total <= 6);
        let ranges: Vec<Rg> = if full {
            all_ranges(total + 1)
        } else {
            let mut v = vec![];
            for lo in 0..=total + 1 {
                for hi in lo..=total + 1 {
                    v.push(rii(lo, hi));
                }
            }
            use std::ops::Bound::*;
            v.push((Unbounded, Unbounded));
            v.push((Included(usize::MAX), Unbounded));
            v.push((Unbounded, Excluded(total)));
            v
        };
        for r in ranges {
            for op in [Op::Ub(r), Op::UbC(r), Op::Lb(r), Op::LbC(r), Op::Both(r), Op::BothC(r)] {
                a.push(Case { pool: p.clone(), gap: 0, ops: vec![Op::Ext(n), op] });
            }
        }
        for k in 0..=n {
            for op in [Op::Ub(rii(0, total)), Op::BothC(rii(1, 2)), Op::Both(rii(0, total)), Op::LbC(rii(0, total))] {
                a.push(Case { pool: p.clone(), gap: 2, ops: vec![Op::Ext(k), Op::Ext(n - k), Op::Reserve, op] });
            }
        }
    }
    for (name, f, _) in &encs {
        cx.run(&format!("{name}-ranges"), &a, |t, c| f(t, c));
    }
    // (B) histories
    let letters = |s: usize| {
        vec![
            Op::Ext(1),
            Op::Ext(2),
            Op::Reserve,
            Op::UbC(rii(0, 0)),
            Op::UbC(rii(1, 2)),
            Op::UbC(rii(3, 5)),
            Op::UbC(rii(0, s)),
            Op::LbC(rii(1, 1)),
            Op::LbC(rii(2, 4)),
            Op::BothC(rii(2, 3)),
            Op::Ub(rii(2, 3)),
            Op::Lb(rii(1, 3)),
            Op::Both(rii(4, s)),
        ]
    };
    let hp: Vec<Vec<(i32, usize)>> = vec![
        vec![(1, 1), (-2, 2), (3, 3), (4, 2), (-5, 4)],
        vec![(1, 2), (2, 2), (-3, 2), (4, 1), (5, 1)],
        vec![(1, 1), (1, 2), (-2, 3), (-1, 1), (2, 1)],
        vec![(1, 4), (2, 2), (3, 1), (-4, 3), (2, 1)],
        vec![(1, 1), (2, 1), (-3, 1), (4, 1), (3, 1)],
    ];
    let mut b = vec![];
    for p in &hp {
        let total: usize = p.iter().map(|x| x.1).sum();
        for s in [Op::Ext(2), Op::Ext(3), Op::Reserve] {
            for tail in seqs(&letters(total), 1, cx.pick(3, 4)) {
                if tail.iter().filter(|o| matches!(o, Op::Ext(_))).count() > 2 {
                    continue;
                }
                let mut ops = vec![s];
                ops.extend(tail);
                b.push(Case { pool: p.clone(), gap: (b.len() % 2) as u32, ops });
            }
        }
    }
    for (name, f, _) in &encs[..if cx.thorough { 11 } else { 9 }] {
        cx.run(&format!("{name}-histories"), &b, |t, c| f(t, c));
    }
    // (C) fresh encodings
    let mut d = vec![];
    for ws in [vec![1, 1, 1], vec![1, 2, 3], vec![2, 2, 3], vec![4, 1, 2], vec![3, 3]] {
        let total: usize = ws.iter().sum();
        for r1 in 0..=total {
            for r2 in 0..=total {
                for e1 in [r1, (r1 + 2).min(total)] {
                    for e2 in [r2, (r2 + 1).min(total), total] {
                        for (u1, u2) in [(0u8, 0u8), (1, 1), (0, 1), (1, 0), (2, 2), (0, 2), (2, 0), (1, 2), (2, 1)] {
                            d.push((ws.clone(), u1, rii(r1, e1), u2, rii(r2, e2)));
                        }
                    }
                }
            }
        }
    }
    for (name, _, f) in &encs {
        cx.run(&format!("{name}-fresh"), &d, |t, c| f(t, c));
    }
    cx.bound("weights", "all of 1..=4 (6) for 3 inputs, 1..=3 for 4 inputs");
    cx.bound("history_depth", cx.pick(4, 5));
}
