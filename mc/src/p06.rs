//! The strict extension of input assignments over auxiliary variables
use crate::check;
use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use rustsat::encodings::card::{self, BoundBothIncremental as _, BoundLower as _, BoundLowerIncremental as _, Totalizer};
use rustsat::encodings::pb::{self, GeneralizedTotalizer};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Assignment, Lit, TernaryVal, Var};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct Case {
    gte: bool,
    /// pool of weighted inputs, consumed from the front
    pool: &'static [(i32, usize)],
    gap: u32,
    ops: Vec<Op>,
}

enum E {
    T(Totalizer),
    G(GeneralizedTotalizer),
}

fn case(t: &mut Tally, c: &Case) -> Result<(), String> {
    let n = c.pool.iter().map(|x| x.0.unsigned_abs()).max().unwrap_or(0) as usize;
    let mut e = if c.gte { E::G(GeneralizedTotalizer::default()) } else { E::T(Totalizer::default()) };
    let from = n + c.gap as usize;
    let mut vm = BasicVarManager::from_next_free(Var::new(from as u32));
    let mut col = Col::default();
    let mut used: Vec<(Lit, usize)> = vec![];
    let mut pool = c.pool.iter();
    for op in &c.ops {
        t.step(1);
        match op {
            Op::Ext(k) => {
                let new: Vec<(Lit, usize)> = pool.by_ref().take(*k).map(|&(x, w)| (l(x), w)).collect();
                match &mut e {
                    E::T(e) => e.extend(new.iter().map(|x| x.0)),
                    E::G(e) => e.extend(new.iter().copied()),
                }
                used.extend(new);
            }
            Op::Reserve => match &mut e {
                E::T(e) => card::EncodeIncremental::reserve(e, &mut vm),
                E::G(e) => pb::EncodeIncremental::reserve(e, &mut vm),
            },
            Op::Ub(r) => match &mut e {
                E::T(e) => card::BoundUpper::encode_ub(e, *r, &mut col, &mut vm),
                E::G(e) => pb::BoundUpper::encode_ub(e, *r, &mut col, &mut vm),
            }
            .map_err(|x| x.to_string())?,
            Op::UbC(r) => match &mut e {
                E::T(e) => card::BoundUpperIncremental::encode_ub_change(e, *r, &mut col, &mut vm),
                E::G(e) => pb::BoundUpperIncremental::encode_ub_change(e, *r, &mut col, &mut vm),
            }
            .map_err(|x| x.to_string())?,
            Op::LbC(r) => match &mut e {
                E::T(e) => e.encode_lb_change(*r, &mut col, &mut vm),
                E::G(_) => Ok(()),
            }
            .map_err(|x| x.to_string())?,
            Op::BothC(r) => match &mut e {
                E::T(e) => e.encode_both_change(*r, &mut col, &mut vm),
                E::G(_) => Ok(()),
            }
            .map_err(|x| x.to_string())?,
            _ => unreachable!(),
        }
    }
    let next = vm.new_var().idx();
    let total: usize = used.iter().map(|x| if c.gte { x.1 } else { 1 }).sum();
    t.state((&c.pool, &c.ops, c.gte));
    for m in 0..(1u32 << n) {
        t.step(1);
        let a: Assignment = cube(m, n).into_iter().collect();
        let ext: Vec<Lit> = match &e {
            E::T(e) => e.strictly_extend_assignment(&a).collect(),
            E::G(e) => e.strictly_extend_assignment(&a).collect(),
        };
        let mut full: BTreeMap<usize, bool> = (0..n).map(|v| (v, m >> v & 1 == 1)).collect();
        for x in &ext {
            let v = x.vidx();
            check!(v < n || (v >= from && v < next), "input {m:b}: the extension assigns foreign variable {v}");
            if let Some(o) = full.insert(v, x.is_pos()) {
                check!(o == x.is_pos(), "input {m:b}: the extension assigns variable {v} twice, differently");
            }
        }
        let val = |x: Lit| full.get(&x.vidx()).map(|b| *b == x.is_pos());
        for k in &col.0 {
            t.step(1);
            check!(
                k.iter().any(|&x| val(x) == Some(true)),
                "input {m:b}: extension {:?} does not satisfy {k} of {}",
                ext.iter().map(|x| x.to_ipasir()).collect::<Vec<_>>(),
                show(&col.0)
            );
        }
        let sum: usize = used.iter().filter(|x| holds(m, x.0)).map(|x| if c.gte { x.1 } else { 1 }).sum();
        let asn: Assignment = full.iter().map(|(&v, &b)| Lit::new(v as u32, !b)).collect();
        for b in 0..=total + 1 {
            let ub = match &e {
                E::T(e) => card::BoundUpper::enforce_ub(e, b).ok(),
                E::G(e) => pb::BoundUpper::enforce_ub(e, b).ok(),
            };
            if let Some(asm) = ub {
                t.outcome("upper bound outputs");
                for x in &asm {
                    check!(asn.lit_value(*x) != TernaryVal::DontCare, "input {m:b}: output {x} of upper bound {b} not assigned");
                }
                let ok = asm.iter().all(|x| asn.lit_value(*x) == TernaryVal::True);
                check!(ok == (sum <= b), "input {m:b} with sum {sum}: the extended assignment has upper bound {b} as {ok}");
            }
            if let E::T(e) = &e {
                if let Ok(asm) = e.enforce_lb(b) {
                    t.outcome("lower bound outputs");
                    for x in &asm {
                        check!(asn.lit_value(*x) != TernaryVal::DontCare, "input {m:b}: output {x} of lower bound {b} not assigned");
                    }
                    let ok = asm.iter().all(|x| asn.lit_value(*x) == TernaryVal::True);
                    check!(ok == (sum >= b), "input {m:b} with sum {sum}: the extended assignment has lower bound {b} as {ok}");
                }
            }
        }
    }
    Ok(())
}

static CARD: [&[(i32, usize)]; 5] = [
    &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1)],
    &[(1, 1), (-2, 1), (3, 1), (-4, 1), (5, 1)],
    &[(1, 1), (1, 1), (2, 1), (-2, 1), (3, 1)],
    &[(1, 1), (-1, 1), (2, 1)],
    &[(-1, 1)],
];
static PB: [&[(i32, usize)]; 9] = [
    &[(1, 1), (2, 2), (3, 4), (4, 3), (5, 1)],
    &[(1, 3), (2, 3), (3, 3), (4, 2)],
    &[(1, 5), (-2, 1), (3, 2), (-4, 5), (5, 7)],
    &[(1, 2), (1, 1), (2, 3), (-2, 1)],
    &[(1, 2), (-1, 3), (2, 2)],
    &[(1, 1), (2, 1), (3, 1), (4, 1)],
    &[(1, 10), (2, 1), (3, 1), (4, 9)],
    &[(-1, 4)],
    &[(1, 6), (2, 4), (3, 4), (4, 2), (5, 2), (6, 1)],
];

pub fn run(cx: &Ctx) {
    let rgs = |hi: usize| {
        let mut v = vec![rii(0, hi)];
        for a in 0..=hi {
            v.push(rii(a, a));
            if a + 1 < hi {
                v.push(rii(a, a + 1));
            }
        }
        v
    };
    let d = cx.pick(2, 3);
    for (gte, pools) in [(false, &CARD[..]), (true, &PB[..])] {
        let mut cs = vec![];
        for pool in pools {
            let total: usize = pool.iter().map(|x| if gte { x.1 } else { 1 }).sum();
            let mut al = vec![Op::Ext(1), Op::Ext(2), Op::Reserve];
            for r in rgs(total) {
                al.push(Op::UbC(r));
                if !gte {
                    al.push(Op::LbC(r));
                    al.push(Op::BothC(r));
                }
            }
            al.push(Op::Ub(rii(0, total / 2)));
            for first in 1..=pool.len() {
                for tail in seqs(&al, 1, d) {
                    let mut ops = vec![Op::Ext(first)];
                    ops.extend(tail);
                    cs.push(Case { gte, pool, gap: 3 * (first as u32 & 1), ops });
                }
            }
        }
        cx.run(if gte { "generalized-totalizer" } else { "totalizer" }, &cs, case);
    }
    // every weight vector, fully encoded
    let mut ws = vec![];
    for v in seqs(&(1..=cx.pick(4, 6)).collect::<Vec<usize>>(), 1, cx.pick(4, 5)) {
        ws.push(v);
    }
    cx.run("all-weights", &ws, |t, w| {
        let pool: Vec<(i32, usize)> = w.iter().enumerate().map(|(i, &w)| (if i == 1 { -2 } else { i as i32 + 1 }, w)).collect();
        let pool: &'static [(i32, usize)] = Box::leak(pool.into_boxed_slice());
        let s: usize = w.iter().sum();
        for r in [rii(0, s), rii(s / 2, s / 2), rii(1, s / 3)] {
            case(t, &Case { gte: true, pool, gap: 0, ops: vec![Op::Ext(w.len()), Op::UbC(r)] })?;
        }
        Ok(())
    });
    cx.bound("history_depth", d + 1);
    cx.bound("inputs", "pools of up to 6 inputs with repeated and opposite literals; all weight vectors with weights up to 4 (6) and up to 4 (5) inputs");
}
