use crate::common::*;
use crate::oracle::*;
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::encodings::am1::*;
use rustsat::encodings::{EncodeStats, IterInputs};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::{Lit, Var};

fn one<E>(t: &mut Tally, groups: &[Vec<i32>], nv: usize, gap: u32, reenc: bool) -> Result<(), String>
where
    E: Encode + Default + Extend<Lit> + EncodeStats + FromIterator<Lit> + From<Vec<Lit>> + IterInputs,
{
    let flat: Vec<i32> = groups.iter().flatten().copied().collect();
    let lits = ls(&flat);
    let from = nv as u32 + gap;
    let mut enc = match groups.len() {
        0 => E::default(),
        1 => E::from(ls(&groups[0])),
        _ => E::from_iter(ls(&groups[0])),
    };
    let mut vm = BasicVarManager::from_next_free(Var::new(from));
    let mut col = Col::default();
    // unrelated content which must not be touched or counted
    let guard = cl(&[1, -1]);
    col.0.push(guard.clone());
    for g in groups.iter().skip(1) {
        if reenc {
            enc.encode(&mut col, &mut vm).map_err(|e| e.to_string())?;
        }
        enc.extend(ls(g));
    }
    let before = col.0.len();
    ensure_eq!(enc.n_lits(), flat.len(), "n_lits");
    let it: Vec<Lit> = enc.iter().collect();
    let (mut a, mut b) = (it.clone(), lits.clone());
    a.sort();
    b.sort();
    ensure_eq!(a, b, "input iteration");
    let vars_before = vm.new_var().idx();
    enc.encode(&mut col, &mut vm).map_err(|e| e.to_string())?;
    let next = vm.new_var().idx();
    ensure_eq!(col.0[0], guard, "existing clause changed");
    if !reenc {
        ensure_eq!(enc.n_clauses(), col.0.len() - before, "n_clauses");
        ensure_eq!(enc.n_vars() as usize, next - vars_before - 1, "n_vars");
    }
    fresh_ok(&col.0, nv, from as usize, next)?;
    t.step(1);
    let mut s = Dpll::from_clauses(&col.0);
    let mut wants = 0u32;
    let mut test = |m: u64, t: &mut Tally| -> Result<(), String> {
        let holds = |l: Lit| ((m >> l.vidx()) & 1 == 1) != l.is_neg();
        let cnt = lits.iter().filter(|&&l| holds(l)).count();
        let asm: Vec<Lit> = (0..nv).map(|v| Lit::new(v as u32, (m >> v) & 1 == 0)).collect();
        let got = s.sat(&asm);
        wants += u32::from(cnt <= 1);
        t.step(1);
        ensure_eq!(got, cnt <= 1, "assignment {m:b} with {cnt} true inputs allowed; clauses {}", show(&col.0));
        Ok(())
    };
    if nv <= 12 {
        for m in 0..(1u64 << nv) {
            test(m, t)?;
        }
    } else {
        // all assignments with at most three deviations from all inputs being false
        let base: u64 = flat.iter().filter(|&&x| x < 0).fold(0, |a, &x| a | 1 << (-x - 1));
        test(base, t)?;
        for i in 0..nv {
            test(base ^ (1 << i), t)?;
            for j in 0..i {
                test(base ^ (1 << i) ^ (1 << j), t)?;
                if nv <= 20 {
                    for k in 0..j {
                        test(base ^ (1 << i) ^ (1 << j) ^ (1 << k), t)?;
                    }
                }
            }
        }
    }
    t.state((&flat, groups.len(), reenc));
    t.outcome(&format!("{} models over inputs", wants.min(20)));
    // a second call must not run out of sync
    check!(enc.n_lits() == flat.len(), "n_lits changed by encoding");
    Ok(())
}

type F = fn(&mut Tally, &[Vec<i32>], usize, u32, bool) -> Result<(), String>;

pub fn run(cx: &Ctx) {
    let encs: Vec<(&'static str, F)> = vec![
        ("pairwise", one::<Pairwise>),
        ("ladder", one::<Ladder>),
        ("bitwise", one::<Bitwise>),
        ("commander4", one::<Commander>),
        ("commander1", one::<Commander<1>>),
        ("commander2", one::<Commander<2>>),
        ("commander3-bitwise", one::<Commander<3, Bitwise>>),
        ("commander2-ladder", one::<Commander<2, Ladder>>),
        ("commander2-commander2", one::<Commander<2, Commander<2>>>),
        ("commander4-twoproduct", one::<Commander<4, TwoProduct>>),
        ("bimander4", one::<Bimander>),
        ("bimander1", one::<Bimander<1>>),
        ("bimander2", one::<Bimander<2>>),
        ("bimander3-ladder", one::<Bimander<3, Ladder>>),
        ("bimander3-bimander2", one::<Bimander<3, Bimander<2>>>),
        ("bimander5-bitwise", one::<Bimander<5, Bitwise>>),
        ("twoproduct", one::<TwoProduct>),
        ("twoproduct-bitwise", one::<TwoProduct<Bitwise>>),
        ("twoproduct-twoproduct", one::<TwoProduct<TwoProduct>>),
        ("twoproduct-commander2", one::<TwoProduct<Commander<2>>>),
    ];
    // input sequences: (groups, number of variables)
    let mut ins: Vec<(Vec<Vec<i32>>, usize, u32, bool)> = vec![(vec![], 1, 0, false), (vec![vec![]], 1, 0, false)];
    let full = cx.pick(5, 7);
    for n in 1..=full {
        for s in 0..(1 << n) {
            let v: Vec<i32> = (1..=n).map(|i| if (s >> (i - 1)) & 1 == 1 { -i } else { i }).collect();
            ins.push((vec![v], n as usize, (s % 3) as u32, false));
        }
    }
    for n in (full + 1)..=cx.pick(12, 12) {
        for pat in 0..3 {
            let v: Vec<i32> = (1..=n).map(|i| if pat == 1 || (pat == 2 && i % 3 == 0) { -i } else { i }).collect();
            ins.push((vec![v], n as usize, 0, false));
        }
    }
    for n in 13..=cx.pick(34, 60) {
        ins.push((vec![(1..=n).map(|i| if i % 4 == 3 { -i } else { i }).collect()], n as usize, 2, false));
    }
    // splits into two or three additions, with and without encoding in between
    for n in 1..=cx.pick(9, 10) {
        for k in 0..=n {
            for reenc in [false, true] {
                let v: Vec<i32> = (1..=n).map(|i| if i % 3 == 0 { -i } else { i }).collect();
                ins.push((vec![v[..k as usize].to_vec(), v[k as usize..].to_vec()], n as usize, 1, reenc));
                if k > 0 && k < n {
                    ins.push((
                        vec![v[..k as usize].to_vec(), v[k as usize..k as usize + 1].to_vec(), v[k as usize + 1..].to_vec()],
                        n as usize,
                        0,
                        reenc,
                    ));
                }
            }
        }
    }
    // repeated and complementary literals
    for v in seqs(&[1, -1, 2, -2, 3], 2, cx.pick(4, 6)) {
        ins.push((vec![v], 3, 0, false));
    }
    cx.bound("max_inputs", cx.pick(34, 60));
    cx.bound("full_truth_table_up_to", 12);
    for (name, f) in encs {
        cx.run(name, &ins, |t, (g, nv, gap, re)| f(t, g, *nv, *gap, *re));
    }
}
