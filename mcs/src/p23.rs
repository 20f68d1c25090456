//! P23 unit propagation through the solver interfaces
use crate::drv::Traits;
use crate::hist::*;
use crate::p20::{clauses, group};
use crate::rt::{seqs, Ctx, Tally};
use crate::sol::{create, solvers};
use rustsat::solvers::SolverResult;

const W: What = What { answers: true, states: false, last_only: false };

fn alphabet(small: bool) -> Vec<Op> {
    use Op::*;
    let mut a: Vec<Op> = vec![
        Add(vec![1]),
        Add(vec![-1, 2]),
        Add(vec![-2, 3]),
        Add(vec![1, -2]),
        Add(vec![-1, -3]),
        Add(vec![1, 2, 3]),
        Solve,
        Assume(vec![1]),
        Assume(vec![-2, -3]),
    ];
    let p = |c: &[i32], s| Propagate(c.to_vec(), s);
    a.extend([p(&[1], false), p(&[2], true), p(&[-2], false), p(&[-1, -2], true)]);
    if !small {
        a.extend([Add(vec![]), Add(vec![-2]), Add(vec![2, 2, -4]), Add(vec![-4, 4]), Add(vec![-1, 2, -3, 4])]);
        a.extend([p(&[], false), p(&[3, -3], false), p(&[4, 4], true), p(&[1, -3], true), p(&[3, 1], false), p(&[-6], false), p(&[6, -1], true), p(&[-4, 3], true)]);
        a.extend([Reserve(3), Assume(vec![3, -3]), Freeze(1), Phase(-2)]);
    }
    a
}

/// All assumption vectors on one formula, each on a solver of its own and in turn on one solver,
/// then answers of the solver used for all of them
fn formula(name: &str, tr: Traits, f: &[Vec<i32>], t: &mut Tally) -> Result<(), String> {
    let w = &W;
    let build = |t: &mut Tally| -> Result<_, String> {
        let mut d = create(name);
        let mut m = Model::new(tr);
        for (i, c) in f.iter().enumerate() {
            step(d.as_mut(), tr, &mut m, i, &Op::Add(c.clone()), w, t)?;
        }
        Ok((d, m))
    };
    let (mut one, mut om) = build(t)?;
    t.state(om.table);
    for (i, a) in clauses().into_iter().enumerate() {
        let (mut d, mut m) = build(t)?;
        let op = Op::Propagate(a, i % 2 == 0);
        if !step(d.as_mut(), tr, &mut m, 0, &op, w, t).map_err(|e| format!("{op:?} first: {e}"))? {
            return Ok(());
        }
        observe(d.as_mut(), tr, &mut m, w, t).map_err(|e| format!("after {op:?} first: {e}"))?;
        step(one.as_mut(), tr, &mut om, 0, &op, w, t).map_err(|e| format!("{op:?} in turn: {e}"))?;
    }
    let sat = om.table != 0;
    let r = one.solve().map_err(|e| e.to_string())?;
    crate::ensure_eq!(r, if sat { SolverResult::Sat } else { SolverResult::Unsat }, "verdict after all propagations");
    om.last = if sat { Last::Sat(vec![]) } else { Last::Unsat(vec![]) };
    observe(one.as_mut(), tr, &mut om, w, t)?;
    // again with what the solve call learned
    for (i, a) in clauses().into_iter().enumerate() {
        let op = Op::Propagate(a, i % 2 == 0);
        step(one.as_mut(), tr, &mut om, 0, &op, w, t).map_err(|e| format!("{op:?} after solving: {e}"))?;
    }
    Ok(())
}

pub fn run_p23(cx: &Ctx) {
    let cls = clauses();
    let k = cx.pick(3, 4);
    cx.bound("clauses per formula over three variables, all assumption vectors", k);
    let fs: Vec<Vec<Vec<i32>>> = seqs(&(0..cls.len()).collect::<Vec<_>>(), 0, k)
        .into_iter()
        .filter(|f| f.windows(2).all(|w| w[0] <= w[1]))
        .map(|f| f.iter().map(|&i| cls[i].clone()).collect())
        .collect();
    let (d1, d2) = (cx.pick(3, 4), cx.pick(4, 5));
    cx.bound("history length, all calls", d1);
    cx.bound("history length, core calls", d2);
    for (name, tr) in solvers() {
        if create(name).propagate(&[], false).is_none() || tr.one_shot {
            continue;
        }
        cx.run_forked(&format!("{name}-formulas"), fs.len(), |i| fs[i].clone(), |t, f| formula(name, tr, f, t));
        group(cx, &format!("{name}-histories"), name, tr, &alphabet(false), d1, &W);
        group(cx, &format!("{name}-deep"), name, tr, &alphabet(true), d2, &W);
    }
}
