use rustsat::encodings::CollectClauses;
use rustsat::types::{Clause, Lit};
use rustsat::OutOfMemory;

/// Boring clause collector
#[derive(Clone, Default, Debug)]
pub struct Col(pub Vec<Clause>);

impl CollectClauses for Col {
    fn n_clauses(&self) -> usize {
        self.0.len()
    }
    fn extend_clauses<T>(&mut self, it: T) -> Result<(), OutOfMemory>
    where
        T: IntoIterator<Item = Clause>,
    {
        self.0.extend(it);
        Ok(())
    }
}

impl Col {
    pub fn max_idx(&self) -> Option<usize> {
        self.0.iter().flat_map(|c| c.iter()).map(|l| l.vidx()).max()
    }
}

/// literal from signed 1-based integer
pub fn l(i: i32) -> Lit {
    Lit::new(i.unsigned_abs() - 1, i < 0)
}
pub fn ls(v: &[i32]) -> Vec<Lit> {
    v.iter().map(|&i| l(i)).collect()
}
pub fn cl(v: &[i32]) -> Clause {
    v.iter().map(|&i| l(i)).collect()
}
pub fn show(cls: &[Clause]) -> String {
    let v: Vec<String> = cls
        .iter()
        .map(|c| format!("{:?}", c.iter().map(|l| l.to_ipasir()).collect::<Vec<_>>()))
        .collect();
    v.join(" ")
}

/// every auxiliary variable must come from the manager: index in `[from, next)`
pub fn fresh_ok(cls: &[Clause], n_in: usize, from: usize, next: usize) -> Result<(), String> {
    for c in cls {
        for x in c.iter() {
            let v = x.vidx();
            if !(v < n_in || (v >= from && v < next)) {
                return Err(format!(
                    "clause {c:?} uses variable {v}, which is no input (<{n_in}) and was not handed out by the manager ({from}..{next})"
                ));
            }
        }
    }
    Ok(())
}

use std::ops::Bound;
/// A range in one of all forms a `RangeBounds` can take
pub type Rg = (Bound<usize>, Bound<usize>);
pub fn rg_has(r: &Rg, x: usize) -> bool {
    (match r.0 {
        Bound::Included(a) => x >= a,
        Bound::Excluded(a) => x > a,
        Bound::Unbounded => true,
    }) && (match r.1 {
        Bound::Included(a) => x <= a,
        Bound::Excluded(a) => x < a,
        Bound::Unbounded => true,
    })
}
/// All range forms with end points up to `hi`
pub fn all_ranges(hi: usize) -> Vec<Rg> {
    let mut ends = vec![Bound::Unbounded];
    for i in (0..=hi).chain([usize::MAX - 1, usize::MAX]) {
        ends.push(Bound::Included(i));
        ends.push(Bound::Excluded(i));
    }
    let mut out = vec![];
    for a in &ends {
        for b in &ends {
            out.push((*a, *b));
        }
    }
    out
}
pub fn rii(a: usize, b: usize) -> Rg {
    (Bound::Included(a), Bound::Included(b))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// add the next `k` inputs
    Ext(usize),
    Reserve,
    Ub(Rg),
    Lb(Rg),
    Both(Rg),
    UbC(Rg),
    LbC(Rg),
    BothC(Rg),
}
