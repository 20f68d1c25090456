//! A deliberately simple DPLL solver used as the oracle (independent of any code under test)
use rustsat::types::{Clause, Lit};

#[derive(Clone, Default)]
pub struct Dpll {
    n: usize,
    cls: Vec<Vec<u32>>,
    occ: Vec<Vec<u32>>,
    empty: bool,
    val: Vec<u8>, // 0 unassigned, 1 true, 2 false (per variable)
    trail: Vec<u32>,
}

fn code(l: Lit) -> u32 {
    (l.vidx() as u32) * 2 + u32::from(l.is_neg())
}

impl Dpll {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_clauses<'a>(cls: impl IntoIterator<Item = &'a Clause>) -> Self {
        let mut s = Self::new();
        for c in cls {
            s.add(c.iter().copied());
        }
        s
    }
    fn grow(&mut self, v: usize) {
        if v >= self.n {
            self.n = v + 1;
            self.occ.resize(2 * self.n, vec![]);
            self.val.resize(self.n, 0);
        }
    }
    pub fn n_vars(&self) -> usize {
        self.n
    }
    pub fn add(&mut self, c: impl IntoIterator<Item = Lit>) {
        let c: Vec<u32> = c.into_iter().map(code).collect();
        if c.is_empty() {
            self.empty = true;
            return;
        }
        let i = self.cls.len() as u32;
        for &l in &c {
            self.grow(l as usize / 2);
            if self.occ[l as usize].last() != Some(&i) {
                self.occ[l as usize].push(i);
            }
        }
        self.cls.push(c);
    }
    fn lv(&self, l: u32) -> u8 {
        let v = self.val[l as usize / 2];
        if v == 0 {
            0
        } else if (v == 2) == (l & 1 == 1) {
            1
        } else {
            2
        }
    }
    fn set(&mut self, l: u32) {
        self.val[l as usize / 2] = if l & 1 == 1 { 2 } else { 1 };
        self.trail.push(l);
    }
    /// Propagates from position `q` of the trail; false on conflict
    fn prop(&mut self, mut q: usize) -> bool {
        while q < self.trail.len() {
            let l = self.trail[q];
            q += 1;
            let f = (l ^ 1) as usize;
            let mut k = 0;
            while k < self.occ[f].len() {
                let ci = self.occ[f][k] as usize;
                k += 1;
                let mut unit = None;
                let mut open = 0;
                let mut sat = false;
                for &x in &self.cls[ci] {
                    match self.lv(x) {
                        1 => {
                            sat = true;
                            break;
                        }
                        0 => {
                            if unit != Some(x) {
                                open += 1;
                                unit = Some(x);
                            }
                            if open > 1 {
                                break;
                            }
                        }
                        _ => (),
                    }
                }
                if sat || open > 1 {
                    continue;
                }
                match unit {
                    None => return false,
                    Some(u) => self.set(u),
                }
            }
        }
        true
    }
    fn reset(&mut self, to: usize) {
        while self.trail.len() > to {
            let l = self.trail.pop().unwrap();
            self.val[l as usize / 2] = 0;
        }
    }
    fn start(&mut self, assumps: &[Lit]) -> bool {
        self.reset(0);
        if self.empty {
            return false;
        }
        for &a in assumps {
            self.grow(a.vidx());
            match self.lv(code(a)) {
                0 => self.set(code(a)),
                1 => (),
                _ => return false,
            }
        }
        // unit clauses (also clauses that repeat a single literal)
        for i in 0..self.cls.len() {
            let c = &self.cls[i];
            let f = c[0];
            if c.iter().all(|&x| x == f) {
                match self.lv(f) {
                    0 => self.set(f),
                    1 => (),
                    _ => return false,
                }
            }
        }
        self.prop(0)
    }
    fn search(&mut self) -> bool {
        // pick a variable of an unsatisfied clause
        let mut pick = None;
        'o: for c in &self.cls {
            let mut cand = None;
            for &x in c {
                match self.lv(x) {
                    1 => continue 'o,
                    0 => cand = Some(x),
                    _ => (),
                }
            }
            pick = cand;
            break;
        }
        let Some(p) = pick else { return true };
        let t = self.trail.len();
        for l in [p, p ^ 1] {
            self.set(l);
            if self.prop(t) && self.search() {
                return true;
            }
            self.reset(t);
        }
        false
    }
    pub fn sat(&mut self, assumps: &[Lit]) -> bool {
        self.start(assumps) && self.search()
    }
    /// Unit propagation only: `None` on conflict
    pub fn propagate(&mut self, assumps: &[Lit]) -> Option<Vec<Lit>> {
        if self.start(assumps) {
            Some(
                self.trail
                    .iter()
                    .map(|&l| Lit::new(l / 2, l & 1 == 1))
                    .collect(),
            )
        } else {
            None
        }
    }
    pub fn entails(&mut self, c: &[Lit]) -> bool {
        let neg: Vec<Lit> = c.iter().map(|&l| !l).collect();
        !self.sat(&neg)
    }
}

/// bit `v` of `m` is the value of variable `v`
pub fn holds(m: u32, l: Lit) -> bool {
    ((m >> l.vidx()) & 1 == 1) != l.is_neg()
}
pub fn cl_holds(m: u32, c: &[Lit]) -> bool {
    c.iter().any(|&l| holds(m, l))
}
/// Total assignment of the first `n` variables as literals
pub fn cube(m: u32, n: usize) -> Vec<Lit> {
    (0..n as u32)
        .map(|v| Lit::new(v, (m >> v) & 1 == 0))
        .collect()
}
/// The set (bit mask over assignments of `n` variables) of input assignments that extend to a solution
pub fn projection(cls: &[Clause], n: usize, assumps: &[Lit]) -> u128 {
    let mut s = Dpll::from_clauses(cls);
    let mut out = 0u128;
    for m in 0..(1u32 << n) {
        let mut a = cube(m, n);
        a.extend_from_slice(assumps);
        if s.sat(&a) {
            out |= 1 << m;
        }
    }
    out
}
/// The set of assignments (as bit mask) for which `f` holds
pub fn truth(n: usize, f: impl Fn(u32) -> bool) -> u128 {
    (0..(1u32 << n)).filter(|&m| f(m)).fold(0, |a, m| a | (1u128 << m))
}
