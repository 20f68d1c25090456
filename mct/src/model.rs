//! Instances as lists of linear constraints and weighted clauses over at most a few dozen variables, their file formats
//! (written from the format descriptions) and their meaning by enumeration
use std::collections::BTreeSet;

/// A literal as a signed variable number from 1 on
pub type L = i32;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Ge,
    Le,
    Eq,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Con {
    pub terms: Vec<(i64, L)>,
    pub op: Op,
    pub rhs: i64,
}
/// The sum of the weights of the falsified clauses, plus the offset
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Obj {
    pub softs: Vec<(Vec<L>, i64)>,
    pub offset: i64,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Inst {
    pub n: usize,
    pub cons: Vec<Con>,
    pub objs: Vec<Obj>,
}

pub fn clause(c: &[L]) -> Con {
    Con { terms: c.iter().map(|l| (1, *l)).collect(), op: Op::Ge, rhs: 1 }
}
pub fn lits(c: &Con) -> Vec<L> {
    c.terms.iter().map(|t| t.1).collect()
}
/// The objective that counts the literals that are true
pub fn linear(t: &[(i64, L)]) -> Obj {
    Obj { softs: t.iter().map(|(c, l)| (vec![-l], *c)).collect(), offset: 0 }
}
fn holds(l: L, a: u64) -> bool {
    (a >> (l.unsigned_abs() - 1) & 1 == 1) == (l > 0)
}
impl Con {
    pub fn eval(&self, a: u64) -> bool {
        let s: i64 = self.terms.iter().filter(|t| holds(t.1, a)).map(|t| t.0).sum();
        match self.op {
            Op::Ge => s >= self.rhs,
            Op::Le => s <= self.rhs,
            Op::Eq => s == self.rhs,
        }
    }
    /// can the constraint still hold if only the lowest `k` variables are decided
    fn open(&self, a: u64, k: usize) -> bool {
        let (mut lo, mut hi) = (0, 0);
        for (c, l) in &self.terms {
            if l.unsigned_abs() as usize <= k {
                if holds(*l, a) {
                    lo += c;
                    hi += c;
                }
            } else {
                lo += c.min(&0);
                hi += c.max(&0);
            }
        }
        (self.op == Op::Le || hi >= self.rhs) && (self.op == Op::Ge || lo <= self.rhs)
    }
}
impl Obj {
    pub fn eval(&self, a: u64) -> i64 {
        self.offset + self.softs.iter().filter(|s| !s.0.iter().any(|l| holds(*l, a))).map(|s| s.1).sum::<i64>()
    }
    /// as a sum of weighted literals
    pub fn terms(&self) -> Vec<(i64, L)> {
        self.softs.iter().map(|(c, w)| {
            assert_eq!(c.len(), 1);
            (*w, -c[0])
        }).collect()
    }
}
impl Inst {
    pub fn feasible(&self, a: u64) -> bool {
        self.cons.iter().all(|c| c.eval(a))
    }
    pub fn costs(&self, a: u64) -> Vec<i64> {
        self.objs.iter().map(|o| o.eval(a)).collect()
    }
    pub fn max_var(&self) -> usize {
        let c = self.cons.iter().flat_map(|c| &c.terms).map(|t| t.1);
        let o = self.objs.iter().flat_map(|o| &o.softs).flat_map(|s| s.0.iter().copied());
        c.chain(o).map(|l| l.unsigned_abs() as usize).max().unwrap_or(0)
    }
    /// The cost vectors of all feasible assignments that extend `a` over the lowest `k` variables
    pub fn extensions(&self, a: u64, k: usize) -> BTreeSet<Vec<i64>> {
        fn go(i: &Inst, a: u64, k: usize, out: &mut BTreeSet<Vec<i64>>) {
            if !i.cons.iter().all(|c| c.open(a, k)) {
                return;
            }
            if k >= i.n {
                out.insert(i.costs(a));
                return;
            }
            go(i, a, k + 1, out);
            go(i, a | 1 << k, k + 1, out);
        }
        let mut out = BTreeSet::new();
        go(self, a, k, &mut out);
        out
    }
    /// Is `o` the same problem, where its variables behind those of `self` are auxiliary? The objectives may be
    /// shifted by a constant if `shift` is set.
    pub fn same(&self, o: &Inst, shift: bool) -> Result<(), String> {
        if self.objs.len() != o.objs.len() {
            return Err(format!("{} objectives instead of {}", o.objs.len(), self.objs.len()));
        }
        let mut by: Option<Vec<i64>> = if shift { None } else { Some(vec![0; self.objs.len()]) };
        for a in 0..1u64 << self.n {
            let e = o.extensions(a, self.n);
            let f = self.feasible(a);
            let show = || (1..=self.n as L).map(|v| if holds(v, a) { v } else { -v }).collect::<Vec<_>>();
            if f == e.is_empty() {
                return Err(format!("{:?} is {}a solution of the output", show(), if f { "not " } else { "" }));
            }
            if !f || self.objs.is_empty() {
                continue;
            }
            // the values that count are the lowest ones
            let low: Vec<i64> = (0..self.objs.len()).map(|k| e.iter().map(|v| v[k]).min().unwrap()).collect();
            if !e.contains(&low) {
                return Err(format!("{:?} has incomparable costs {e:?}", show()));
            }
            let c = self.costs(a);
            let d: Vec<i64> = low.iter().zip(&c).map(|(x, y)| x - y).collect();
            let want = by.get_or_insert(d.clone());
            if d != *want {
                return Err(format!("{:?} costs {low:?} instead of {c:?} (plus {want:?})", show()));
            }
        }
        Ok(())
    }
    /// Clauses and units only
    pub fn clauses(&self) -> Vec<Vec<L>> {
        self.cons.iter().map(lits).collect()
    }
}

// ---------------------------------------------------------------- printing
fn line(c: &[L]) -> String {
    c.iter().map(|l| format!("{l} ")).collect::<String>() + "0\n"
}
pub fn cnf(i: &Inst) -> String {
    format!("p cnf {} {}\n", i.n, i.cons.len()) + &i.clauses().iter().map(|c| line(c)).collect::<String>()
}
pub fn wcnf(i: &Inst) -> String {
    let h: String = i.clauses().iter().map(|c| format!("h {}", line(c))).collect();
    h + &i.objs[0].softs.iter().map(|(c, w)| format!("{w} {}", line(c))).collect::<String>()
}
/// The format with a header line
pub fn old_wcnf(i: &Inst) -> String {
    let top = i.objs[0].softs.iter().map(|s| s.1).sum::<i64>() + 1;
    let h: String = i.clauses().iter().map(|c| format!("{top} {}", line(c))).collect();
    format!("p wcnf {} {} {top}\n", i.n, i.cons.len() + i.objs[0].softs.len())
        + &h
        + &i.objs[0].softs.iter().map(|(c, w)| format!("{w} {}", line(c))).collect::<String>()
}
pub fn mcnf(i: &Inst) -> String {
    let mut s: String = i.clauses().iter().map(|c| format!("h {}", line(c))).collect();
    for (k, o) in i.objs.iter().enumerate() {
        s += &o.softs.iter().map(|(c, w)| format!("o{} {w} {}", k + 1, line(c))).collect::<String>();
    }
    s
}
pub fn opb(i: &Inst, first: u32) -> String {
    let sum = |t: &[(i64, L)]| {
        t.iter().map(|(c, l)| format!("{c:+} {}x{} ", if *l < 0 { "~" } else { "" }, l.unsigned_abs() - 1 + first)).collect::<String>()
    };
    let mut s = format!("* #variable= {} #constraint= {}\n", i.n, i.cons.len());
    for o in &i.objs {
        s += &format!("min: {};\n", sum(&o.terms()));
    }
    for c in &i.cons {
        s += &format!("{}{} {};\n", sum(&c.terms), match c.op { Op::Ge => ">=", Op::Le => "<=", Op::Eq => "=" }, c.rhs);
    }
    s
}

// ---------------------------------------------------------------- reading
type R<T> = Result<T, String>;
fn bad<T>(l: &str) -> R<T> {
    Err(format!("the output is not a valid file: {l:?}"))
}
fn num<T: std::str::FromStr>(w: &str, l: &str) -> R<T> {
    w.parse().or_else(|_| bad(l))
}
fn zero_terminated(w: &[&str], l: &str) -> R<Vec<L>> {
    let v: Vec<L> = w.iter().map(|w| num(w, l)).collect::<R<_>>()?;
    match v.split_last() {
        Some((0, c)) if !c.contains(&0) => Ok(c.to_vec()),
        _ => bad(l),
    }
}
pub fn read_cnf(t: &str) -> R<Inst> {
    let mut i = Inst::default();
    let mut header = None;
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            None | Some(&"c") => (),
            Some(&"p") if header.is_none() && w.len() == 4 && w[1] == "cnf" => {
                i.n = num(w[2], l)?;
                header = Some(num::<usize>(w[3], l)?);
            }
            _ if header.is_some() => i.cons.push(clause(&zero_terminated(&w, l)?)),
            _ => return bad(l),
        }
    }
    if header != Some(i.cons.len()) || i.max_var() > i.n {
        return Err(format!("the header of the output is wrong: {t:?}"));
    }
    Ok(i)
}
/// WCNF without a header
pub fn read_wcnf(t: &str) -> R<Inst> {
    let mut i = Inst { objs: vec![Obj::default()], ..Inst::default() };
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            None => (),
            Some(x) if x.starts_with('c') => {
                if let Some(o) = l.strip_prefix("c objective offset: ") {
                    i.objs[0].offset = num(o.trim(), l)?;
                }
            }
            Some(&"h") => i.cons.push(clause(&zero_terminated(&w[1..], l)?)),
            Some(x) => {
                let x = num::<u32>(x, l)?;
                i.objs[0].softs.push((zero_terminated(&w[1..], l)?, x.into()));
            }
        }
    }
    i.n = i.max_var();
    Ok(i)
}
/// With the number of objectives expected, since an objective without soft clauses leaves no trace
pub fn read_mcnf(t: &str, n_objs: usize) -> R<Inst> {
    let mut i = Inst { objs: vec![Obj::default(); n_objs], ..Inst::default() };
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            None => (),
            Some(x) if x.starts_with('c') => {
                if let Some(o) = l.strip_prefix("c objective offsets: (") {
                    let o: Vec<&str> = o.split_whitespace().take_while(|o| *o != ")").collect();
                    if o.len() != n_objs {
                        return Err(format!("{} objectives instead of {n_objs}", o.len()));
                    }
                    for (k, o) in o.iter().enumerate() {
                        i.objs[k].offset = num(o, l)?;
                    }
                }
            }
            Some(&"h") => i.cons.push(clause(&zero_terminated(&w[1..], l)?)),
            Some(x) if x.starts_with('o') && w.len() > 2 => {
                // the index may follow behind a space
                let joined = format!("o{}", w.get(1).unwrap_or(&""));
                let mut w = w.clone();
                if *x == "o" {
                    w.remove(0);
                    w[0] = &joined;
                }
                let k = num::<usize>(&w[0][1..], l)?;
                if k == 0 {
                    return bad(l);
                }
                if k > i.objs.len() {
                    i.objs.resize(k, Obj::default());
                }
                i.objs[k - 1].softs.push((zero_terminated(&w[2..], l)?, num::<u32>(w[1], l)?.into()));
            }
            _ => return bad(l),
        }
    }
    i.n = i.max_var();
    Ok(i)
}
pub fn read_opb(t: &str, first: u32) -> R<Inst> {
    let mut i = Inst::default();
    for l in t.lines() {
        if let Some(o) = l.strip_prefix("* objective offset for previous objective: ") {
            i.objs.last_mut().ok_or_else(|| format!("offset without objective: {l:?}"))?.offset = num(o.trim(), l)?;
        }
        if l.starts_with('*') || l.trim().is_empty() {
            continue;
        }
        let Some(b) = l.trim_end().strip_suffix(';') else { return bad(l) };
        let (objective, b) = match b.strip_prefix("min:") {
            Some(b) => (true, b),
            None => (false, b),
        };
        let mut w: Vec<&str> = b.split_whitespace().collect();
        let mut rel = None;
        if !objective {
            if w.len() < 2 {
                return bad(l);
            }
            let rhs = num::<i64>(w.pop().unwrap(), l)?;
            rel = Some((match w.pop().unwrap() {
                ">=" => Op::Ge,
                "<=" => Op::Le,
                "=" => Op::Eq,
                _ => return bad(l),
            }, rhs));
        }
        let mut terms = vec![];
        let mut k = 0;
        while k < w.len() {
            let c = num::<i64>(w[k], l)?;
            let Some(x) = w.get(k + 1) else {
                return bad(l);
            };
            k += 2;
            let (neg, x) = match x.strip_prefix('~') {
                Some(x) => (true, x),
                None => (false, *x),
            };
            let Some(x) = x.strip_prefix('x') else { return bad(l) };
            let v = num::<u32>(x, l)?;
            if v < first {
                return Err(format!("variable below the first one: {l:?}"));
            }
            let v = (v - first + 1) as L;
            terms.push((c, if neg { -v } else { v }));
        }
        if objective {
            i.objs.push(linear(&terms));
        } else {
            let (op, rhs) = rel.unwrap();
            i.cons.push(Con { terms, op, rhs });
        }
    }
    i.n = i.max_var();
    Ok(i)
}
/// The matrix format of `mo2ilp`: the last variable is fixed to one
pub fn read_ilp(t: &str, bauss: bool) -> R<Inst> {
    let mut w = t.lines().map(|l| l.split_whitespace().collect::<Vec<_>>()).filter(|l| !l.is_empty());
    let end = || "the output ends early".to_string();
    let ints = |w: Vec<&str>| -> R<Vec<i64>> { w.iter().map(|x| num(x, &w.join(" "))).collect() };
    let h = ints(w.next().ok_or_else(end)?)?;
    if h.len() != if bauss { 5 } else { 3 } {
        return Err(format!("header {h:?}"));
    }
    let (n, m, p) = (h[0] as usize, h[1] as usize, h[2] as usize);
    if !bauss {
        let kinds = if p > 0 { w.next().ok_or_else(end)? } else { vec![] };
        if kinds != vec!["minsum"; p] {
            return Err(format!("objective kinds {kinds:?}"));
        }
    }
    let mut row = || -> R<Vec<(i64, L)>> {
        let r = ints(w.next().ok_or_else(end)?)?;
        if r.len() != n {
            return Err(format!("row of length {} instead of {n}", r.len()));
        }
        Ok(r.into_iter().zip(1..).filter(|t| t.0 != 0).collect())
    };
    let objs: Vec<Vec<(i64, L)>> = (0..p).map(|_| row()).collect::<R<_>>()?;
    let cons: Vec<Vec<(i64, L)>> = (0..m).map(|_| row()).collect::<R<_>>()?;
    if bauss {
        let count = |r: &[Vec<(i64, L)>]| r.iter().map(Vec::len).sum::<usize>() as i64;
        if (h[3], h[4]) != (count(&cons), count(&objs)) {
            return Err(format!("the header {h:?} counts nonzero values, but there are {} and {}", count(&cons), count(&objs)));
        }
    }
    let mut i = Inst { n, cons: vec![], objs: objs.iter().map(|o| linear(o)).collect() };
    for terms in cons {
        let r = ints(w.next().ok_or_else(end)?)?;
        let op = match r[..] {
            [0, _] => Op::Ge,
            [1, _] => Op::Le,
            [2, _] => Op::Eq,
            _ => return Err(format!("right hand side {r:?}")),
        };
        i.cons.push(Con { terms, op, rhs: r[1] });
    }
    if !bauss {
        for b in [0, 1] {
            let r = ints(w.next().ok_or_else(end)?)?;
            if r != vec![b; n] {
                return Err(format!("variable bounds {r:?}"));
            }
        }
    }
    match w.next() {
        None => Ok(i),
        Some(x) => Err(format!("text after the end: {x:?}")),
    }
}
