//! P31 problem encoders
use crate::model::*;
use crate::rt::{seqs, Ctx, Tally};
use crate::tool::{self, File};
use std::collections::BTreeSet;

type Res = Result<(), String>;

/// How the encoding is written
#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
    Mcnf,
    Wcnf,
    Opb(u32, bool),
}
const OPB: [To; 4] = [To::Opb(1, false), To::Opb(0, false), To::Opb(1, true), To::Opb(3, true)];
/// How input and output are passed
#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Pipe,
    Files,
}
fn encode(t: &mut Tally, sub: &[&str], to: To, via: Via, input: &str) -> Result<String, String> {
    let o = spawn(sub, to, via, input)?.ok()?;
    t.step(1);
    t.state(&o);
    Ok(o)
}
fn spawn(sub: &[&str], to: To, via: Via, input: &str) -> Result<tool::Out, String> {
    let out = File::unused(".out");
    let inp = File::unused(".in");
    let mut args = vec![];
    if via == Via::Files {
        std::fs::write(&inp.0, input).unwrap();
        args.push(out.0.as_str());
    }
    let first;
    match to {
        To::Mcnf => args.push("cnf"),
        To::Wcnf => args.extend(["cnf", "--single-objective"]),
        To::Opb(f, avoid) => {
            first = f.to_string();
            args.extend(["pb", "--first-var-idx", &first]);
            if avoid {
                args.push("--avoid-negated-lits");
            }
        }
    }
    args.extend(sub);
    if via == Via::Files {
        args.push(&inp.0);
    }
    let mut o = tool::run("encodings", &args, if via == Via::Pipe { input } else { "" })?;
    if via == Via::Files && o.code == 0 {
        if !o.out.is_empty() {
            return Err(format!("{:?} on the standard output", o.out));
        }
        o.out = out.read()?;
    }
    Ok(o)
}
fn read(o: &str, to: To, n_objs: usize) -> Result<Inst, String> {
    match to {
        To::Mcnf => read_mcnf(o, n_objs),
        To::Wcnf => read_wcnf(o),
        To::Opb(first, avoid) => {
            if avoid && o.contains('~') {
                return Err(format!("negated literals in {o:?}"));
            }
            let i = read_opb(o, first)?;
            // the header
            let h: Vec<&str> = o.lines().next().unwrap_or("").split_whitespace().collect();
            let count = |k: &str| h.iter().position(|w| *w == k).and_then(|p| h.get(p + 1)).and_then(|n| n.parse::<usize>().ok());
            match (count("#variable="), count("#constraint=")) {
                (Some(n), Some(m)) if n >= i.n && m == i.cons.len() => (),
                _ => return Err(format!("the header {h:?} is wrong, {} variables and {} constraints", i.n, i.cons.len())),
            }
            Ok(i)
        }
    }
}
/// The output is the problem `want`, with variables behind those of `want` being auxiliary
fn same(want: &Inst, o: &str, to: To) -> Res {
    let mut got = read(o, to, want.objs.len())?;
    got.n = got.n.max(want.n);
    if got.n > 60 {
        return Err(format!("{} variables", got.n));
    }
    if to != To::Wcnf {
        return want.same(&got, false);
    }
    let mut w = want.clone();
    w.objs = vec![Obj {
        softs: want.objs.iter().flat_map(|o| o.softs.clone()).collect(),
        offset: 0,
    }];
    w.same(&got, false)
}
/// The input has to be refused with an error message
fn refused(t: &mut Tally, sub: &[&str], to: To, input: &str) -> Res {
    let o = spawn(sub, to, Via::Pipe, input)?;
    t.step(1);
    t.state(&(o.code, &o.err));
    t.outcome(if o.code == 0 { "accepted" } else { "refused" });
    match o.code {
        1 if !o.err.is_empty() => Ok(()),
        0 => Err(format!("{input:?} is accepted, giving {:?}", o.out)),
        c => Err(format!("{input:?}: exit code {c}: {}", o.err)),
    }
}
/// All prefixes that lack at least one character that is not white space
fn prefixes(s: &str) -> Vec<String> {
    (0..s.trim_end().len()).map(|k| s[..k].to_string()).collect()
}
/// The ways to lay out a text file with `#` comments
#[derive(Clone, Copy, Debug, PartialEq)]
enum Layout {
    Plain,
    Comments,
    Spaces,
    Crlf,
}
const LAYOUTS: [Layout; 4] = [Layout::Plain, Layout::Comments, Layout::Spaces, Layout::Crlf];
fn lay(lines: &[String], l: Layout) -> String {
    match l {
        Layout::Plain => lines.iter().map(|l| format!("{l}\n")).collect(),
        Layout::Comments => lines.iter().enumerate().map(|(k, l)| format!("# line {k}\n\n{l}\n")).collect::<String>() + "\n# end\n",
        Layout::Spaces => lines.iter().map(|l| format!("  {} \n", l.replace(',', " , "))).collect(),
        Layout::Crlf => lines.iter().map(|l| format!("{l}\r\n")).collect(),
    }
}
fn list(v: &[usize]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

// ---------------------------------------------------------------- knapsack
#[derive(Clone, Debug)]
struct Knapsack {
    /// by objective
    values: Vec<Vec<usize>>,
    weights: Vec<usize>,
    capacity: usize,
}
impl Knapsack {
    fn moolib(&self) -> Vec<String> {
        let mut v = vec![self.values.len().to_string(), self.weights.len().to_string(), self.capacity.to_string()];
        let p = self.values.len();
        v.extend(self.values.iter().enumerate().map(|(k, r)| {
            format!("{}{}{}", if k == 0 { "[" } else { "" }, list(r), if k + 1 < p { "," } else { "]" })
        }));
        v.push(list(&self.weights));
        v
    }
    fn voptlib(&self) -> Vec<String> {
        let mut v = vec![self.weights.len(), self.values.len(), 1];
        v.extend(self.values.iter().flatten().chain(&self.weights));
        v.push(self.capacity);
        v.iter().map(|x| x.to_string()).collect()
    }
    /// The items are the variables, and what is left behind counts
    fn inst(&self) -> Inst {
        let n = self.weights.len();
        Inst {
            n,
            cons: vec![Con {
                terms: (0..n).map(|k| (self.weights[k] as i64, k as L + 1)).collect(),
                op: Op::Le,
                rhs: self.capacity as i64,
            }],
            objs: self.values.iter().map(|v| Obj { softs: (0..n).map(|k| (vec![k as L + 1], v[k] as i64)).collect(), offset: 0 }).collect(),
        }
    }
}
const KP_IN: [&[&str]; 2] = [&["knapsack", "input", "--in-format", "moo-library"], &["knapsack", "input", "--in-format", "v-opt-lib"]];
fn kp_lines(k: &Knapsack, format: usize) -> Vec<String> {
    if format == 0 { k.moolib() } else { k.voptlib() }
}

fn knapsack(cx: &Ctx) {
    let tos = [To::Mcnf, To::Wcnf, OPB[0], OPB[1], OPB[2], OPB[3]];
    let mut v = vec![];
    for n in 1..=cx.pick(3, 4) {
        for w in seqs(&[0, 1, 2, 3, 5], n, n) {
            for capacity in 0..=w.iter().sum::<usize>() + 1 {
                for p in 1..=2 {
                    // the values: different for all items and objectives, with one that is zero
                    let values = (0..p).map(|o| (0..n).map(|k| if k == 1 && o == 0 { 0 } else { 1 << (2 * k + o) }).collect()).collect();
                    v.push(Knapsack { values, weights: w.clone(), capacity });
                }
            }
        }
    }
    cx.bound("knapsack instances", v.len());
    cx.run_idx("knapsack", v.len() * 12, |k| (v[k / 12].clone(), k % 2, tos[k / 2 % 6]), |t, (k, f, to)| {
        let input = lay(&kp_lines(k, *f), Layout::Plain);
        let o = encode(t, KP_IN[*f], *to, Via::Pipe, &input)?;
        same(&k.inst(), &o, *to)
    });
    // values and layouts
    let mut v = vec![];
    for p in 1..=3 {
        for vals in seqs(&[0, 1, 7], 2 * p, 2 * p) {
            v.push(Knapsack { values: vals.chunks(2).map(<[usize]>::to_vec).collect(), weights: vec![12, 3], capacity: 13 });
        }
    }
    cx.run_idx("knapsack layouts", v.len() * 16, |k| (v[k / 16].clone(), k % 2, LAYOUTS[k / 2 % 4], [Via::Pipe, Via::Files][k / 8 % 2]), |t, (k, f, l, via)| {
        let input = lay(&kp_lines(k, *f), *l);
        let to = if k.values.len() > 1 { To::Mcnf } else { OPB[0] };
        let o = encode(t, KP_IN[*f], to, *via, &input)?;
        same(&k.inst(), &o, to)
    });
    // wrong numbers of things
    let good = Knapsack { values: vec![vec![1, 2, 3], vec![4, 5, 6]], weights: vec![3, 4, 5], capacity: 7 };
    let mut bad = vec![];
    for f in 0..2 {
        let mut ks = vec![];
        for change in [3, 1, 2] {
            let cut = |v: &Vec<usize>| (0..change + if change == 3 { 1 } else { 0 }).map(|k| v.get(k).copied().unwrap_or(9)).collect::<Vec<_>>();
            let mut k = good.clone();
            k.weights = cut(&k.weights);
            ks.push(k);
            for o in 0..2 {
                let mut k = good.clone();
                k.values[o] = cut(&k.values[o]);
                ks.push(k);
            }
        }
        let mut k = good.clone();
        k.values.push(vec![7, 8, 9]);
        ks.push(k);
        let mut k = good.clone();
        k.values.pop();
        ks.push(k);
        for k in ks {
            let mut l = kp_lines(&k, f);
            let g = kp_lines(&good, f);
            l[..3].clone_from_slice(&g[..3]);
            bad.push((f, lay(&l, Layout::Plain)));
        }
        let g = kp_lines(&good, f);
        for (at, by) in (0..2).flat_map(|at| ["0", "1", "4", "", "x", "-2", "2 2", "2,"].map(|by| (at, by))) {
            let mut l = g.clone();
            l[at] = by.into();
            bad.push((f, lay(&l, Layout::Plain)));
        }
        bad.extend(prefixes(&lay(&g, Layout::Plain)).into_iter().map(|s| (f, s)));
        for at in 0..g.len() {
            let mut l = g.clone();
            l[at] += "?";
            bad.push((f, lay(&l, Layout::Plain)));
        }
    }
    // more than one dimension
    let mut l = good.voptlib();
    l[2] = "2".into();
    bad.push((1, lay(&l, Layout::Plain)));
    l.splice(l.len() - 1.., ["1", "1", "1", "7", "7"].map(String::from));
    bad.push((1, lay(&l, Layout::Plain)));
    cx.run("knapsack errors", &bad, |t, (f, input)| refused(t, KP_IN[*f], OPB[0], input));
}

fn random(cx: &Ctx) {
    let mut v = vec![];
    for n in 1..=cx.pick(3, 5) {
        for p in 1..=3 {
            for (lo, hi) in [(1usize, 1usize), (1, 2), (0, 3), (5, 40), (7, 8)] {
                for frac in 1..=3 {
                    for seed in 0..cx.pick(4, 20) {
                        v.push((n, p, (lo, hi), frac, seed));
                    }
                }
            }
        }
    }
    cx.run("random knapsacks", &v, |t, (n, p, (lo, hi), frac, seed)| {
        // the bounds for weights and values differ
        let a: Vec<String> = [*n, *p, *lo, *hi, lo + 1, hi + 1, *frac, *seed].iter().map(|x| x.to_string()).collect();
        let names = ["--n-items", "--n-objectives", "--min-weight", "--max-weight", "--min-value", "--max-value", "--cap-fraction", "--seed"];
        let mut sub = vec!["knapsack", "random"];
        for (k, x) in names.iter().zip(&a) {
            sub.extend([*k, x]);
        }
        let o = encode(t, &sub, OPB[0], Via::Pipe, "")?;
        let i = read(&o, OPB[0], *p)?;
        if i.objs.len() != *p || i.objs.iter().any(|o| o.softs.len() != *n) || i.cons.len() != 1 {
            return Err(format!("not a knapsack with {n} items and {p} objectives: {o:?}"));
        }
        let mut k = Knapsack { values: vec![vec![0; *n]; *p], weights: vec![0; *n], capacity: 0 };
        for (ob, v) in i.objs.iter().zip(&mut k.values) {
            for (c, l) in ob.terms() {
                v[l.unsigned_abs() as usize - 1] = c as usize;
            }
        }
        // a constraint on what is packed
        let c = &i.cons[0];
        for (w, l) in &c.terms {
            k.weights[l.unsigned_abs() as usize - 1] = w.unsigned_abs() as usize;
        }
        k.capacity = k.weights.iter().sum::<usize>() / frac;
        k.inst().same(&Inst { n: *n, ..i }, false)?;
        if !k.weights.iter().all(|w| (*lo..=*hi).contains(w)) || !k.values.iter().flatten().all(|v| (lo + 1..=hi + 1).contains(v)) {
            return Err(format!("values or weights out of bounds: {k:?}"));
        }
        // the same again, and as CNF
        if encode(t, &sub, OPB[0], Via::Pipe, "")? != o {
            return Err("two runs with the same seed differ".into());
        }
        let o = encode(t, &sub, To::Mcnf, Via::Pipe, "")?;
        same(&k.inst(), &o, To::Mcnf)
    });
}

// ---------------------------------------------------------------- assignment
#[derive(Clone, Debug)]
struct Assignment {
    /// by objective, task and agent
    costs: Vec<Vec<Vec<usize>>>,
}
impl Assignment {
    fn n(&self) -> usize {
        self.costs[0].len()
    }
    fn lines(&self, one_line: bool) -> Vec<String> {
        let mut v = vec![self.costs.len().to_string(), self.n().to_string()];
        let mut m = vec![];
        let p = self.costs.len();
        for (o, c) in self.costs.iter().enumerate() {
            for (k, r) in c.iter().enumerate() {
                m.push(format!(
                    "{}{}{}{}",
                    if o == 0 && k == 0 { "[" } else { "" },
                    if k == 0 { "[" } else { "" },
                    list(r),
                    if k + 1 < c.len() { "," } else { "]" }
                ));
            }
            m.push(if o + 1 < p { "," } else { "]" }.into());
        }
        if one_line {
            v.push(m.concat());
        } else {
            v.extend(m);
        }
        v
    }
    fn inst(&self) -> Inst {
        let n = self.n();
        let x = |t: usize, a: usize| (t * n + a) as L + 1;
        let eq = |terms| Con { terms, op: Op::Eq, rhs: 1 };
        Inst {
            n: n * n,
            cons: (0..n)
                .map(|t| eq((0..n).map(|a| (1, x(t, a))).collect()))
                .chain((0..n).map(|a| eq((0..n).map(|t| (1, x(t, a))).collect())))
                .collect(),
            objs: self
                .costs
                .iter()
                .map(|c| linear(&(0..n).flat_map(|t| (0..n).map(move |a| (t, a))).map(|(t, a)| (c[t][a] as i64, x(t, a))).collect::<Vec<_>>()))
                .collect(),
        }
    }
}
fn cube(v: &[usize], n: usize) -> Vec<Vec<Vec<usize>>> {
    v.chunks(n * n).map(|m| m.chunks(n).map(<[usize]>::to_vec).collect()).collect()
}

fn assignment(cx: &Ctx) {
    let sub = ["assignment"];
    let mut v = vec![];
    for p in 1..=3 {
        for n in 1..=3 {
            // different costs for everything, in different orders
            for f in 0..cx.pick(6, 20) {
                v.push(Assignment { costs: cube(&(0..p * n * n).map(|k| (k + f) * (f + 1) % 29).collect::<Vec<_>>(), n) });
            }
        }
    }
    for p in 1..=cx.pick(1, 2) {
        v.extend(seqs(&[0, 1, 2], 4 * p, 4 * p).iter().map(|c| Assignment { costs: cube(c, 2) }));
    }
    cx.bound("assignment instances", v.len());
    let vias = [Via::Pipe, Via::Files];
    cx.run_idx("assignment", v.len() * 64, |k| (v[k / 64].clone(), OPB[k % 4], LAYOUTS[k / 4 % 4], k / 16 % 2 == 1, vias[k / 32 % 2]), |t, (a, to, l, one, via)| {
        let o = encode(t, &sub, *to, *via, &lay(&a.lines(*one), *l))?;
        same(&a.inst(), &o, *to)
    });
    let good = Assignment { costs: cube(&[1, 2, 3, 4, 5, 6, 7, 8], 2) };
    let mut bad = vec![];
    let g = good.lines(false);
    let mut push = |a: Assignment| {
        for one in [false, true] {
            let mut l = a.lines(one);
            l[..2].clone_from_slice(&g[..2]);
            bad.push(lay(&l, Layout::Plain));
        }
    };
    for o in 0..2 {
        for k in 0..2 {
            for len in [1, 3] {
                let mut a = good.clone();
                a.costs[o][k].resize(len, 9);
                push(a);
            }
        }
        for len in [1, 3] {
            let mut a = good.clone();
            a.costs[o].resize(len, vec![8, 9]);
            push(a);
        }
    }
    for len in [1, 3] {
        let mut a = good.clone();
        a.costs.resize(len, vec![vec![8, 9], vec![6, 7]]);
        push(a);
    }
    for one in [false, true] {
        let g = good.lines(one);
        for (at, by) in (0..2).flat_map(|at| ["0", "1", "3", "", "x", "-2", "2 2", "2,"].map(|by| (at, by))) {
            let mut l = g.clone();
            l[at] = by.into();
            bad.push(lay(&l, Layout::Plain));
        }
        bad.extend(prefixes(&lay(&g, Layout::Plain)));
        // one character more or less
        let s = lay(&g, Layout::Plain);
        for (k, c) in s.char_indices().skip(4) {
            if "[],".contains(c) {
                bad.push(format!("{}{}", &s[..k], &s[k + 1..]));
            }
            if !c.is_whitespace() {
                for x in ["[", "]", ",", "?"] {
                    bad.push(format!("{}{x}{}", &s[..k], &s[k..]));
                }
            }
        }
        for x in ["[", "]", ",", "?", "3", "[1]", "[[[1,2],[3,4]],[[5,6],[7,8]]]"] {
            bad.push(format!("{s}{x}\n"));
        }
    }
    cx.run("assignment errors", &bad, |t, input| refused(t, &sub, OPB[0], input));
}

// ---------------------------------------------------------------- facility location
#[derive(Clone, Debug)]
struct Facilities {
    /// by objective, customer and facility
    supply: Vec<Vec<Vec<usize>>>,
    /// by objective and facility
    opening: Vec<Vec<usize>>,
}
impl Facilities {
    fn lines(&self) -> Vec<String> {
        let row = |r: &Vec<usize>| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let mut v = vec![self.supply[0].len().to_string(), self.opening[0].len().to_string()];
        for c in &self.supply {
            v.push(String::new());
            v.extend(c.iter().map(row));
        }
        for r in &self.opening {
            v.push(String::new());
            v.push(row(r));
        }
        v
    }
    fn inst(&self) -> Inst {
        let (n, m) = (self.supply[0].len(), self.opening[0].len());
        let x = |c: usize, f: usize| (c * m + f) as L + 1;
        let y = |f: usize| (n * m + f) as L + 1;
        let one = (0..n).map(|c| Con { terms: (0..m).map(|f| (1, x(c, f))).collect(), op: Op::Eq, rhs: 1 });
        let open = (0..n).flat_map(|c| (0..m).map(move |f| clause(&[-x(c, f), y(f)])));
        Inst {
            n: (n + 1) * m,
            cons: one.chain(open).collect(),
            objs: (0..2)
                .map(|o| {
                    let mut t: Vec<(i64, L)> = vec![];
                    for c in 0..n {
                        t.extend((0..m).map(|f| (self.supply[o][c][f] as i64, x(c, f))));
                    }
                    t.extend((0..m).map(|f| (self.opening[o][f] as i64, y(f))));
                    linear(&t)
                })
                .collect(),
        }
    }
}
fn facilities(cx: &Ctx) {
    let sub = ["facility-location"];
    let build = |n: usize, m: usize, v: &[usize]| Facilities {
        supply: v[..2 * n * m].chunks(n * m).map(|c| c.chunks(m).map(<[usize]>::to_vec).collect()).collect(),
        opening: v[2 * n * m..].chunks(m).map(<[usize]>::to_vec).collect(),
    };
    let mut v = vec![];
    for n in 1..=3 {
        for m in 1..=3 {
            for f in 0..cx.pick(8, 40) {
                v.push(build(n, m, &(0..2 * (n + 1) * m).map(|k| (k + f) * (f + 1) % 31).collect::<Vec<_>>()));
            }
        }
    }
    v.extend(seqs(&[0, 1, 2], 4, 4).iter().map(|c| build(1, 1, c)));
    v.extend(seqs(&[0, 1], 8, 8).iter().map(|c| build(1, 2, c)));
    v.extend(seqs(&[0, 1], 6, 6).iter().map(|c| build(2, 1, c)));
    cx.bound("facility location instances", v.len());
    let vias = [Via::Pipe, Via::Files];
    let layouts = [Layout::Plain, Layout::Spaces, Layout::Crlf];
    cx.run_idx("facility location", v.len() * 24, |k| (v[k / 24].clone(), OPB[k % 4], layouts[k / 4 % 3], vias[k / 12 % 2]), |t, (a, to, l, via)| {
        let o = encode(t, &sub, *to, *via, &lay(&a.lines(), *l))?;
        same(&a.inst(), &o, *to)
    });
    let good = build(2, 2, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3]);
    let g = good.lines();
    let mut bad = prefixes(&lay(&g, Layout::Plain));
    for k in 2..g.len() {
        // anything may be in the lines between the lists
        let mut edits: Vec<Vec<String>> = vec![vec![]];
        if !g[k].is_empty() {
            edits.extend([vec![g[k].clone() + " 9"], vec![g[k].clone() + "?"], vec![g[k][2..].into()]]);
            if k + 1 < g.len() {
                edits.push(vec![g[k].clone(), g[k].clone()]);
            }
        }
        for e in edits {
            let mut l = g.clone();
            l.splice(k..=k, e);
            bad.push(lay(&l, Layout::Plain));
        }
    }
    for (at, by) in (0..2).flat_map(|at| ["0", "1", "3", "", "x", "-2", "2 2", "2,"].map(|by| (at, by))) {
        let mut l = g.clone();
        l[at] = by.into();
        bad.push(lay(&l, Layout::Plain));
    }
    cx.run("facility location errors", &bad, |t, input| refused(t, &sub, OPB[0], input));
}

// ---------------------------------------------------------------- clustering
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sim {
    /// There is no line
    Missing,
    DontCare,
    Similar,
    Dissimilar,
    Must,
    Cannot,
}
const SIMS: [Sim; 6] = [Sim::Similar, Sim::Dissimilar, Sim::Must, Sim::Cannot, Sim::DontCare, Sim::Missing];
/// A value for each pair of nodes, the larger node first
type Pairs = Vec<((usize, usize), i64)>;

/// The cost vectors of all ways to put `n` nodes into clusters
fn partitions(n: usize, pairs: &Pairs, dont_care: i64, hard: i64) -> BTreeSet<Vec<i64>> {
    fn go(n: usize, c: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if c.len() == n {
            return f(c);
        }
        for k in 0..=c.iter().max().map_or(0, |m| m + 1) {
            c.push(k);
            go(n, c, f);
            c.pop();
        }
    }
    let mut out = BTreeSet::new();
    go(n, &mut vec![], &mut |c| {
        let mut cost = vec![0, 0];
        for ((a, b), v) in pairs {
            let together = c[*a] == c[*b];
            match v.abs() {
                x if x < dont_care => (),
                x if x > hard => {
                    if together != (*v > 0) {
                        return;
                    }
                }
                x if *v > 0 && !together => cost[0] += x,
                x if *v < 0 && together => cost[1] += x,
                _ => (),
            }
        }
        out.insert(cost);
    });
    out
}
/// The cost vectors of all solutions of a set of clauses with soft literals
fn attainable(i: &Inst) -> Result<BTreeSet<Vec<i64>>, String> {
    if i.n > 63 {
        return Err(format!("{} variables", i.n));
    }
    let mask = |c: &[L]| c.iter().fold((0u64, 0u64), |(p, n), l| {
        let b = 1 << (l.unsigned_abs() - 1);
        if *l > 0 { (p | b, n) } else { (p, n | b) }
    });
    let cls: Vec<(u64, u64)> = i.cons.iter().map(|c| mask(&lits(c))).collect();
    let mut vars: Vec<u64> = vec![];
    for o in &i.objs {
        for (c, _) in &o.softs {
            if c.len() != 1 {
                return Err(format!("soft clause {c:?}"));
            }
            vars.push(1 << (c[0].unsigned_abs() - 1));
        }
    }
    let first = vars.len();
    vars.extend((0..i.n).map(|k| 1 << k));
    /// all solutions over the first variables, and one for the others
    fn go(cls: &[(u64, u64)], vars: &[u64], first: usize, (mut t, mut f): (u64, u64), out: &mut dyn FnMut(u64)) -> bool {
        loop {
            let before = (t, f);
            for (p, n) in cls {
                if p & t != 0 || n & f != 0 {
                    continue;
                }
                let (p, n) = (p & !f, n & !t);
                match p.count_ones() + n.count_ones() {
                    0 => return false,
                    1 => {
                        t |= p;
                        f |= n;
                    }
                    _ => (),
                }
            }
            if (t, f) == before {
                break;
            }
        }
        match vars.iter().position(|v| v & (t | f) == 0) {
            None => {
                out(t);
                true
            }
            Some(k) => {
                let v = vars[k];
                let rest = &vars[k + 1..];
                let left = first.saturating_sub(k + 1);
                let a = go(cls, rest, left, (t | v, f), out);
                if a && k >= first {
                    return true;
                }
                go(cls, rest, left, (t, f | v), out) | a
            }
        }
    }
    let mut out = BTreeSet::new();
    go(&cls, &vars, first, (0, 0), &mut |t| {
        out.insert(i.costs(t));
    });
    Ok(out)
}
fn clusters(t: &mut Tally, sub: &[&str], to: To, via: Via, input: &str, n: usize, pairs: &Pairs, (dont_care, hard): (i64, i64)) -> Res {
    let o = encode(t, sub, to, via, input)?;
    let i = read(&o, to, 2)?;
    let mut want = partitions(n, pairs, dont_care, hard);
    if to == To::Wcnf {
        want = want.into_iter().map(|c| vec![c.iter().sum()]).collect();
    }
    let got = attainable(&i)?;
    t.outcome(if want.is_empty() { "unsatisfiable" } else { "satisfiable" });
    if got != want {
        return Err(format!("the solutions cost {got:?}, the clusterings cost {want:?}"));
    }
    Ok(())
}
/// The similarities as values between -32 and 32, or beyond that if hard
fn pairs(n: usize, s: &[Sim]) -> Pairs {
    let all = (0..n).flat_map(|b| (0..b).map(move |a| (a, b)));
    all.zip(s).enumerate().filter_map(|(k, (p, s))| {
        Some((p, match s {
            Sim::Missing => return None,
            Sim::DontCare => 0,
            Sim::Similar => 1 << k,
            Sim::Dissimilar => -1 << k,
            Sim::Must => 99,
            Sim::Cannot => -99,
        }))
    }).collect()
}
/// A line for each node itself makes sure that it is known
fn edges(n: usize, p: &Pairs, selves: bool) -> Vec<String> {
    let name = ["a", "B_1", "3", "_"];
    let mut v: Vec<String> = vec![];
    if selves {
        v.extend((0..n).map(|k| format!("{0} {0} 99", name[k])));
    }
    v.extend(p.iter().map(|((a, b), x)| format!("{} {} {x}", name[*a], name[*b])));
    v
}
const DIRECT: [&str; 9] = ["clustering", "--multiplier", "1", "--offset", "0", "--dont-care", "1", "--hard-threshold", "32"];

fn clustering(cx: &Ctx) {
    // all kinds of pairs
    for n in 1..=4 {
        let sims = if n < 4 || cx.thorough { &SIMS[..] } else { &SIMS[..4] };
        let m = n * (n - 1) / 2;
        let v = seqs(sims, m, m);
        let k = if n < 4 { 8 } else { 1 };
        cx.run_idx(&format!("clustering {n}"), v.len() * k, |i| (v[i / k].clone(), [To::Mcnf, To::Wcnf][i % k / 4], [Via::Pipe, Via::Files][i / 2 % 2], k == 1 || i % 2 == 1), |t, (s, to, via, selves)| {
            let mut p = pairs(n, s);
            let text = lay(&edges(n, &p, *selves), Layout::Plain);
            // the nodes that are known
            let mut known: Vec<usize> = if *selves { (0..n).collect() } else { p.iter().flat_map(|((a, b), _)| [*a, *b]).collect() };
            known.sort();
            known.dedup();
            for ((a, b), _) in &mut p {
                *a = known.binary_search(a).unwrap();
                *b = known.binary_search(b).unwrap();
            }
            clusters(t, &DIRECT, *to, *via, &text, known.len(), &p, (1, 32))
        });
    }
    // all orders of the lines and of the nodes in a line
    let v: Vec<(Vec<Sim>, Vec<usize>, u8)> = seqs(&SIMS[..4], 3, 3)
        .into_iter()
        .flat_map(|s| [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].map(|o| (s.clone(), o.to_vec())))
        .flat_map(|(s, o)| (0..8).map(move |f| (s.clone(), o.clone(), f)))
        .collect();
    cx.run("clustering orders", &v, |t, (s, order, flip)| {
        let p = pairs(3, s);
        let shown: Pairs = order.iter().map(|k| {
            let ((a, b), v) = p[*k];
            (if flip >> k & 1 == 1 { (b, a) } else { (a, b) }, v)
        }).collect();
        clusters(t, &DIRECT, To::Mcnf, Via::Pipe, &lay(&edges(3, &shown, false), Layout::Plain), 3, &p, (1, 32))
    });
    // multiplier, offset and thresholds
    let sims: Vec<i64> = (-10..=10).collect();
    let mut v = vec![];
    for mult in [1, 8, 1000] {
        for offset in [0, 500, -3, 1] {
            for dont_care in [0, 1, 2, 300] {
                for hard in [0, 1, 4, 499] {
                    v.push((mult, offset, dont_care, hard));
                }
            }
        }
    }
    let n = sims.len();
    cx.run_idx("clustering values", v.len() * n, |k| (v[k / n], sims[k % n]), |t, ((mult, offset, dont_care, hard), s)| {
        // in eighths
        let show = format!("{}", *s as f64 / 8.0);
        let value = s * mult / 8 - offset;
        let a: Vec<String> = [*mult, *offset, *dont_care, *hard].iter().map(|x| x.to_string()).collect();
        let o = format!("--offset={}", a[1]);
        let sub = ["clustering", "--multiplier", &a[0], &o, "--dont-care", &a[2], "--hard-threshold", &a[3]];
        let p = vec![((0, 1), value), ((1, 2), -value), ((0, 2), *offset)];
        let inverse = format!("{}", (offset - value) as f64 / *mult as f64);
        let twice = format!("{}", 2.0 * *offset as f64 / *mult as f64);
        clusters(t, &sub, To::Mcnf, Via::Pipe, &format!("x y {show}\ny z {inverse}\nx z {twice}\n"), 3, &p, (*dont_care, *hard))
    });
    // layouts
    let p = vec![((0, 1), 1), ((1, 2), -2), ((0, 2), 4)];
    let (a, b, c) = ("a b 1", "b c -2", "c a 4");
    let big = vec![((0, 1), 99), ((1, 2), -2), ((0, 2), -99)];
    let v: Vec<(String, Pairs)> = vec![
        (format!("{a}\n{b}\n{c}"), p.clone()),
        (format!("{a}\r\n{b}\r\n{c}\r\n"), p.clone()),
        (format!("% comment\n{a}\n  % more\n{b}\n%\n{c}\n%% end\n"), p.clone()),
        (format!("\n{a}\n\n{b}\n{c}\n\n"), p.clone()),
        (format!("  {a}\n\t{b}\n {c}\n"), p.clone()),
        (format!("{a} \n{b}\t\n{c}   \n"), p.clone()),
        ("a  b\t1\nb   c -2\nc\ta\t4\n".into(), p.clone()),
        ("a b 1.0\nb c -2.0\nc a 4.0\n".into(), p.clone()),
        ("a b 1e0\nb c -0.2e1\nc a +4\n".into(), p.clone()),
        ("node_1 Node_1 1\nNode_1 2 -2\nnode_1 2 4\n".into(), p.clone()),
        ("a b 1\nb a 1\nb c -2\nc b -2\nc a 4\na c 4\n".into(), p.clone()),
        ("a a 99\na b 1\nb b 99\nb c -2\nc a 4\n".into(), p.clone()),
        ("a b inf\nb c -2\nc a -inf\n".into(), big.clone()),
        ("a b 1e30\nb c -2\nc a -1e30\n".into(), big),
    ];
    let subs: [(&[&str], To); 4] = [(&DIRECT, To::Mcnf), (&DIRECT, To::Wcnf), (&["--offset=1"], To::Mcnf), (&["--single-objective"], To::Wcnf)];
    cx.run_idx("clustering layouts", v.len() * 4, |k| (v[k / 4].clone(), k % 4), |t, ((text, p), k)| {
        let (s, to) = subs[*k];
        let mut sub: Vec<&str> = DIRECT.to_vec();
        let mut p = p.clone();
        if *k == 2 {
            sub[4] = "1";
            for (_, v) in &mut p {
                *v -= 1;
            }
        }
        // the option for a single objective of the subcommand
        let mut as_given = to;
        if *k == 3 {
            sub.extend(s);
            as_given = To::Mcnf;
        }
        let o = encode(t, &sub, as_given, Via::Pipe, text)?;
        let i = read(&o, to, 2)?;
        let mut want = partitions(3, &p, 1, 32);
        if to == To::Wcnf {
            want = want.into_iter().map(|c| vec![c.iter().sum()]).collect();
        }
        let got = attainable(&i)?;
        if got != want {
            return Err(format!("the solutions cost {got:?}, the clusterings cost {want:?}"));
        }
        Ok(())
    });
    let bad: Vec<String> = ["a", "a b", "a b x", "a b 1 2", "a 1 b", "1.5 a b", "a b-c 1", "a.b c 1", "a,b,1", "? b 1"]
        .iter()
        .flat_map(|l| [format!("{l}\n"), format!("a b 1\n{l}\nb c -2\n"), format!("% comment\na b 1\nb c -2\n{l}")])
        .collect();
    cx.run("clustering errors", &bad, |t, input| refused(t, &DIRECT, To::Mcnf, input));
}

pub fn run(cx: &Ctx) {
    knapsack(cx);
    random(cx);
    assignment(cx);
    facilities(cx);
    clustering(cx);
}
