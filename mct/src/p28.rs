//! P28 command line tools
use crate::model::*;
use crate::rt::{seqs, Ctx, Tally};
use crate::tool::{self, File};
use std::collections::BTreeSet;

type Res = Result<(), String>;

/// All instances from sequences of constraints and sequences of objectives
fn insts(cons: &[Vec<Con>], objs: &[Vec<Obj>], n: usize) -> Vec<Inst> {
    let mut v = vec![];
    for c in cons {
        for o in objs {
            let mut i = Inst { n, cons: c.clone(), objs: o.clone() };
            i.n = i.n.max(i.max_var());
            v.push(i);
        }
    }
    v
}
fn clauses(c: &[&[L]]) -> Vec<Con> {
    c.iter().map(|c| clause(c)).collect()
}
/// All objectives of up to `n` soft clauses
fn softs(c: &[&[L]], w: &[i64], n: usize) -> Vec<Obj> {
    let s: Vec<(Vec<L>, i64)> = c.iter().flat_map(|c| w.iter().map(|w| (c.to_vec(), *w))).collect();
    seqs(&s, 0, n).into_iter().map(|softs| Obj { softs, offset: 0 }).collect()
}
fn one(o: Vec<Obj>) -> Vec<Vec<Obj>> {
    o.into_iter().map(|o| vec![o]).collect()
}
fn con(t: &[(i64, L)], op: Op, rhs: i64) -> Con {
    Con { terms: t.to_vec(), op, rhs }
}
/// Linear constraints of all kinds
fn linears() -> Vec<Con> {
    use Op::*;
    vec![
        con(&[(1, 1), (1, 2), (1, 3)], Ge, 2),
        con(&[(1, 1), (1, -2)], Ge, 1),
        con(&[(1, 1), (1, 2), (1, -3)], Le, 1),
        con(&[(1, 1), (1, 2), (1, 3)], Eq, 1),
        con(&[(2, 1), (1, 2), (1, 3)], Ge, 2),
        con(&[(3, 1), (2, -2), (1, 3)], Le, 3),
        con(&[(2, 1), (3, 2), (1, 3)], Eq, 3),
        con(&[(-2, 1), (1, 2)], Ge, 0),
        con(&[(1, 2), (-1, 3)], Eq, 0),
        con(&[(1, 1)], Ge, 1),
        con(&[(1, 2)], Ge, 0),
        con(&[(1, 1), (1, 3)], Ge, 3),
        con(&[(2, 1), (1, 1), (1, -1)], Ge, 2),
        con(&[(1, 2), (2, 3)], Le, -1),
    ]
}
fn linear_objs() -> Vec<Obj> {
    [
        &[][..],
        &[(1, 1)],
        &[(2, 1), (3, 2)],
        &[(1, -1), (1, 2), (1, 3)],
        &[(-2, 1), (1, 2)],
        &[(4, -3), (-1, -2)],
        &[(1, 4), (2, 5)],
        &[(1, 1), (2, 1)],
        &[(3, 1), (1, -1)],
    ]
    .iter()
    .map(|t| linear(t))
    .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Cnf,
    Wcnf,
    OldWcnf,
    Mcnf,
    Opb,
}
impl F {
    fn text(self, i: &Inst, first: u32) -> String {
        match self {
            F::Cnf => cnf(i),
            F::Wcnf => wcnf(i),
            F::OldWcnf => old_wcnf(i),
            F::Mcnf => mcnf(i),
            F::Opb => opb(i, first),
        }
    }
    fn ext(self) -> &'static str {
        match self {
            F::Cnf => ".cnf",
            F::Wcnf | F::OldWcnf => ".wcnf",
            F::Mcnf => ".mcnf",
            F::Opb => ".opb",
        }
    }
    fn arg(self) -> &'static str {
        self.ext().trim_start_matches('.')
    }
    fn read(self, t: &str, first: u32, n_objs: usize) -> Result<Inst, String> {
        match self {
            F::Cnf => read_cnf(t),
            F::Wcnf | F::OldWcnf => read_wcnf(t),
            F::Mcnf => read_mcnf(t, n_objs),
            F::Opb => read_opb(t, first),
        }
    }
}

/// The output is the same problem
fn compare(i: &Inst, mut o: Inst) -> Res {
    o.n = o.n.max(i.n);
    i.same(&o, false)
}

/// Converts with in- and output through pipes
fn convert(t: &mut Tally, name: &str, from: F, to: F, i: &Inst, first: u32, avoid: bool) -> Res {
    let first_arg = first.to_string();
    let mut args = vec!["--first-var-idx", &first_arg];
    if avoid {
        args.push("--avoid-negated-lits");
    }
    let o = tool::run(name, &args, &from.text(i, first))?.ok()?;
    t.step(1);
    t.state(&o);
    if avoid && o.contains('~') {
        return Err(format!("negated literals in {o:?}"));
    }
    let out = to.read(&o, first, i.objs.len())?;
    t.outcome(if out.n > i.n { "auxiliary variables" } else { "same variables" });
    compare(i, out)
}

fn conversions(cx: &Ctx) {
    let opts: Vec<(u32, bool)> = [0, 1, 3].iter().flat_map(|f| [(*f, false), (*f, true)]).collect();
    // clauses to linear constraints
    let cls: &[&[L]] = &[&[], &[1], &[-2], &[1, 2], &[-1, 3], &[1, -2, 3], &[-1, -2, -3], &[1, -1], &[2, 2]];
    let v = insts(&seqs(&clauses(cls), 0, cx.pick(2, 4)), &[vec![]], 3);
    cx.bound("instances: cnf2opb", v.len());
    cx.run_idx("cnf2opb", v.len() * 6, |k| (v[k / 6].clone(), opts[k % 6]), |t, (i, (f, a))| convert(t, "cnf2opb", F::Cnf, F::Opb, i, *f, *a));

    let hard: &[&[L]] = &[&[1, 2], &[-3], &[-1, -2, 4], &[1]];
    let soft: &[&[L]] = &[&[1], &[-2], &[1, -3], &[-1, 2, 5], &[], &[2, -2]];
    let v = insts(&seqs(&clauses(hard), 0, 1), &one(softs(soft, &[1, 3], cx.pick(2, 3))), 0);
    cx.bound("instances: wcnf2opb", v.len());
    let opts4 = [(1, false), (1, true), (0, false), (3, true)];
    for f in [F::Wcnf, F::OldWcnf] {
        cx.run_idx(&format!("wcnf2opb {f:?}"), v.len() * 4, |k| (v[k / 4].clone(), opts4[k % 4]), |t, (i, (x, a))| convert(t, "wcnf2opb", f, F::Opb, i, *x, *a));
    }
    let soft: &[&[L]] = &[&[1], &[-2], &[1, -3], &[-1, 2, 5]];
    let o = softs(soft, &[1, 2], 1);
    let mut objs = vec![];
    for a in &o {
        objs.extend(softs(soft, &[1, 2], cx.pick(1, 2)).into_iter().filter(|b| !b.softs.is_empty()).map(|b| vec![a.clone(), b]));
        if !a.softs.is_empty() {
            objs.push(vec![a.clone()]);
            objs.push(vec![a.clone(), Obj::default(), a.clone()]);
        }
    }
    let mo = insts(&seqs(&clauses(hard), 0, 1), &objs, 0);
    cx.bound("instances: mcnf2opb", mo.len());
    cx.run_idx("mcnf2opb", mo.len() * 4, |k| (mo[k / 4].clone(), opts4[k % 4]), |t, (i, (x, a))| convert(t, "mcnf2opb", F::Mcnf, F::Opb, i, *x, *a));

    // linear constraints to clauses
    let firsts = [1, 0, 3];
    let v = insts(&seqs(&linears(), 0, cx.pick(2, 3)), &[vec![]], 0);
    let v: Vec<Inst> = v.into_iter().filter(|i| i.n > 0).collect();
    cx.bound("instances: opb2cnf", v.len());
    cx.run_idx("opb2cnf", v.len() * 3, |k| (v[k / 3].clone(), firsts[k % 3]), |t, (i, f)| convert(t, "opb2cnf", F::Opb, F::Cnf, i, *f, false));
    let v = insts(&seqs(&linears(), 0, cx.pick(1, 2)), &one(linear_objs()), 0);
    cx.run_idx("opb2wcnf", v.len() * 3, |k| (v[k / 3].clone(), firsts[k % 3]), |t, (i, f)| convert(t, "opb2wcnf", F::Opb, F::Wcnf, i, *f, false));
    let v = insts(&seqs(&linears(), 0, cx.pick(1, 2)), &seqs(&linear_objs(), 0, 2), 0);
    cx.run_idx("opb2mcnf", v.len() * 3, |k| (v[k / 3].clone(), firsts[k % 3]), |t, (i, f)| convert(t, "opb2mcnf", F::Opb, F::Mcnf, i, *f, false));
}

/// Paths, compression and file extensions
fn files(cx: &Ctx) {
    let i1 = Inst { n: 3, cons: clauses(&[&[1, 2], &[-2, 3]]), objs: vec![] };
    let i2 = Inst { objs: vec![Obj { softs: vec![(vec![-1], 2), (vec![-3], 1)], offset: 0 }], ..i1.clone() };
    let i3 = Inst { objs: vec![i2.objs[0].clone(), Obj { softs: vec![(vec![-2], 1)], offset: 0 }], ..i1.clone() };
    let conv = [
        ("cnf2opb", F::Cnf, F::Opb, &i1),
        ("wcnf2opb", F::Wcnf, F::Opb, &i2),
        ("mcnf2opb", F::Mcnf, F::Opb, &i3),
        ("opb2cnf", F::Opb, F::Cnf, &i1),
        ("opb2wcnf", F::Opb, F::Wcnf, &i2),
        ("opb2mcnf", F::Opb, F::Mcnf, &i3),
    ];
    let comp = ["", ".gz", ".bz2", ".xz"];
    cx.run_idx("paths", conv.len() * 16, |k| (conv[k / 16].0, comp[k / 4 % 4], comp[k % 4]), |t, (name, ci, co)| {
        let (_, from, to, i) = conv.iter().find(|c| c.0 == *name).unwrap();
        let f = File::with(&format!("{}{ci}", from.ext()), &from.text(i, 1));
        let o = File::unused(&format!("{}{co}", to.ext()));
        tool::run(name, &[&f.0, &o.0], "")?.ok()?;
        t.step(1);
        compare(i, to.read(&o.read()?, 1, i.objs.len())?)
    });
}

/// A permutation of the variables turns the input into the output
fn shuffled(i: &Inst, o: &Inst) -> Res {
    if o.n > i.n || o.cons.len() != i.cons.len() {
        return Err(format!("the output has {} variables and {} constraints", o.n, o.cons.len()));
    }
    let mut perms = vec![vec![]];
    for v in 1..=i.n as L {
        perms = perms.iter().flat_map(|p: &Vec<L>| (0..=p.len()).map(move |k| {
            let mut p = p.clone();
            p.insert(k, v);
            p
        })).collect();
    }
    for p in &perms {
        let m = |l: &L| p[l.unsigned_abs() as usize - 1] * l.signum();
        let q = Inst {
            n: i.n,
            cons: i.cons.iter().map(|c| Con { terms: c.terms.iter().map(|t| (t.0, m(&t.1))).collect(), ..c.clone() }).collect(),
            objs: i.objs.iter().map(|o| Obj { softs: o.softs.iter().map(|s| (s.0.iter().map(m).collect(), s.1)).collect(), offset: o.offset }).collect(),
        };
        if compare(&q, o.clone()).is_ok() {
            return Ok(());
        }
    }
    Err(format!("the output is not a renaming of the input: {o:?}"))
}

fn shuffle(cx: &Ctx) {
    let hard: &[&[L]] = &[&[1, 2], &[-3], &[-1, -2, 3], &[2], &[]];
    let soft: &[&[L]] = &[&[1], &[-2], &[1, -3], &[-1, 2, 4]];
    let rounds = cx.pick(2, 8);
    let sets = [
        (F::Cnf, insts(&seqs(&clauses(hard), 0, 3), &[vec![]], 4)),
        (F::Wcnf, insts(&seqs(&clauses(hard), 0, 1), &one(softs(soft, &[1, 3], 2)), 0)),
        (F::OldWcnf, insts(&seqs(&clauses(hard), 0, 1), &one(softs(soft, &[1, 3], 1)), 4)),
        (F::Mcnf, insts(&seqs(&clauses(hard), 0, 1), &seqs(&softs(soft, &[1, 2], 1)[1..], 1, 2), 0)),
    ];
    for (f, v) in &sets {
        cx.run_idx(&format!("shuffledimacs {f:?}"), v.len() * rounds, |k| (k % rounds, v[k / rounds].clone()), |t, (r, i)| {
            let c = ["", ".gz", ".bz2"][r % 3];
            let a = File::with(&format!("{}{c}", f.ext()), &f.text(i, 1));
            let b = File::unused(f.ext());
            tool::run("shuffledimacs", &[&a.0, &b.0], "")?.ok()?;
            t.step(1);
            let o = b.read()?;
            t.state(&o);
            shuffled(i, &f.read(&o, 1, i.objs.len())?)
        });
    }
}

/// Small instances of each format
fn mixed(cx: &Ctx) -> Vec<(F, Inst)> {
    let hard: &[&[L]] = &[&[1, 2], &[-3], &[-1, -2, 3], &[2], &[]];
    let soft: &[&[L]] = &[&[1], &[-2, 3], &[1, -3]];
    let mut v = vec![];
    for (f, s) in [
        (F::Cnf, insts(&seqs(&clauses(hard), 0, 2), &[vec![]], 3)),
        (F::Wcnf, insts(&seqs(&clauses(hard), 0, 1), &one(softs(soft, &[1, 3], cx.pick(1, 2))), 0)),
        (F::OldWcnf, insts(&seqs(&clauses(hard), 0, 1), &one(softs(soft, &[2], 1)), 3)),
        (F::Mcnf, insts(&seqs(&clauses(hard), 0, 1), &seqs(&softs(soft, &[2], 1)[1..], 1, 2), 0)),
        (F::Opb, insts(&seqs(&linears(), 0, 1), &seqs(&linear_objs(), 0, cx.pick(1, 2)), 0)),
    ] {
        v.extend(s.into_iter().filter(|i| i.n > 0).map(|i| (f, i)));
    }
    v
}
fn values(a: u64, n: usize) -> Vec<L> {
    (0..n).map(|v| if a >> v & 1 == 1 { v as L + 1 } else { -(v as L) - 1 }).collect()
}

fn check_solution(cx: &Ctx) {
    let v = mixed(cx);
    cx.bound("instances: check-solution", v.len());
    let cases: Vec<(F, Inst, u64)> = v.iter().flat_map(|(f, i)| (0..1u64 << i.n).map(move |a| (*f, i.clone(), a))).collect();
    cx.run("check-solution", &cases, |t, (f, i, a)| {
        let first = [1, 0, 2][*a as usize % 3];
        let vl = values(*a, i.n);
        let (x, y) = vl.split_at(i.n / 2);
        let show = |v: &[L]| v.iter().map(|x| format!(" {x}")).collect::<String>();
        let sol = if a % 2 == 0 { format!("c text\ns SATISFIABLE\nv{}\nv{} 0\n", show(x), show(y)) } else { format!("v{} 0\n", show(&vl)) };
        let inst = File::with(f.ext(), &f.text(i, first));
        let first = first.to_string();
        let o = if a % 4 < 2 {
            let s = File::with(".sol", &sol);
            tool::run("check-solution", &[&inst.0, &s.0, "--opb-first-var-idx", &first], "")?
        } else {
            tool::run("check-solution", &["--file-format", f.arg(), "--opb-first-var-idx", &first, &inst.0], &sol)?
        };
        t.step(1);
        if i.feasible(*a) {
            t.outcome("solution");
            let want: Vec<String> = i.costs(*a).iter().map(i64::to_string).collect();
            let got = o.ok()?;
            if got.trim_end() != format!("objective values: {}", want.join(", ")).trim_end() {
                return Err(format!("{got:?} instead of {want:?}"));
            }
        } else {
            t.outcome("no solution");
            if o.code != 1 || !o.out.starts_with("unsatisfied constraint") {
                return Err(format!("exit code {} for no solution: {} {}", o.code, o.out, o.err));
            }
        }
        Ok(())
    });
}

fn enumerate(cx: &Ctx) {
    let v = mixed(cx);
    let cases: Vec<(F, Inst, u32)> = v.iter().flat_map(|(f, i)| (0..5).map(move |k| (*f, i.clone(), k))).collect();
    cx.run("enumerator", &cases, |t, (f, i, k)| {
        let limit = [None, Some(1), Some(2), None, Some(0)][*k as usize];
        let quiet = *k == 3;
        let first = [1, 2, 0, 1, 1][*k as usize];
        let text = f.text(i, first);
        let file = File::with(f.ext(), &text);
        let first = first.to_string();
        let lim = limit.map(|l: usize| l.to_string());
        let mut args = vec!["--opb-first-var-idx", &first];
        if let Some(l) = &lim {
            args.extend(["--enumerate-until", l]);
        }
        if quiet {
            args.push("--no-objective-values");
        }
        let o = if *k % 2 == 0 {
            args.push(&file.0);
            tool::run("enumerator", &args, "")?
        } else {
            args.extend(["--input-format", f.arg()]);
            tool::run("enumerator", &args, &text)?
        };
        let o = o.ok()?;
        t.step(1);
        t.state(&o);
        let all: BTreeSet<u64> = (0..1u64 << i.n).filter(|a| i.feasible(*a)).collect();
        let mut got = BTreeSet::new();
        let mut n = 0;
        let mut value: Option<Vec<i64>> = None;
        for l in o.lines() {
            if let Some(x) = l.strip_prefix("o ") {
                if value.is_some() || quiet {
                    return Err(format!("unexpected line {l:?}"));
                }
                value = Some(x.split(' ').map(|x| x.parse().map_err(|_| format!("line {l:?}"))).collect::<Result<_, _>>()?);
            } else if let Some(x) = l.strip_prefix("v ") {
                n += 1;
                let mut cube = vec![0u64];
                if x.len() > i.n {
                    return Err(format!("line {l:?} has too many values"));
                }
                for p in 0..i.n {
                    match x.as_bytes().get(p) {
                        Some(b'0') => (),
                        Some(b'1') => cube.iter_mut().for_each(|c| *c |= 1 << p),
                        None | Some(b'_') => cube = cube.iter().flat_map(|c| [*c, *c | 1 << p]).collect(),
                        _ => return Err(format!("line {l:?}")),
                    }
                }
                for c in cube {
                    if !all.contains(&c) {
                        return Err(format!("{l:?} is not a solution"));
                    }
                    if !got.insert(c) {
                        return Err(format!("{l:?} was enumerated before"));
                    }
                    if !quiet && !i.objs.is_empty() && value.as_ref() != Some(&i.costs(c)) {
                        return Err(format!("{l:?} has objective values {value:?} instead of {:?}", i.costs(c)));
                    }
                }
                value = None;
            } else {
                return Err(format!("unexpected line {l:?}"));
            }
        }
        t.outcome(&format!("{} solutions", got.len()));
        match limit {
            Some(l) if n > l || (n < l && got != all) => Err(format!("{n} solutions of {}", all.len())),
            None if got != all => Err(format!("solutions {got:?} instead of {all:?}")),
            _ => Ok(()),
        }
    });
}

/// Unit propagation; None for a conflict
fn closure(c: &[Vec<L>], a: &[L]) -> Option<BTreeSet<L>> {
    let mut s: BTreeSet<L> = a.iter().copied().collect();
    loop {
        let before = s.len();
        for c in c {
            if c.iter().any(|l| s.contains(l)) {
                continue;
            }
            let free: BTreeSet<L> = c.iter().filter(|l| !s.contains(&-**l)).copied().collect();
            if free.len() == 1 {
                s.extend(free);
            } else if free.is_empty() {
                return None;
            }
        }
        if s.iter().any(|l| s.contains(&-l)) {
            return None;
        }
        if s.len() == before {
            return Some(s);
        }
    }
}

fn propagate(cx: &Ctx) {
    let cls: &[&[L]] = &[&[-1, 2], &[-2, 3], &[-1, -3], &[1, 2, 3], &[3], &[-2, -3, 4]];
    let v = insts(&seqs(&clauses(cls), 1, cx.pick(2, 3)), &[vec![]], 4);
    let assumps = seqs(&[1, -1, 2, -2, 3, -3, 4], 0, 2);
    let na = assumps.len();
    cx.run_idx("propagator", v.len() * na, |k| (v[k / na].clone(), assumps[k % na].clone()), |t, (i, a)| {
        let f = File::with(".cnf", &cnf(i));
        let s: Vec<String> = a.iter().map(|x| x.to_string()).collect();
        let mut args = vec![f.0.as_str(), "--"];
        args.extend(s.iter().map(String::as_str));
        propagated(t, i, a, tool::run("propagator", &args, "")?, true, 1)
    });
    let v = insts(&seqs(&linears(), 1, 2), &[vec![]], 0);
    let assumps = seqs(&[1i32, -2, 3], 0, 2);
    let na = assumps.len();
    cx.run_idx("propagator opb", v.len() * na, |k| (v[k / na].clone(), assumps[k % na].clone()), |t, (i, a)| {
        let first = (i.cons.len() as u32 + a.len() as u32) % 3;
        let f = File::with(".opb", &opb(i, first));
        let fs = first.to_string();
        let s: Vec<String> = a.iter().map(|x| if t.transitions % 2 == 0 { x.to_string() } else { format!("{}x{}", if *x < 0 { "~" } else { "" }, x.unsigned_abs() - 1 + first) }).collect();
        let mut args = vec!["--opb-first-var-idx", &fs, "--input-format", "opb", &f.0, "--"];
        args.extend(s.iter().map(String::as_str));
        propagated(t, i, a, tool::run("propagator", &args, "")?, false, first)
    });
}
fn propagated(t: &mut Tally, i: &Inst, a: &[L], o: tool::Out, exact: bool, _first: u32) -> Res {
    t.step(1);
    let conflict = o.code != 0;
    if conflict && !o.err.contains("conflict") {
        return Err(format!("exit code {}: {}", o.code, o.err));
    }
    let mut got = BTreeSet::new();
    if !conflict {
        for x in o.out.trim_end().split(',').filter(|x| !x.is_empty()) {
            let (neg, y) = match x.strip_prefix('~') {
                Some(y) => (true, y),
                None => (false, x),
            };
            let n: L = y.strip_prefix('x').and_then(|y| y.parse().ok()).ok_or_else(|| format!("output {:?}", o.out))?;
            got.insert(if neg { -n - 1 } else { n + 1 });
        }
    }
    t.outcome(&format!("{} literals", got.len()));
    if exact {
        let c = i.clauses();
        let top = closure(&c, &[]);
        match closure(&c, a) {
            None if conflict => Ok(()),
            None => Err(format!("no conflict, but {got:?}")),
            Some(_) if conflict => Err("a conflict".into()),
            Some(w) => {
                let top = top.unwrap_or_default();
                if !got.is_subset(&w) || w.iter().any(|x| !got.contains(x) && !a.contains(x) && !top.contains(x)) {
                    return Err(format!("{got:?} instead of {w:?}"));
                }
                Ok(())
            }
        }
    } else {
        let sols: Vec<u64> = (0..1u64 << i.n).filter(|s| i.feasible(*s) && a.iter().all(|l| clause(&[*l]).eval(*s))).collect();
        if conflict && !sols.is_empty() {
            return Err("a conflict".into());
        }
        for l in got.iter().filter(|l| l.unsigned_abs() as usize <= i.n) {
            if !conflict && sols.iter().any(|s| !clause(&[*l]).eval(*s)) {
                return Err(format!("{l} is not implied"));
            }
        }
        Ok(())
    }
}

/// The positions behind which weights in increasing order can be split, by the definition
fn splits(w: &[i64]) -> Vec<usize> {
    (1..w.len()).filter(|k| {
        let left: i64 = w[..*k].iter().sum();
        let mut sums = BTreeSet::from([0i64]);
        for x in &w[*k..] {
            sums.extend(sums.clone().iter().map(|s| s + x));
        }
        let s: Vec<i64> = sums.into_iter().collect();
        s.windows(2).all(|p| p[1] - p[0] > left)
    }).collect()
}

fn gbmo(cx: &Ctx) {
    let top = cx.pick(9, 14);
    let mut ws: Vec<Vec<i64>> = vec![vec![]];
    let mut weights = vec![];
    for _ in 0..cx.pick(4, 5) {
        ws = ws.iter().flat_map(|w| (*w.last().unwrap_or(&1)..=top).map(move |x| [w.clone(), vec![x]].concat())).collect();
        weights.extend(ws.clone());
    }
    cx.bound("weight sequences: gbmosplit", weights.len());
    let algs = ["bmo", "gcd", "gbmo"];
    let n = algs.len();
    cx.run_idx("gbmosplit weights", weights.len() * n, |k| (weights[k / n].clone(), algs[k % n]), |t, (w, alg)| {
        // one literal per weight, not in the order of the weights
        let mut softs: Vec<(Vec<L>, i64)> = w.iter().zip(1..).map(|(w, v)| (vec![if v % 2 == 0 { v } else { -v }], *w)).collect();
        softs.rotate_left(w.len() / 2);
        let i = Inst { n: w.len(), cons: vec![], objs: vec![Obj { softs, offset: 0 }] };
        let o = tool::run("gbmosplit", &["--split-alg", alg, "--input-format", "wcnf", "--always-dump"], &wcnf(&i))?;
        t.step(1);
        let m = split_output(t, &i, o, F::Mcnf)?;
        if w.iter().all(|x| *x == w[0]) || *alg != "gbmo" {
            return Ok(());
        }
        let want = splits(w).len() + 1;
        if m != want {
            return Err(format!("{m} objectives, but {want} are possible"));
        }
        Ok(())
    });
    // general clauses and all formats
    let hard: &[&[L]] = &[&[1, 2], &[-3]];
    let soft: &[&[L]] = &[&[1], &[-2, 3], &[1, -4], &[]];
    let v = insts(&seqs(&clauses(hard), 0, 1), &one(softs(soft, &[1, 4, 9], cx.pick(2, 3))), 0);
    let outs = [None, Some(F::Mcnf), Some(F::Opb)];
    cx.run_idx("gbmosplit wcnf", v.len() * 3, |k| (v[k / 3].clone(), outs[k % 3]), |t, (i, o)| split_case(t, i, F::Wcnf, *o, 1));
    let mut objs = linear_objs();
    objs.extend([linear(&[(1, 1), (-2, 2), (8, 3)]), linear(&[(1, -1), (4, 2), (4, -3), (20, 4)])]);
    let v = insts(&seqs(&linears(), 0, 1), &one(objs), 0);
    cx.run_idx("gbmosplit opb", v.len() * 3, |k| (v[k / 3].clone(), outs[k % 3]), |t, (i, o)| split_case(t, i, F::Opb, *o, (i.cons.len() * 2) as u32));
}
fn split_case(t: &mut Tally, i: &Inst, from: F, to: Option<F>, first: u32) -> Res {
    let f = File::with(from.ext(), &from.text(i, first));
    let fs = first.to_string();
    let mut args = vec!["--opb-first-var-idx", &fs];
    if let Some(o) = to {
        args.extend(["--output-format", o.arg()]);
    }
    let fmt = to.unwrap_or(if from == F::Opb { F::Opb } else { F::Mcnf });
    args.push(&f.0);
    // to a file
    let out = File::unused(fmt.ext());
    let mut o = tool::run("gbmosplit", &[&args[..], &[&out.0, "--always-dump"]].concat(), "")?;
    t.step(1);
    let code = o.code;
    o.out = out.read()?;
    let text = !o.out.is_empty();
    split_output_from(t, i, o, fmt, first)?;
    // to the standard output, and only if there is something to split
    let p = tool::run("gbmosplit", &args, "")?;
    if p.code != code || p.out.is_empty() == (text && code == 0) {
        return Err(format!("exit code {} and {:?} on the standard output, exit code {code} when writing a file", p.code, p.out));
    }
    if code == 0 {
        split_output_from(t, i, p, fmt, first)?;
    }
    Ok(())
}
fn split_output(t: &mut Tally, i: &Inst, o: tool::Out, f: F) -> Result<usize, String> {
    split_output_from(t, i, o, f, 1)
}
fn split_output_from(t: &mut Tally, i: &Inst, o: tool::Out, f: F, first: u32) -> Result<usize, String> {
    if o.code != 0 && (o.code != 1 || o.err.contains("error")) {
        return Err(format!("exit code {}: {} {}", o.code, o.err, o.out));
    }
    let n_objs = o.out.lines().find_map(|l| l.strip_prefix("c objective offsets: (")).map_or(1, |l| l.split_whitespace().count() - 1);
    let mut out = f.read(&o.out, first, n_objs)?;
    out.n = out.n.max(i.n);
    let m = out.objs.len();
    t.outcome(&format!("{m} objectives"));
    if (m > 1) != (o.code == 0) {
        return Err(format!("exit code {} for {m} objectives", o.code));
    }
    // the order of the solutions is the lexicographic one, the highest objective first
    let mut v = vec![];
    for a in 0..1u64 << i.n {
        let e = out.extensions(a, i.n);
        if e.is_empty() == i.feasible(a) {
            return Err(format!("{:?} is {}a solution of the output", values(a, i.n), if e.is_empty() { "not " } else { "" }));
        }
        if !e.is_empty() {
            let low: Vec<i64> = (0..m).rev().map(|k| e.iter().map(|v| v[k]).min().unwrap()).collect();
            v.push((i.costs(a)[0], low));
        }
    }
    for (x, p) in &v {
        for (y, q) in &v {
            if x.cmp(y) != p.cmp(q) {
                return Err(format!("solutions with costs {x} and {y} have split costs {p:?} and {q:?}"));
            }
        }
    }
    Ok(m)
}

fn ilp(cx: &Ctx) {
    let hard: &[&[L]] = &[&[1, 2], &[-3], &[-1, -2, 4], &[]];
    let soft: &[&[L]] = &[&[1], &[-2], &[1, -5], &[]];
    let modes = ["nothing", "remove", "assign-zero", ""];
    for (f, v) in [
        (F::Mcnf, insts(&seqs(&clauses(hard), 0, 1), &seqs(&softs(soft, &[1, 2], cx.pick(1, 2))[1..], 1, 2), 0)),
        (F::Opb, insts(&seqs(&linears(), 0, 1), &seqs(&linear_objs(), 0, 2), 0)),
    ] {
        let v: Vec<Inst> = v.into_iter().filter(|i| i.max_var() > 0).collect();
        cx.run_idx(&format!("mo2ilp {f:?}"), v.len() * 8, |k| (v[k / 8].clone(), modes[k % 4], k % 8 < 4), |t, (i, mode, bauss)| {
            let first = i.cons.len() as u32;
            let fs = first.to_string();
            let mut args = vec!["--first-var-idx", &fs, "--input-format", f.arg()];
            if !mode.is_empty() {
                args.extend(["--unused-vars", mode]);
            }
            if *bauss {
                args.extend(["--output-format", "bauss"]);
            } else if !mode.is_empty() {
                args.extend(["--output-format", "fgt"]);
            }
            let o = tool::run("mo2ilp", &args, &f.text(i, first))?.ok()?;
            t.step(1);
            t.state(&o);
            let o = read_ilp(&o, *bauss)?;
            let mut i = i.clone();
            let used: BTreeSet<L> = i.cons.iter().flat_map(lits).chain(i.objs.iter().flat_map(|o| &o.softs).flat_map(|s| s.0.clone())).map(L::abs).collect();
            match *mode {
                "nothing" => (),
                "remove" => {
                    let m = |l: &mut L| *l = l.signum() * (1 + used.iter().position(|u| *u == l.abs()).unwrap() as L);
                    i.cons.iter_mut().flat_map(|c| &mut c.terms).for_each(|t| m(&mut t.1));
                    i.objs.iter_mut().flat_map(|o| &mut o.softs).flat_map(|s| &mut s.0).for_each(m);
                    i.n = used.len();
                }
                _ => {
                    for v in 1..=i.n as L {
                        if !used.contains(&v) {
                            i.cons.push(clause(&[-v]));
                        }
                    }
                }
            }
            compare(&i, o)
        });
    }
}

fn errors(cx: &Ctx) {
    let cnfs = ["p cnf 2 1\n1 x 0\n", "1 2 0\n", "p cnf a 1\n1 0\n", "p cnf 1 1\n1 0 0 7\n"];
    let wcnfs = ["-1 1 0\n", "h 1 a 0\n", "x 1 0\n"];
    let mcnfs = ["o0 1 1 0\n", "o1 -2 1 0\n", "ox 1 1 0\n", "q\n"];
    let opbs = ["+1 y1 >= 1;\n", "1 x1 >= a;\n", "min: +1 x1 >= 2;\n"];
    let mut cases: Vec<(&str, Vec<&str>, &str)> = vec![];
    for c in cnfs {
        cases.push(("cnf2opb", vec![], c));
        cases.push(("enumerator", vec!["--input-format", "cnf"], c));
    }
    for c in wcnfs {
        cases.push(("wcnf2opb", vec![], c));
        cases.push(("enumerator", vec!["--input-format", "wcnf"], c));
        cases.push(("gbmosplit", vec!["--input-format", "wcnf"], c));
    }
    for c in mcnfs {
        cases.push(("mcnf2opb", vec![], c));
        cases.push(("enumerator", vec!["--input-format", "mcnf"], c));
        cases.push(("mo2ilp", vec!["--input-format", "mcnf"], c));
    }
    for c in opbs {
        for b in ["opb2cnf", "opb2wcnf", "opb2mcnf"] {
            cases.push((b, vec![], c));
        }
        cases.push(("enumerator", vec!["--input-format", "opb"], c));
        cases.push(("gbmosplit", vec!["--input-format", "opb"], c));
        cases.push(("mo2ilp", vec!["--input-format", "opb"], c));
    }
    for b in ["cnf2opb", "wcnf2opb", "mcnf2opb", "opb2cnf", "opb2wcnf", "opb2mcnf", "enumerator", "gbmosplit", "mo2ilp", "propagator", "check-solution"] {
        cases.push((b, vec!["/nonexistent/file.cnf"], ""));
        cases.push((b, vec!["--no-such-option"], ""));
    }
    cx.run("errors", &cases, |t, (b, args, text)| {
        let o = tool::run(b, args, text)?;
        t.step(1);
        t.outcome(&format!("code {}", o.code));
        if o.code == 0 {
            return Err(format!("success: {:?}", o.out));
        }
        if !o.out.trim().is_empty() && !o.out.contains("error") {
            return Err(format!("output in spite of an error: {:?}", o.out));
        }
        if o.err.contains("panicked") {
            return Err(format!("a panic instead of an error: {}", o.err));
        }
        Ok(())
    });
}

pub fn run(cx: &Ctx) {
    conversions(cx);
    files(cx);
    shuffle(cx);
    check_solution(cx);
    enumerate(cx);
    propagate(cx);
    gbmo(cx);
    ilp(cx);
    errors(cx);
    cx.assume("the renaming that shuffledimacs chooses is random; each input is run a fixed number of times and every result is judged by itself");
}
