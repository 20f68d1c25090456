//! P24 MaxSAT search against the minimum over all assignments
use crate::common::{cl, l, ls};
use crate::rt::{guarded, Ctx, Tally};
use crate::{check, ensure_eq};
use rustsat::algs::maxsat::{Solve as MaxSolve, SolutionImprovingSearch as Sis};
use rustsat::encodings::pb::{BinaryAdder, GeneralizedTotalizer as Gte};
use rustsat::instances::fio::dimacs::WcnfLine;
use rustsat::instances::{BasicVarManager, ManageVars, Objective, ObjectVarManager, OptInstance, SatInstance};
use rustsat::solvers::{simulators, Solve, SolveIncremental};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Assignment, Lit, TernaryVal, Var};

const NV: usize = 4;
const MAX: usize = 1 << NV;

#[derive(Clone, Debug, PartialEq)]
pub enum Hard {
    C(Vec<i32>),
    /// cardinality constraint
    K(Vec<i32>, char, usize),
    P(Vec<(i32, isize)>, char, isize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Soft {
    L(i32, usize),
    I(i32, isize),
    C(Vec<i32>, usize),
    O(isize),
}

fn lit(x: i32, a: usize) -> bool {
    (a >> (x.unsigned_abs() - 1) & 1 == 1) == (x > 0)
}
fn cmp(s: isize, op: char, b: isize) -> bool {
    match op {
        '<' => s <= b,
        '>' => s >= b,
        _ => s == b,
    }
}
impl Hard {
    fn ok(&self, a: usize) -> bool {
        match self {
            Hard::C(c) => c.iter().any(|x| lit(*x, a)),
            Hard::K(c, op, b) => cmp(c.iter().filter(|x| lit(**x, a)).count() as isize, *op, *b as isize),
            Hard::P(c, op, b) => cmp(c.iter().filter(|x| lit(x.0, a)).map(|x| x.1).sum(), *op, *b),
        }
    }
    fn add(&self, i: &mut SatInstance<impl ManageVars>) {
        match self {
            Hard::C(c) => i.add_clause(cl(c)),
            Hard::K(c, op, b) => i.add_card_constr(match op {
                '<' => CardConstraint::new_ub(ls(c), *b),
                '>' => CardConstraint::new_lb(ls(c), *b),
                _ => CardConstraint::new_eq(ls(c), *b),
            }),
            Hard::P(c, op, b) => {
                let c: Vec<(Lit, isize)> = c.iter().map(|x| (l(x.0), x.1)).collect();
                i.add_pb_constr(match op {
                    '<' => PbConstraint::new_ub(c, *b),
                    '>' => PbConstraint::new_lb(c, *b),
                    _ => PbConstraint::new_eq(c, *b),
                })
            }
        }
    }
    fn opb(&self) -> String {
        let op = |o: &char| match o {
            '<' => "<=",
            '>' => ">=",
            _ => "=",
        };
        let x = |i: i32| if i > 0 { format!("x{i}") } else { format!("~x{}", -i) };
        match self {
            Hard::C(c) => c.iter().map(|i| format!("1 {} ", x(*i))).collect::<String>() + ">= 1 ;\n",
            Hard::K(c, o, b) => c.iter().map(|i| format!("1 {} ", x(*i))).collect::<String>() + &format!("{} {b} ;\n", op(o)),
            Hard::P(c, o, b) => c.iter().map(|i| format!("{} {} ", i.1, x(i.0))).collect::<String>() + &format!("{} {b} ;\n", op(o)),
        }
    }
}
impl Soft {
    fn cost(&self, a: usize) -> isize {
        match self {
            Soft::L(x, w) => isize::from(lit(*x, a)) * *w as isize,
            Soft::I(x, w) => isize::from(lit(*x, a)) * *w,
            Soft::C(c, w) => isize::from(!c.iter().any(|x| lit(*x, a))) * *w as isize,
            Soft::O(o) => *o,
        }
    }
    fn add(&self, o: &mut Objective) {
        match self {
            Soft::L(x, w) => o.increase_soft_lit(*w, l(*x)),
            Soft::I(x, w) => o.increase_soft_lit_int(*w, l(*x)),
            Soft::C(c, w) => o.increase_soft_clause(*w, cl(c)),
            Soft::O(x) => o.increase_offset(*x),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Prob {
    hard: Vec<Hard>,
    soft: Vec<Soft>,
}
impl Prob {
    fn cost(&self, a: usize) -> Option<isize> {
        if self.hard.iter().all(|h| h.ok(a)) {
            Some(self.soft.iter().map(|s| s.cost(a)).sum())
        } else {
            None
        }
    }
    fn opt(&self) -> Option<isize> {
        (0..MAX).filter_map(|a| self.cost(a)).min()
    }
    /// The result of a search
    fn verify(&self, r: &Option<(Assignment, isize)>, t: &mut Tally) -> Result<(), String> {
        t.step(1);
        let opt = self.opt();
        ensure_eq!(r.as_ref().map(|r| r.1), opt, "optimum");
        let Some((asg, cost)) = r else {
            t.outcome("infeasible");
            return Ok(());
        };
        t.outcome("optimum");
        t.state((format!("{:?}", self.hard), format!("{:?}", self.soft)));
        // every way to complete the assignment is optimal
        for a in 0..MAX {
            if (0..NV).all(|v| match asg.var_value(Var::new(v as u32)) {
                TernaryVal::DontCare => true,
                x => (x == TernaryVal::True) == (a >> v & 1 == 1),
            }) {
                ensure_eq!(self.cost(a), Some(*cost), "cost of {asg} completed to {a:04b}");
            }
        }
        Ok(())
    }
    fn api<VM: ManageVars + Default>(&self, reserve: usize, softs_first: bool) -> OptInstance<VM> {
        let mut i = OptInstance::<VM>::default();
        for _ in 0..reserve {
            i.new_lit();
        }
        if softs_first {
            self.soft.iter().for_each(|s| s.add(i.objective_mut()));
        }
        self.hard.iter().for_each(|h| h.add(i.constraints_mut()));
        if !softs_first {
            self.soft.iter().for_each(|s| s.add(i.objective_mut()));
        }
        i
    }
    fn composed(&self) -> OptInstance {
        let mut c = SatInstance::new();
        self.hard.iter().for_each(|h| h.add(&mut c));
        let mut o = Objective::new();
        self.soft.iter().for_each(|s| s.add(&mut o));
        OptInstance::compose(c, o)
    }
    /// Clauses only
    fn wcnf(&self) -> Option<Vec<(Option<usize>, Vec<i32>)>> {
        let mut out = vec![];
        for h in &self.hard {
            let Hard::C(c) = h else { return None };
            out.push((None, c.clone()));
        }
        for s in &self.soft {
            match s {
                Soft::L(x, w) => out.push((Some(*w), vec![-*x])),
                Soft::C(c, w) => out.push((Some(*w), c.clone())),
                _ => return None,
            }
        }
        Some(out)
    }
    fn opb(&self) -> Option<String> {
        if self.hard.iter().any(|h| matches!(h, Hard::C(c) | Hard::K(c, ..) if c.is_empty()) || matches!(h, Hard::P(c, ..) if c.is_empty())) {
            return None;
        }
        let mut o = String::new();
        for s in &self.soft {
            let (x, w) = match s {
                Soft::L(x, w) => (*x, *w as isize),
                Soft::I(x, w) => (*x, *w),
                _ => return None,
            };
            o += &if x > 0 { format!("{w} x{x} ") } else { format!("{w} ~x{} ", -x) };
        }
        let mut txt = String::from("* #variable= 4 #constraint= 0\n");
        if o.is_empty() {
            // the reader wants an objective
            return None;
        }
        txt += &format!("min: {o};\n");
        self.hard.iter().for_each(|h| txt += &h.opb());
        Some(txt)
    }
}

pub struct Alg {
    name: &'static str,
    inst: fn(OptInstance) -> Option<(Assignment, isize)>,
    inst_obj: fn(OptInstance<ObjectVarManager>) -> Option<(Assignment, isize)>,
    direct: fn(&[Vec<i32>], u8, &[(i32, usize)]) -> Result<Option<(Assignment, usize)>, String>,
}

fn direct<A: MaxSolve>(f: &[Vec<i32>], pre: u8, obj: &[(i32, usize)]) -> Result<Option<(Assignment, usize)>, String>
where
    A::Solver: Default + SolveIncremental,
{
    let mut s = A::Solver::default();
    let e = |e: anyhow::Error| e.to_string();
    if pre == 1 {
        s.reserve(Var::new(6)).map_err(e)?;
    }
    for (i, c) in f.iter().enumerate() {
        if i == 1 && pre == 2 {
            s.solve().map_err(e)?;
        }
        s.add_clause(cl(c)).map_err(e)?;
    }
    match pre {
        3 => {
            s.solve().map_err(e)?;
        }
        4 => {
            s.solve_assumps(&[l(1), l(-2)]).map_err(e)?;
        }
        5 => {
            s.solve_assumps(&[l(5), l(-1), l(-5)]).map_err(e)?;
        }
        _ => (),
    }
    let obj: Vec<(Lit, usize)> = obj.iter().map(|x| (l(x.0), x.1)).collect();
    Ok(A::solve(&mut s, &obj))
}

fn algs() -> Vec<Alg> {
    let mut v = vec![];
    macro_rules! alg {
        ($($name:literal $slv:ty),* $(,)?) => {$(
            v.push(Alg { name: concat!($name, " gte"), inst: |i| i.solve_maxsat::<Sis<$slv, Gte>>(), inst_obj: |i| i.solve_maxsat::<Sis<$slv, Gte>>(), direct: direct::<Sis<$slv, Gte>> });
            v.push(Alg { name: concat!($name, " adder"), inst: |i| i.solve_maxsat::<Sis<$slv, BinaryAdder>>(), inst_obj: |i| i.solve_maxsat::<Sis<$slv, BinaryAdder>>(), direct: direct::<Sis<$slv, BinaryAdder>> });
        )*};
    }
    alg!(
        "batsat" rustsat_batsat::BasicSolver,
        "cadical" rustsat_cadical::CaDiCaL<'static, 'static>,
        "minisat-core" rustsat_minisat::core::Minisat,
        "minisat-simp" rustsat_minisat::simp::Minisat,
        "glucose-core" rustsat_glucose::core::Glucose,
        "ipasir" rustsat_ipasir::IpasirSolver<'static, 'static>,
        "sim-batsat" simulators::Incremental<rustsat_batsat::BasicSolver>,
        "sim-cadical" simulators::Incremental<rustsat_cadical::CaDiCaL<'static, 'static>>,
        "sim-glucose-simp" simulators::Incremental<rustsat_glucose::simp::Glucose>,
    );
    v
}

fn instance(p: &Prob, algs: &[Alg], t: &mut Tally) -> Result<(), String> {
    for a in algs {
        let mut one = |entry: &str, r: Result<Option<(Assignment, isize)>, String>| match r {
            Ok(r) => p.verify(&r, t).map_err(|m| format!("{}, {entry}: {m}", a.name)),
            Err(m) => Err(format!("{}, {entry}: {m}", a.name)),
        };
        one("api", guarded(|| (a.inst)(p.api::<BasicVarManager>(0, false))))?;
        one("reserved", guarded(|| (a.inst)(p.api::<BasicVarManager>(NV + 2, true))))?;
        one("object variables", guarded(|| (a.inst_obj)(p.api::<ObjectVarManager>(1, true))))?;
        one("composed", guarded(|| (a.inst)(p.composed())))?;
        if let Some(w) = p.wcnf() {
            one("lines", guarded(|| {
                let lines = w.iter().map(|(w, c)| match w {
                    None => WcnfLine::Hard(cl(c)),
                    Some(w) => WcnfLine::Soft(cl(c), *w),
                });
                (a.inst)(lines.collect())
            }))?;
            for old in [false, true] {
                let mut txt = String::new();
                if old {
                    txt += &format!("p wcnf 4 {} 1000\n", w.len());
                }
                for (w, c) in &w {
                    txt += &match w {
                        None if old => "1000".into(),
                        None => "h".into(),
                        Some(w) => w.to_string(),
                    };
                    for x in c {
                        txt += &format!(" {x}");
                    }
                    txt += " 0\n";
                }
                one(if old { "old wcnf" } else { "wcnf" }, guarded(|| (a.inst)(OptInstance::from_dimacs(&mut txt.as_bytes()).unwrap())))?;
            }
        }
        if let Some(txt) = p.opb() {
            one("opb", guarded(|| (a.inst)(OptInstance::from_opb(&mut txt.as_bytes(), rustsat::instances::fio::opb::Options::default()).unwrap())))?;
        }
    }
    Ok(())
}

/// Searches called with a solver that contains the clauses
fn given(t: &mut Tally, algs: &[Alg], (f, obj): &(Vec<Vec<i32>>, Vec<(i32, usize)>)) -> Result<(), String> {
    let p = Prob { hard: f.iter().map(|c| Hard::C(c.clone())).collect(), soft: obj.iter().map(|x| Soft::L(x.0, x.1)).collect() };
    for a in algs {
        for pre in 0..6 {
            let r = guarded(|| (a.direct)(f, pre, obj)).and_then(|x| x).map_err(|m| format!("{}, solver history {pre}: {m}", a.name))?;
            p.verify(&r.map(|(s, c)| (s, c as isize)), t).map_err(|m| format!("{}, solver history {pre}: {m}", a.name))?;
        }
    }
    Ok(())
}

/// Larger objectives, clauses of a known minimum
fn large() -> Vec<(String, Vec<Vec<i32>>, Vec<(i32, usize)>, usize)> {
    let mut out = vec![];
    for n in 3..=7i32 {
        // vertex covers of cycles and paths, all weights equal
        let mut f: Vec<Vec<i32>> = (1..n).map(|i| vec![i, i + 1]).collect();
        out.push((format!("path {n}"), f.clone(), (1..=n).map(|i| (i, 3)).collect(), 3 * (n as usize / 2)));
        f.push(vec![n, 1]);
        out.push((format!("cycle {n}"), f.clone(), (1..=n).map(|i| (i, 1)).collect(), (n as usize).div_ceil(2)));
        f.extend((1..=n).flat_map(|i| (1..i).map(move |j| vec![i, j])));
        out.push((format!("clique {n}"), f, (1..=n).map(|i| (i, 1 << i)).collect(), (1 << n) - 2));
    }
    out
}

pub fn run_p24(cx: &Ctx) {
    use Hard::{C, K, P};
    let al = algs();
    let hards: Vec<Hard> = vec![
        C(vec![1]),
        C(vec![-1]),
        C(vec![-2]),
        C(vec![1, 2]),
        C(vec![-1, -2]),
        C(vec![1, -2, 3]),
        C(vec![-3, -1]),
        C(vec![]),
        C(vec![1, -1]),
        C(vec![3, 4]),
        K(vec![1, 2, 3], '<', 1),
        K(vec![-1, 2, 3], '>', 2),
        K(vec![1, -2, 4], '=', 2),
        P(vec![(1, 2), (-2, 1), (3, 3)], '>', 3),
        P(vec![(1, 2), (2, -3), (3, 1)], '<', 0),
        P(vec![(1, 2), (2, 1), (4, 1)], '=', 2),
    ];
    use Soft::{I, L, O};
    let softs: Vec<Soft> = vec![
        L(1, 1),
        L(1, 2),
        L(-1, 1),
        L(-2, 3),
        L(2, 2),
        L(4, 2),
        I(3, -2),
        I(-3, 1),
        Soft::C(vec![1, 2], 1),
        Soft::C(vec![-1, 2, -3], 2),
        Soft::C(vec![-1, -2], 3),
        Soft::C(vec![1], 1),
        Soft::C(vec![2, 2], 2),
        Soft::C(vec![4, -4], 2),
        Soft::C(vec![], 2),
        L(3, 0),
        O(-3),
    ];
    let all = |n: usize, m: usize| {
        let hs = crate::rt::seqs(&(0..hards.len()).collect::<Vec<_>>(), 0, n);
        let hs: Vec<Vec<usize>> = hs.into_iter().filter(|h| h.windows(2).all(|w| w[0] < w[1])).collect();
        let ss = crate::rt::seqs(&(0..softs.len()).collect::<Vec<_>>(), 0, m);
        (hs, ss)
    };
    let dims: Vec<(usize, usize, bool)> = cx.pick(vec![(2, 2, true), (1, 3, false)], vec![(3, 2, true), (2, 3, true), (1, 4, false)]);
    cx.bound("hard constraints and soft constraints of an instance, all algorithms", format!("{dims:?}"));
    for (n, m, every) in dims {
        let (hs, ss) = all(n, m);
        let al: &[Alg] = if every { &al } else { &al[..4] };
        cx.run_forked(&format!("instances {n} {m}"), hs.len() * ss.len(), |i| Prob { hard: hs[i % hs.len()].iter().map(|x| hards[*x].clone()).collect(), soft: ss[i / hs.len()].iter().map(|x| softs[*x].clone()).collect() }, |t, p| instance(p, al, t));
    }
    let cls: Vec<Vec<i32>> = hards.iter().filter_map(|h| if let C(c) = h { Some(c.clone()) } else { None }).collect();
    let fs: Vec<Vec<Vec<i32>>> = crate::rt::seqs(&cls, 0, cx.pick(2, 3));
    let objs: Vec<Vec<(i32, usize)>> = crate::rt::seqs(&[(1, 1), (1, 2), (-1, 2), (2, 1), (-2, 3), (3, 0), (4, 2), (-4, 1)], 0, cx.pick(2, 3));
    cx.bound("clauses in a solver given to a search", cx.pick(2, 3));
    cx.run_forked("search", fs.len() * objs.len(), |i| (fs[i % fs.len()].clone(), objs[i / fs.len()].clone()), |t, c| given(t, &al, c));
    // preprocessing loses the clauses that a search adds later (see P20), which needs no enumeration to be seen
    let lost: Vec<(Vec<Vec<i32>>, Vec<(i32, usize)>)> = vec![(vec![vec![-2], vec![1]], vec![]), (vec![vec![-2], vec![1]], vec![(1, 1)])];
    let glu = Alg {
        name: "glucose-simp gte",
        inst: |i| i.solve_maxsat::<Sis<rustsat_glucose::simp::Glucose, Gte>>(),
        inst_obj: |i| i.solve_maxsat::<Sis<rustsat_glucose::simp::Glucose, Gte>>(),
        direct: direct::<Sis<rustsat_glucose::simp::Glucose, Gte>>,
    };
    cx.run_forked("glucose-simp", lost.len(), |i| lost[i].clone(), |t, (f, obj)| {
        let p = Prob { hard: f.iter().map(|c| Hard::C(c.clone())).collect(), soft: obj.iter().map(|x| Soft::L(x.0, x.1)).collect() };
        let r = (glu.direct)(f, 2, obj)?;
        p.verify(&r.map(|(s, c)| (s, c as isize)), t)
    });
    let lg = large();
    cx.run_forked("large", lg.len(), |i| lg[i].clone(), |t, (_, f, obj, opt)| {
        for a in &al {
            for pre in [0, 3] {
                let r = guarded(|| (a.direct)(f, pre, obj)).and_then(|x| x).map_err(|m| format!("{}: {m}", a.name))?;
                t.step(1);
                let Some((asg, c)) = r else { return Err(format!("{}: infeasible", a.name)) };
                ensure_eq!(c, *opt, "optimum, {}", a.name);
                for c in f {
                    check!(c.iter().any(|x| asg.lit_value(l(*x)) == TernaryVal::True), "{}: {c:?} is not satisfied", a.name);
                }
                let v: usize = obj.iter().filter(|x| asg.lit_value(l(x.0)) != TernaryVal::False).map(|x| x.1).sum();
                ensure_eq!(v, *opt, "cost of the assignment, {}", a.name);
            }
        }
        Ok(())
    });
}
