//! P22 simulated incremental solvers and solvers run as external processes
use crate::common::{cl, ls};
use crate::drv::add_via;
use crate::hist::{contradictory, tt, Op, What, NV};
use crate::oracle::Dpll;
use crate::p19::{ck, txt, want, Want, L, St};
use crate::p20::{clauses, group};
use crate::rt::{seqs, Ctx, Tally};
use crate::{check, ensure_eq};
use rustsat::instances::fio::SolverOutput;
use rustsat::solvers::external::{InputVia, OutputVia};
use rustsat::solvers::{ExternalSolver, Solve, SolverResult, SolverState, StateError};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::Command;

const BASE: &str = "MC_P22_BASE";

// ---------------------------------------------------------------- the process side

/// This binary run as a solver process: what it does is in the environment
pub fn as_process() -> bool {
    let Ok(spec) = std::env::var("MC_FAKE") else { return false };
    let v: Value = serde_json::from_str(&spec).expect("specification of the process");
    let args: Vec<String> = std::env::args().collect();
    let instance = || -> String {
        let mut s = String::new();
        match v["read"].as_str().unwrap() {
            "never" => return s,
            "stdin" => {
                std::io::stdin().read_to_string(&mut s).unwrap();
            }
            w => {
                let p = if w == "first" { &args[1] } else { args.last().unwrap() };
                rustsat::instances::fio::open_compressed_uncompressed_read(p).unwrap().read_to_string(&mut s).unwrap();
            }
        }
        s
    };
    let mut inst = None;
    for a in v["acts"].as_array().unwrap() {
        let mut out = std::io::stdout();
        match (a[0].as_str().unwrap(), &a[1]) {
            ("read", _) => inst = Some(instance()),
            ("close", _) => unsafe {
                libc::close(0);
            },
            ("print", s) => {
                if out.write_all(s.as_str().unwrap().as_bytes()).and_then(|()| out.flush()).is_err() {
                    std::process::exit(3);
                }
            }
            ("pad", n) => {
                for _ in 0..n.as_u64().unwrap() {
                    if out.write_all(b"c 3456789012345678901234567890123456789012345678901234567890123\n").is_err() {
                        std::process::exit(3);
                    }
                }
            }
            ("dump", p) => {
                let env = [std::env::var("MC_X").ok(), std::env::var("MC_Y").ok(), std::env::var("MC_Z").ok()];
                let d = json!([inst, args, env, std::env::current_dir().unwrap().to_str()]);
                std::fs::write(p.as_str().unwrap(), d.to_string()).unwrap();
            }
            ("solve", _) => {
                let i = inst.take().unwrap_or_else(instance);
                let code = own_solver(&i, &mut out);
                out.flush().unwrap();
                std::process::exit(code);
            }
            ("kill", s) => unsafe {
                libc::kill(libc::getpid(), s.as_i64().unwrap() as i32);
            },
            ("exit", c) => std::process::exit(c.as_i64().unwrap() as i32),
            x => panic!("unknown action {x:?}"),
        }
    }
    true
}

/// Reads DIMACS by the letter
fn dimacs(s: &str) -> Result<(usize, usize, Vec<Vec<i32>>), String> {
    let mut head = None;
    let mut cls = vec![];
    let mut cur = vec![];
    for l in s.lines() {
        if l.starts_with('c') {
            continue;
        }
        if let Some(h) = l.strip_prefix("p cnf ") {
            check!(head.is_none() && cls.is_empty(), "header in the wrong place");
            let w: Vec<usize> = h.split(' ').map(|x| x.parse().map_err(|_| format!("header {l:?}"))).collect::<Result<_, _>>()?;
            check!(w.len() == 2, "header {l:?}");
            head = Some((w[0], w[1]));
            continue;
        }
        check!(head.is_some(), "no header before {l:?}");
        for w in l.split_whitespace() {
            let x: i32 = w.parse().map_err(|_| format!("line {l:?}"))?;
            if x == 0 {
                cls.push(std::mem::take(&mut cur));
            } else {
                check!(x.unsigned_abs() as usize <= head.unwrap().0, "variable of {l:?} beyond the header");
                cur.push(x);
            }
        }
    }
    let Some((v, c)) = head else { return Err("no header".into()) };
    check!(cur.is_empty() && c == cls.len(), "{c} clauses announced, {} given", cls.len());
    Ok((v, c, cls))
}

fn own_solver(s: &str, out: &mut impl Write) -> i32 {
    let Ok((n, _, cls)) = dimacs(s) else { return 1 };
    let mut o = Dpll::new();
    for c in &cls {
        o.add(ls(c));
    }
    if !o.sat(&[]) {
        writeln!(out, "s UNSATISFIABLE").unwrap();
        return 20;
    }
    let mut m = vec![];
    for v in 1..=n as i32 {
        m.push(v);
        if !o.sat(&ls(&m)) {
            *m.last_mut().unwrap() = -v;
        }
    }
    writeln!(out, "s SATISFIABLE").unwrap();
    let m: String = m.iter().map(|x| format!(" {x}")).collect();
    writeln!(out, "v{m} 0").unwrap();
    10
}

// ---------------------------------------------------------------- solvers

pub fn program(name: &str) -> Option<PathBuf> {
    ["/usr/bin", "/usr/local/bin"].iter().map(|d| Path::new(d).join(name)).find(|p| p.exists())
}

const INPUTS: [&str; 8] = ["file last", "file first", "temporary last", "temporary first", "pipe", "gz last", "xz first", "bz2 last"];

/// Directory of this process, and the one for temporary files in it
fn dirs() -> (PathBuf, PathBuf) {
    let base = std::env::var(BASE).map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("w{}", std::process::id()));
    let t = d.join("tmp");
    if !t.is_dir() {
        std::fs::create_dir_all(&t).unwrap();
        std::env::set_var("TMPDIR", &t);
    }
    (d, t)
}

fn input(i: usize) -> InputVia {
    let d = dirs().0;
    match i {
        0 => InputVia::file_last(d.join("in.cnf")),
        1 => InputVia::file_first(d.join("in.cnf")),
        2 => InputVia::tempfile_last(),
        3 => InputVia::tempfile_first(),
        4 => InputVia::pipe(),
        5 => InputVia::file_last(d.join("in.cnf.gz")),
        6 => InputVia::file_first(d.join("in.cnf.xz")),
        _ => InputVia::file_last(d.join("in.cnf.bz2")),
    }
}

fn in_path(i: usize) -> Option<PathBuf> {
    let n = match i {
        0 | 1 => "in.cnf",
        5 => "in.cnf.gz",
        6 => "in.cnf.xz",
        7 => "in.cnf.bz2",
        _ => return None,
    };
    Some(dirs().0.join(n))
}

fn output(o: usize) -> OutputVia {
    match o {
        0 => OutputVia::file(dirs().0.join("out.log")),
        _ => OutputVia::pipe(),
    }
}

fn fake(i: usize, acts: Value) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    let read = match i {
        1 | 3 | 6 => "first",
        4 => "stdin",
        _ => "last",
    };
    c.env("MC_FAKE", json!({"read": read, "acts": acts}).to_string());
    c
}

pub fn real(name: &str, i: usize, o: usize) -> ExternalSolver {
    let cmd = match name {
        "own" => fake(i, json!([["solve", 0]])),
        _ => {
            let mut c = Command::new(program(name).expect("solver binary"));
            c.arg("-q");
            c
        }
    };
    ExternalSolver::new(cmd, input(i), output(o), "external")
}

fn start() {
    let (d, t) = dirs();
    for e in std::fs::read_dir(&d).unwrap().flatten() {
        if e.path() != t {
            let _ = std::fs::remove_file(e.path());
        }
    }
}

fn no_rest() -> Result<(), String> {
    let (_, t) = dirs();
    let left: Vec<PathBuf> = std::fs::read_dir(&t).unwrap().flatten().map(|e| e.path()).collect();
    for p in &left {
        let _ = std::fs::remove_file(p);
    }
    check!(left.is_empty(), "temporary files are left behind: {left:?}");
    Ok(())
}

fn refused<T: std::fmt::Debug>(r: anyhow::Result<T>, req: SolverState, act: SolverState, what: &str) -> Result<(), String> {
    match r {
        Ok(v) => Err(format!("{what} answers {v:?} in state {act:?}")),
        Err(e) => match e.downcast::<StateError>() {
            Ok(e) => {
                ensure_eq!((e.required_state, e.actual_state), (req, act), "{what}: states of the error");
                Ok(())
            }
            Err(e) => Err(format!("{what}: error is no state error: {e}")),
        },
    }
}

/// Calls that must not be answered
fn closed(s: &mut ExternalSolver, act: SolverState, t: &mut Tally) -> Result<(), String> {
    for x in [1, -1, 3] {
        let x = crate::common::l(x);
        refused(s.lit_val(x), SolverState::Sat, act, "lit_val")?;
        refused(s.var_val(x.var()), SolverState::Sat, act, "var_val")?;
    }
    refused(s.solution(Var::new(3)), SolverState::Sat, act, "solution")?;
    t.step(7);
    Ok(())
}

/// After the call nothing can be added or solved again
fn done(s: &mut ExternalSolver, act: SolverState, t: &mut Tally) -> Result<(), String> {
    refused(s.solve(), SolverState::Input, act, "solving again")?;
    refused(s.add_clause(cl(&[1, 2])), SolverState::Input, act, "adding a clause after solving")?;
    refused(s.add_clause_ref(&cl(&[-1])), SolverState::Input, act, "adding a clause after solving")?;
    t.step(3);
    Ok(())
}

fn model(s: &ExternalSolver, m: &dyn Fn(u32) -> Option<TernaryVal>) -> Result<(), String> {
    for v in 0..9u32 {
        let (a, b) = (s.lit_val(Lit::positive(v)).map_err(|e| e.to_string())?, s.lit_val(Lit::negative(v)).map_err(|e| e.to_string())?);
        ensure_eq!(b, crate::hist::neg(a), "value of the negated literal of variable {v}");
        ensure_eq!(s.var_val(Var::new(v)).map_err(|e| e.to_string())?, a, "var_val of variable {v}");
        if let Some(x) = m(v) {
            ensure_eq!(a, x, "value of variable {v}");
        }
    }
    for hv in [0u32, 2, 5] {
        let a: Assignment = s.solution(Var::new(hv)).map_err(|e| e.to_string())?;
        for v in 0..=hv {
            ensure_eq!(a.var_value(Var::new(v)), s.var_val(Var::new(v)).unwrap(), "solution({hv}) for variable {v}");
        }
        ensure_eq!(a.var_value(Var::new(hv + 1)), TernaryVal::DontCare, "solution({hv}) beyond its end");
    }
    Ok(())
}

type Run = (&'static str, usize, usize, Vec<Vec<i32>>);

fn processes(t: &mut Tally, (name, i, o, f): &Run) -> Result<(), String> {
    start();
    let mut s = real(name, *i, *o);
    ensure_eq!(s.signature(), "external", "signature");
    let mut table: u16 = !0;
    for (k, c) in f.iter().enumerate() {
        add_via(&mut s, &cl(c), k + i).map_err(|e| format!("adding a clause fails: {e}"))?;
        table &= tt(&ls(c));
    }
    closed(&mut s, SolverState::Input, t)?;
    let r = s.solve().map_err(|e| format!("solve fails: {e}"))?;
    t.step(1);
    t.state((table, f.len()));
    t.outcome(&format!("{r:?}"));
    no_rest()?;
    ensure_eq!(r, if table != 0 { SolverResult::Sat } else { SolverResult::Unsat }, "verdict");
    if r == SolverResult::Sat {
        model(&s, &|_| None)?;
        for c in f {
            let ok = ls(c).iter().any(|x| s.lit_val(*x).unwrap() == TernaryVal::True);
            check!(ok || contradictory(&ls(c)), "model does not satisfy the clause {c:?}");
        }
        done(&mut s, SolverState::Sat, t)
    } else {
        closed(&mut s, SolverState::Unsat, t)?;
        done(&mut s, SolverState::Unsat, t)
    }
}

/// What the process is given: instance, arguments, environment, directory
fn instance(t: &mut Tally, (i, o, f, how): &(usize, usize, Vec<Vec<i32>>, usize)) -> Result<(), String> {
    start();
    let d = dirs().0;
    let dump = d.join("dump");
    let cwd = d.join("tmp").parent().unwrap().to_path_buf();
    let mut cmd = fake(*i, json!([["read", 0], ["dump", dump.to_str()], ["print", "s UNKNOWN\n"]]));
    cmd.args(["one", "--two=2 x", ""]).env("MC_X", "7 8").env("MC_Y", "").env_remove("MC_Z").current_dir(&cwd);
    let mut s = ExternalSolver::new(cmd, input(*i), output(*o), "fake");
    match how {
        5 => s.extend(f.iter().map(|c| cl(c))),
        6 => {
            let cs: Vec<Clause> = f.iter().map(|c| cl(c)).collect();
            s.extend(cs.iter());
        }
        _ => {
            for c in f {
                add_via(&mut s, &cl(c), *how).map_err(|e| format!("adding a clause fails: {e}"))?;
            }
        }
    }
    let r = s.solve().map_err(|e| format!("solve fails: {e}"))?;
    ensure_eq!(r, SolverResult::Interrupted, "result");
    no_rest()?;
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&dump).map_err(|e| e.to_string())?).unwrap();
    let (nv, _, cls) = dimacs(v[0].as_str().unwrap()).map_err(|e| format!("instance given to the process: {e}"))?;
    ensure_eq!(cls, *f, "clauses given to the process");
    let mv = f.iter().flatten().map(|x| x.unsigned_abs() as usize).max().unwrap_or(0);
    ensure_eq!(nv, mv, "number of variables given to the process");
    let mut args: Vec<&str> = v[1].as_array().unwrap().iter().skip(1).map(|x| x.as_str().unwrap()).collect();
    match i {
        4 => (),
        1 | 3 | 6 => {
            let p = args.remove(0);
            if let Some(e) = in_path(*i) {
                ensure_eq!(Path::new(p), e, "path of the instance");
            }
        }
        _ => {
            let p = args.pop().unwrap_or_default();
            if let Some(e) = in_path(*i) {
                ensure_eq!(Path::new(p), e, "path of the instance");
            }
        }
    }
    ensure_eq!(args, ["one", "--two=2 x", ""], "arguments of the process");
    ensure_eq!(v[2], json!(["7 8", "", null]), "environment of the process");
    ensure_eq!(v[3].as_str().map(PathBuf::from), std::fs::canonicalize(&cwd).ok(), "directory of the process");
    if let Some(p) = in_path(*i) {
        check!(p.exists(), "the persistent instance file is gone");
    }
    t.step(5);
    t.state((i, o, f));
    closed(&mut s, SolverState::Unknown, t)?;
    done(&mut s, SolverState::Unknown, t)
}

/// Output lines, how the process ends, and the channels
#[derive(Clone, Debug)]
struct Out {
    ls: Vec<L>,
    end: (&'static str, i32),
    i: usize,
    o: usize,
    cut: usize,
}

fn outputs(t: &mut Tally, c: &Out) -> Result<(), String> {
    start();
    let mut s: String = c.ls.iter().map(|l| format!("{}\n", txt(l))).collect();
    s.truncate(s.len().saturating_sub(c.cut));
    let cmd = fake(c.i, json!([["read", 0], ["print", s], [c.end.0, c.end.1]]));
    let mut sol = ExternalSolver::new(cmd, input(c.i), output(c.o), "fake");
    for x in [&[1, 2][..], &[-1, 3]] {
        sol.add_clause(cl(x)).map_err(|e| e.to_string())?;
    }
    let r = sol.solve();
    no_rest()?;
    t.step(1);
    t.state((&s, c.end));
    let w = want(&c.ls);
    let fine = c.end.0 == "exit" && [0, 10, 20].contains(&c.end.1);
    // exit codes are not compared with the output, a contradiction may be refused
    let contra = matches!((c.end.1, &w), (10, Want::Is(SolverOutput::Unsat)) | (20, Want::Is(SolverOutput::Sat(_))));
    t.outcome(if r.is_ok() { "verdict" } else { "error" });
    match r {
        Err(e) => {
            check!(!fine || contra || !matches!(w, Want::Is(_)), "{s:?} with {:?} is refused: {e}", c.end);
            closed(&mut sol, SolverState::Unknown, t)?;
            done(&mut sol, SolverState::Unknown, t)
        }
        Ok(_) if !fine => Err(format!("{r:?} from a process that ended with {:?}", c.end)),
        Ok(r) => {
            let got = match r {
                SolverResult::Interrupted => SolverOutput::Unknown,
                SolverResult::Unsat => SolverOutput::Unsat,
                SolverResult::Sat => SolverOutput::Sat(sol.solution(Var::new(110)).map_err(|e| e.to_string())?),
            };
            ck(&s, Ok(got), &w)?;
            match r {
                SolverResult::Sat => {
                    model(&sol, &|_| None)?;
                    done(&mut sol, SolverState::Sat, t)
                }
                SolverResult::Unsat => {
                    closed(&mut sol, SolverState::Unsat, t)?;
                    done(&mut sol, SolverState::Unsat, t)
                }
                SolverResult::Interrupted => {
                    closed(&mut sol, SolverState::Unknown, t)?;
                    done(&mut sol, SolverState::Unknown, t)
                }
            }
        }
    }
}

/// Orders of reading, printing and closing with amounts beyond the capacity of a pipe
#[derive(Clone, Debug)]
struct Plumb {
    acts: Vec<&'static str>,
    big: bool,
    i: usize,
    o: usize,
}

fn plumbing(t: &mut Tally, c: &Plumb) -> Result<(), String> {
    start();
    let acts: Vec<Value> = c
        .acts
        .iter()
        .map(|a| match *a {
            "pad" => json!(["pad", 4000]),
            "sat" => json!(["print", "s SATISFIABLE\nv 1 -2 3 0\n"]),
            "unsat" => json!(["print", "s UNSATISFIABLE\n"]),
            a => json!([a, 0]),
        })
        .collect();
    let mut sol = ExternalSolver::new(fake(c.i, json!(acts)), input(c.i), output(c.o), "fake");
    for _ in 0..if c.big { 30_000 } else { 2 } {
        sol.add_clause(cl(&[1, -2, 3])).map_err(|e| e.to_string())?;
    }
    let r = sol.solve();
    t.step(1);
    t.state(format!("{c:?}"));
    no_rest()?;
    let e = if c.acts.contains(&"sat") { SolverResult::Sat } else { SolverResult::Unsat };
    t.outcome(if r.is_ok() { "verdict" } else { "error" });
    match r {
        Ok(r) => {
            check!(c.acts.contains(&"sat") || c.acts.contains(&"unsat"), "{r:?} although the process gives no verdict");
            ensure_eq!(r, e, "result");
            Ok(())
        }
        // a process that does not read its input may be noticed
        Err(e) => {
            let verdict = c.acts.contains(&"sat") || c.acts.contains(&"unsat");
            check!(c.i == 4 && !c.acts.contains(&"read") || !verdict, "solve fails: {e}");
            Ok(())
        }
    }
}

/// Calls that cannot work
fn broken(t: &mut Tally, (k, i, o): &(usize, usize, usize)) -> Result<(), String> {
    start();
    t.step(1);
    let d = dirs().0;
    let nowhere = d.join("no").join("where");
    let (cmd, inp, out) = match k {
        0 => (Command::new(d.join("no-such-program")), input(*i), output(*o)),
        1 => (Command::new(&d), input(*i), output(*o)),
        2 => (fake(*i, json!([["solve", 0]])), InputVia::file_last(&nowhere), output(*o)),
        3 => (fake(1, json!([["solve", 0]])), InputVia::file_first(&nowhere), output(*o)),
        4 => (fake(*i, json!([["solve", 0]])), input(*i), OutputVia::file(&nowhere)),
        5 => (fake(*i, json!([["solve", 0]])), InputVia::file_last(&d), output(*o)),
        _ => (fake(*i, json!([["solve", 0]])), input(*i), OutputVia::file(&d)),
    };
    let mut s = ExternalSolver::new(cmd, inp, out, "broken");
    s.add_clause(cl(&[1])).map_err(|e| e.to_string())?;
    let r = s.solve();
    no_rest()?;
    check!(r.is_err(), "{r:?} from a call that cannot work");
    closed(&mut s, SolverState::Unknown, t)?;
    done(&mut s, SolverState::Unknown, t)
}

fn externals(cx: &Ctx) {
    let cls = clauses();
    let k = cx.pick(2, 3);
    cx.bound("clauses over three variables given to a solver process, all formulas", k);
    let mut fs: Vec<Vec<Vec<i32>>> = seqs(&(0..cls.len()).collect::<Vec<_>>(), 0, k)
        .into_iter()
        .filter(|f| f.windows(2).all(|w| w[0] <= w[1]))
        .map(|f| f.iter().map(|&i| cls[i].clone()).collect())
        .collect();
    for s in 0..8u8 {
        // all clauses of length three but some: unsatisfiable and with a single model
        let f: Vec<Vec<i32>> = cls.iter().filter(|c| c.len() == 3).enumerate().filter(|x| s == 0 || x.0 != s as usize).map(|x| x.1.clone()).collect();
        fs.push(f);
    }
    let mut runs: Vec<Run> = vec![];
    for name in ["own", "cadical", "kissat"] {
        if name != "own" && program(name).is_none() {
            continue;
        }
        for i in 0..8 {
            if i >= 5 && name != "own" {
                continue;
            }
            for o in 0..2 {
                if name == "kissat" && i % 2 == 1 && o == 0 {
                    continue;
                }
                runs.extend(fs.iter().enumerate().filter(|(n, _)| name != "own" || n % 2 == o).map(|(_, f)| (name, i, o, f.clone())));
            }
        }
    }
    cx.run_forked("processes", runs.len(), |i| runs[i].clone(), processes);
    let mut cases = vec![];
    let big: Vec<Vec<Vec<i32>>> = vec![
        vec![],
        vec![vec![]],
        vec![vec![1]],
        vec![vec![-7], vec![], vec![7, -7, 2]],
        vec![vec![2, 2, -1], vec![2, 2, -1], vec![-5, 3]],
        vec![vec![1_000_000, -999_999], vec![3]],
        vec![vec![(1 << 30) - 1, -1]],
        (1..=9).map(|i| (1..=i).collect()).collect(),
        vec![vec![1, 2, 3], vec![-1, -2], vec![4, -3, 2, 1, -6], vec![5]],
    ];
    for f in &big {
        for i in 0..8 {
            for o in 0..2 {
                for how in 0..7 {
                    cases.push((i, o, f.clone(), how));
                }
            }
        }
    }
    cx.run_forked("instance", cases.len(), |i| cases[i].clone(), instance);
    let s = |x: &str| x.to_string();
    let al = vec![
        L::Skip(s("c s SATISFIABLE")),
        L::Status(s("s SATISFIABLE"), St::Sat),
        L::Status(s("s UNSATISFIABLE"), St::Unsat),
        L::Status(s("s UNKNOWN"), St::Unknown),
        L::BadStatus(s("s FOO")),
        L::Val(s("v 1 -2 0"), vec![1, -2]),
        L::Val(s("v 3 -4"), vec![3, -4]),
        L::Val(s("v -1 2 0"), vec![-1, 2]),
        L::Bits(s("v 101"), vec![true, false, true]),
        L::BadVal(s("v 1 y 0")),
    ];
    let ends = [("exit", 0), ("exit", 10), ("exit", 20), ("exit", 1), ("exit", 255), ("kill", 9), ("kill", 6)];
    let mut cases = vec![];
    let n = cx.pick(2, 3);
    cx.bound("lines of solver output, all exit codes and channels", n);
    cx.bound("lines of solver output", n + 1);
    for ls in seqs(&al, 0, n) {
        for end in ends {
            for i in 0..5 {
                for o in 0..2 {
                    if ls.len() == 2 && cx.pick(i % 2 == 1, false) {
                        continue;
                    }
                    cases.push(Out { ls: ls.clone(), end, i, o, cut: 0 });
                }
            }
            cases.push(Out { ls: ls.clone(), end, i: 2, o: 1, cut: 1 });
        }
    }
    for ls in seqs(&al, n + 1, n + 1) {
        for (end, i, o) in [(("exit", 10), 2, 1), (("exit", 20), 4, 1), (("exit", 1), 2, 1)] {
            cases.push(Out { ls: ls.clone(), end, i, o, cut: 0 });
        }
    }
    cx.run_forked("outputs", cases.len(), |i| cases[i].clone(), outputs);
    let mut cases = vec![];
    for acts in seqs(&["read", "pad", "sat", "unsat", "close"], 0, 4) {
        let nv = acts.iter().filter(|a| ["sat", "unsat"].contains(a)).count();
        let rd = acts.iter().filter(|a| **a == "read").count();
        let closed = acts.iter().position(|a| *a == "close");
        if nv > 1 || rd > 1 || closed.is_some_and(|c| acts[c + 1..].contains(&"read") || acts[c + 1..].contains(&"close")) {
            continue;
        }
        for i in [0, 2, 4] {
            for o in 0..2 {
                for big in [false, true] {
                    cases.push(Plumb { acts: acts.clone(), big, i, o });
                }
            }
        }
    }
    cx.run_forked("plumbing", cases.len(), |i| cases[i].clone(), plumbing);
    let mut cases = vec![];
    for k in 0..7 {
        for i in 0..5 {
            for o in 0..2 {
                cases.push((k, i, o));
            }
        }
    }
    cx.run_forked("broken", cases.len(), |i| cases[i], broken);
}

fn alphabet() -> Vec<Op> {
    use Op::*;
    let mut a: Vec<Op> = [&[][..], &[1, 2], &[-1, 2], &[-2], &[-2, 3], &[1, 1, -3], &[4, -4], &[-3, 4]].iter().map(|c| Add(c.to_vec())).collect();
    a.push(Solve);
    a.extend([&[][..], &[1], &[-2], &[1, -3], &[3, -3], &[6], &[2, 2]].iter().map(|c| Assume(c.to_vec())));
    a.push(Reserve(5));
    a
}

pub fn run_p22(cx: &Ctx) {
    let base = std::env::temp_dir().join(format!("mc-p22-{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    std::env::set_var(BASE, &base);
    let w = What { answers: true, states: true, last_only: false };
    let _ = NV;
    let depth = cx.pick(3, 5);
    cx.bound("history length of simulated incremental solvers", depth);
    for (name, tr, ext) in crate::sol::sims() {
        let a = alphabet();
        let small: Vec<Op> = a.iter().enumerate().filter(|x| [1, 2, 3, 8, 10, 11, 14].contains(&x.0)).map(|x| x.1.clone()).collect();
        group(cx, &format!("{name}-histories"), name, tr, &a, if ext { depth - 1 } else { depth }, &w);
        group(cx, &format!("{name}-deep"), name, tr, &small, if ext { depth } else { depth + 2 }, &w);
    }
    if std::env::current_exe().unwrap().file_name().unwrap() == "mcs" {
        externals(cx);
    }
    let _ = std::fs::remove_dir_all(&base);
}
