//! Solver output: status and value lines mean what they say
use crate::rt::*;
use crate::{check};
use rustsat::instances::fio::{parse_sat_solver_output, SatSolverOutputError, SolverOutput};
use rustsat::types::{Assignment, TernaryVal, Var};
use std::collections::BTreeMap;
use std::io::Cursor;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub enum St {
    Sat,
    Unsat,
    Unknown,
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum L {
    /// not significant
    Skip(String),
    Status(String, St),
    /// status line without a known status
    BadStatus(String),
    /// literals listed
    Val(String, Vec<i32>),
    /// values in the order of the variables
    Bits(String, Vec<bool>),
    BadVal(String),
}
use L::*;
pub fn txt(l: &L) -> &str {
    match l {
        Skip(s) | Status(s, _) | BadStatus(s) | Val(s, _) | Bits(s, _) | BadVal(s) => s,
    }
}

/// results that are right
#[derive(Debug)]
pub enum Want {
    Is(SolverOutput),
    Err,
    /// malformed in a place that does not matter for the status, or contradicting status lines
    NotSat,
    /// formats of values mixed
    NotUnsat,
}

fn values(ls: &[L]) -> Option<BTreeMap<u32, bool>> {
    let mut m = BTreeMap::new();
    let mut n = 0;
    for l in ls {
        match l {
            Val(_, v) => {
                for x in v {
                    if *m.entry(x.unsigned_abs() - 1).or_insert(*x > 0) != (*x > 0) {
                        return None;
                    }
                }
            }
            Bits(_, b) => {
                for x in b {
                    m.insert(n, *x);
                    n += 1;
                }
            }
            _ => (),
        }
    }
    Some(m)
}
fn assignment(m: &BTreeMap<u32, bool>) -> Assignment {
    let n = m.keys().max().map_or(0, |k| k + 1);
    (0..n)
        .map(|v| match m.get(&v) {
            Some(true) => TernaryVal::True,
            Some(false) => TernaryVal::False,
            None => TernaryVal::DontCare,
        })
        .collect()
}

pub fn want(ls: &[L]) -> Want {
    let mut st: Vec<St> = ls.iter().filter_map(|l| if let Status(_, s) = l { Some(*s) } else { None }).collect();
    st.sort_unstable();
    st.dedup();
    let bad_s = ls.iter().any(|l| matches!(l, BadStatus(_)));
    // no solver mixes value formats: what such output means is unspecified
    let mixed = ls.iter().any(|l| matches!(l, Val(..))) && ls.iter().any(|l| matches!(l, Bits(..)));
    if mixed && !st.is_empty() {
        return if st == [St::Sat] { Want::NotUnsat } else { Want::NotSat };
    }
    let vals = values(ls);
    let bad = bad_s || vals.is_none() || ls.iter().any(|l| matches!(l, BadVal(_)));
    match st[..] {
        [] => Want::Err,
        [St::Sat] if bad => Want::Err,
        [St::Sat] => {
            if ls.iter().any(|l| matches!(l, Val(..) | Bits(..))) {
                Want::Is(SolverOutput::Sat(assignment(&vals.unwrap())))
            } else {
                Want::Err
            }
        }
        _ if bad => Want::NotSat,
        [St::Unsat] => Want::Is(SolverOutput::Unsat),
        [St::Unknown] => Want::Is(SolverOutput::Unknown),
        _ => Want::NotSat,
    }
}

fn same(a: &SolverOutput, b: &SolverOutput) -> bool {
    match (a, b) {
        (SolverOutput::Sat(a), SolverOutput::Sat(b)) => {
            // values beyond the end are don't care
            let n = a.len().max(b.len()) as u32;
            (0..n).all(|v| a.var_value(Var::new(v)) == b.var_value(Var::new(v)))
        }
        (a, b) => a == b,
    }
}

pub fn ck(s: &str, got: Result<SolverOutput, SatSolverOutputError>, w: &Want) -> Result<(), String> {
    let ok = match (&got, w) {
        (Ok(a), Want::Is(b)) => same(a, b),
        (Err(_), Want::Err | Want::NotSat | Want::NotUnsat) => true,
        (Ok(a), Want::NotSat) => !matches!(a, SolverOutput::Sat(_)),
        (Ok(a), Want::NotUnsat) => !matches!(a, SolverOutput::Unsat),
        _ => false,
    };
    check!(ok, "{s:?} read as {got:?} instead of {w:?}");
    Ok(())
}

fn case(t: &mut Tally, c: &(Vec<L>, usize)) -> Result<(), String> {
    let (ls, style) = c;
    let eol = ["\n", "\r\n"][style % 2];
    let mut s: String = ls.iter().map(|l| format!("{}{eol}", txt(l))).collect();
    if style / 2 == 1 {
        s.truncate(s.len().saturating_sub(eol.len()));
    }
    t.state(&s);
    t.step(1);
    let w = want(ls);
    t.outcome(match &w {
        Want::Is(SolverOutput::Sat(_)) => "sat",
        Want::Is(SolverOutput::Unsat) => "unsat",
        Want::Is(SolverOutput::Unknown) => "unknown",
        Want::Err => "error",
        _ => "unspecified",
    });
    ck(&s, parse_sat_solver_output(Cursor::new(&s)), &w)
}

/// all values over some variables in all three notations, split over lines in all ways
fn split(t: &mut Tally, c: &(Vec<u8>, u32, usize, bool)) -> Result<(), String> {
    let (vals, cuts, fmt, late) = c;
    t.state(c);
    t.step(2);
    let mut body = String::from("v");
    let mut first = true;
    for (i, v) in vals.iter().enumerate() {
        if i > 0 && cuts >> (i - 1) & 1 == 1 {
            body += "\nc between\nv";
            first = true;
        }
        match fmt {
            0 if *v < 2 => body += &format!(" {}{}", if *v == 0 { "-" } else { "" }, i + 1),
            1 if *v < 2 => body += &format!(" {}x{}", if *v == 0 { "-" } else { "" }, i + 1),
            2 => {
                if first {
                    body += " ";
                }
                body += if *v == 0 { "0" } else { "1" };
            }
            _ => (),
        }
        first = false;
    }
    if *fmt == 0 {
        body += " 0";
    }
    // an empty line has no format, a single literal in a line of its own might be taken for bits
    let amb = *fmt == 0 && body.lines().any(|l| l.starts_with('v') && l.split_whitespace().count() < 3)
        || *fmt == 2 && body.lines().any(|l| l == "v 0")
        || body.lines().any(|l| l.trim_end() == "v");
    if amb {
        return Ok(());
    }
    let s = if *late { format!("c x\n{body}\ns SATISFIABLE\n") } else { format!("s SATISFIABLE\n{body}\n") };
    let m: BTreeMap<u32, bool> = vals.iter().enumerate().filter(|v| *v.1 < 2).map(|(i, v)| (i as u32, *v == 1)).collect();
    let w = Want::Is(SolverOutput::Sat(assignment(&m)));
    ck(&s, parse_sat_solver_output(Cursor::new(&s)), &w)?;
    Ok(())
}

fn file(t: &mut Tally, c: &(Vec<L>, &str)) -> Result<(), String> {
    t.state(c);
    t.step(1);
    let (ls, ext) = c;
    let s: String = ls.iter().map(|l| format!("{}\n", txt(l))).collect();
    let d = std::env::temp_dir().join(format!("mc-p19-{}-{:?}{}", std::process::id(), std::thread::current().id(), ext).replace(['(', ')'], ""));
    let r = (|| -> std::io::Result<_> {
        use std::io::Write;
        let mut w = rustsat::instances::fio::open_compressed_uncompressed_write(&d)?;
        w.write_all(s.as_bytes())?;
        drop(w);
        Ok(Assignment::from_solver_output_path(&d))
    })();
    let _ = std::fs::remove_file(&d);
    let r = r.map_err(|e| e.to_string())?;
    match (r, want(ls)) {
        (Ok(a), w @ Want::Is(SolverOutput::Sat(_))) => ck(&s, Ok(SolverOutput::Sat(a)), &w),
        (Ok(a), Want::NotUnsat) => { let _ = a; Ok(()) }
        (Ok(a), w) => Err(format!("{s:?} read from file as {a} instead of {w:?}")),
        (Err(e), Want::Is(SolverOutput::Sat(a))) => Err(format!("{s:?} read from file as {e} instead of {a}")),
        (Err(_), _) => Ok(()),
    }
}

pub fn run(cx: &Ctx) {
    let s = |x: &str| x.to_string();
    let al = vec![
        Skip(s("c comment")),
        Skip(s("")),
        Skip(s("o 17")),
        Skip(s("c s UNSATISFIABLE")),
        Status(s("s SATISFIABLE"), St::Sat),
        Status(s("s UNSATISFIABLE"), St::Unsat),
        Status(s("s UNKNOWN"), St::Unknown),
        BadStatus(s("s FOO")),
        Val(s("v 1 -2 0"), vec![1, -2]),
        Val(s("v 3 -4"), vec![3, -4]),
        Val(s("v -1 2 0"), vec![-1, 2]),
        Val(s("v -x2 x5"), vec![-2, 5]),
        Val(s("v 0"), vec![]),
        Bits(s("v 101"), vec![true, false, true]),
        BadVal(s("v 1 y 0")),
    ];
    let n = cx.pick(4, 5);
    let all = seqs(&al, 0, n);
    cx.run_idx("lines", all.len(), |i| (all[i].clone(), 0), case);
    drop(all);
    // further forms of single lines within each short context
    let more = vec![
        Status(s("s  SATISFIABLE"), St::Sat),
        Status(s("s SATISFIABLE  "), St::Sat),
        Status(s("s INDETERMINATE"), St::Unknown),
        Status(s("s UNSATISFIABLE "), St::Unsat),
        BadStatus(s("s SAT")),
        BadStatus(s("s UNSAT")),
        BadStatus(s("s ")),
        BadStatus(s("s satisfiable")),
        BadStatus(s("s OPTIMUM FOUND")),
        BadStatus(s("s NOT SATISFIABLE")),
        Skip(s("SATISFIABLE")),
        Skip(s("c")),
        Skip(s("cs SATISFIABLE")),
        Skip(s("t 12.3")),
        Skip(s("\u{e9}")),
        Skip(s("d 1 2 0")),
        Val(s("v  1   -2  0 "), vec![1, -2]),
        Val(s("v 9 -1 0"), vec![9, -1]),
        Val(s("v x1 ~x2"), vec![1, -2]),
        Val(s("v 2 2 0"), vec![2]),
        Bits(s("v 0110"), vec![false, true, true, false]),
        Bits(s("v 1"), vec![true]),
        BadVal(s("v 1 -1 0")),
        BadVal(s("v x1 -x1")),
        BadVal(s("v 1 2147483648 0")),
        BadVal(s("v 1 -99999999999 0")),
        BadVal(s("v x0 x1")),
        BadVal(s("v 1.5 2 0")),
        BadVal(s("v 1 x2")),
        Val(s("v 102"), vec![102]),
        BadVal(s("v \u{e9} 1 0")),
        BadVal(s("v - 1 0")),
    ];
    let ctx = seqs(&al, 0, 2);
    let mut cs = vec![];
    for m in &more {
        for c in &ctx {
            for k in 0..=c.len() {
                let mut v = c.clone();
                v.insert(k, m.clone());
                for style in 0..4 {
                    cs.push((v.clone(), style));
                }
            }
        }
        for m2 in &more {
            for c in &al {
                cs.push((vec![c.clone(), m.clone(), m2.clone()], 0));
                cs.push((vec![m.clone(), m2.clone(), c.clone()], 3));
            }
        }
    }
    cx.run("forms", &cs, case);
    let k = cx.pick(7usize, 10);
    let mut sp = vec![];
    for n in 0..=k {
        for vals in seqs(&[0u8, 1, 2], n, n) {
            if n > 6 && vals.contains(&2) {
                continue;
            }
            for cuts in 0..1u32 << n.saturating_sub(1) {
                for fmt in 0..3 {
                    if fmt == 2 && vals.contains(&2) {
                        continue;
                    }
                    sp.push((vals.clone(), cuts, fmt, (cuts + fmt as u32) % 2 == 1));
                }
            }
        }
    }
    cx.run("splits", &sp, split);
    let fl: Vec<(Vec<L>, &str)> = seqs(&al, 0, 2).into_iter().flat_map(|v| ["", ".gz", ".bz2", ".xz"].map(|e| (v.clone(), e))).collect();
    cx.run("files", &fl, file);
    cx.bound("lines", n);
    cx.bound("values", k);
    cx.assume("a single literal of digits 0 and 1 in a line of its own is taken for values in variable order, as documented");
    cx.assume("outputs with contradicting status lines are only required not to be read as satisfiable");
}
