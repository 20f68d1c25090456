//! DIMACS files: everything written reads back as the same instance
use crate::common::*;
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::instances::fio::dimacs::{
    write_cnf, write_cnf_annotated, write_mcnf, write_mcnf_annotated, write_wcnf, write_wcnf_annotated, CnfBody, CnfData, CnfHeader, CnfLine,
    Mcnf, McnfData, McnfLine, Parser, WcnfData, WcnfHeader, WcnfHeaderData, WcnfLine,
};
use rustsat::instances::fio::{open_compressed_uncompressed_read, open_compressed_uncompressed_write};
use rustsat::instances::{Cnf, MultiOptInstance, Objective, OptInstance, SatInstance};
use rustsat::types::{Clause, Lit, Var};
use std::io::Cursor;

type C = Vec<i32>;
/// highest variable that can be written
const BIG: i32 = i32::MAX;

fn text(v: &[u8]) -> String {
    String::from_utf8_lossy(v).into_owned()
}

fn cnf(hard: &[C]) -> Cnf {
    hard.iter().map(|c| cl(c)).collect()
}

fn raw(c: &Clause) -> Vec<Lit> {
    c.iter().copied().collect()
}

/// the textual form of a clause as the format defines it
fn cl_text(c: &[i32]) -> String {
    c.iter().map(|x| format!("{x} ")).collect::<String>() + "0"
}

fn sat_case(t: &mut Tally, c: &(Vec<C>, u32)) -> Result<(), String> {
    let (hard, more) = c;
    t.state(c);
    let mut x: SatInstance = hard.iter().map(|c| cl(c)).collect();
    for _ in 0..*more {
        if x.n_vars() < Var::MAX_IDX {
            x.new_var();
        }
    }
    let mut v = vec![];
    x.write_dimacs(&mut v).map_err(|e| format!("{e}"))?;
    let s = text(&v);
    // the file itself follows the format
    let lines: Vec<&str> = s.lines().filter(|l| !l.starts_with('c')).collect();
    let mut exp = vec![format!("p cnf {} {}", x.n_vars(), hard.len())];
    exp.extend(hard.iter().map(|c| cl_text(c)));
    ensure_eq!(lines, exp, "written file");
    let y = SatInstance::<rustsat::instances::BasicVarManager>::from_dimacs(Cursor::new(&v)).map_err(|e| format!("{e}"))?;
    ensure_eq!(y.n_vars(), x.n_vars(), "variables read");
    check!(y == x, "instance read differs: {y:?}");
    let mut w = vec![];
    x.cnf().write_dimacs(&mut w, x.n_vars()).map_err(|e| format!("{e}"))?;
    ensure_eq!(text(&w), s, "file written from the clauses only");
    let mut w = vec![];
    write_cnf_annotated(&mut w, x.cnf(), x.n_vars()).map_err(|e| format!("{e}"))?;
    ensure_eq!(text(&w), s, "file written by the function");
    // a clausal instance is read by the weighted reader of the new format, too
    t.step(6);
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum L {
    Cmt(&'static str),
    Cl(C),
    Soft(C, usize, usize),
}

/// line-based writing: comments at all places
fn cnf_lines(t: &mut Tally, c: &Vec<L>) -> Result<(), String> {
    t.step(1);
    t.state(format!("{c:?}"));
    let n_cl = c.iter().filter(|l| matches!(l, L::Cl(_))).count();
    let n_vars = c.iter().filter_map(|l| if let L::Cl(c) = l { c.iter().map(|x| x.unsigned_abs()).max() } else { None }).max().unwrap_or(0);
    // the header comes first, after leading comments
    let lead = c.iter().take_while(|l| matches!(l, L::Cmt(_))).count();
    let mut lines = vec![];
    let conv = |l: &L| match l {
        L::Cmt(s) => CnfLine::Comment((*s).into()),
        L::Cl(c) => CnfLine::Clause(cl(c)),
        L::Soft(..) => unreachable!(),
    };
    lines.extend(c[..lead].iter().map(conv));
    lines.push(CnfLine::Header(n_vars, n_cl));
    lines.extend(c[lead..].iter().map(conv));
    let mut v = vec![];
    write_cnf(&mut v, lines.into_iter()).map_err(|e| format!("{e}"))?;
    let s = text(&v);
    let cls: Vec<Clause> = c.iter().filter_map(|l| if let L::Cl(c) = l { Some(cl(c)) } else { None }).collect();
    // reading: comments before the header, then the body
    let mut p = Parser::<CnfHeader, _>::new(Cursor::new(&v));
    let mut cm = vec![];
    for x in p.by_ref() {
        cm.push(x.map_err(|e| format!("{s:?}: {e}"))?);
    }
    ensure_eq!(cm.len(), lead, "comments before the header in {s:?}");
    for (a, b) in cm.iter().zip(&c[..lead]) {
        let L::Cmt(b) = b else { unreachable!() };
        check!(a.trim_start_matches("c").trim() == b.trim(), "comment {b:?} read as {a:?} in {s:?}");
    }
    let h = p.forward_to_body().map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!((h.n_vars, h.n_clauses), (n_vars, n_cl), "header in {s:?}");
    let body: Result<Vec<CnfData>, _> = { let b: Parser<CnfBody, _> = h.body_parser; b.collect() };
    let body = body.map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(body.len(), c.len() - lead, "lines read from {s:?}");
    for (a, b) in body.iter().zip(&c[lead..]) {
        match (a, b) {
            (CnfData::Comment(a), L::Cmt(b)) => check!(a.trim_start_matches("c").trim() == b.trim(), "comment {b:?} read as {a:?} in {s:?}"),
            (CnfData::Clause(a), L::Cl(b)) => ensure_eq!(raw(a), ls(b), "clause read"),
            (a, b) => return Err(format!("{b:?} is read as {a:?} in {s:?}")),
        }
    }
    // without iterating over the comments first
    let y = SatInstance::<rustsat::instances::BasicVarManager>::from_dimacs(Cursor::new(&v)).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(y.cnf().iter().cloned().collect::<Vec<_>>(), cls, "clauses read from {s:?}");
    ensure_eq!(y.n_vars(), n_vars, "variables read from {s:?}");
    Ok(())
}

/// costs of all assignments over `n` variables, from public queries only
fn costs(o: &Objective, vars: &[u32]) -> Vec<i128> {
    let t: Vec<(Vec<Lit>, usize)> = o.iter_soft_cls().into_iter().map(|(c, w)| (raw(&c), w)).collect();
    (0..1u32 << vars.len())
        .map(|m| {
            let f = |l: Lit| vars.iter().position(|v| *v == l.vidx32()).is_some_and(|i| (m >> i & 1 == 1) != l.is_neg());
            o.offset() as i128 + t.iter().map(|(c, w)| if c.iter().any(|&l| f(l)) { 0 } else { *w as i128 }).sum::<i128>()
        })
        .collect()
}
fn direct(soft: &[(C, usize)], vars: &[u32]) -> Vec<i128> {
    (0..1u32 << vars.len())
        .map(|m| {
            let f = |l: Lit| vars.iter().position(|v| *v == l.vidx32()).is_some_and(|i| (m >> i & 1 == 1) != l.is_neg());
            soft.iter().map(|(c, w)| if ls(c).iter().any(|&l| f(l)) { 0 } else { *w as i128 }).sum::<i128>()
        })
        .collect()
}
fn vars_of(hard: &[C], soft: &[(C, usize)]) -> Vec<u32> {
    let mut v: Vec<u32> = hard.iter().chain(soft.iter().map(|s| &s.0)).flatten().map(|x| x.unsigned_abs() - 1).collect();
    v.sort_unstable();
    v.dedup();
    v
}
/// all costs agree up to the constant that the format has no place for
fn same(a: &[i128], b: &[i128], off: i128) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a + off == *b)
}

fn read_opt(s: &str) -> Result<OptInstance, String> {
    OptInstance::from_dimacs(Cursor::new(s.as_bytes())).map_err(|e| format!("{s:?}: {e}"))
}

fn opt_case(t: &mut Tally, c: &(Vec<C>, Vec<(C, usize)>, isize)) -> Result<(), String> {
    let (hard, soft, off) = c;
    t.state(c);
    let vars = vars_of(hard, soft);
    let want = direct(soft, &vars);
    let mut o = Objective::new();
    for (c, w) in soft {
        o.increase_soft_clause(*w, cl(c));
    }
    o.increase_offset(*off);
    let s: SatInstance = hard.iter().map(|c| cl(c)).collect();
    let x = OptInstance::compose(s, o.clone());
    let ck = |y: OptInstance, how: &str, s: &str, off: isize| -> Result<(), String> {
        let (a, b) = y.decompose();
        ensure_eq!(a.cnf().clone(), cnf(hard), "hard clauses, {how}, {s:?}");
        ensure_eq!((a.n_cards(), a.n_pbs()), (0, 0), "other constraints, {how}");
        for v in &vars {
            check!(*v < a.n_vars(), "variable {v} is not in use after reading, {how}, {s:?}");
        }
        let got = costs(&b, &vars);
        check!(same(&got, &want, off as i128), "costs read {got:?} instead of {want:?}, {how}, {s:?}");
        Ok(())
    };
    // the new format, from the instance
    let mut v = vec![];
    x.write_dimacs(&mut v).map_err(|e| format!("{e}"))?;
    let s = text(&v);
    // the empty soft clauses of the objective are part of its offset
    let empties: isize = soft.iter().filter(|s| s.0.is_empty()).map(|s| s.1 as isize).sum();
    ck(read_opt(&s)?, "instance", &s, empties)?;
    for l in s.lines() {
        check!(l.starts_with("c ") || l.starts_with("h ") || l.starts_with(|c: char| c.is_ascii_digit()), "line {l:?} written");
        check!(l.starts_with("c ") || l.ends_with(" 0"), "line {l:?} written");
    }
    check!(
        s.lines().any(|l| l.starts_with("c ") && l.contains("offset") && l.ends_with(&format!(" {}", off + empties))),
        "the offset is not reported in {s:?}"
    );
    // soft clauses as they are, from functions
    let mut v = vec![];
    let sc: Vec<(Clause, usize)> = soft.iter().map(|(c, w)| (cl(c), *w)).collect();
    write_wcnf_annotated(&mut v, &cnf(hard), (sc, *off), None).map_err(|e| format!("{e}"))?;
    let s = text(&v);
    ck(read_opt(&s)?, "function", &s, 0)?;
    // line-based, soft clauses first
    let mut v = vec![];
    let mut lines: Vec<WcnfLine> = soft.iter().map(|(c, w)| WcnfLine::Soft(cl(c), *w)).collect();
    lines.insert(0, WcnfLine::Comment("first".into()));
    lines.push(WcnfLine::Comment("h 1 0".into()));
    lines.extend(hard.iter().map(|c| WcnfLine::Hard(cl(c))));
    write_wcnf(&mut v, lines.into_iter()).map_err(|e| format!("{e}"))?;
    let s = text(&v);
    ck(read_opt(&s)?, "lines", &s, 0)?;
    // the parser's own view
    let mut p = Parser::<WcnfHeader, _>::new(Cursor::new(s.as_bytes()));
    let n = p.by_ref().count();
    match p.forward_to_body().map_err(|e| format!("{s:?}: {e}"))? {
        WcnfHeaderData::Post22(b) => {
            let d: Result<Vec<WcnfData>, _> = b.collect();
            let d = d.map_err(|e| format!("{s:?}: {e}"))?;
            let mut want: Vec<WcnfData> = soft.iter().map(|(c, w)| WcnfData::SoftClause { weight: *w, clause: cl(c) }).collect();
            want.extend(hard.iter().map(|c| WcnfData::HardClause(cl(c))));
            let got: Vec<WcnfData> = d.into_iter().filter(|x| !matches!(x, WcnfData::Comment(_))).collect();
            ensure_eq!(got, want, "data in {s:?}");
        }
        WcnfHeaderData::Empty(_) => check!(hard.is_empty() && soft.is_empty() && n == 2, "nothing read from {s:?}"),
        x => return Err(format!("{s:?} read as {x:?}")),
    }
    // the old format
    let top: usize = soft.iter().map(|s| s.1).sum::<usize>() + 1;
    for top in [top, top.max(2).saturating_mul(10), usize::MAX] {
        let mut s = format!("c old format\np wcnf {} {} {top}\n", vars.last().map_or(0, |v| v + 1), hard.len() + soft.len());
        for (i, c) in hard.iter().enumerate() {
            // any weight from the top is hard
            s += &format!("{} {}\n", if i % 2 == 1 { usize::MAX } else { top }, cl_text(c));
        }
        for (c, w) in soft {
            s += &format!("{w} {}\n", cl_text(c));
        }
        ck(read_opt(&s)?, "old format", &s, 0)?;
        let WcnfHeaderData::Pre22 { n_vars, n_clauses, top: tp, body_parser } =
            Parser::<WcnfHeader, _>::new(Cursor::new(s.as_bytes())).forward_to_body().map_err(|e| format!("{e}"))?
        else {
            return Err(format!("{s:?} is not taken for the old format"));
        };
        ensure_eq!((n_vars, n_clauses, tp), (vars.last().map_or(0, |v| v + 1), hard.len() + soft.len(), top), "header of {s:?}");
        ensure_eq!(body_parser.count(), n_clauses, "clauses of {s:?}");
    }
    t.step(9);
    Ok(())
}

fn multi_case(t: &mut Tally, c: &(Vec<C>, Vec<Vec<(C, usize)>>)) -> Result<(), String> {
    let (hard, softs) = c;
    t.state(c);
    let all: Vec<(C, usize)> = softs.iter().flatten().cloned().collect();
    let vars = vars_of(hard, &all);
    let objs: Vec<Objective> = softs
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let mut o = Objective::new();
            s.iter().for_each(|(c, w)| o.increase_soft_clause(*w, cl(c)));
            o.increase_offset(i as isize * 3 - 3);
            o
        })
        .collect();
    let offs: Vec<isize> = softs.iter().map(|s| s.iter().filter(|s| s.0.is_empty()).map(|s| s.1 as isize).sum()).collect();
    let s: SatInstance = hard.iter().map(|c| cl(c)).collect();
    let x = MultiOptInstance::compose(s, objs.clone());
    let ck = |s: &str, how: &str, offs: &[isize]| -> Result<(), String> {
        let y = MultiOptInstance::<rustsat::instances::BasicVarManager>::from_dimacs(Cursor::new(s.as_bytes())).map_err(|e| format!("{s:?}: {e}"))?;
        let (a, b) = y.decompose();
        ensure_eq!(a.cnf().clone(), cnf(hard), "hard clauses, {how}, {s:?}");
        check!(b.len() <= softs.len(), "{} objectives read, {how}, {s:?}", b.len());
        for v in &vars {
            check!(*v < a.n_vars(), "variable {v} is not in use after reading, {how}, {s:?}");
        }
        for (k, so) in softs.iter().enumerate() {
            let want = direct(so, &vars);
            // an objective without soft clauses at the end does not show up
            let got = costs(b.get(k).unwrap_or(&Objective::new()), &vars);
            check!(same(&got, &want, offs[k] as i128), "costs of objective {k} read {got:?} instead of {want:?}, {how}, {s:?}");
        }
        Ok(())
    };
    let mut v = vec![];
    x.write_dimacs(&mut v).map_err(|e| format!("{e}"))?;
    let s = text(&v);
    // an empty soft clause is part of the offset of the objective
    ck(&s, "instance", &offs)?;
    check!(s.lines().any(|l| l.contains("offset") && l.contains(&format!("( {})", objs.iter().map(|o| format!("{} ", o.offset())).collect::<String>()))), "offsets not reported in {s:?}");
    let mut v = vec![];
    let sc: Vec<(Vec<(Clause, usize)>, isize)> = softs.iter().map(|s| (s.iter().map(|(c, w)| (cl(c), *w)).collect(), 1)).collect();
    write_mcnf_annotated(&mut v, &cnf(hard), sc.into_iter(), Some(7)).map_err(|e| format!("{e}"))?;
    let s = text(&v);
    ck(&s, "function", &vec![0; softs.len()])?;
    // line-based, objectives in reversed order
    let mut lines = vec![McnfLine::Comment("o 9 1 0".into())];
    for (k, so) in softs.iter().enumerate().rev() {
        lines.extend(so.iter().map(|(c, w)| McnfLine::Soft(cl(c), *w, k)));
        lines.push(McnfLine::Comment("x".into()));
    }
    lines.extend(hard.iter().map(|c| McnfLine::Hard(cl(c))));
    let want: Vec<McnfLine> = {
        let mut w = vec![];
        for (k, so) in softs.iter().enumerate().rev() {
            w.extend(so.iter().map(|(c, x)| McnfLine::Soft(cl(c), *x, k)));
        }
        w.extend(hard.iter().map(|c| McnfLine::Hard(cl(c))));
        w
    };
    let mut v = vec![];
    write_mcnf(&mut v, lines.into_iter()).map_err(|e| format!("{e}"))?;
    let s = text(&v);
    ck(&s, "lines", &vec![0; softs.len()])?;
    let d: Result<Vec<McnfData>, _> = Parser::<Mcnf, _>::new(Cursor::new(s.as_bytes())).collect();
    let d: Vec<McnfData> = d.map_err(|e| format!("{s:?}: {e}"))?.into_iter().filter(|x| !matches!(x, McnfData::Comment(_))).collect();
    ensure_eq!(d.len(), want.len(), "lines read from {s:?}");
    for (a, b) in d.iter().zip(&want) {
        let ok = match (a, b) {
            (McnfData::HardClause(a), McnfLine::Hard(b)) => a == b,
            (McnfData::SoftClause { obj_idx, weight, clause }, McnfLine::Soft(c, w, k)) => (obj_idx, weight, clause) == (&(k + 1), w, c),
            _ => false,
        };
        check!(ok, "{b:?} read as {a:?} in {s:?}");
    }
    // reading without soft clauses as a single objective is refused or harmless, never wrong: not stated
    t.step(4);
    Ok(())
}

/// files, with and without compression
fn file_case(t: &mut Tally, c: &(&str, usize)) -> Result<(), String> {
    t.state(c);
    t.step(3);
    let (ext, n) = *c;
    let dir = std::env::temp_dir().join(format!("mc-p16-{}-{ext}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let r = (|| -> Result<(), String> {
        let e = |e: &dyn std::fmt::Display| format!("{e}");
        let hard: Vec<C> = (0..n).map(|i| vec![i as i32 + 1, -(i as i32 / 2) - 1, 1 << (i % 31)]).collect();
        let x: SatInstance = hard.iter().map(|c| cl(c)).collect();
        let p = dir.join(format!("a.cnf{ext}"));
        x.write_dimacs_path(&p).map_err(|x| e(&x))?;
        let y = SatInstance::from_dimacs_path(&p).map_err(|x| e(&x))?;
        check!(x == y, "instance read from file differs");
        let magic: &[u8] = match ext {
            ".gz" => &[0x1f, 0x8b],
            ".bz2" => b"BZh",
            ".xz" => &[0xfd, b'7', b'z', b'X', b'Z'],
            _ => b"c ",
        };
        check!(std::fs::read(&p).map_err(|x| e(&x))?.starts_with(magic), "file is not compressed as its name says");
        x.cnf().write_dimacs_path(&p, x.n_vars()).map_err(|x| e(&x))?;
        check!(SatInstance::from_dimacs_path(&p).map_err(|x| e(&x))? == x, "instance read from file written from clauses differs");
        let o: Objective = hard.iter().enumerate().map(|(i, c)| (cl(c), i % 5 + 1)).collect();
        let x = OptInstance::compose(x, o);
        let p = dir.join(format!("a.wcnf{ext}"));
        x.write_dimacs_path(&p).map_err(|x| e(&x))?;
        let y = OptInstance::from_dimacs_path(&p).map_err(|x| e(&x))?;
        ensure_eq!(sorted(y.objective_ref()), sorted(x.objective_ref()), "objective read from file");
        check!(x.constraints_ref() == y.constraints_ref(), "constraints read from file differ");
        let (s, o) = x.decompose();
        let x = MultiOptInstance::compose(s, vec![Objective::new(), o]);
        let p = dir.join(format!("a.mcnf{ext}"));
        x.write_dimacs_path(&p).map_err(|x| e(&x))?;
        let y = MultiOptInstance::from_dimacs_path(&p).map_err(|x| e(&x))?;
        check!(x.constraints_ref() == y.constraints_ref(), "constraints read from file differ");
        if n > 0 {
            ensure_eq!(y.n_objectives(), 2, "objectives read from file");
            ensure_eq!(sorted(y.objective_ref(1)), sorted(x.objective_ref(1)), "objective read from file");
        }
        // raw bytes
        let p = dir.join(format!("raw{ext}"));
        let data: Vec<u8> = (0..n * 1000).map(|i| (i * i % 251) as u8).collect();
        {
            use std::io::Write;
            let mut w = open_compressed_uncompressed_write(&p).map_err(|x| e(&x))?;
            for c in data.chunks(77) {
                w.write_all(c).map_err(|x| e(&x))?;
            }
        }
        let mut got = vec![];
        std::io::Read::read_to_end(&mut open_compressed_uncompressed_read(&p).map_err(|x| e(&x))?, &mut got).map_err(|x| e(&x))?;
        check!(got == data, "bytes read differ from bytes written");
        check!(SatInstance::<rustsat::instances::BasicVarManager>::from_dimacs_path(dir.join("missing.cnf")).is_err(), "missing file accepted");
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn sorted(o: &Objective) -> Vec<(Clause, usize)> {
    let mut v: Vec<(Clause, usize)> = o.iter_soft_cls().into_iter().collect();
    v.sort();
    v
}

/// an instance with other than clauses is refused, not truncated
fn refuse(t: &mut Tally, c: &(usize, usize, usize)) -> Result<(), String> {
    use rustsat::types::constraints::{CardConstraint, PbConstraint};
    let (a, b, k) = *c;
    t.state(c);
    t.step(3);
    let mut s: SatInstance = SatInstance::new();
    s.add_clause(cl(&[1, 2]));
    for _ in 0..a {
        s.add_card_constr(CardConstraint::new_ub([l(1), l(2), l(3)], 1));
    }
    for _ in 0..b {
        s.add_pb_constr(PbConstraint::new_ub([(l(1), 2), (l(2), 1)], 2));
    }
    let want = a + b == 0;
    let mut v = vec![];
    let r = match k {
        0 => s.write_dimacs(&mut v).is_ok(),
        1 => OptInstance::compose(s, Objective::new()).write_dimacs(&mut v).is_ok(),
        _ => MultiOptInstance::compose(s, vec![Objective::new()]).write_dimacs(&mut v).is_ok(),
    };
    ensure_eq!(r, want, "written");
    check!(want || v.is_empty(), "part of a file written");
    Ok(())
}

pub fn run(cx: &Ctx) {
    let lits = [1, -1, 2, -3];
    let mut cls = seqs(&lits, 0, 2);
    cls.extend([vec![BIG], vec![-BIG, 1], vec![3, 2, 1, -4, 5]]);
    let n_cl = cx.pick(3, 4);
    let sets = seqs(&cls, 0, n_cl);
    let sat: Vec<(Vec<C>, u32)> = sets.iter().flat_map(|s| [0, 1, 3].map(|m| (s.clone(), m))).collect();
    cx.run("cnf", &sat, sat_case);
    let lal = vec![L::Cmt(""), L::Cmt("x"), L::Cmt("1 2 0"), L::Cmt("p cnf 9 9"), L::Cl(vec![]), L::Cl(vec![1, -2]), L::Cl(vec![-BIG]), L::Cl(vec![3])];
    cx.run("cnf-lines", &seqs(&lal, 0, cx.pick(5, 6)), cnf_lines);
    let sc: Vec<C> = vec![vec![], vec![1], vec![-1], vec![1, -2], vec![2, 3], vec![1, 1], vec![1, -1], vec![-BIG, 2]];
    let ws = cx.pick(vec![1usize, 3], vec![1, 2, 3]);
    let mut st: Vec<(C, usize)> = sc.iter().flat_map(|c| ws.iter().map(move |w| (c.clone(), *w))).collect();
    st.push((vec![3], isize::MAX as usize / 4));
    let softs = seqs(&st, 0, cx.pick(3, 4));
    let hards: Vec<Vec<C>> = vec![vec![], vec![vec![]], vec![vec![1, -2]], vec![vec![-3], vec![2, 1]], vec![vec![4], vec![4], vec![-1, 1]]];
    let offs = [0isize, 5, -2];
    let m = hards.len() * offs.len();
    cx.run_idx("wcnf", softs.len() * m, |i| (hards[i % m % hards.len()].clone(), softs[i / m].clone(), offs[i % m / hards.len()]), opt_case);
    let obj: Vec<Vec<(C, usize)>> = {
        let few: Vec<(C, usize)> = vec![(vec![], 2), (vec![1], 1), (vec![-1], 3), (vec![1, -2], 1), (vec![2, 3], 4)];
        seqs(&few, 0, 2)
    };
    let many = seqs(&obj, 0, cx.pick(2, 3));
    cx.run_idx("mcnf", many.len() * hards.len(), |i| (hards[i % hards.len()].clone(), many[i / hards.len()].clone()), multi_case);
    // many objectives: indices with several digits
    let far: Vec<(Vec<C>, Vec<Vec<(C, usize)>>)> = (1..=cx.pick(25, 120))
        .map(|n| (vec![vec![1]], (0..n).map(|k| if k % 3 == 1 { vec![] } else { vec![(vec![k as i32 % 3 + 1], k + 1)] }).collect()))
        .collect();
    cx.run("many-objectives", &far, multi_case);
    let files: Vec<(&str, usize)> = ["", ".gz", ".bz2", ".xz"].into_iter().flat_map(|e| [0, 1, 7, 60].map(|n| (e, n))).collect();
    cx.run("files", &files, file_case);
    let rf: Vec<(usize, usize, usize)> = (0..3).flat_map(|a| (0..3).flat_map(move |b| (0..3).map(move |k| (a, b, k)))).collect();
    cx.run("refused", &rf, refuse);
    cx.bound("clauses", n_cl);
    cx.bound("soft clauses", cx.pick(3, 4));
    cx.bound("comment and clause lines", cx.pick(5, 6));
    cx.bound("objectives", cx.pick("0..2 over all, ..25 for indices", "0..3 over all, ..120 for indices"));
    cx.assume("the constant offset of an objective is compared as the comment holds it, the formats have no place for it");
}
