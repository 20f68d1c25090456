//! Proof files written by CaDiCaL in every format, checked by independent checkers
use crate::common::{cl, ls};
use crate::p20::structured;
use crate::p20x::{alphabet, step, Cad, M, X};
use crate::rt::{Ctx, Tally};
use crate::{check, ensure_eq};
use rustsat::solvers::{Solve, SolverResult};
use rustsat::types::Lit;
use rustsat_cadical::ProofFormat;
use std::collections::{BTreeMap, BTreeSet};

type R<T> = Result<T, String>;

pub fn formats() -> Vec<ProofFormat> {
    let mut out = vec![];
    for binary in [false, true] {
        out.push(ProofFormat::Drat { binary });
        out.push(ProofFormat::Lrat { binary });
        for drat in [false, true] {
            out.push(ProofFormat::Frat { binary, drat });
        }
    }
    for checked_deletion in [false, true] {
        for drat in [false, true] {
            out.push(ProofFormat::VeriPB { checked_deletion, drat });
        }
    }
    out
}

/// Reads tokens of a text or binary proof
struct Rd<'a> {
    b: &'a [u8],
    at: usize,
    bin: bool,
    /// identifiers are written like literals
    twice: bool,
}
impl Rd<'_> {
    fn white(&mut self) {
        while !self.bin && self.b.get(self.at).is_some_and(|c| c.is_ascii_whitespace()) {
            self.at += 1;
        }
    }
    fn end(&mut self) -> bool {
        self.white();
        self.at == self.b.len()
    }
    fn peek(&mut self) -> u8 {
        self.white();
        self.b.get(self.at).copied().unwrap_or(0)
    }
    fn tag(&mut self) -> R<char> {
        let c = self.peek();
        check!(c.is_ascii_alphabetic(), "no record begins at byte {} of the proof", self.at);
        self.at += 1;
        if !self.bin {
            check!(self.b.get(self.at) == Some(&b' '), "no blank after the kind of a record");
        }
        Ok(c as char)
    }
    fn raw(&mut self) -> R<u64> {
        let (mut x, mut sh) = (0u64, 0);
        loop {
            let Some(&c) = self.b.get(self.at) else { return Err("the proof ends within a number".into()) };
            self.at += 1;
            x |= u64::from(c & 127) << sh;
            if c < 128 {
                return Ok(x);
            }
            sh += 7;
        }
    }
    fn text(&mut self) -> R<i64> {
        self.white();
        let s = self.at;
        while self.b.get(self.at).is_some_and(|c| !c.is_ascii_whitespace()) {
            self.at += 1;
        }
        std::str::from_utf8(&self.b[s..self.at]).ok().and_then(|x| x.parse().ok()).ok_or_else(|| format!("no number at byte {s} of the proof"))
    }
    fn id(&mut self) -> R<i64> {
        let x = if self.bin { self.raw()? as i64 / if self.twice { 2 } else { 1 } } else { self.text()? };
        check!(x > 0, "the identifier {x} is not positive");
        Ok(x)
    }
    /// up to the terminating zero
    fn list(&mut self, signed: bool) -> R<Vec<i64>> {
        let mut out = vec![];
        loop {
            let x = if !self.bin {
                self.text()?
            } else {
                let x = self.raw()?;
                if !(signed || self.twice) || x == 0 {
                    x as i64
                } else {
                    (x / 2) as i64 * if x % 2 == 1 { -1 } else { 1 }
                }
            };
            if x == 0 {
                return Ok(out);
            }
            out.push(x);
        }
    }
    fn lits(&mut self) -> R<Vec<Lit>> {
        let mut c: Vec<Lit> = self.list(true)?.into_iter().map(|x| Lit::from_ipasir(x as i32).unwrap()).collect();
        c.sort();
        Ok(c)
    }
}

/// Clauses by identifier
#[derive(Default)]
struct Db {
    live: BTreeMap<i64, Vec<Lit>>,
    weak: BTreeMap<i64, Vec<Lit>>,
    next: i64,
}
impl Db {
    fn add(&mut self, id: Option<i64>, c: Vec<Lit>) -> R<()> {
        let id = id.unwrap_or(self.next + 1);
        check!(!self.live.contains_key(&id) && !self.weak.contains_key(&id), "the identifier {id} is used twice");
        self.next = self.next.max(id);
        self.live.insert(id, c);
        Ok(())
    }
    /// reverse unit propagation, with hints in exactly the order that they have to be used
    fn rup(&self, c: &[Lit], hints: Option<&[i64]>) -> R<()> {
        let mut set: BTreeSet<Lit> = BTreeSet::new();
        for x in c {
            if set.contains(x) {
                return Ok(());
            }
            set.insert(!*x);
        }
        let open = |set: &BTreeSet<Lit>, d: &[Lit]| -> Option<Vec<Lit>> {
            if d.iter().any(|x| set.contains(x)) {
                return None;
            }
            let mut o: Vec<Lit> = d.iter().copied().filter(|x| !set.contains(&!*x)).collect();
            o.dedup();
            Some(o)
        };
        if let Some(h) = hints {
            for i in h {
                let Some(d) = self.live.get(i) else { return Err(format!("the hint {i} is no clause that exists")) };
                match open(&set, d).as_deref() {
                    Some([]) => return Ok(()),
                    Some([x]) => {
                        set.insert(*x);
                    }
                    _ => return Err(format!("the hint {i} of {c:?} is neither unit nor falsified")),
                }
            }
            return Err(format!("the hints of {c:?} end without a conflict"));
        }
        loop {
            let mut new = None;
            for d in self.live.values() {
                match open(&set, d).as_deref() {
                    Some([]) => return Ok(()),
                    Some([x]) => new = Some(*x),
                    _ => (),
                }
            }
            let Some(x) = new else { return Err(format!("the clause {c:?} does not follow by propagation")) };
            set.insert(x);
        }
    }
    fn find(&self, c: &[Lit]) -> R<i64> {
        self.live.iter().find(|x| x.1 == c).map(|x| *x.0).ok_or_else(|| format!("the clause {c:?} does not exist"))
    }
    fn del(&mut self, id: i64) -> R<Vec<Lit>> {
        self.live.remove(&id).ok_or_else(|| format!("the clause {id} does not exist"))
    }
    fn empty(&self) -> bool {
        self.live.values().any(Vec::is_empty)
    }
}

fn norm(c: &[i32]) -> Vec<Lit> {
    let mut c = ls(c);
    c.sort();
    c
}

/// The proof of one call without assumptions
fn single(f: &[Vec<i32>], fmt: ProofFormat, proof: &[u8], sat: bool, t: &mut Tally) -> R<()> {
    let bin = match fmt {
        ProofFormat::Drat { binary } | ProofFormat::Lrat { binary } | ProofFormat::Frat { binary, .. } => binary,
        _ => false,
    };
    let mut r = Rd { b: proof, at: 0, bin, twice: matches!(fmt, ProofFormat::Lrat { .. }) };
    let mut db = Db::default();
    match fmt {
        ProofFormat::Drat { .. } => {
            for c in f {
                db.add(None, norm(c))?;
            }
            let mut derived = false;
            while !r.end() {
                t.step(1);
                let k = if bin {
                    r.tag()?
                } else if r.peek() == b'd' {
                    r.tag()?
                } else {
                    'a'
                };
                let c = r.lits()?;
                match k {
                    'a' => {
                        db.rup(&c, None)?;
                        derived |= c.is_empty();
                        db.add(None, c)?;
                    }
                    'd' => {
                        let i = db.find(&c)?;
                        db.del(i)?;
                    }
                    k => return Err(format!("unknown record {k}")),
                }
            }
            check!(derived != sat || !sat && f.iter().any(Vec::is_empty), "satisfiable: {sat}, but the empty clause is derived: {derived}");
        }
        ProofFormat::Lrat { .. } => {
            let mut recs = vec![];
            while !r.end() {
                t.step(1);
                if bin {
                    match r.tag()? {
                        'a' => recs.push((Some(r.id()?), r.lits()?, r.list(false)?)),
                        'd' => recs.push((None, vec![], r.list(false)?)),
                        k => return Err(format!("unknown record {k}")),
                    }
                } else {
                    let id = r.text()?;
                    if r.peek() == b'd' {
                        r.tag()?;
                        recs.push((None, vec![], r.list(false)?));
                    } else {
                        recs.push((Some(id), r.lits()?, r.list(false)?));
                    }
                }
            }
            // the clauses of the formula have the other identifiers, in order
            let used: BTreeSet<i64> = recs.iter().filter_map(|x| x.0).collect();
            for (c, id) in f.iter().zip((1..).filter(|x| !used.contains(x))) {
                db.add(Some(id), norm(c))?;
            }
            let mut last = 0;
            for (id, c, h) in recs {
                match id {
                    Some(id) => {
                        check!(id > last, "identifiers do not increase or are not positive");
                        last = id;
                        db.rup(&c, Some(&h))?;
                        db.add(Some(id), c)?;
                    }
                    None => {
                        for i in h {
                            db.del(i)?;
                        }
                    }
                }
            }
            check!(sat != db.empty(), "satisfiable: {sat}, but the empty clause is in the proof: {}", db.empty());
        }
        ProofFormat::Frat { drat, .. } => {
            let mut orig = f.iter();
            let mut fin = BTreeSet::new();
            let mut derived = false;
            while !r.end() {
                t.step(1);
                let k = r.tag()?;
                let id = r.id()?;
                let c = r.lits()?;
                check!(k == 'f' || fin.is_empty(), "record {k} after finalizing");
                match k {
                    'o' => {
                        ensure_eq!(Some(c.clone()), orig.next().map(|x| norm(x)), "original clause");
                        db.add(Some(id), c)?;
                    }
                    'a' => {
                        if drat {
                            check!(bin || r.end() || r.peek() != b'l', "antecedents in a proof without");
                            db.rup(&c, None)?;
                        } else {
                            check!(r.tag()? == 'l', "no antecedents");
                            let h = r.list(true)?;
                            db.rup(&c, Some(&h))?;
                        }
                        derived |= c.is_empty();
                        db.add(Some(id), c)?;
                    }
                    'd' => ensure_eq!(db.del(id)?, c, "deleted clause"),
                    'f' => {
                        ensure_eq!(db.live.get(&id), Some(&c), "finalized clause {id}");
                        check!(fin.insert(id), "clause {id} finalized twice");
                    }
                    k => return Err(format!("unknown record {k}")),
                }
            }
            check!(orig.next().is_none(), "original clauses are missing");
            ensure_eq!(fin, db.live.keys().copied().collect(), "clauses finalized");
            check!(sat != db.empty(), "satisfiable: {sat}, but the empty clause is in the proof: {derived}");
        }
        ProofFormat::VeriPB { checked_deletion, drat } => {
            let core = |cores: &BTreeSet<String>, l: &str| {
                let id = l.split_whitespace().last().unwrap_or("");
                cores.contains(id) || id.parse().is_ok_and(|i: usize| i <= f.len())
            };
            let txt = std::str::from_utf8(proof).map_err(|e| e.to_string())?;
            // the solver only writes the head of the proof if identifiers are reserved, which the interface does not offer
            let mut p = format!("pseudo-Boolean proof version 2.0\nf {}\n", f.len());
            let (mut ds, mut cores, mut hints) = (vec![], BTreeSet::new(), 0);
            for l in txt.lines() {
                t.step(1);
                let Some(l) = l.strip_suffix(';') else { return Err(format!("line without end: {l}")) };
                let w = l.split_whitespace().next().unwrap_or("");
                match w {
                    "e" | "red" => p += &l.replacen(" : ", " ; ", 1),
                    "rup" => p += &format!("{l} ;"),
                    // the solver may delete a clause that it never moved to the core set
                    "delc" if !core(&cores, l) => p += &l.replacen("delc", "del id", 1),
                    _ => p += l,
                }
                p.push('\n');
                match w {
                    "rup" => check!(drat, "a step without antecedents"),
                    "pol" => hints += 1,
                    "core" => {
                        cores.insert(l.split_whitespace().last().unwrap_or("").to_string());
                    }
                    "del" | "delc" => ds.push(w == "delc"),
                    _ => (),
                }
            }
            check!(hints == 0 || !drat, "a step with antecedents");
            check!(cores.is_empty() || checked_deletion, "constraints are added to the core set, although deletion is not checked");
            check!(!ds.contains(&true) || checked_deletion, "checked deletion");
            let mut v = crate::veripb::Checker::default();
            let mut fs = vec![];
            for c in f {
                let mut terms = vec![];
                for x in c {
                    terms.push((1, v.var(&format!("x{}", x.abs()))?, *x < 0));
                }
                fs.push(crate::veripb::Pb::new(terms, 1));
            }
            v.formula(fs);
            v.check(&p)?;
            let want = if sat { "NONE" } else { "UNSAT" };
            ensure_eq!(v.conclusion.as_deref().map(|c| c.split(" :").next().unwrap()), Some(want), "conclusion");
            if let Some(id) = v.conclusion.as_ref().and_then(|c| c.strip_prefix("UNSAT : ")) {
                let id = v.id(id)?;
                check!(v.db[id - 1].c.contradiction(), "the conflicting constraint is none");
            }
        }
        f => return Err(format!("not a format for a single call: {f:?}")),
    }
    t.outcome(&format!("{} {}", format!("{fmt:?}").split(' ').next().unwrap_or(""), if sat { "sat" } else { "unsat" }));
    t.state((proof, sat));
    Ok(())
}

struct Q {
    a: Vec<Lit>,
    optional: bool,
    r: SolverResult,
    /// clauses added before
    n: usize,
}

/// The proof of a whole history
fn incremental(cls: &[Vec<Lit>], qs: &[Q], linear: bool, bin: bool, proof: &[u8], t: &mut Tally) -> R<()> {
    let mut r = Rd { b: proof, at: 0, bin, twice: false };
    let mut db = Db::default();
    let mut orig = 0;
    // which of the queries the last one in the proof can be: some do not reach the solver
    let mut at: Vec<Option<usize>> = vec![None];
    let mut open: Option<&Q> = None;
    let mut status = None;
    let mut concl = 0;
    while !r.end() {
        t.step(1);
        let tag = r.tag()?;
        if tag != 'u' {
            check!(concl == 0, "conclusions are missing");
        }
        match tag {
            'i' => {
                check!(open.is_none(), "original clause within a query");
                let id = if linear { Some(r.id()?) } else { None };
                let c = r.lits()?;
                let mut want = cls.get(orig).ok_or("too many original clauses")?.clone();
                want.sort();
                ensure_eq!(c, want, "original clause");
                orig += 1;
                db.add(id, c)?;
            }
            'l' => {
                let id = if linear { Some(r.id()?) } else { None };
                let c = r.lits()?;
                if linear {
                    let h = r.list(false)?;
                    db.rup(&c, Some(&h))?;
                } else {
                    db.rup(&c, None)?;
                }
                db.add(id, c)?;
            }
            'd' | 'w' | 'r' => {
                let ids = if linear {
                    r.list(false)?
                } else {
                    let c = r.lits()?;
                    let from = if tag == 'r' { &db.weak } else { &db.live };
                    vec![from.iter().find(|x| *x.1 == c).map(|x| *x.0).ok_or_else(|| format!("record {tag}: the clause {c:?} does not exist"))?]
                };
                t.outcome(&format!("record {tag}"));
                for id in ids {
                    if tag == 'r' {
                        let c = db.weak.remove(&id).ok_or("restored clause does not exist")?;
                        db.live.insert(id, c);
                    } else {
                        let c = db.del(id)?;
                        if tag == 'w' {
                            db.weak.insert(id, c);
                        }
                    }
                }
            }
            'q' => {
                check!(open.is_none(), "query within a query");
                let a: Vec<Lit> = r.list(true)?.into_iter().map(|x| Lit::from_ipasir(x as i32).unwrap()).collect();
                let mut next = vec![];
                for k in &at {
                    let mut j = k.map_or(0, |k| k + 1);
                    while let Some(q) = qs.get(j) {
                        if q.a == a && q.n == orig {
                            next.push(Some(j));
                        }
                        if !q.optional {
                            break;
                        }
                        j += 1;
                    }
                }
                next.sort_unstable();
                next.dedup();
                at = next;
                let Some(Some(k)) = at.first() else { return Err(format!("the query with assumptions {a:?} after {orig} clauses is none of those asked")) };
                open = Some(&qs[*k]);
                status = None;
            }
            's' => {
                check!(open.is_some() && status.is_none(), "status outside of a query or second status");
                r.white();
                let (name, s) = [("SATISFIABLE", SolverResult::Sat), ("UNSATISFIABLE", SolverResult::Unsat), ("UNKNOWN", SolverResult::Interrupted)]
                    .into_iter()
                    .find(|x| r.b[r.at..].starts_with(x.0.as_bytes()))
                    .ok_or("unknown status")?;
                r.at += name.len();
                at.retain(|k| qs[k.unwrap()].r == s);
                let Some(Some(k)) = at.first() else { return Err(format!("the status {name} is not the result of the call")) };
                open = Some(&qs[*k]);
                status = Some(s);
            }
            'm' | 'e' => {
                let q = open.take().ok_or("conclusion outside of a query")?;
                let m = r.lits()?;
                check!(m.windows(2).all(|w| w[0] != !w[1]), "contradictory model");
                ensure_eq!(status, Some(q.r), "status before the conclusion");
                let want = if tag == 'm' { SolverResult::Sat } else { SolverResult::Interrupted };
                ensure_eq!(q.r, want, "result with the conclusion {tag}");
                if tag == 'm' {
                    for c in &cls[..q.n] {
                        check!(c.iter().any(|x| m.contains(x)), "the model in the proof does not satisfy {c:?}");
                    }
                    check!(q.a.iter().all(|x| m.contains(x)), "the model in the proof does not satisfy the assumptions");
                }
            }
            'U' => {
                let n = r.id()?;
                concl = n;
            }
            'u' => {
                let q = open.ok_or("conclusion outside of a query")?;
                ensure_eq!(status, Some(SolverResult::Unsat), "status before the conclusion");
                let core = r.lits()?;
                check!(core.iter().all(|x| q.a.contains(x)), "the core {core:?} in the proof is not among the assumptions");
                let c: Vec<Lit> = core.iter().map(|x| !*x).collect();
                if linear {
                    let h = r.list(false)?;
                    db.rup(&c, Some(&h))?;
                } else {
                    db.rup(&c, None)?;
                }
                concl = (concl - 1).max(0);
                if concl == 0 {
                    open = None;
                }
            }
            x => return Err(format!("unknown record {x}")),
        }
    }
    check!(open.is_none(), "a query has no conclusion");
    ensure_eq!(orig, cls.len(), "original clauses in the proof");
    check!(at.iter().any(|k| qs[k.map_or(0, |k| k + 1)..].iter().all(|q| q.optional)), "a query is missing");
    Ok(())
}

fn path(k: usize) -> String {
    format!("{}/mcs-proof-{}-{k}", std::env::temp_dir().display(), std::process::id())
}
struct Tmp(String);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn traced(f: &[Vec<i32>], fmts: &[ProofFormat], conf: &str, t: &mut Tally) -> R<()> {
    let ps: Vec<Tmp> = (0..fmts.len()).map(|k| Tmp(path(k))).collect();
    let sat;
    {
        let mut s = Cad::default();
        if conf == "every" {
            for o in ["probeint", "inprobeint", "elimint", "reduceint", "restartint", "subsumeint"] {
                let _ = s.set_option(o, 1);
            }
        }
        for (p, fmt) in ps.iter().zip(fmts) {
            s.trace_proof(&p.0, *fmt).map_err(|e| e.to_string())?;
        }
        for c in f {
            s.add_clause(cl(c)).map_err(|e| e.to_string())?;
        }
        sat = s.solve().map_err(|e| e.to_string())? == SolverResult::Sat;
    }
    for (p, fmt) in ps.iter().zip(fmts) {
        let proof = std::fs::read(&p.0).map_err(|e| e.to_string())?;
        single(f, *fmt, &proof, sat, t).map_err(|e| format!("{fmt:?}: {e}; the proof is {:?}", String::from_utf8_lossy(&proof[..proof.len().min(800)])))?;
    }
    Ok(())
}

pub fn run(cx: &Ctx) {
    // clause sets over three variables, ordered: later clauses may be strengthened when they are added
    let cs: Vec<Vec<i32>> = [
        &[1, 2][..], &[-1, 2], &[1, -2], &[-1, -2], &[2, 3], &[-2, -3], &[1, 2, 3], &[-1, -2, -3], &[1, -3], &[-1, 3, 2], &[1], &[-2], &[3], &[-3], &[], &[2, 2, -1],
        &[1, -1],
    ]
    .iter()
    .map(|c| c.to_vec())
    .collect();
    let fm = formats();
    let d = cx.pick(3, 4);
    let n = cs.len() + 1;
    cx.bound("clauses of a formula with a proof file", d);
    cx.run_forked("proof files", n.pow(d as u32) * fm.len(), |i| {
        let mut x = i / fm.len();
        let mut f = vec![];
        for _ in 0..d {
            if x % n > 0 {
                f.push(cs[x % n - 1].clone());
            }
            x /= n;
        }
        (fm[i % fm.len()], f)
    }, |t, (fmt, f)| {
        // clauses that are simplified as they are added get identifiers in between, which VeriPB cannot express
        if matches!(fmt, ProofFormat::VeriPB { .. }) && f.iter().any(|c| c.len() < 2 || c.windows(2).any(|w| w[0].abs() == w[1].abs())) {
            return Ok(());
        }
        traced(f, &[*fmt], "", t)
    });
    // quick: one variant of every format
    let all = fm.clone();
    let fm: Vec<ProofFormat> = all.iter().copied().enumerate().filter(|(i, _)| cx.pick(*i % 4 == 2 || *i == 1, true)).map(|x| x.1).collect();
    cx.run_forked("all sets of binary clauses", fm.len() << 12, |i| {
        let mut f = vec![];
        for k in 0..12 {
            if i / fm.len() >> k & 1 == 1 {
                let (a, b) = [(1, 2), (1, 3), (2, 3)][k / 4];
                f.push(vec![if k % 2 == 0 { a } else { -a }, if k / 2 % 2 == 0 { b } else { -b }]);
            }
        }
        (fm[i % fm.len()], f)
    }, |t, (fmt, f)| traced(f, &[*fmt], "", t));
    let fm = all;
    let st = structured();
    cx.run_forked("structured proof files", st.len() * fm.len() * 2, |i| (fm[i % fm.len()], if i / fm.len() / st.len() == 1 { "every" } else { "" }, st[i / fm.len() % st.len()].clone()), |t, (fmt, conf, (_, f, _))| {
        if matches!(fmt, ProofFormat::VeriPB { .. }) && f.iter().any(|c| c.len() < 2) {
            return Ok(());
        }
        traced(f, &[*fmt], conf, t)
    });
    cx.run_forked("two proof files", st.len() * fm.len() * fm.len(), |i| ([fm[i % fm.len()], fm[i / fm.len() % fm.len()]], st[i / fm.len() / fm.len()].clone()), |t, (fmts, (_, f, _))| {
        if fmts.iter().any(|x| matches!(x, ProofFormat::VeriPB { .. })) && f.iter().any(|c| c.len() < 2) {
            return Ok(());
        }
        traced(f, fmts, "", t)
    });
    let a: Vec<X> = alphabet().into_iter().filter(|x| !matches!(x, X::Tmp(_))).collect();
    let d = cx.pick(3, 4);
    cx.bound("history length with a proof file", d);
    let n = a.len();
    cx.run_forked("incremental proof files", n.pow(d as u32) * 4, |i| {
        let mut x = i / 4;
        let mut h = vec![];
        for _ in 0..d {
            h.push(a[x % n].clone());
            x /= n;
        }
        (i % 2 == 1, i / 2 % 2 == 1, h)
    }, |t, (linear, binary, h)| {
        let p = Tmp(path(0));
        let mut m = M::new();
        let mut qs = vec![];
        {
            let mut s = Cad::default();
            s.trace_proof(&p.0, if *linear { ProofFormat::Lidrup { binary: *binary } } else { ProofFormat::Idrup { binary: *binary } }).map_err(|e| e.to_string())?;
            for op in h {
                let before = m.last.is_some();
                step(&mut s, &mut m, op, t)?;
                let a = match op {
                    X::Assume(a) | X::SimpA(a, _) => ls(a),
                    X::Solve | X::Simp(_) => vec![],
                    _ => continue,
                };
                let r = match &m.last {
                    None => SolverResult::Interrupted,
                    Some((true, ..)) => SolverResult::Sat,
                    Some((false, ..)) => SolverResult::Unsat,
                };
                qs.push(Q { a, optional: before && !matches!(op, X::Assume(_)), r, n: m.clauses.len() });
            }
        }
        let proof = std::fs::read(&p.0).map_err(|e| e.to_string())?;
        incremental(&m.clauses, &qs, *linear, *binary, &proof, t).map_err(|e| format!("{e}; the proof is {:?}", String::from_utf8_lossy(&proof[..proof.len().min(800)])))
    });
    // a file that cannot be written is an error and not a crash later
    let bad = ["/nonexistent/directory/proof", "", "/"];
    cx.run_forked("unwritable proof files", bad.len() * fm.len(), |i| (fm[i % fm.len()], bad[i / fm.len()]), |_, (fmt, p)| {
        let mut s = Cad::default();
        let r = s.trace_proof(p, *fmt).is_err();
        for c in [vec![1, 2], vec![-1, 2], vec![1, -2]] {
            s.add_clause(cl(&c)).map_err(|e| e.to_string())?;
        }
        ensure_eq!(s.solve().map_err(|e| e.to_string())?, SolverResult::Sat, "result");
        check!(r, "no error for a proof that cannot be written to {p:?}");
        Ok(())
    });
}
