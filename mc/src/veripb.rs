//! A small checker for VeriPB 2.0 proofs, written from the proof format and independent of the
//! code under test. Covers the rules the library can write.
use std::collections::{BTreeMap, HashMap};

/// A pseudo-Boolean constraint `sum a_i x_i >= b` over variables with signed coefficients
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Pb {
    /// sorted by variable, no zero coefficients
    pub t: Vec<(u32, i128)>,
    pub b: i128,
}

impl Pb {
    /// from literal terms `coef * (x or ~x)`
    pub fn new(it: impl IntoIterator<Item = (i128, u32, bool)>, b: i128) -> Pb {
        let mut m: BTreeMap<u32, i128> = BTreeMap::new();
        let mut b = b;
        for (c, v, neg) in it {
            if neg {
                *m.entry(v).or_default() -= c;
                b -= c;
            } else {
                *m.entry(v).or_default() += c;
            }
        }
        Pb { t: m.into_iter().filter(|x| x.1 != 0).collect(), b }
    }
    /// right hand side when written with positive coefficients over literals
    pub fn degree(&self) -> i128 {
        self.b + self.t.iter().map(|x| (-x.1).max(0)).sum::<i128>()
    }
    pub fn add(&self, o: &Pb) -> Pb {
        let mut m: BTreeMap<u32, i128> = self.t.iter().copied().collect();
        for &(v, c) in &o.t {
            *m.entry(v).or_default() += c;
        }
        Pb { t: m.into_iter().filter(|x| x.1 != 0).collect(), b: self.b + o.b }
    }
    pub fn mul(&self, k: i128) -> Pb {
        if k == 0 {
            return Pb::default();
        }
        Pb { t: self.t.iter().map(|&(v, c)| (v, c * k)).collect(), b: self.b * k }
    }
    fn with_degree(t: Vec<(u32, i128)>, d: i128) -> Pb {
        let neg: i128 = t.iter().map(|x| (-x.1).max(0)).sum();
        Pb { t, b: d - neg }
    }
    pub fn div(&self, k: i128) -> Pb {
        let up = |x: i128| x.div_euclid(k) + i128::from(x.rem_euclid(k) != 0);
        let t = self.t.iter().map(|&(v, c)| (v, up(c.abs()) * c.signum())).collect();
        Pb::with_degree(t, up(self.degree()))
    }
    pub fn saturate(&self) -> Pb {
        let d = self.degree();
        if d <= 0 {
            return Pb::default();
        }
        Pb::with_degree(self.t.iter().map(|&(v, c)| (v, c.abs().min(d) * c.signum())).collect(), d)
    }
    pub fn weaken(&self, v: u32) -> Pb {
        let d = self.degree();
        let a = self.t.iter().find(|x| x.0 == v).map_or(0, |x| x.1.abs());
        Pb::with_degree(self.t.iter().copied().filter(|x| x.0 != v).collect(), d - a)
    }
    /// the negation: `sum a x <= b - 1`
    pub fn neg(&self) -> Pb {
        Pb { t: self.t.iter().map(|&(v, c)| (v, -c)).collect(), b: 1 - self.b }
    }
    pub fn trivial(&self) -> bool {
        self.degree() <= 0
    }
    pub fn contradiction(&self) -> bool {
        self.degree() > self.t.iter().map(|x| x.1.abs()).sum()
    }
    pub fn holds(&self, val: impl Fn(u32) -> bool) -> bool {
        self.t.iter().map(|&(v, c)| if val(v) { c } else { 0 }).sum::<i128>() >= self.b
    }
    /// implication by weakening and adding literal axioms only
    pub fn implies(&self, o: &Pb) -> bool {
        let mut d = self.degree();
        for &(v, c) in &self.t {
            let oc = o.t.iter().find(|x| x.0 == v).map_or(0, |x| x.1);
            let same = if oc.signum() == c.signum() { oc.abs() } else { 0 };
            d -= (c.abs() - same).max(0);
        }
        d >= o.degree()
    }
    pub fn subst(&self, w: &HashMap<u32, Sub>) -> Pb {
        let mut b = self.b;
        let mut it = vec![];
        for &(v, c) in &self.t {
            match w.get(&v) {
                None => it.push((c, v, false)),
                Some(Sub::Val(true)) => b -= c,
                Some(Sub::Val(false)) => (),
                Some(Sub::Lit(v, n)) => it.push((c, *v, *n)),
            }
        }
        Pb::new(it, b)
    }
    /// whether this constraint alone implies the clause
    pub fn implies_clause(&self, cl: &[(u32, bool)]) -> bool {
        let mut max = 0;
        for &(v, c) in &self.t {
            let (p, n) = (cl.contains(&(v, false)), cl.contains(&(v, true)));
            if p && n {
                return true;
            }
            // the variable is fixed if a literal of it is false
            max += match (p, n) {
                (true, _) => 0,
                (_, true) => c,
                _ => c.max(0),
            };
        }
        max < self.b || cl.iter().any(|l| cl.contains(&(l.0, !l.1)))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sub {
    Val(bool),
    Lit(u32, bool),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub c: Pb,
    pub live: bool,
    pub core: bool,
    pub input: bool,
    /// within the scope of a sub-proof
    pub temp: bool,
}

#[derive(Default, Debug)]
pub struct Checker {
    pub vars: HashMap<String, u32>,
    pub names: Vec<String>,
    pub db: Vec<Entry>,
    pub rules: BTreeMap<String, u64>,
    pub obj: Option<Pb>,
    pub output: Option<String>,
    pub conclusion: Option<String>,
    pub comments: Vec<String>,
    n_input: usize,
    /// only syntax, numbering and effect, no logical validity
    pub lenient: bool,
    /// other lines, as read
    pub misc: Vec<String>,
    /// witness of strengthening rules, by constraint
    pub witnesses: Vec<(usize, Vec<String>)>,
    /// hints of a rup step, by constraint
    pub hints: Vec<(usize, Vec<usize>)>,
}

/// propagates to a fixed point; true if a conflict is found
pub fn propagate(cs: &[&Pb], n_vars: usize) -> bool {
    let mut val: Vec<i8> = vec![-1; n_vars];
    loop {
        let mut ch = false;
        for c in cs {
            let mut max = -c.b;
            for &(v, a) in &c.t {
                max += match val[v as usize] {
                    1 => a,
                    0 => 0,
                    _ => a.max(0),
                };
            }
            if max < 0 {
                return true;
            }
            for &(v, a) in &c.t {
                if val[v as usize] < 0 && a.abs() > max {
                    val[v as usize] = i8::from(a > 0);
                    ch = true;
                }
            }
        }
        if !ch {
            return false;
        }
    }
}

type R<T> = Result<T, String>;

impl Checker {
    pub fn var(&mut self, s: &str) -> R<u32> {
        if !s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') || s.len() < 2 && false {
            return Err(format!("`{s}` is not a variable"));
        }
        if let Some(v) = self.vars.get(s) {
            return Ok(*v);
        }
        let v = self.names.len() as u32;
        self.vars.insert(s.to_string(), v);
        self.names.push(s.to_string());
        Ok(v)
    }
    pub fn lit(&mut self, s: &str) -> R<(u32, bool)> {
        match s.strip_prefix('~') {
            Some(r) => Ok((self.var(r)?, true)),
            None => Ok((self.var(s)?, false)),
        }
    }
    /// `2 x1 -3 ~x2 >= 4`
    pub fn constr(&mut self, toks: &[&str]) -> R<Pb> {
        let k = toks.iter().position(|t| *t == ">=").ok_or_else(|| format!("no `>=` in {toks:?}"))?;
        if toks.len() != k + 2 || k % 2 != 0 {
            return Err(format!("malformed constraint {toks:?}"));
        }
        let b = toks[k + 1].parse::<i128>().map_err(|_| format!("malformed degree {toks:?}"))?;
        let mut it = vec![];
        for p in toks[..k].chunks(2) {
            let c = p[0].parse::<i128>().map_err(|_| format!("malformed coefficient {} in {toks:?}", p[0]))?;
            let (v, n) = self.lit(p[1])?;
            it.push((c, v, n));
        }
        Ok(Pb::new(it, b))
    }
    pub fn objective(&mut self, toks: &[&str]) -> R<Pb> {
        let mut it = vec![];
        let mut b = 0;
        let mut i = 0;
        while i < toks.len() {
            let c = toks[i].parse::<i128>().map_err(|_| format!("malformed coefficient {} in {toks:?}", toks[i]))?;
            if i + 1 == toks.len() {
                b -= c;
                break;
            }
            let (v, n) = self.lit(toks[i + 1])?;
            it.push((c, v, n));
            i += 2;
        }
        // stored as constraint, the constant is the negated right hand side
        Ok(Pb::new(it, b))
    }
    pub fn id(&self, s: &str) -> R<usize> {
        let i = s.parse::<i64>().map_err(|_| format!("`{s}` is not a constraint id"))?;
        let n = self.db.len() as i64;
        let i = if i < 0 { n + 1 + i } else { i };
        if i < 1 || i > n {
            return Err(format!("constraint id {s} out of range (last is {n})"));
        }
        if !self.db[i as usize - 1].live {
            return Err(format!("constraint {i} was deleted"));
        }
        Ok(i as usize)
    }
    pub fn get(&self, id: usize) -> Option<&Pb> {
        self.db.get(id.wrapping_sub(1)).filter(|e| e.live).map(|e| &e.c)
    }
    pub fn push(&mut self, c: Pb, temp: bool) -> usize {
        self.db.push(Entry { c, live: true, core: false, input: false, temp });
        self.db.len()
    }
    fn pol(&mut self, toks: &[&str]) -> R<Pb> {
        enum S {
            C(Pb),
            V(u32, Pb),
            N(i128),
        }
        let mut st: Vec<S> = vec![];
        fn c(x: Option<S>) -> R<Pb> {
            match x {
                Some(S::C(p)) => Ok(p),
                Some(S::V(_, p)) => Ok(p),
                Some(S::N(_)) => Err("number used as constraint".into()),
                None => Err("operand missing".into()),
            }
        }
        for (i, t) in toks.iter().enumerate() {
            match *t {
                "+" => {
                    let b = c(st.pop())?;
                    let a = c(st.pop())?;
                    st.push(S::C(a.add(&b)));
                }
                "*" | "d" => {
                    let Some(S::N(k)) = st.pop() else { return Err(format!("no number before {t}")) };
                    let a = c(st.pop())?;
                    if k < 0 || (k == 0 && *t == "d") {
                        return Err(format!("bad factor {k}"));
                    }
                    st.push(S::C(if *t == "*" { a.mul(k) } else { a.div(k) }));
                }
                "s" => {
                    let a = c(st.pop())?;
                    st.push(S::C(a.saturate()));
                }
                "w" => {
                    let Some(S::V(v, _)) = st.pop() else { return Err("no variable to weaken".into()) };
                    let a = c(st.pop())?;
                    st.push(S::C(a.weaken(v)));
                }
                x if x.parse::<i64>().is_ok() => {
                    if matches!(toks.get(i + 1), Some(&"*" | &"d")) {
                        st.push(S::N(x.parse().unwrap()));
                    } else {
                        let id = self.id(x)?;
                        st.push(S::C(self.db[id - 1].c.clone()));
                    }
                }
                x => {
                    let (v, n) = self.lit(x)?;
                    st.push(S::V(v, Pb::new([(1, v, n)], 0)));
                }
            }
        }
        if st.len() != 1 {
            return Err(format!("{} constraints left on the stack", st.len()));
        }
        c(st.pop())
    }
    /// the hinted constraints (all if none) and the negated constraint propagate to a conflict
    fn rup(&self, c: &Pb, hints: Option<&[&str]>) -> R<()> {
        let n = c.neg();
        let mut cs: Vec<&Pb> = vec![&n];
        match hints {
            Some(h) if !h.is_empty() => {
                for x in h {
                    if *x != "~" {
                        let id = self.id(x)?;
                        cs.push(&self.db[id - 1].c);
                    }
                }
            }
            _ => cs.extend(self.db.iter().filter(|e| e.live).map(|e| &e.c)),
        }
        if propagate(&cs, self.names.len()) {
            Ok(())
        } else {
            Err("not implied by reverse unit propagation".into())
        }
    }
    fn deriv(&mut self, l: &[&str], temp: bool) -> R<()> {
        match l[0] {
            "pol" | "p" => {
                let p = self.pol(&l[1..])?;
                self.push(p, temp);
            }
            "rup" | "u" => {
                let k = l.iter().position(|t| *t == ";").ok_or("no `;`")?;
                let c = self.constr(&l[1..k])?;
                let mut h: Vec<usize> = vec![];
                for x in &l[k + 1..] {
                    h.push(self.id(x)?);
                }
                if !self.lenient {
                    self.rup(&c, Some(&l[k + 1..]))?;
                }
                let id = self.push(c, temp);
                self.hints.push((id, h));
            }
            x => return Err(format!("unknown rule {x}")),
        }
        Ok(())
    }
    fn close(&mut self, from: usize) {
        for e in &mut self.db[from..] {
            e.live = false;
        }
    }
    fn implied_auto(&self, goal: &Pb, except: Option<usize>) -> bool {
        if goal.trivial() {
            return true;
        }
        // by the negated constraint to be derived (the newest one), or another one
        if self.db.iter().rev().filter(|e| e.live).any(|e| e.c.implies(goal)) {
            return true;
        }
        let n = goal.neg();
        let mut cs: Vec<&Pb> = vec![&n];
        cs.extend(self.db.iter().enumerate().filter(|(i, e)| e.live && Some(*i + 1) != except).map(|e| &e.1.c));
        propagate(&cs, self.names.len())
    }
    /// reads the proof goals up to `end`; returns the goals proved
    fn subproof(&mut self, lines: &[Vec<&str>], i: &mut usize, goals: &HashMap<String, Pb>) -> R<Vec<String>> {
        let mut done = vec![];
        loop {
            *i += 1;
            let l = lines.get(*i).ok_or("sub-proof not closed")?;
            match l.first().copied() {
                Some("end") => return Ok(done),
                Some("proofgoal") => {
                    let g = l.get(1).ok_or("no goal")?.to_string();
                    let key = if g.starts_with('#') { g.clone() } else { self.id(&g)?.to_string() };
                    let goal = match goals.get(&key) {
                        Some(g) => g.clone(),
                        None if self.lenient => Pb::default(),
                        None => return Err(format!("no proof goal {g}")),
                    };
                    let from = self.db.len();
                    self.push(goal.neg(), true);
                    loop {
                        *i += 1;
                        let l = lines.get(*i).ok_or("proof goal not closed")?;
                        if l.first() == Some(&"qed") {
                            let id = self.id(l.get(1).ok_or("no id after qed")?)?;
                            if !self.lenient && !self.db[id - 1].c.contradiction() {
                                return Err(format!("goal {g}: constraint {id} is no contradiction"));
                            }
                            break;
                        }
                        self.deriv(l, true)?;
                    }
                    self.close(from);
                    done.push(key);
                }
                Some(_) => self.deriv(l, true)?,
                None => return Err("empty line in sub-proof".into()),
            }
        }
    }
    fn witness(&mut self, toks: &[&str]) -> R<HashMap<u32, Sub>> {
        let mut w = HashMap::new();
        if toks.len() % 3 != 0 {
            return Err(format!("malformed witness {toks:?}"));
        }
        for p in toks.chunks(3) {
            let v = self.var(p[0])?;
            if p[1] != "->" {
                return Err(format!("malformed witness {toks:?}"));
            }
            let s = match p[2] {
                "0" => Sub::Val(false),
                "1" => Sub::Val(true),
                x => {
                    let (v, n) = self.lit(x)?;
                    Sub::Lit(v, n)
                }
            };
            if w.insert(v, s).is_some() {
                return Err("variable substituted twice".into());
            }
        }
        Ok(w)
    }
    /// redundance-based strengthening; `except` for deletions, where the constraint is still there
    fn red(&mut self, c: &Pb, w: &HashMap<u32, Sub>, begin: bool, lines: &[Vec<&str>], i: &mut usize, except: Option<usize>) -> R<()> {
        let mut goals: HashMap<String, Pb> = HashMap::new();
        goals.insert("#1".into(), c.subst(w));
        for (k, e) in self.db.iter().enumerate() {
            if e.live && Some(k + 1) != except && e.c.t.iter().any(|x| w.contains_key(&x.0)) {
                goals.insert((k + 1).to_string(), e.c.subst(w));
            }
        }
        if let Some(o) = &self.obj {
            // the objective must not get worse: o >= o|w
            let s = o.subst(w);
            let neg = Pb { t: s.t.iter().map(|x| (x.0, -x.1)).collect(), b: -s.b };
            goals.insert("#2".into(), o.add(&neg));
        }
        let from = self.db.len();
        let hidden = except.map(|x| {
            self.db[x - 1].live = false;
            x
        });
        let r = (|| {
            let mut done = vec![];
            if begin {
                self.push(c.neg(), true);
                done = self.subproof(lines, i, &goals)?;
            } else {
                // not numbered without a sub-proof
                self.push(c.neg(), true);
            }
            for (g, d) in &goals {
                if !self.lenient && !done.contains(g) && !self.implied_auto(d, None) {
                    return Err(format!("proof goal {g} cannot be proved automatically: {d:?}"));
                }
            }
            Ok(())
        })();
        if let Some(x) = hidden {
            self.db[x - 1].live = true;
        }
        if begin {
            self.close(from);
        } else {
            self.db.truncate(from);
        }
        r
    }
    fn line(&mut self, lines: &[Vec<&str>], i: &mut usize) -> R<()> {
        let l = lines[*i].clone();
        let semi = || l.iter().position(|t| *t == ";").ok_or("no `;`");
        *self.rules.entry(l[0].to_string()).or_default() += 1;
        match l[0] {
            "f" => {
                if l.len() > 2 || l.len() == 2 && l[1].parse() != Ok(self.n_input) {
                    return Err(format!("{:?} but the formula has {} constraints", l, self.n_input));
                }
            }
            "pol" | "p" | "rup" | "u" => self.deriv(&l, false)?,
            "e" | "ea" | "i" | "ia" => {
                let k = semi()?;
                let c = self.constr(&l[1..k])?;
                let eq = l[0].starts_with('e');
                let ok = match l[k + 1..] {
                    [] if eq => self.db.iter().any(|e| e.live && e.c == c),
                    [] => c.trivial() || self.db.iter().any(|e| e.live && propagate(&[&e.c, &c.neg()], self.names.len())),
                    [x] => {
                        let d = &self.db[self.id(x)? - 1].c;
                        if eq {
                            *d == c
                        } else {
                            propagate(&[d, &c.neg()], self.names.len())
                        }
                    }
                    _ => return Err("too many ids".into()),
                };
                if !ok && !self.lenient {
                    return Err(format!("{c:?} is not as claimed"));
                }
                let id = l.get(k + 1).map(|x| self.id(x)).transpose()?;
                self.misc.push(format!("{} {c:?} {id:?}", l[0]));
                if l[0].ends_with('a') {
                    self.push(c, false);
                }
            }
            "red" | "dom" => {
                if l[0] == "dom" && !self.lenient {
                    return Err("dominance is not supported".into());
                }
                let k = semi()?;
                let c = self.constr(&l[1..k])?;
                let begin = l.last() == Some(&"begin");
                let end = if begin {
                    if l[l.len() - 2] != ";" {
                        return Err("no `;` before begin".into());
                    }
                    l.len() - 2
                } else {
                    l.len()
                };
                let w = self.witness(l.get(k + 1..end).unwrap_or(&[]))?;
                self.red(&c, &w, begin, lines, i, None)?;
                let id = self.push(c, false);
                let toks = l.get(k + 1..end).unwrap_or(&[]);
                self.witnesses.push((id, toks.iter().map(|x| x.to_string()).collect()));
            }
            "del" => {
                let ids: Vec<usize> = match l.get(1).copied() {
                    Some("id") => {
                        let k = l.iter().position(|t| *t == ";").unwrap_or(l.len());
                        let ids: Vec<usize> = l[2..k].iter().map(|x| self.id(x)).collect::<R<_>>()?;
                        let begin = l.last() == Some(&"begin");
                        if begin {
                            if ids.len() != 1 || l[k..] != [";", ";", "begin"] {
                                return Err("malformed deletion with sub-proof".into());
                            }
                            let c = self.db[ids[0] - 1].c.clone();
                            self.red(&c, &HashMap::new(), true, lines, i, Some(ids[0]))?;
                        } else if !matches!(l[k..], [] | [";"]) {
                            return Err("malformed deletion".into());
                        }
                        ids
                    }
                    Some("range") => {
                        if l.len() != 4 {
                            return Err("malformed range".into());
                        }
                        let (a, b) = self.range(l[2], l[3])?;
                        (a..b).filter(|x| self.db[x - 1].live).collect()
                    }
                    Some("spec") => {
                        let k = semi()?;
                        let c = self.constr(&l[2..k])?;
                        let x = self.db.iter().rposition(|e| e.live && e.c == c).ok_or("constraint to delete not found")?;
                        vec![x + 1]
                    }
                    _ => return Err("malformed deletion".into()),
                };
                for x in ids {
                    self.db[x - 1].live = false;
                }
            }
            "delc" | "deld" => {
                if l.len() < 2 {
                    return Err("no id to delete".into());
                }
                for x in &l[1..] {
                    let id = self.id(x)?;
                    if !self.lenient && self.db[id - 1].core != (l[0] == "delc") {
                        return Err(format!("constraint {id} is not in this set"));
                    }
                    self.db[id - 1].live = false;
                }
            }
            "core" => {
                let ids: Vec<usize> = match l.get(1).copied() {
                    Some("id") => l[2..].iter().map(|x| self.id(x)).collect::<R<_>>()?,
                    Some("range") if l.len() == 4 => {
                        let (a, b) = self.range(l[2], l[3])?;
                        (a..b).filter(|x| self.db[x - 1].live).collect()
                    }
                    _ => return Err("malformed core rule".into()),
                };
                for x in ids {
                    self.db[x - 1].core = true;
                }
            }
            "sol" | "solx" | "soli" => {
                let mut m: HashMap<u32, bool> = HashMap::new();
                for x in &l[1..] {
                    let (v, n) = self.lit(x)?;
                    m.insert(v, !n);
                }
                for e in self.db.iter().filter(|e| e.live) {
                    let max: i128 = e.c.t.iter().map(|(v, a)| match m.get(v) { Some(true) => *a, Some(false) => 0, None => (*a).max(0) }).sum();
                    if !self.lenient && max < e.c.b {
                        return Err("solution violates a constraint".into());
                    }
                }
                self.misc.push(l.join(" "));
                match l[0] {
                    "solx" => {
                        let mut v: Vec<(u32, bool)> = m.into_iter().collect();
                        v.sort_unstable();
                        let c = Pb::new(v.into_iter().map(|(v, b)| (1, v, b)), 1);
                        self.push(c, false);
                        self.db.last_mut().unwrap().core = true;
                    }
                    "soli" => {
                        let o = self.obj.clone().ok_or("no objective to improve")?;
                        let mut val = -o.b;
                        for (v, a) in &o.t {
                            if *m.get(v).ok_or("objective variable not in solution")? {
                                val += a;
                            }
                        }
                        // objective <= val - 1
                        let c = Pb { t: o.t.iter().map(|x| (x.0, -x.1)).collect(), b: -(val - 1) - o.b };
                        self.push(c, false);
                        self.db.last_mut().unwrap().core = true;
                    }
                    _ => (),
                }
            }
            "obju" => {
                let k = semi()?;
                let old = self.obj.clone().ok_or("no objective to update")?;
                let o = self.objective(&l[2..k])?;
                match l[1] {
                    "new" => {
                        let d = Pb { t: old.t.iter().map(|x| (x.0, -x.1)).collect(), b: -old.b };
                        let diff = o.add(&d);
                        let ndiff = Pb { t: diff.t.iter().map(|x| (x.0, -x.1)).collect(), b: -diff.b };
                        let goals: HashMap<String, Pb> = [("#1".to_string(), diff), ("#2".to_string(), ndiff)].into();
                        let mut done = vec![];
                        match l[k + 1..] {
                            [] => (),
                            ["begin"] => done = self.subproof(lines, i, &goals)?,
                            _ => return Err("malformed objective update".into()),
                        }
                        for (g, d) in &goals {
                            if !self.lenient && !done.contains(g) && !self.implied_auto(d, None) {
                                return Err(format!("objective goal {g} not proved"));
                            }
                        }
                        self.obj = Some(o);
                    }
                    "diff" => {
                        if l.len() != k + 1 {
                            return Err("malformed objective difference".into());
                        }
                        if !self.lenient && !(self.implied_auto(&o, None) && self.implied_auto(&Pb { t: o.t.iter().map(|x| (x.0, -x.1)).collect(), b: -o.b }, None)) {
                            return Err("objective difference is not zero".into());
                        }
                        self.obj = Some(old.add(&o));
                    }
                    _ => return Err("malformed objective update".into()),
                }
            }
            "eobj" => {
                let k = semi()?;
                let o = self.objective(&l[1..k])?;
                if self.obj.as_ref() != Some(&o) {
                    return Err(format!("objective is {:?}, not {o:?}", self.obj));
                }
            }
            "#" | "w" => {
                if l.len() != 2 || l[1].parse::<usize>().is_err() {
                    return Err("malformed level".into());
                }
                self.misc.push(l.join(" "));
            }
            "strengthening_to_core" => {
                if !matches!(l[1..], ["on"] | ["off"]) {
                    return Err("malformed line".into());
                }
                self.misc.push(l.join(" "));
            }
            "load_order" => self.misc.push(l.join(" ")),
            "def_order" => self.order(lines, i)?,
            x => return Err(format!("unknown rule {x}")),
        }
        Ok(())
    }
    /// an order definition; kept as a normal form of what it says
    fn order(&mut self, lines: &[Vec<&str>], i: &mut usize) -> R<()> {
        let mut out = vec![lines[*i].join(" ")];
        let mut next = |want: &[&str]| -> R<Vec<String>> {
            *i += 1;
            let l = lines.get(*i).ok_or("order not closed")?;
            if l.len() < want.len() || l[..want.len()] != *want {
                return Err(format!("{want:?} expected in order, got {l:?}"));
            }
            Ok(l[want.len()..].iter().map(|x| x.to_string()).collect())
        };
        next(&["vars"])?;
        for k in ["left", "right"] {
            let mut v = next(&[k])?;
            v.sort();
            out.push(format!("{k} {}", v.join(" ")));
        }
        next(&["aux"])?;
        next(&["end"])?;
        next(&["def"])?;
        let mut n = 0;
        loop {
            let l = next(&[])?;
            if l == ["end"] {
                break;
            }
            let t: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
            if t.last() != Some(&";") {
                return Err("no `;` after order constraint".into());
            }
            self.constr(&t[..t.len() - 1])?;
            out.push(format!("def {}", t[..t.len() - 1].join(" ")));
            n += 1;
        }
        let goals = |out: &mut Vec<String>, next: &mut dyn FnMut(&[&str]) -> R<Vec<String>>, name: &str| -> R<()> {
            next(&["proof"])?;
            let mut inside = false;
            loop {
                let l = next(&[])?;
                match l.first().map(|x| x.as_str()) {
                    Some("qed") if !inside && l.len() == 1 => break,
                    Some("qed") if inside && l.len() == 2 => inside = false,
                    Some("proofgoal") if !inside && l.len() == 2 => {
                        let k = l[1].strip_prefix('#').and_then(|x| x.parse::<usize>().ok()).ok_or("malformed goal")?;
                        if k < 1 || k > n {
                            return Err(format!("order goal {k} of {n}"));
                        }
                        inside = true;
                    }
                    Some(_) if inside => (),
                    _ => return Err(format!("unexpected line in order proof: {l:?}")),
                }
                out.push(format!("{name} {}", l.join(" ")));
            }
            Ok(())
        };
        next(&["transitivity"])?;
        next(&["vars"])?;
        let mut v = next(&["fresh_right"])?;
        v.sort();
        out.push(format!("fresh_right {}", v.join(" ")));
        next(&["end"])?;
        goals(&mut out, &mut next, "transitivity")?;
        next(&["end"])?;
        match next(&[])?.join(" ").as_str() {
            "end" => (),
            "reflexivity" => {
                goals(&mut out, &mut next, "reflexivity")?;
                next(&["end"])?;
                next(&["end"])?;
            }
            x => return Err(format!("unexpected line in order: {x}")),
        }
        self.misc.extend(out);
        Ok(())
    }
    /// `start end` with the end exclusive; it may be the next free id
    fn range(&self, a: &str, b: &str) -> R<(usize, usize)> {
        let n = self.db.len() as i64;
        let p = |s: &str| -> R<i64> {
            let i = s.parse::<i64>().map_err(|_| format!("`{s}` is not a constraint id"))?;
            Ok(if i < 0 { n + 1 + i } else { i })
        };
        let (a, b) = (p(a)?, p(b)?);
        if a < 1 || b > n + 1 || a >= b {
            return Err(format!("malformed id range {a} {b}"));
        }
        Ok((a as usize, b as usize))
    }
    /// Sets up the formula
    pub fn formula(&mut self, cs: impl IntoIterator<Item = Pb>) {
        for c in cs {
            self.db.push(Entry { c, live: true, core: true, input: true, temp: false });
        }
        self.n_input = self.db.len();
    }
    /// Checks a full proof
    pub fn check(&mut self, text: &str) -> R<()> {
        let lines: Vec<Vec<&str>> = text.lines().map(|l| l.split_whitespace().collect()).collect();
        if text.lines().next() != Some("pseudo-Boolean proof version 2.0") {
            return Err("no header".into());
        }
        let mut i = 1;
        let mut end = false;
        while i < lines.len() {
            let l = &lines[i];
            let at = i;
            if end {
                return Err(format!("line {} after the end", i + 1));
            }
            if i == 1 && l.first() != Some(&"f") {
                return Err("no `f` line".into());
            }
            match l.first().copied() {
                None => (),
                Some(x) if x.starts_with('*') => {
                    self.comments.push(l.join(" "));
                }
                Some("output") => self.output = Some(l[1..].join(" ")),
                Some("conclusion") => {
                    if self.output.is_none() || self.conclusion.is_some() {
                        return Err("misplaced conclusion".into());
                    }
                    self.conclusion = Some(l[1..].join(" "));
                }
                Some("end") => {
                    if l.join(" ") != "end pseudo-Boolean proof" || self.conclusion.is_none() {
                        return Err("misplaced end".into());
                    }
                    end = true;
                }
                _ if self.output.is_some() => return Err(format!("rule after output: {l:?}")),
                _ => self.line(&lines, &mut i).map_err(|e| format!("proof line {} `{}`: {e}", at + 1, text.lines().nth(at).unwrap_or("")))?,
            }
            i += 1;
        }
        if !end {
            return Err("proof not ended".into());
        }
        Ok(())
    }
}
