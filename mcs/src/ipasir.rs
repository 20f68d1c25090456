//! A small IPASIR solver of the harness. It checks the contract of the interface and aborts the
//! process (a violation) when it is broken.
use crate::oracle::Dpll;
use rustsat::types::Lit;
use std::collections::BTreeSet;
use std::ffi::{c_char, c_int, c_void};

type TermCb = unsafe extern "C" fn(*const c_void) -> c_int;
type LearnCb = unsafe extern "C" fn(*const c_void, *const c_int);

#[derive(PartialEq)]
enum St {
    Input,
    Sat,
    Unsat,
}

pub struct S {
    solver: Dpll,
    clauses: Vec<Vec<Lit>>,
    cur: Vec<Lit>,
    assumps: Vec<Lit>,
    last_assumps: Vec<Lit>,
    model: Vec<bool>,
    core: BTreeSet<Lit>,
    st: St,
    term: Option<(*const c_void, TermCb)>,
    learn: Option<(*const c_void, c_int, LearnCb)>,
    vars: BTreeSet<usize>,
}

fn broken(what: &str) -> ! {
    eprintln!("IPASIR contract broken: {what}");
    std::process::abort()
}

fn lit(i: c_int) -> Lit {
    Lit::from_ipasir(i).unwrap_or_else(|_| broken("invalid literal"))
}

#[no_mangle]
pub extern "C" fn ipasir_signature() -> *const c_char {
    c"harness-ipasir 1.0".as_ptr()
}

#[no_mangle]
pub extern "C" fn ipasir_init() -> *mut S {
    Box::into_raw(Box::new(S {
        solver: Dpll::new(),
        clauses: vec![],
        cur: vec![],
        assumps: vec![],
        last_assumps: vec![],
        model: vec![],
        core: BTreeSet::new(),
        st: St::Input,
        term: None,
        learn: None,
        vars: BTreeSet::new(),
    }))
}

#[no_mangle]
pub unsafe extern "C" fn ipasir_release(s: *mut S) {
    drop(Box::from_raw(s));
}

#[no_mangle]
pub unsafe extern "C" fn ipasir_add(s: *mut S, l: c_int) {
    let s = &mut *s;
    s.st = St::Input;
    if l == 0 {
        let c = std::mem::take(&mut s.cur);
        s.solver.add(c.iter().copied());
        s.clauses.push(c);
    } else {
        let l = lit(l);
        s.vars.insert(l.vidx());
        s.cur.push(l);
    }
}

#[no_mangle]
pub unsafe extern "C" fn ipasir_assume(s: *mut S, l: c_int) {
    let s = &mut *s;
    if !s.cur.is_empty() {
        broken("assume within a clause");
    }
    s.st = St::Input;
    let l = lit(l);
    s.vars.insert(l.vidx());
    s.assumps.push(l);
}

#[no_mangle]
pub unsafe extern "C" fn ipasir_solve(s: *mut S) -> c_int {
    let s = &mut *s;
    if !s.cur.is_empty() {
        broken("solve within a clause");
    }
    s.last_assumps = std::mem::take(&mut s.assumps);
    s.core.clear();
    if let Some((p, cb)) = s.term {
        // the terminator is called three times for each call
        for _ in 0..3 {
            if cb(p) != 0 {
                s.st = St::Input;
                return 0;
            }
        }
    }
    if let Some((p, max, cb)) = s.learn {
        // "learns" every implied literal and the clauses themselves, if short enough
        let mut learned: Vec<Vec<Lit>> = vec![];
        for &v in &s.vars {
            for l in [Lit::positive(v as u32), Lit::negative(v as u32)] {
                if s.solver.entails(&[l]) {
                    learned.push(vec![l]);
                }
            }
        }
        learned.extend(s.clauses.iter().cloned());
        for c in learned {
            if c.len() as i64 <= i64::from(max) {
                let mut v: Vec<c_int> = c.iter().map(|l| l.to_ipasir()).collect();
                v.push(0);
                cb(p, v.as_ptr());
            }
        }
    }
    let a = s.last_assumps.clone();
    if s.solver.sat(&a) {
        s.st = St::Sat;
        let mut fix = a.clone();
        s.model = vec![false; s.vars.last().map_or(0, |v| v + 1)];
        for &v in &s.vars {
            let p = Lit::positive(v as u32);
            fix.push(p);
            if s.solver.sat(&fix) {
                s.model[v] = true;
            } else {
                *fix.last_mut().unwrap() = !p;
            }
        }
        10
    } else {
        s.st = St::Unsat;
        let mut core = a;
        let mut i = 0;
        while i < core.len() {
            let mut c = core.clone();
            c.remove(i);
            if s.solver.sat(&c) {
                i += 1;
            } else {
                core = c;
            }
        }
        s.core = core.into_iter().collect();
        20
    }
}

#[no_mangle]
pub unsafe extern "C" fn ipasir_val(s: *mut S, l: c_int) -> c_int {
    let s = &mut *s;
    if s.st != St::Sat {
        broken("val without a model");
    }
    let x = lit(l);
    if !s.vars.contains(&x.vidx()) {
        return 0;
    }
    if s.model[x.vidx()] == x.is_pos() {
        l
    } else {
        -l
    }
}

#[no_mangle]
pub unsafe extern "C" fn ipasir_failed(s: *mut S, l: c_int) -> c_int {
    let s = &mut *s;
    if s.st != St::Unsat {
        broken("failed without a core");
    }
    let l = lit(l);
    if !s.last_assumps.contains(&l) {
        broken("failed for a literal that was not assumed");
    }
    c_int::from(s.core.contains(&l))
}

#[no_mangle]
pub unsafe extern "C" fn ipasir_set_terminate(s: *mut S, p: *const c_void, cb: Option<TermCb>) {
    (*s).term = cb.map(|c| (p, c));
}

#[no_mangle]
pub unsafe extern "C" fn ipasir_set_learn(s: *mut S, p: *const c_void, max: c_int, cb: Option<LearnCb>) {
    (*s).learn = cb.map(|c| (p, max, c));
}
