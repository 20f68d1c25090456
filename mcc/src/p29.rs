//! P29 the C interface and the Rust calls it stands for, in lock step
use crate::rt::{guarded, seqs, Ctx, Tally};
use crate::ensure_eq;
use core::ffi::{c_int, c_void};
use rustsat::encodings::{am1, card, pb, EnforceError};
use rustsat::instances::{BasicVarManager, Cnf, ManageVars};
use rustsat::types::{Lit, Var};

type Col = extern "C" fn(c_int, *mut c_void);
#[repr(C)]
struct Api {
    create: unsafe extern "C" fn() -> *mut c_void,
    drop: unsafe extern "C" fn(*mut c_void),
    add: unsafe extern "C" fn(*mut c_void, c_int, usize) -> c_int,
    encode: Option<unsafe extern "C" fn(*mut c_void, *mut u32, Col, *mut c_void)>,
    reserve: Option<unsafe extern "C" fn(*mut c_void, *mut u32)>,
    encode_ub: Option<unsafe extern "C" fn(*mut c_void, usize, usize, *mut u32, Col, *mut c_void)>,
    encode_lb: Option<unsafe extern "C" fn(*mut c_void, usize, usize, *mut u32, Col, *mut c_void)>,
    enforce_ub: Option<unsafe extern "C" fn(*mut c_void, usize, Col, *mut c_void) -> c_int>,
    enforce_lb: Option<unsafe extern "C" fn(*mut c_void, usize, Col, *mut c_void) -> c_int>,
}
unsafe impl Sync for Api {}
extern "C" {
    static apis: [&'static Api; 10];
    static errors: [c_int; 7];
    fn shim_coarse_ub(e: *mut c_void, b: usize) -> usize;
    fn shim_set_precision(e: *mut c_void, p: usize) -> c_int;
    fn shim_next_precision(e: *mut c_void) -> usize;
    fn shim_is_max_precision(e: *mut c_void) -> bool;
    fn shim_limit_range(e: *mut c_void, lo: usize, hi: usize, c: Col, d: *mut c_void);
}
const OK: usize = 0;
const NOT_ENCODED: usize = 1;
const UNSAT: usize = 2;
const INVALID_STATE: usize = 3;
const INVALID_LITERAL: usize = 4;
const NOT_POW2: usize = 5;
const DECREASED: usize = 6;

#[derive(Clone, Debug)]
pub enum Op {
    Add(i32, usize),
    Encode,
    Reserve,
    EncUb(usize, usize),
    EncLb(usize, usize),
    Ub(usize),
    Lb(usize),
    Coarse(usize),
    SetPrec(usize),
    Prec,
    Limit(usize, usize),
}

extern "C" fn collect(x: c_int, d: *mut c_void) {
    crate::heap::uncounted(|| unsafe { (*d.cast::<Vec<c_int>>()).push(x) })
}

/// The Rust side
trait Side {
    fn add(&mut self, x: Lit, w: usize) -> usize;
    fn encode(&mut self, _: &mut Cnf, _: &mut BasicVarManager) {
        unreachable!()
    }
    fn reserve(&mut self, _: &mut BasicVarManager) {
        unreachable!()
    }
    fn encode_ub(&mut self, _: usize, _: usize, _: &mut Cnf, _: &mut BasicVarManager) {
        unreachable!()
    }
    fn encode_lb(&mut self, _: usize, _: usize, _: &mut Cnf, _: &mut BasicVarManager) {
        unreachable!()
    }
    fn ub(&self, _: usize) -> Result<Vec<Lit>, EnforceError> {
        unreachable!()
    }
    fn lb(&self, _: usize) -> Result<Vec<Lit>, EnforceError> {
        unreachable!()
    }
    fn dpw(&mut self) -> &mut pb::DynamicPolyWatchdog {
        unreachable!()
    }
}
macro_rules! am1_side {
    ($($t:ty),*) => {$(
        impl Side for $t {
            fn add(&mut self, x: Lit, _: usize) -> usize {
                self.extend([x]);
                OK
            }
            fn encode(&mut self, c: &mut Cnf, v: &mut BasicVarManager) {
                am1::Encode::encode(self, c, v).unwrap();
            }
        }
    )*};
}
am1_side!(am1::Pairwise, am1::Ladder, am1::Bitwise, am1::Commander, am1::Bimander, am1::TwoProduct);
macro_rules! bound_side {
    ($t:ty, $m:ident, $add:expr $(, $lb:ident)?) => {
        impl Side for $t {
            fn add(&mut self, x: Lit, w: usize) -> usize {
                #[allow(clippy::redundant_closure_call)]
                ($add)(self, x, w)
            }
            fn reserve(&mut self, v: &mut BasicVarManager) {
                $m::EncodeIncremental::reserve(self, v);
            }
            fn encode_ub(&mut self, a: usize, b: usize, c: &mut Cnf, v: &mut BasicVarManager) {
                $m::BoundUpperIncremental::encode_ub_change(self, a..=b, c, v).unwrap();
            }
            fn ub(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                $m::BoundUpper::enforce_ub(self, b).map_err(EnforceError::from)
            }
            $(
            fn encode_lb(&mut self, a: usize, b: usize, c: &mut Cnf, v: &mut BasicVarManager) {
                $m::$lb::encode_lb_change(self, a..=b, c, v).unwrap();
            }
            fn lb(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                $m::BoundLower::enforce_lb(self, b)
            }
            )?
        }
    };
}
fn pb_add<T: Extend<(Lit, usize)>>(e: &mut T, x: Lit, w: usize) -> usize {
    e.extend([(x, w)]);
    OK
}
bound_side!(card::Totalizer, card, |e: &mut card::Totalizer, x: Lit, _: usize| { e.extend([x]); OK }, BoundLowerIncremental);
bound_side!(pb::GeneralizedTotalizer, pb, pb_add);
bound_side!(pb::BinaryAdder, pb, pb_add, BoundLowerIncremental);
struct Dpw(pb::DynamicPolyWatchdog);
impl Side for Dpw {
    fn add(&mut self, x: Lit, w: usize) -> usize {
        if self.0.add_input(x, w).is_ok() {
            OK
        } else {
            INVALID_STATE
        }
    }
    fn reserve(&mut self, v: &mut BasicVarManager) {
        pb::EncodeIncremental::reserve(&mut self.0, v);
    }
    fn encode_ub(&mut self, a: usize, b: usize, c: &mut Cnf, v: &mut BasicVarManager) {
        pb::BoundUpperIncremental::encode_ub_change(&mut self.0, a..=b, c, v).unwrap();
    }
    fn ub(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
        pb::BoundUpper::enforce_ub(&self.0, b).map_err(EnforceError::from)
    }
    fn dpw(&mut self) -> &mut pb::DynamicPolyWatchdog {
        &mut self.0
    }
}

fn side(k: usize) -> Box<dyn Side> {
    match k {
        0 => Box::new(am1::Pairwise::default()),
        1 => Box::new(am1::Ladder::default()),
        2 => Box::new(am1::Bitwise::default()),
        3 => Box::new(am1::Commander::default()),
        4 => Box::new(am1::Bimander::default()),
        5 => Box::new(am1::TwoProduct::default()),
        6 => Box::new(card::Totalizer::default()),
        7 => Box::new(pb::GeneralizedTotalizer::default()),
        8 => Box::new(pb::BinaryAdder::default()),
        _ => Box::new(Dpw(pb::DynamicPolyWatchdog::default())),
    }
}
const NAMES: [&str; 10] = ["pairwise", "ladder", "bitwise", "commander", "bimander", "twoproduct", "tot", "gte", "bin_adder", "dpw"];

/// The signed integer of a literal
fn num(x: Lit) -> c_int {
    let v = i64::from(x.vidx32()) + 1;
    (if x.is_neg() { -v } else { v }).try_into().expect("literal in range")
}
fn flat(c: &Cnf) -> Vec<c_int> {
    let mut out = vec![];
    for c in c {
        out.extend(c.iter().map(|x| num(*x)));
        out.push(0);
    }
    out
}

/// Ok(None): the call is outside of the documented domain, the history ends
fn rust<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f).map_err(|m| format!("the Rust call {what} does not return: {m}"))
}

/// A call of the C interface; the memory it allocates is counted
fn c_side<T>(f: impl FnOnce() -> T) -> T {
    crate::heap::counted(f)
}

fn history(t: &mut Tally, k: usize, n0: u32, h: &[Op]) -> Result<(), String> {
    let api = unsafe { apis[k] };
    let code = |c: usize| unsafe { errors[c] };
    unsafe {
        let live = crate::heap::live();
        let e = c_side(|| (api.create)());
        let mut s = side(k);
        let mut n = n0;
        let mut vm = BasicVarManager::from_next_free(Var::new(n0));
        let mut reserved: Option<u32> = None;
        let mut known = None;
        for (i, op) in h.iter().enumerate() {
            let mut got: Vec<c_int> = vec![];
            let d: *mut c_void = (&raw mut got).cast();
            let mut c = Cnf::new();
            let at = |m: String| format!("call {i} ({op:?}): {m}");
            t.step(1);
            match op {
                Op::Add(x, w) => {
                    let want = if *x == 0 {
                        INVALID_LITERAL
                    } else {
                        let v = Var::new(x.unsigned_abs() - 1);
                        rust("add", || s.add(if *x > 0 { v.pos_lit() } else { v.neg_lit() }, *w)).map_err(at)?
                    };
                    t.outcome(&format!("add {want}"));
                    ensure_eq!(c_side(|| (api.add)(e, *x, *w)), code(want), "return code of call {i} ({op:?})");
                    reserved = None;
                }
                Op::Encode => {
                    rust("encode", || s.encode(&mut c, &mut vm)).map_err(at)?;
                    c_side(|| (api.encode.unwrap())(e, &mut n, collect, d));
                }
                Op::Reserve => {
                    rust("reserve", || s.reserve(&mut vm)).map_err(at)?;
                    c_side(|| (api.reserve.unwrap())(e, &mut n));
                    reserved = Some(n);
                }
                Op::EncUb(a, b) => {
                    rust("encode_ub", || s.encode_ub(*a, *b, &mut c, &mut vm)).map_err(at)?;
                    c_side(|| (api.encode_ub.unwrap())(e, *a, *b, &mut n, collect, d));
                    if let Some(r) = reserved.filter(|r| n > *r) {
                        if k != 8 {
                            return Err(format!("variables used by call {i} ({op:?}) after reserving: {n}, reserved {r}"));
                        }
                        // the comparator; the history goes on
                        known = Some(format!("[known:adder-reserve] call {i} ({op:?}) uses more variables than were reserved"));
                        reserved = Some(n);
                    }
                }
                Op::EncLb(a, b) => {
                    rust("encode_lb", || s.encode_lb(*a, *b, &mut c, &mut vm)).map_err(at)?;
                    c_side(|| (api.encode_lb.unwrap())(e, *a, *b, &mut n, collect, d));
                }
                Op::Ub(b) | Op::Lb(b) => {
                    let ub = matches!(op, Op::Ub(_));
                    let r = rust("enforce", || if ub { s.ub(*b) } else { s.lb(*b) }).map_err(at)?;
                    let f = if ub { api.enforce_ub } else { api.enforce_lb }.unwrap();
                    let rc = c_side(|| f(e, *b, collect, d));
                    let (want, a) = match r {
                        Ok(a) => (OK, a),
                        Err(EnforceError::NotEncoded) => (NOT_ENCODED, vec![]),
                        Err(EnforceError::Unsat) => (UNSAT, vec![]),
                    };
                    t.outcome(&format!("enforce {want} {}", a.len()));
                    ensure_eq!(rc, code(want), "return code of call {i} ({op:?})");
                    ensure_eq!(got, a.iter().map(|x| num(*x)).collect::<Vec<_>>(), "assumptions of call {i} ({op:?})");
                    got.clear();
                }
                Op::Coarse(b) => ensure_eq!(c_side(|| shim_coarse_ub(e, *b)), pb::BoundUpper::coarse_ub(s.dpw(), *b), "result of call {i} ({op:?})"),
                Op::SetPrec(p) => {
                    use pb::dpw::PrecisionError;
                    let r = rust("set_precision", || s.dpw().set_precision(*p)).map_err(at)?;
                    let want = match r {
                        Ok(()) => OK,
                        Err(PrecisionError::NotPow2) => NOT_POW2,
                        Err(PrecisionError::PrecisionDecreased) => DECREASED,
                    };
                    t.outcome(&format!("precision {want}"));
                    ensure_eq!(c_side(|| shim_set_precision(e, *p)), code(want), "return code of call {i} ({op:?})");
                    // a higher precision extends the encoding
                    reserved = None;
                }
                Op::Prec => {
                    let (p, m) = rust("next_precision", || (s.dpw().next_precision(), s.dpw().is_max_precision())).map_err(at)?;
                    ensure_eq!((c_side(|| shim_next_precision(e)), c_side(|| shim_is_max_precision(e))), (p, m), "result of call {i} ({op:?})");
                }
                Op::Limit(a, b) => {
                    rust("limit_range", || s.dpw().limit_range(*a..=*b, &mut c).unwrap()).map_err(at)?;
                    c_side(|| shim_limit_range(e, *a, *b, collect, d));
                }
            }
            ensure_eq!(got, flat(&c), "clauses of call {i} ({op:?})");
            ensure_eq!(n, vm.n_used(), "variables used after call {i} ({op:?})");
            if !got.is_empty() {
                t.outcome("clauses");
            }
            t.state((k, n, &got, i));
        }
        c_side(|| (api.drop)(e));
        ensure_eq!(crate::heap::live(), live, "bytes of memory allocated by the C calls and not released by drop");
        known.map_or(Ok(()), Err)
    }
}

pub fn run(cx: &Ctx) {
    use Op::*;
    let adds = |w: &[usize]| -> Vec<Op> { [1, -2, 3, 4, 0, -1].iter().enumerate().map(|(i, x)| Add(*x, w[i % w.len()])).collect() };
    let big = usize::MAX;
    for k in 0..10 {
        let name = NAMES[k];
        if k < 6 {
            // all literal sequences, encoded once and again after another literal
            let n = cx.pick(6, 8);
            cx.bound("literals of an at-most-one constraint", n);
            let lits = [1, -2, 3, 0];
            let s: Vec<Vec<i32>> = seqs(&lits, 0, n);
            cx.run_forked(name, s.len() * 2, |i| (s[i / 2].clone(), [4, 100][i % 2]), |t, (s, n0)| {
                let mut h: Vec<Op> = s.iter().map(|x| Add(*x, 1)).collect();
                h.extend([Encode, Add(-4, 1), Encode, Encode]);
                history(t, k, *n0, &h)
            });
            let m = cx.pick(14, 40);
            cx.run_forked(&format!("{name} many"), m as usize, |i| i as i32, |t, m| {
                let mut h: Vec<Op> = (1..=*m).map(|x| Add(if x % 3 == 0 { -x } else { x }, 1)).collect();
                h.extend([Encode]);
                history(t, k, *m as u32, &h)
            });
            continue;
        }
        let mut a = adds(if k == 6 { &[1] } else { &[1, 2, 3, 2] });
        a.extend([Reserve, EncUb(0, 0), EncUb(0, 1), EncUb(1, 2), EncUb(2, 7), EncUb(0, big), Ub(0), Ub(1), Ub(2), Ub(5)]);
        if k == 6 || k == 8 {
            a.extend([EncLb(0, 0), EncLb(1, 1), EncLb(1, 3), EncLb(2, big), Lb(0), Lb(1), Lb(3), Lb(9)]);
        }
        if k == 9 {
            a.extend([Coarse(0), Coarse(3), SetPrec(1), SetPrec(2), SetPrec(4), SetPrec(0), SetPrec(3), Prec, Limit(0, 2), Limit(1, big), Limit(2, 2)]);
        }
        let depth = cx.pick(5, 6);
        cx.bound("history length", depth);
        let n = a.len();
        let nth = |mut i: usize| {
            let mut h = vec![];
            for _ in 0..depth {
                h.push(a[i % n].clone());
                i /= n;
            }
            h
        };
        cx.run_forked(name, n.pow(depth as u32), nth, |t, h| history(t, k, 4, h));
        // the same after some literals
        let pre: Vec<Vec<Op>> = vec![
            vec![Add(1, 1), Add(2, 1), Add(3, 1)],
            vec![Add(1, 4), Add(-2, 3), Add(3, 1), Add(-4, 2)],
            vec![Add(1, 1), Reserve, Add(2, 5)],
        ];
        let d = depth - 1;
        cx.run_forked(&format!("{name} after literals"), pre.len() * n.pow(d as u32), |i| {
            let mut h = pre[i % pre.len()].clone();
            let mut i = i / pre.len();
            for _ in 0..d {
                h.push(a[i % n].clone());
                i /= n;
            }
            h
        }, |t, h| history(t, k, 10, h));
        // many literals
        let m = cx.pick(9, 17);
        cx.run_forked(&format!("{name} many"), m, |i| i as i32, |t, m| {
            let mut h: Vec<Op> = (1..=*m).map(|x| Add(if x % 3 == 0 { -x } else { x }, (x as usize * 5) % 7 + 1)).collect();
            h.push(Reserve);
            let top = 5 * *m as usize;
            for b in 0..=top {
                h.extend([EncUb(b, b), Ub(b)]);
                if k == 6 || k == 8 {
                    h.extend([EncLb(b, b), Lb(b)]);
                }
            }
            h.extend([EncUb(0, top), EncUb(0, top)]);
            h.extend((0..=top).map(Ub));
            history(t, k, *m as u32, &h)
        });
    }
    cx.assume("the C interface is compiled as a Rust library with the sources and features of its own crate and called from C code that sees the header only");
}
