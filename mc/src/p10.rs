//! Literal and variable numbering: all 2^32 literal codes
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::types::{Lit, TypeError, Var};

/// everything that is cheap enough for every single literal
fn cheap(code: u32) -> Result<(), String> {
    let (idx, neg) = (code >> 1, code & 1 == 1);
    let v = Var::new(idx);
    let x = Lit::new(idx, neg);
    let int: i64 = if neg { -(i64::from(idx) + 1) } else { i64::from(idx) + 1 };
    let fits = idx < i32::MAX as u32;
    let ok = x == v.lit(neg)
        && x.var() == v
        && x.vidx() == idx as usize
        && x.vidx32() == idx
        && v.idx() == idx as usize
        && v.idx32() == idx
        && x.is_neg() == neg
        && x.is_pos() != neg
        && x.lidx32() == code
        && x.lidx() == code as usize
        && x == (if neg { v.neg_lit() } else { v.pos_lit() })
        && (!x).is_neg() != neg
        && (!x).var() == v
        && !!x == x
        && -x == !x
        && x == unsafe { Lit::from_lidx(code) }
        && matches!(Lit::new_with_error(idx, neg), Ok(y) if y == x)
        && matches!(Var::new_with_error(idx), Ok(y) if y == v);
    if !ok {
        return Err(format!("representation of variable {idx}, negated {neg}"));
    }
    if fits {
        let back = Lit::from_ipasir(int as i32);
        if i64::from(x.to_ipasir()) != int
            || !matches!(x.to_ipasir_with_error(), Ok(y) if i64::from(y) == int)
            || !matches!(back, Ok(y) if y == x)
            || v.to_ipasir() as i64 != int.abs()
            || !matches!(v.to_ipasir_with_error(), Ok(y) if i64::from(y) == int.abs())
        {
            return Err(format!("integer conversions of literal {int}"));
        }
    }
    Ok(())
}

fn chunk(t: &mut Tally, c: &(u32, u32)) -> Result<(), String> {
    t.state(c);
    let mut k = c.0;
    loop {
        cheap(k)?;
        if k == c.1 {
            break;
        }
        k += 1;
    }
    t.step(u64::from(c.1 - c.0) + 1);
    Ok(())
}

fn detail(t: &mut Tally, code: &u32) -> Result<(), String> {
    let (idx, neg) = (code >> 1, code & 1 == 1);
    let x = Lit::new(idx, neg);
    let v = Var::new(idx);
    t.state(code);
    t.step(1);
    ensure_eq!(format!("{v}"), format!("x{idx}"), "display of variable");
    ensure_eq!(format!("{v:?}"), format!("x{idx}"), "debug of variable");
    ensure_eq!(format!("{x}"), format!("{}x{idx}", if neg { "~" } else { "" }), "display of literal");
    ensure_eq!(format!("{x:?}"), format!("{}x{idx}", if neg { "~" } else { "" }), "debug of literal");
    ensure_eq!(Lit::positive(idx), v.pos_lit(), "positive");
    ensure_eq!(Lit::negative(idx), v.neg_lit(), "negative");
    check!(matches!(Lit::positive_with_error(idx), Ok(y) if y == v.pos_lit()), "positive_with_error");
    check!(matches!(Lit::negative_with_error(idx), Ok(y) if y == v.neg_lit()), "negative_with_error");
    // serialisation
    let s = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    ensure_eq!(serde_json::from_str::<Lit>(&s).ok(), Some(x), "literal through {s}");
    let s = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    ensure_eq!(serde_json::from_str::<Var>(&s).ok(), Some(v), "variable through {s}");
    // the highest literals may not fit the integer format: error, never another literal
    match x.to_ipasir_with_error() {
        Ok(i) => check!(matches!(Lit::from_ipasir(i), Ok(y) if y == x), "{i} does not convert back"),
        Err(TypeError::IdxTooHigh(..)) => check!(idx >= i32::MAX as u32, "conversion refused"),
        Err(e) => return Err(format!("conversion: {e}")),
    }
    for d in [0u32, 1, 2, 7, 1 << 20] {
        if u64::from(idx) + u64::from(d) <= u64::from(Var::MAX_IDX) {
            let (mut a, mut b) = (x, v);
            a += d;
            b += d;
            ensure_eq!((x + d, a), (Lit::new(idx + d, neg), Lit::new(idx + d, neg)), "literal plus {d}");
            ensure_eq!((v + d, b), (Var::new(idx + d), Var::new(idx + d)), "variable plus {d}");
        } else {
            check!(guarded(|| v + d).is_err(), "variable plus {d} exceeds the maximum unnoticed");
        }
        if idx >= d {
            let (mut a, mut b) = (x, v);
            a -= d;
            b -= d;
            ensure_eq!((x - d, a), (Lit::new(idx - d, neg), Lit::new(idx - d, neg)), "literal minus {d}");
            ensure_eq!((v - d, b), (Var::new(idx - d), Var::new(idx - d)), "variable minus {d}");
        } else {
            check!(guarded(|| v - d).is_err(), "variable minus {d} is negative unnoticed");
            check!(guarded(|| x - d).is_err(), "literal minus {d} is negative unnoticed");
        }
    }
    Ok(())
}

fn order(t: &mut Tally, c: &(u32, u32)) -> Result<(), String> {
    let (a, b) = c;
    let (x, y) = (Lit::new(a >> 1, a & 1 == 1), Lit::new(b >> 1, b & 1 == 1));
    t.state(c);
    t.step(1);
    ensure_eq!(x.cmp(&y), a.cmp(b), "order of literals");
    ensure_eq!(x.var().cmp(&y.var()), (a >> 1).cmp(&(b >> 1)), "order of variables");
    ensure_eq!(x == y, a == b, "equality of literals");
    ensure_eq!(x == !y, a ^ 1 == *b, "complement");
    Ok(())
}

fn bad_index(t: &mut Tally, i: &u32) -> Result<(), String> {
    t.state(i);
    t.step(1);
    check!(matches!(Var::new_with_error(*i), Err(TypeError::IdxTooHigh(a, b)) if a == *i && b == Var::MAX_IDX), "variable index accepted");
    for neg in [false, true] {
        check!(matches!(Lit::new_with_error(*i, neg), Err(TypeError::IdxTooHigh(a, b)) if a == *i && b == Var::MAX_IDX), "literal index accepted");
        check!(guarded(|| Lit::new(*i, neg)).is_err(), "literal index accepted");
    }
    check!(guarded(|| Var::new(*i)).is_err(), "variable index accepted");
    check!(serde_json::from_str::<Var>(&i.to_string()).is_err(), "variable deserialised");
    Ok(())
}

fn integer(t: &mut Tally, i: &i32) -> Result<(), String> {
    t.state(i);
    t.step(1);
    match Lit::from_ipasir(*i) {
        Ok(x) => {
            check!(*i != 0, "zero accepted as literal");
            ensure_eq!((x.vidx() as i64 + 1, x.is_neg()), (i64::from(*i).abs(), *i < 0), "literal from {i}");
            t.outcome("literal");
        }
        Err(TypeError::IpasirZero) => check!(*i == 0, "{i} called zero"),
        Err(TypeError::IdxTooHigh(..)) => check!(*i == i32::MIN, "{i} refused"),
    }
    Ok(())
}

pub fn run(cx: &Ctx) {
    // every literal there is
    let step = 1u32 << 22;
    let mut ch = vec![];
    let mut a = 0u64;
    while a <= u64::from(u32::MAX) {
        let e = (a + u64::from(step) - 1).min(u64::from(u32::MAX));
        ch.push((a as u32, e as u32));
        a = e + 1;
    }
    // first and last parts literal by literal, so that a failure names its literal
    cx.run("all-literals", &ch, chunk);
    let mut near: Vec<u32> = (0..4000).chain(u32::MAX - 4000..=u32::MAX).collect();
    for p in 2..32 {
        near.extend((0..8).map(|d| (1u32 << p).wrapping_add(d).wrapping_sub(4)));
    }
    cx.run("detail", &near, detail);
    let mut few: Vec<u32> = (0..200).chain(u32::MAX - 200..=u32::MAX).collect();
    for p in 8..32 {
        few.extend((0..4).map(|d| (1u32 << p) + d - 2));
    }
    let pairs: Vec<(u32, u32)> = few.iter().flat_map(|&a| few.iter().map(move |&b| (a, b))).collect();
    cx.run("order", &pairs, order);
    let m = Var::MAX_IDX;
    let bad: Vec<u32> = (1..2000).map(|d| m + d).chain((0..2000).map(|d| u32::MAX - d)).collect();
    cx.run("invalid-indices", &bad, bad_index);
    let ints: Vec<i32> = (-3000..=3000).chain(i32::MAX - 3000..=i32::MAX).chain(i32::MIN..=i32::MIN + 3000).collect();
    cx.run("integers", &ints, integer);
    cx.bound("literals", "all 2^32 literal codes for representation, negation and integer conversion");
    cx.bound("detail", "text, serialisation and index arithmetic for the first and last 4000 codes and around every power of two");
}
