//! Variable managers
use crate::rt::*;
use crate::{check, ensure_eq};
use rustsat::instances::{BasicVarManager, ManageVars, ObjectVarManager, RandReindVarManager, ReindexVars, ReindexingVarManager};
use rustsat::types::Var;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Op {
    New,
    NewLit,
    Inc(u32),
    Mark(u32),
    Forget(u32),
    /// request the variable of a key (object or input variable)
    Key(u8),
    KeyLit(u8, bool),
    Serde,
    /// combine with a manager with its own start and history
    Comb(u32, Vec<Op>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Basic,
    Object,
    Reindex,
}

#[derive(Clone, Hash, Default, PartialEq, Debug)]
struct Model {
    next: u32,
    map: BTreeMap<u8, u32>,
}

impl Model {
    fn new(k: Kind, next: u32) -> Self {
        let mut m = Model { next, map: BTreeMap::new() };
        if k == Kind::Reindex {
            for v in 0..next {
                m.map.insert(v as u8, v);
            }
        }
        m
    }
}

enum M {
    B(BasicVarManager),
    O(ObjectVarManager),
    R(ReindexingVarManager),
}
#[derive(PartialEq, Eq, Hash)]
struct Obj(u8);

macro_rules! vm {
    ($m:expr, $v:ident => $e:expr) => {
        match $m {
            M::B($v) => $e,
            M::O($v) => $e,
            M::R($v) => $e,
        }
    };
}

impl M {
    fn new(k: Kind, start: Option<u32>) -> M {
        match (k, start) {
            (Kind::Basic, None) => M::B(BasicVarManager::default()),
            (Kind::Object, None) => M::O(ObjectVarManager::default()),
            (Kind::Reindex, None) => M::R(ReindexingVarManager::default()),
            (Kind::Basic, Some(n)) => M::B(BasicVarManager::from_next_free(Var::new(n))),
            (Kind::Object, Some(n)) => M::O(ObjectVarManager::from_next_free(Var::new(n))),
            (Kind::Reindex, Some(n)) => M::R(ReindexingVarManager::from_next_free(Var::new(n))),
        }
    }
    fn key(&mut self, k: u8) -> Var {
        match self {
            M::B(_) => unreachable!(),
            // equal values of different types are different objects
            M::O(m) => match k {
                0 => m.object_var(1u8),
                1 => m.object_var(1u32),
                2 => m.object_var(Obj(1)),
                3 => m.object_var("1".to_string()),
                4 => m.object_var(2u8),
                _ => m.object_var(vec![k as i64]),
            },
            M::R(m) => m.reindex(Var::new(k.into())),
        }
    }
}

fn exec(t: &mut Tally, k: Kind, m: &mut M, md: &mut Model, ops: &[Op]) -> Result<(), String> {
    for op in ops {
        match op {
            Op::New => {
                let v = vm!(m, x => x.new_var());
                ensure_eq!(v.idx32(), md.next, "new variable");
                md.next += 1;
            }
            Op::NewLit => {
                let l = vm!(m, x => x.new_lit());
                ensure_eq!(l, Var::new(md.next).pos_lit(), "new literal");
                md.next += 1;
            }
            Op::Inc(v) => {
                let r = vm!(m, x => x.increase_next_free(Var::new(*v)));
                ensure_eq!(r, *v > md.next, "increase_next_free result");
                md.next = md.next.max(*v);
            }
            Op::Mark(v) => {
                let r = vm!(m, x => x.mark_used(Var::new(*v)));
                ensure_eq!(r, *v + 1 > md.next, "mark_used result");
                md.next = md.next.max(*v + 1);
            }
            Op::Forget(v) => {
                vm!(m, x => x.forget_from(Var::new(*v)));
                md.next = md.next.min(*v);
                md.map.retain(|_, o| *o < *v);
            }
            Op::Key(o) => {
                let v = m.key(*o);
                let e = *md.map.entry(*o).or_insert_with(|| {
                    md.next += 1;
                    md.next - 1
                });
                ensure_eq!(v.idx32(), e, "variable of key {o}");
            }
            Op::KeyLit(o, neg) => {
                let M::R(r) = m else { continue };
                let l = r.reindex_lit(Var::new((*o).into()).lit(*neg));
                let e = *md.map.entry(*o).or_insert_with(|| {
                    md.next += 1;
                    md.next - 1
                });
                ensure_eq!(l, Var::new(e).lit(*neg), "reindexed literal of {o} {neg}");
            }
            Op::Serde => match m {
                M::B(b) => {
                    let s = serde_json::to_string(b).unwrap();
                    let n: BasicVarManager = serde_json::from_str(&s).map_err(|e| format!("deserialising: {e}"))?;
                    check!(n == *b, "serialising changes the manager");
                    *b = n;
                }
                _ => (),
            },
            Op::Comb(start, ops) => {
                let mut o = M::new(k, Some(*start));
                let mut omd = Model::new(k, *start);
                exec(t, k, &mut o, &mut omd, ops)?;
                match (&mut *m, o) {
                    (M::B(a), M::B(b)) => a.combine(b),
                    (M::O(a), M::O(b)) => a.combine(b),
                    (M::R(a), M::R(b)) => a.combine(b),
                    _ => unreachable!(),
                }
                md.next = md.next.max(omd.next);
                md.map.extend(omd.map);
            }
        }
        t.step(1);
        t.state((k as u8, &*md));
        ensure_eq!(vm!(m, x => x.n_used()), md.next, "n_used after {op:?}");
        ensure_eq!(vm!(m, x => x.max_var()).map(|v| v.idx32() + 1).unwrap_or(0), md.next, "max_var after {op:?}");
        if let M::R(r) = m {
            for v in 0..8u32 {
                let pre: Vec<u32> = md.map.iter().filter(|x| *x.1 == v).map(|x| (*x.0).into()).collect();
                let got = r.reverse(Var::new(v)).map(|x| x.idx32());
                match got {
                    None => check!(pre.is_empty(), "reverse({v}) gives nothing after {op:?}, but {pre:?} map to it"),
                    Some(g) => check!(pre.contains(&g), "reverse({v}) = {g} after {op:?}, but {pre:?} map to it"),
                }
                for neg in [false, true] {
                    ensure_eq!(r.reverse_lit(Var::new(v).lit(neg)), got.map(|g| Var::new(g).lit(neg)), "reverse literal");
                }
                t.step(1);
            }
        }
    }
    // in the end every key still has its variable
    if k != Kind::Basic {
        for o in 0..6u8 {
            let v = m.key(o);
            match md.map.get(&o) {
                Some(e) => ensure_eq!(v.idx32(), *e, "variable of key {o} in the end"),
                None => {
                    ensure_eq!(v.idx32(), md.next, "variable of the new key {o} in the end");
                    md.map.insert(o, md.next);
                    md.next += 1;
                }
            }
            t.step(1);
        }
    }
    Ok(())
}

pub fn run(cx: &Ctx) {
    let depth = cx.pick(4, 5);
    for k in [Kind::Basic, Kind::Object, Kind::Reindex] {
        let mut al = vec![Op::New, Op::Inc(0), Op::Inc(2), Op::Inc(5), Op::Mark(0), Op::Mark(2), Op::Forget(0), Op::Forget(1), Op::Forget(2), Op::Forget(4)];
        if k == Kind::Basic {
            al.extend([Op::NewLit, Op::Serde]);
            al.extend([Op::Comb(0, vec![]), Op::Comb(1, vec![]), Op::Comb(3, vec![Op::New])]);
        } else {
            al.extend((0..4).map(Op::Key));
            al.extend([
                Op::Comb(0, vec![]),
                Op::Comb(2, vec![]),
                Op::Comb(0, vec![Op::Key(1)]),
                Op::Comb(0, vec![Op::New, Op::Key(2), Op::Key(0)]),
                Op::Comb(1, vec![Op::Key(0), Op::Key(4)]),
            ]);
            if k == Kind::Reindex {
                al.extend([Op::KeyLit(1, false), Op::KeyLit(3, true)]);
            }
        }
        let len = al.len();
        let starts = [None, Some(0), Some(2), Some(3)];
        // histories are sequences over the alphabet, addressed by their number
        let mut n = 0;
        let mut offs = vec![];
        for d in 0..=depth {
            offs.push((n, d));
            n += len.pow(d as u32);
        }
        cx.run_idx(
            &format!("{k:?}"),
            n * starts.len(),
            |i| {
                let (s, mut i) = (starts[i / n], i % n);
                let (off, d) = *offs.iter().rev().find(|x| x.0 <= i).unwrap();
                i -= off;
                let mut ops = vec![];
                for _ in 0..d {
                    ops.push(al[i % len].clone());
                    i /= len;
                }
                (s, ops)
            },
            |t, (s, ops)| {
                let mut m = M::new(k, *s);
                let mut md = Model::new(k, s.unwrap_or(0));
                exec(t, k, &mut m, &mut md, ops)
            },
        );
    }
    // random re-indexing: whatever permutation is drawn, it has to be one, with its inverse
    let reps = cx.pick(60, 600);
    let cases: Vec<(u32, usize)> = (0..=6).flat_map(|n| (0..reps).map(move |r| (n, r))).collect();
    cx.run("random", &cases, |t, (n, _)| {
        let n = *n;
        let mut m = RandReindVarManager::init(n);
        ensure_eq!(m.n_used(), n, "n_used");
        ensure_eq!(m.max_var().map_or(0, |v| v.idx32() + 1), n, "max_var");
        let img: Vec<u32> = (0..n + 3).map(|v| m.reindex(Var::new(v)).idx32()).collect();
        let mut s = img.clone();
        s.sort_unstable();
        ensure_eq!(s, (0..n + 3).collect::<Vec<_>>(), "image of {n} variables and three beyond: {img:?}");
        for v in n..n + 3 {
            ensure_eq!(img[v as usize], v, "variable beyond the initial range");
        }
        for v in 0..n + 3 {
            for neg in [false, true] {
                let l = Var::new(v).lit(neg);
                let r = m.reindex_lit(l);
                ensure_eq!(r, Var::new(img[v as usize]).lit(neg), "reindexed literal");
                ensure_eq!(m.reverse_lit(r), Some(l), "reverse of the reindexed literal");
            }
            ensure_eq!(m.reverse(Var::new(img[v as usize])), Some(Var::new(v)), "reverse");
            t.step(4);
        }
        t.state((n, &img));
        ensure_eq!(m.new_var(), Var::new(n), "first new variable");
        ensure_eq!(m.n_used(), n + 1, "n_used after a new variable");
        ensure_eq!(m.max_var(), Some(Var::new(n)), "max_var after a new variable");
        ensure_eq!(m.new_var(), Var::new(n + 1), "second new variable");
        ensure_eq!(m.new_lit(), Var::new(n + 2).pos_lit(), "third new variable");
        m.forget_from(Var::new(n + 2));
        check!(!m.mark_used(Var::new(n + 1)), "mark_used of a used variable");
        check!(m.mark_used(Var::new(n + 2)), "mark_used");
        ensure_eq!(m.new_var(), Var::new(n + 3), "new variable after mark_used");
        m.forget_from(Var::new(n + 1));
        ensure_eq!(m.new_var(), Var::new(n + 1), "new variable after forget_from");
        let s = serde_json::to_string(&m).unwrap();
        let back: RandReindVarManager = serde_json::from_str(&s).map_err(|e| format!("deserialising: {e}"))?;
        check!(back == m, "serialising changes the manager");
        t.step(5);
        Ok(())
    });
    let sizes: Vec<(u32, u32, usize)> = (0..5).flat_map(|a| (0..5).flat_map(move |b| (0..reps).map(move |r| (a, b, r)))).collect();
    cx.run("random-combine", &sizes, |t, (a, b, _)| {
        let mut m = RandReindVarManager::init(*a);
        let mut o = RandReindVarManager::init(*b);
        let oimg: Vec<u32> = (0..*b).map(|v| o.reindex(Var::new(v)).idx32()).collect();
        m.combine(o);
        ensure_eq!(m.n_used(), *a.max(b), "n_used");
        let img: Vec<u32> = (0..7).map(|v| m.reindex(Var::new(v)).idx32()).collect();
        ensure_eq!(img[..*b as usize].to_vec(), oimg, "mappings of the second manager");
        let mut s = img.clone();
        s.sort_unstable();
        ensure_eq!(s, (0..7).collect::<Vec<_>>(), "image of the combined renaming {img:?}");
        for v in 0..7 {
            ensure_eq!(m.reverse(Var::new(img[v as usize])), Some(Var::new(v)), "reverse after combining");
        }
        t.step(9);
        t.state((a, b, &img));
        Ok(())
    });
    cx.bound("depth", depth);
    cx.assume("random re-indexing is checked for whatever permutations the generator draws; every requirement is independent of the permutation");
}
