//! Clones are equal to the original and independent of it.
//!
//! State: up to two collections of the same type, each with its model. Every sequence of operations
//! (writes to either, cloning and assigning one to the other, dropping either, swapping values) up to a
//! depth is run from scratch; after the last one both are compared with their models in full.
use mc::iters::drain;
use mc::keys::*;
use mc::maps::{content, lookups, MapLike};
use mc::sets::{elements, membership, SetLike};
use mc::zoo::*;
use mc::*;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

type MP<K, V> = Box<dyn MapPlus<K, V>>;
const MAP_OPS: usize = 14;

struct Pair<K: 'static, V: 'static> {
    c: [Option<MP<K, V>>; 2],
    m: [Vec<(K, V)>; 2],
}

fn order<K: Clone + Debug + 'static, V: 'static>(cx: &mut Cx, m: &dyn MapLike<K, V>) -> Result<Vec<K>, String> {
    Ok(drain(cx, m.key_iter(), m.size())?.into_iter().cloned().collect())
}

/// Performs operation `op`; false when it does not apply in this state.
#[inline(never)]
fn map_op<K: Clone + Eq + Hash + Debug + 'static, V: Val>(p: &mut Pair<K, V>, op: usize, fresh: &mut dyn FnMut() -> V) -> Result<bool, String> {
    let (s, o) = (op % 2, 1 - op % 2);
    let n = p.m[s].len();
    match op / 2 {
        // write to the first / last / middle entry of `s`
        w @ 0..=2 => {
            let Some(c) = &mut p.c[s] else { return Ok(false) };
            let i = [0, n.wrapping_sub(1), n / 2][w];
            if i >= n || (w == 2 && n < 3) {
                return Ok(false);
            }
            let v = fresh();
            let k = p.m[s][i].0.clone();
            *c.get_mut(&k).ok_or("get_mut does not find a key")? = v.clone();
            p.m[s][i].1 = v;
        }
        // swap two values
        3 => {
            let Some(c) = &mut p.c[s] else { return Ok(false) };
            if n < 2 {
                return Ok(false);
            }
            let (a, b) = (p.m[s][0].0.clone(), p.m[s][n - 1].0.clone());
            let [x, y] = c.many2([&a, &b]).ok_or("get_many_mut does not find keys")?;
            std::mem::swap(x, y);
            let (x, y) = (p.m[s][0].1.clone(), p.m[s][n - 1].1.clone());
            p.m[s][0].1 = y;
            p.m[s][n - 1].1 = x;
        }
        // the other becomes a clone of `s`
        4 => {
            let Some(c) = &p.c[s] else { return Ok(false) };
            let d = c.dup();
            p.c[o] = Some(d);
            p.m[o] = p.m[s].clone();
        }
        // the other is assigned from `s`
        5 => {
            let [a, b] = &mut p.c;
            let (s1, o1) = if s == 0 { (a, b) } else { (b, a) };
            let (Some(s1), Some(o1)) = (s1, o1) else { return Ok(false) };
            o1.assign(&**s1);
            p.m[o] = p.m[s].clone();
        }
        // `s` goes away
        _ => {
            if p.c[s].is_none() {
                return Ok(false);
            }
            p.c[s] = None;
        }
    }
    Ok(true)
}

#[inline(never)]
fn map_check<K: Clone + Eq + Hash + Debug + 'static, V: Val>(cx: &mut Cx, p: &mut Pair<K, V>, absent: &[K]) -> R {
    for i in 0..2 {
        let Some(c) = &mut p.c[i] else { continue };
        content(cx, &**c as &dyn MapLike<K, V>, &p.m[i]).map_err(|e| format!("collection {i}: {e}"))?;
        for (k, v) in &p.m[i] {
            ck!(c.get(k) == Some(v), "collection {i}: get({k:?}) is {:?} instead of Some({v:?})", c.get(k));
            ck!(c.get_mut(k).as_deref() == Some(v), "collection {i}: get_mut({k:?}) differs");
        }
        for k in absent.iter().filter(|k| p.m[i].iter().all(|e| e.0 != **k)) {
            ck!(c.get(k).is_none(), "collection {i}: get({k:?}) is {:?} for an absent key", c.get(k));
        }
        ck!(c.size() == p.m[i].len(), "collection {i}: len() is {}", c.size());
    }
    if let [Some(a), Some(b)] = &p.c {
        let same_keys = p.m[0].len() == p.m[1].len() && p.m[0].iter().all(|x| p.m[1].iter().any(|y| x.0 == y.0));
        let eq = same_keys && p.m[0].iter().all(|x| p.m[1].contains(x));
        ck!(a.same(&**b) == eq && b.same(&**a) == eq, "== is {}, the contents are {}", a.same(&**b), if eq { "equal" } else { "different" });
        ck!(a.differs(&**b) != eq, "!= is wrong");
    }
    cx.st();
    Ok(())
}

/// All operation sequences up to `depth`, starting from `start[0]` alone or from both.
fn map_sequences<K: Clone + Eq + Hash + Debug + 'static, V: Val>(
    c: &mut Ctx,
    name: &str,
    first: &Zoo<K, V>,
    second: Option<&Zoo<K, V>>,
    depth: usize,
    mk: fn(usize) -> V,
) {
    let total = (1..=depth).map(|d| MAP_OPS.pow(d as u32 - 1)).sum::<usize>();
    // one case per first operation and length
    let _ = total;
    for len in 1..=depth {
        for op0 in 0..MAP_OPS {
            c.case(
                || format!("{name}: all sequences of {len} operations starting with {op0}"),
                |cx| {
                    let rest = MAP_OPS.pow(len as u32 - 1);
                    'seq: for code in 0..rest {
                        let mut next = 0;
                        let mut fresh = || {
                            next += 1;
                            mk(next)
                        };
                        let model: Vec<(K, V)> = first.keys.iter().map(|k| (k.clone(), fresh())).collect();
                        let mut p = Pair { c: [Some((first.make)(model.clone())), None], m: [model, Vec::new()] };
                        if let Some(z) = second {
                            let model: Vec<(K, V)> = z.keys.iter().map(|k| (k.clone(), fresh())).collect();
                            p.c[1] = Some((z.make)(model.clone()));
                            p.m[1] = model;
                        }
                        let mut x = code;
                        let mut ops = vec![op0];
                        for _ in 1..len {
                            ops.push(x % MAP_OPS);
                            x /= MAP_OPS;
                        }
                        for op in &ops {
                            if !map_op(&mut p, *op, &mut fresh).map_err(|e| format!("operations {ops:?}: {e}"))? {
                                continue 'seq;
                            }
                            cx.tr(1);
                        }
                        map_check(cx, &mut p, &first.absent[..first.absent.len().min(3)]).map_err(|e| format!("after operations {ops:?}: {e}"))?;
                    }
                    cx.out(op0 as u64);
                    Ok(())
                },
            );
        }
    }
}

/// A clone against everything lookups and iteration can tell, and write/drop independence, at any size.
fn clone_once<K: Clone + Eq + Hash + Debug + 'static, V: Val>(cx: &mut Cx, z: &Zoo<K, V>, mk: fn(usize) -> V) -> R {
    let n = z.keys.len();
    let ab = &z.absent[..z.absent.len().min(20)];
    let mut model: Vec<(K, V)> = z.keys.iter().cloned().enumerate().map(|(i, k)| (k, mk(i))).collect();
    let mut a = (z.make)(model.clone());
    let before = order(cx, &*a as &dyn MapPlus<K, V>)?;
    let mut b = a.dup();
    ck!(order(cx, &*b as &dyn MapPlus<K, V>)? == before, "a clone iterates in a different order");
    ck!(a.same(&*b) && b.same(&*a) && !a.differs(&*b), "a clone is not equal to its original");
    content(cx, &*b as &dyn MapPlus<K, V>, &model)?;
    lookups(cx, &mut *b as &mut dyn MapPlus<K, V>, &model, ab)?;
    // write to each value of the original, then of the clone
    let old = model.clone();
    for (i, e) in model.iter_mut().enumerate() {
        e.1 = mk(n + i + 1);
        *a.get_mut(&e.0).ok_or("get_mut fails")? = e.1.clone();
        if n <= 8 {
            content(cx, &*b as &dyn MapPlus<K, V>, &old).map_err(|e| format!("clone after writing to the original: {e}"))?;
        }
    }
    content(cx, &*a as &dyn MapPlus<K, V>, &model)?;
    content(cx, &*b as &dyn MapPlus<K, V>, &old).map_err(|e| format!("clone after writing to the original: {e}"))?;
    let d = b.dup();
    drop(a);
    lookups(cx, &mut *b as &mut dyn MapPlus<K, V>, &old, ab).map_err(|e| format!("clone after its original was dropped: {e}"))?;
    for (i, e) in old.iter().enumerate() {
        *b.get_mut(&e.0).ok_or("get_mut fails")? = mk(2 * n + i + 2);
    }
    content(cx, &*d as &dyn MapPlus<K, V>, &old).map_err(|e| format!("clone of the clone: {e}"))?;
    drop(b);
    content(cx, &*d as &dyn MapPlus<K, V>, &old).map_err(|e| format!("clone of the clone, others gone: {e}"))?;
    cx.out(n as u64);
    cx.st();
    Ok(())
}

fn maps<K: Clone + Eq + Hash + Debug + 'static, V: Val>(c: &mut Ctx, name: &str, zoo: Vec<Zoo<K, V>>, depth: usize, mk: fn(usize) -> V) {
    c.scenario(name, |c| {
        for z in &zoo {
            c.case(|| format!("{}: a clone, in full", z.name), |cx| clone_once(cx, z, mk));
        }
        for (i, z) in zoo.iter().enumerate() {
            if z.keys.len() > 8 {
                continue;
            }
            map_sequences(c, &z.name, z, None, depth, mk);
            // another one of the same type, with other contents
            let me = z.build(&mut |i| mk(i));
            let mut found = 0;
            for y in zoo.iter().skip(i + 1) {
                if y.keys.len() > 8 || found >= 2 {
                    continue;
                }
                let other = y.build(&mut |i| mk(i));
                if other.as_any().type_id() == me.as_any().type_id() {
                    found += 1;
                    map_sequences(c, &format!("{} and {}", z.name, y.name), z, Some(y), depth - 1, mk);
                }
            }
        }
    });
}

type SP<T> = Box<dyn SetPlus<T>>;

fn set_check<T: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, c: &[Option<SP<T>>; 2], m: &[Vec<T>; 2], absent: &[T]) -> R {
    for i in 0..2 {
        let Some(c) = &c[i] else { continue };
        let absent: Vec<T> = absent.iter().filter(|x| !m[i].contains(x)).cloned().collect();
        membership(cx, &**c as &dyn SetLike<T>, &m[i], &absent).map_err(|e| format!("collection {i}: {e}"))?;
        elements(cx, &**c as &dyn SetLike<T>, &m[i]).map_err(|e| format!("collection {i}: {e}"))?;
    }
    if let [Some(a), Some(b)] = c {
        let eq = m[0].len() == m[1].len() && m[0].iter().all(|x| m[1].contains(x));
        ck!(a.same(&**b) == eq && b.same(&**a) == eq, "== is {}, the contents are {}", a.same(&**b), if eq { "equal" } else { "different" });
        ck!(a.differs(&**b) != eq, "!= is wrong");
    }
    cx.st();
    Ok(())
}

const SET_OPS: usize = 8;

fn set_sequences<T: Clone + Eq + Hash + Debug + 'static>(c: &mut Ctx, first: &SetZoo<T>, second: Option<&SetZoo<T>>, depth: usize) {
    let name = match second {
        None => first.name.clone(),
        Some(s) => format!("{} and {}", first.name, s.name),
    };
    for op0 in 0..SET_OPS {
        c.case(
            || format!("{name}: all sequences of up to {depth} operations starting with {op0}"),
            |cx| {
                for len in 1..=depth {
                    'seq: for code in 0..SET_OPS.pow(len as u32 - 1) {
                        let mut p: [Option<SP<T>>; 2] = [Some(first.build()), second.map(SetZoo::build)];
                        let mut m = [first.els.clone(), second.map_or(Vec::new(), |s| s.els.clone())];
                        let mut ops = vec![op0];
                        let mut x = code;
                        for _ in 1..len {
                            ops.push(x % SET_OPS);
                            x /= SET_OPS;
                        }
                        for op in &ops {
                            let (s, o) = (op % 2, 1 - op % 2);
                            match op / 2 {
                                0 => {
                                    let Some(a) = &p[s] else { continue 'seq };
                                    let d = a.dup();
                                    p[o] = Some(d);
                                    m[o] = m[s].clone();
                                }
                                1 => {
                                    let [a, b] = &mut p;
                                    let (s1, o1) = if s == 0 { (a, b) } else { (b, a) };
                                    let (Some(s1), Some(o1)) = (s1, o1) else { continue 'seq };
                                    o1.assign(&**s1);
                                    m[o] = m[s].clone();
                                }
                                2 => {
                                    if p[s].take().is_none() {
                                        continue 'seq;
                                    }
                                }
                                _ => {
                                    // consume, wholly or up to the middle
                                    let Some(a) = p[s].take() else { continue 'seq };
                                    let Some(mut it) = a.consume() else { continue 'seq };
                                    for i in 0..m[s].len().div_ceil(1 + len % 2) {
                                        let x = it.step();
                                        ck!(x.as_ref().is_some_and(|x| m[s].contains(x)), "operations {ops:?}: item {i} is {x:?}");
                                    }
                                }
                            }
                            cx.tr(1);
                        }
                        set_check(cx, &p, &m, &first.absent[..first.absent.len().min(3)]).map_err(|e| format!("after operations {ops:?}: {e}"))?;
                    }
                }
                Ok(())
            },
        );
    }
}

fn sets<T: Clone + Eq + Hash + Debug + 'static>(c: &mut Ctx, name: &str, zoo: Vec<SetZoo<T>>, depth: usize) {
    c.scenario(name, |c| {
        for z in &zoo {
            c.case(
                || format!("{}: a clone, in full", z.name),
                |cx| {
                    let ab = &z.absent[..z.absent.len().min(20)];
                    let a = z.build();
                    let b = a.dup();
                    let n = z.els.len();
                    let o1: Vec<T> = drain(cx, a.elems(), n)?.into_iter().cloned().collect();
                    let o2: Vec<T> = drain(cx, b.elems(), n)?.into_iter().cloned().collect();
                    ck!(o1 == o2, "a clone iterates in a different order: {o2:?} instead of {o1:?}");
                    let m = [z.els.clone(), z.els.clone()];
                    let mut p = [Some(a), Some(b)];
                    if n <= 1000 {
                        set_check(cx, &p, &m, ab)?;
                    }
                    p[0] = None;
                    set_check(cx, &p, &m, ab).map_err(|e| format!("after the original was dropped: {e}"))
                },
            );
        }
        for (i, z) in zoo.iter().enumerate() {
            if z.els.len() > 8 {
                continue;
            }
            set_sequences(c, z, None, depth);
            let me = z.build();
            let mut found = 0;
            for y in zoo.iter().skip(i + 1) {
                if y.els.len() > 8 || found >= 2 {
                    continue;
                }
                if y.build().as_any().type_id() == me.as_any().type_id() {
                    found += 1;
                    set_sequences(c, z, Some(y), depth);
                }
            }
        }
    });
}

fn typ<K: Gen>(c: &mut Ctx) {
    let big = !c.quick();
    maps::<K, String>(c, &format!("{} -> String", K::NAME), gen_maps(big), 3, |i| format!("v{i}"));
    sets::<K>(c, &format!("sets of {}", K::NAME), gen_sets(big), 3);
}

fn main() {
    let mut c = Ctx::from_args();
    let (d, e) = c.pick((3, 4), (4, 5));
    maps::<u32, String>(&mut c, "u32 -> String", u32_maps(true), d, |i| format!("v{i}"));
    maps::<String, String>(&mut c, "String -> String", str_maps(true), d, |i| format!("v{i}"));
    maps::<u32, Aligned>(&mut c, "u32 -> Aligned", u32_maps(true), 2, |i| Aligned(i as u8));
    maps::<u32, ()>(&mut c, "u32 -> ()", u32_maps(true), 2, |_| ());
    maps::<String, u64>(&mut c, "String -> u64", str_maps(true), 2, |i| i as u64);
    sets::<u32>(&mut c, "sets of u32", u32_sets(true), e);
    sets::<String>(&mut c, "sets of String", str_sets(true), e);
    mc::some_key_types!(typ, &mut c);
    // random hashers: a clone keeps the hasher of its original
    c.scenario("RandomState", |c| {
        use frozen_collections_core::facades::{FrozenMap, FrozenSet};
        for n in [0usize, 1, 3, 4, 5, 9, 40, 255, 256, 300] {
            c.case(
                || format!("FrozenMap<String, usize>/FrozenSet<(u8, usize)> of {n}"),
                |cx| {
                    let m: FrozenMap<String, usize> = (0..n).map(|i| (format!("é{i}é"), i)).collect();
                    let mut d = m.clone();
                    ck!(d == m, "a clone differs");
                    for i in 0..n {
                        ck!(d.get(&format!("é{i}é")) == Some(&i), "not found in a clone");
                        *d.get_mut(&format!("é{i}é")).ok_or("gone")? += 1;
                    }
                    ck!((d == m) == (n == 0), "== after writing");
                    for i in 0..n {
                        ck!(m.get(&format!("é{i}é")) == Some(&i) && d.get(&format!("é{i}é")) == Some(&(i + 1)), "values are shared");
                    }
                    drop(m);
                    ck!(d.iter().all(|(k, v)| *k == format!("é{}é", v - 1)), "wrong after drop");
                    let s: FrozenSet<(u8, usize)> = (0..n).map(|i| (i as u8, i)).collect();
                    let t = s.clone();
                    ck!(s == t, "a clone differs");
                    drop(s);
                    for i in 0..n {
                        ck!(t.contains(&(i as u8, i)) && !t.contains(&(i as u8, i + 1)), "clone loses elements");
                    }
                    cx.tr(4 * n as u64);
                    Ok(())
                },
            );
        }
    });
    c.finish();
}
