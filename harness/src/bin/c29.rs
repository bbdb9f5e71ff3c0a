//! Reading changes nothing.
//!
//! State: a collection, and all references and iterators obtained from it so far. Every sequence of reads up
//! to a depth is made on a fresh collection; everything handed out on the way is kept, and at the end it must
//! still designate what it designated, and the collection must answer everything as it did when it was new.
use mc::iters::{drain, It};
use mc::keys::*;
use mc::maps::{content, MapLike};
use mc::sets::{elements, membership, SetLike};
use mc::zoo::*;
use mc::*;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

fn addr<T>(r: &T) -> usize {
    if std::mem::size_of::<T>() == 0 {
        1
    } else {
        std::ptr::from_ref(r) as usize
    }
}

/// What reads have handed out.
struct Held<'a, K, V> {
    refs: Vec<(usize, &'a V)>,
    keys: Vec<(usize, &'a K)>,
    /// Iterators in the middle, with how far they are.
    its: Vec<(usize, It<'a, (&'a K, &'a V)>)>,
    orders: Vec<Vec<(usize, usize)>>,
    shown: Vec<String>,
}

const MAP_READS: usize = 19;
const SET_READS: usize = 15;

#[inline(never)]
fn map_read<'a, K: Clone + Eq + Hash + Debug + 'static, V: Val>(
    m: &'a dyn MapPlus<K, V>,
    model: &'a [(K, V)],
    absent: &[K],
    op: usize,
    h: &mut Held<'a, K, V>,
) -> Result<bool, String> {
    let n = model.len();
    let at = |i: usize| -> Option<usize> { [Some(0), n.checked_sub(1), Some(n / 2)][i].filter(|i| *i < n) };
    match op {
        0..=2 => {
            let Some(i) = at(op) else { return Ok(false) };
            let v = m.get(&model[i].0).ok_or_else(|| format!("get({:?}) finds nothing", model[i].0))?;
            ck!(*v == model[i].1, "get({:?}) is {v:?} instead of {:?}", model[i].0, model[i].1);
            h.refs.push((i, v));
        }
        3 => {
            let Some(i) = at(1) else { return Ok(false) };
            let (k, v) = m.get_kv(&model[i].0).ok_or_else(|| format!("get_key_value({:?}) finds nothing", model[i].0))?;
            ck!(*k == model[i].0 && *v == model[i].1, "get_key_value({:?}) is {:?}", model[i].0, (k, v));
            h.refs.push((i, v));
            h.keys.push((i, k));
        }
        4 | 5 => {
            let a = if op == 4 { absent.first() } else { absent.last() };
            let Some(a) = a else { return Ok(false) };
            ck!(m.get(a).is_none(), "get({a:?}) finds something");
        }
        6 => {
            let Some(a) = absent.get(absent.len() / 2) else { return Ok(false) };
            ck!(m.get_kv(a).is_none() && !m.has(a), "get_key_value({a:?}) finds something");
        }
        7 => {
            let Some(i) = at(0) else { return Ok(false) };
            ck!(m.has(&model[i].0), "contains_key({:?}) is false", model[i].0);
        }
        8 => {
            let Some(i) = at(2) else { return Ok(false) };
            let v = catch(|| m.at(model[i].0.clone()))?;
            ck!(*v == model[i].1, "[{:?}] is {v:?}", model[i].0);
            h.refs.push((i, v));
        }
        9 => {
            let Some(a) = absent.first() else { return Ok(false) };
            ck!(catch(|| addr(m.at(a.clone()))).is_err(), "[{a:?}] does not panic");
        }
        10 => ck!(m.size() == n && m.empty() == (n == 0), "len() is {}", m.size()),
        11 => {
            let mut o = Vec::new();
            for (k, v) in m.entries() {
                o.push((addr(k), addr(v)));
            }
            h.orders.push(o);
        }
        12 => {
            let mut it = m.entries();
            let taken = usize::from(it.step().is_some());
            h.its.push((taken, it));
        }
        13 => {
            let it = m.ref_iter();
            h.its.push((0, it));
        }
        14 => {
            let k: Vec<usize> = m.key_iter().map(addr).collect();
            let v: Vec<usize> = m.value_iter().map(addr).collect();
            ck!(k.len() == v.len(), "{} keys and {} values", k.len(), v.len());
            h.orders.push(k.into_iter().zip(v).collect());
        }
        15 => h.shown.push(m.dbg(false)),
        16 => {
            let c = m.dup();
            ck!(c.same(m) && m.same(&*c), "a clone is not equal to its original");
        }
        17 => ck!(m.same(m) && !m.differs(m), "not equal to itself"),
        _ => {
            // an iterator left behind in the middle
            let mut it = m.value_iter();
            it.skip_to(n / 2);
        }
    }
    Ok(true)
}

fn map_sequences<K: Clone + Eq + Hash + Debug + 'static, V: Val>(c: &mut Ctx, z: &Zoo<K, V>, mk: fn(usize) -> V, depth: usize) {
    for len in 1..=depth {
        for op0 in 0..MAP_READS {
            c.case(
                || format!("{}: all sequences of {len} reads starting with {op0}", z.name),
                |cx| {
                    let model: Vec<(K, V)> = z.keys.iter().enumerate().map(|(i, k)| (k.clone(), mk(i))).collect();
                    'seq: for code in 0..MAP_READS.pow(len as u32 - 1) {
                        let mut m = (z.make)(model.clone());
                        {
                            let m = &*m;
                            let mut h = Held { refs: vec![], keys: vec![], its: vec![], orders: vec![], shown: vec![] };
                            let mut x = code;
                            let mut w = vec![op0];
                            for i in 0..len {
                                if i > 0 {
                                    w.push(x % MAP_READS);
                                    x /= MAP_READS;
                                }
                                if !map_read(m, &model, &z.absent, w[i], &mut h).map_err(|e| format!("after reads {w:?}: {e}"))? {
                                    continue 'seq;
                                }
                                cx.tr(1);
                            }
                            let r = (|| -> R {
                                let o: Vec<(&K, &V)> = drain(cx, m.entries(), model.len())?;
                                let oa: Vec<(usize, usize)> = o.iter().map(|e| (addr(e.0), addr(e.1))).collect();
                                for p in &h.orders {
                                    ck!(*p == oa, "the iteration order or the place of the entries changed");
                                }
                                for (i, v) in &h.refs {
                                    ck!(**v == model[*i].1, "the reference to the value of {:?} now reads {v:?}", model[*i].0);
                                    ck!(o.iter().any(|e| *e.0 == model[*i].0 && addr(e.1) == addr(*v)), "the value of {:?} has moved", model[*i].0);
                                }
                                for (i, k) in &h.keys {
                                    ck!(**k == model[*i].0 && o.iter().any(|e| addr(e.0) == addr(*k)), "the key {:?} has moved", model[*i].0);
                                }
                                for (taken, it) in h.its {
                                    let rest: Vec<(usize, usize)> = drain(cx, it, model.len())?.into_iter().map(|e| (addr(e.0), addr(e.1))).collect();
                                    ck!(rest == oa[taken.min(oa.len())..], "an iterator begun before does not go on in the same order");
                                }
                                let shown = m.dbg(false);
                                for s in &h.shown {
                                    ck!(*s == shown, "the debug output changed from {s} to {shown}");
                                }
                                Ok(())
                            })();
                            r.map_err(|e| format!("after reads {w:?}: {e}"))?;
                        }
                        let r = (|| -> R {
                            content(cx, &*m as &dyn MapLike<K, V>, &model)?;
                            for (k, v) in &model {
                                ck!(m.get(k) == Some(v), "get({k:?}) is {:?} instead of {v:?}", m.get(k));
                                ck!(m.get_mut(k).as_deref() == Some(v), "get_mut({k:?}) differs from {v:?}");
                            }
                            for k in &z.absent {
                                ck!(m.get(k).is_none(), "get({k:?}) finds an absent key");
                            }
                            Ok(())
                        })();
                        r.map_err(|e| format!("after reads {op0}, {code}: {e}"))?;
                        cx.st();
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Every pair of reads, the first of them very often: counters which overflow, statistics which trigger something.
fn map_often<K: Clone + Eq + Hash + Debug + 'static, V: Val>(c: &mut Ctx, z: &Zoo<K, V>, mk: fn(usize) -> V, often: usize) {
    for op0 in 0..MAP_READS {
        // a panic each time, or printing everything, is slow
        let often = match op0 {
            9 | 15 => often / 100,
            11 | 14 | 16 | 17 => often / 10,
            _ => often,
        };
        c.case(
            || format!("{}: {often} reads {op0}, and any other read", z.name),
            |cx| {
                let model: Vec<(K, V)> = z.keys.iter().enumerate().map(|(i, k)| (k.clone(), mk(i))).collect();
                let mut m = (z.make)(model.clone());
                {
                    let m = &*m;
                    let none = || Held { refs: vec![], keys: vec![], its: vec![], orders: vec![], shown: vec![] };
                    let order = || m.entries().map(|e| (addr(e.0), addr(e.1))).collect::<Vec<_>>();
                    let o = order();
                    for i in 0..often {
                        if !map_read(m, &model, &z.absent, op0, &mut none()).map_err(|e| format!("after {i} reads {op0}: {e}"))? {
                            return Ok(());
                        }
                        // all other reads after every power of two
                        if i.is_power_of_two() || (i + 1).is_power_of_two() || i + 1 == often {
                            for op in 0..MAP_READS {
                                map_read(m, &model, &z.absent, op, &mut none()).map_err(|e| format!("read {op} after {i} reads {op0}: {e}"))?;
                            }
                            ck!(order() == o, "after {i} reads {op0} the iteration order changed");
                            cx.st();
                        }
                        cx.tr(1);
                    }
                }
                content(cx, &*m as &dyn MapLike<K, V>, &model)?;
                for (k, v) in &model {
                    ck!(m.get_mut(k).as_deref() == Some(v), "get_mut({k:?}) differs from {v:?}");
                }
                Ok(())
            },
        );
    }
}

fn set_often<T: Clone + Eq + Hash + Debug + 'static>(c: &mut Ctx, z: &SetZoo<T>, often: usize) {
    for op0 in 0..SET_READS {
        let often = match op0 {
            7..=9 | 12 | 13 => often / 10,
            14 => often / 100,
            _ => often,
        };
        c.case(
            || format!("{}: {often} reads {op0}, and any other read", z.name),
            |cx| {
                let s = z.build();
                let s = &*s;
                let none = || SetHeld { refs: vec![], its: vec![], orders: vec![] };
                let order = || s.elems().map(addr).collect::<Vec<_>>();
                let o = order();
                for i in 0..often {
                    if !set_read(s, &z.els, &z.absent, op0, &mut none()).map_err(|e| format!("after {i} reads {op0}: {e}"))? {
                        return Ok(());
                    }
                    if i.is_power_of_two() || (i + 1).is_power_of_two() || i + 1 == often {
                        for op in 0..SET_READS {
                            set_read(s, &z.els, &z.absent, op, &mut none()).map_err(|e| format!("read {op} after {i} reads {op0}: {e}"))?;
                        }
                        ck!(order() == o, "after {i} reads {op0} the iteration order changed");
                        cx.st();
                    }
                    cx.tr(1);
                }
                membership(cx, s as &dyn SetLike<T>, &z.els, &z.absent)
            },
        );
    }
}

struct SetHeld<'a, T> {
    refs: Vec<(usize, &'a T)>,
    its: Vec<(usize, It<'a, &'a T>)>,
    orders: Vec<Vec<usize>>,
}

#[inline(never)]
fn set_read<'a, T: Clone + Eq + Hash + Debug + 'static>(
    s: &'a dyn SetPlus<T>,
    model: &'a [T],
    absent: &[T],
    op: usize,
    h: &mut SetHeld<'a, T>,
) -> Result<bool, String> {
    let n = model.len();
    match op {
        0..=2 => {
            let Some(i) = [Some(0), n.checked_sub(1), Some(n / 2)][op].filter(|i| *i < n) else { return Ok(false) };
            let v = s.get(&model[i]).ok_or_else(|| format!("get({:?}) finds nothing", model[i]))?;
            ck!(*v == model[i], "get({:?}) is {v:?}", model[i]);
            h.refs.push((i, v));
        }
        3 | 4 => {
            let a = if op == 3 { absent.first() } else { absent.last() };
            let Some(a) = a else { return Ok(false) };
            ck!(s.get(a).is_none() && !s.has(a) && !s.trait_has(a), "get({a:?}) finds something");
        }
        5 => {
            let Some(e) = model.last() else { return Ok(false) };
            ck!(s.has(e) && s.trait_has(e), "contains({e:?}) is false");
        }
        6 => ck!(s.size() == n && s.empty() == (n == 0), "len() is {}", s.size()),
        7 => h.orders.push(s.elems().map(addr).collect()),
        8 => h.orders.push(s.trait_iter().map(addr).collect()),
        9 => h.orders.push(s.ref_iter().map(addr).collect()),
        10 => {
            let mut it = s.elems();
            let taken = usize::from(it.step().is_some());
            h.its.push((taken, it));
        }
        11 => h.its.push((0, s.trait_iter())),
        12 => {
            let c = s.dup();
            ck!(c.same(s) && s.same(&*c), "a clone is not equal to its original");
        }
        13 => ck!(s.same(s) && !s.differs(s), "not equal to itself"),
        _ => {
            if s.dbg(false) != s.dbg(false) {
                return Err("the debug output changes".into());
            }
            let mut it = s.elems();
            it.skip_to(n / 2);
        }
    }
    Ok(true)
}

fn set_sequences<T: Clone + Eq + Hash + Debug + 'static>(c: &mut Ctx, z: &SetZoo<T>, depth: usize) {
    let model = &z.els;
    for len in 1..=depth {
        for op0 in 0..SET_READS {
            c.case(
                || format!("{}: all sequences of {len} reads starting with {op0}", z.name),
                |cx| {
                    'seq: for code in 0..SET_READS.pow(len as u32 - 1) {
                        let s = z.build();
                        let s = &*s;
                        let mut h = SetHeld { refs: vec![], its: vec![], orders: vec![] };
                        let mut x = code;
                        let mut w = vec![op0];
                        for i in 0..len {
                            if i > 0 {
                                w.push(x % SET_READS);
                                x /= SET_READS;
                            }
                            if !set_read(s, model, &z.absent, w[i], &mut h).map_err(|e| format!("after reads {w:?}: {e}"))? {
                                continue 'seq;
                            }
                            cx.tr(1);
                        }
                        let r = (|| -> R {
                            let o = drain(cx, s.elems(), model.len())?;
                            let oa: Vec<usize> = o.iter().map(|e| addr(*e)).collect();
                            for p in &h.orders {
                                ck!(*p == oa, "the iteration order or the place of the elements changed");
                            }
                            for (i, v) in &h.refs {
                                ck!(**v == model[*i], "the reference to {:?} now reads {v:?}", model[*i]);
                                ck!(oa.contains(&addr(*v)), "the element {:?} has moved", model[*i]);
                            }
                            for (taken, it) in h.its {
                                let rest: Vec<usize> = drain(cx, it, model.len())?.into_iter().map(addr).collect();
                                ck!(rest == oa[taken.min(oa.len())..], "an iterator begun before does not go on in the same order");
                            }
                            membership(cx, s as &dyn SetLike<T>, model, &z.absent)?;
                            elements(cx, s as &dyn SetLike<T>, model)
                        })();
                        r.map_err(|e| format!("after reads {w:?}: {e}"))?;
                        cx.st();
                    }
                    Ok(())
                },
            );
        }
    }
}

// ---- algebra and relations: two operands, read in every order

mod algebra {
    use super::*;
    use frozen_collections_core::facades::FrozenSet;
    use frozen_collections_core::specialized_sets::{CommonSet, IntegerRangeSet, IntegerSet, ScanningSet, Set};
    use mc::hashers::*;
    use std::collections::{BTreeSet, HashSet};

    const OPS: usize = 9;

    fn both<A: Set<u32>, B: Set<u32>>(c: &mut Ctx, name: &str, x: &[u32], y: &[u32], make: &dyn Fn() -> (A, B), depth: usize) {
        let (mx, my): (BTreeSet<u32>, BTreeSet<u32>) = (x.iter().copied().collect(), y.iter().copied().collect());
        let want = |op: usize| -> BTreeSet<u32> {
            match op {
                0 | 4 => mx.union(&my).copied().collect(),
                1 | 5 => mx.intersection(&my).copied().collect(),
                2 => mx.difference(&my).copied().collect(),
                6 => my.difference(&mx).copied().collect(),
                3 | 7 => mx.symmetric_difference(&my).copied().collect(),
                _ => [mx.is_subset(&my), mx.is_superset(&my), mx.is_disjoint(&my)].iter().map(|b| u32::from(*b)).collect(),
            }
        };
        for len in 1..=depth {
            for op0 in 0..OPS {
                c.case(
                    || format!("{name} of {x:?} and {y:?}: all sequences of {len} operations starting with {op0}"),
                    |cx| {
                        for code in 0..OPS.pow(len as u32 - 1) {
                            let (a, b) = make();
                            let order = |s: &dyn Fn() -> Vec<(usize, u32)>| s();
                            let ia = || a.iter().map(|e| (addr(e), *e)).collect::<Vec<_>>();
                            let ib = || b.iter().map(|e| (addr(e), *e)).collect::<Vec<_>>();
                            let (oa, ob) = (order(&ia), order(&ib));
                            let mut rest = code;
                            let mut held: Vec<Box<dyn Iterator<Item = &u32> + '_>> = Vec::new();
                            let mut left: Vec<BTreeSet<u32>> = Vec::new();
                            for i in 0..len {
                                let op = if i == 0 { op0 } else { rest % OPS };
                                if i > 0 {
                                    rest /= OPS;
                                }
                                if op == 8 {
                                    let g: BTreeSet<u32> = [a.is_subset(&b), a.is_superset(&b), a.is_disjoint(&b)].iter().map(|b| u32::from(*b)).collect();
                                    ck!(g == want(8), "step {i}: the relations changed");
                                    continue;
                                }
                                let mut it: Box<dyn Iterator<Item = &u32> + '_> = match op {
                                    0 => Box::new(a.union(&b)),
                                    1 => Box::new(a.intersection(&b)),
                                    2 => Box::new(a.difference(&b)),
                                    3 => Box::new(a.symmetric_difference(&b)),
                                    4 => Box::new(b.union(&a)),
                                    5 => Box::new(b.intersection(&a)),
                                    6 => Box::new(b.difference(&a)),
                                    _ => Box::new(b.symmetric_difference(&a)),
                                };
                                let mut w = want(op);
                                let first = it.next();
                                ck!(first.is_some() != w.is_empty(), "step {i}: operation {op} begins with {first:?}, expected {w:?}");
                                if let Some(f) = first {
                                    ck!(w.remove(f), "step {i}: operation {op} yields {f}");
                                    let stored = oa.iter().chain(&ob).any(|e| e.0 == addr(f));
                                    ck!(stored, "step {i}: operation {op} yields a reference to something else");
                                }
                                held.push(it);
                                left.push(w);
                                cx.tr(1);
                            }
                            for (it, w) in held.into_iter().zip(left) {
                                let v: Vec<u32> = it.copied().collect();
                                let s: BTreeSet<u32> = v.iter().copied().collect();
                                ck!(s == w && v.len() == w.len(), "operations {op0}, {code}: an iterator ends with {v:?} instead of {w:?}");
                            }
                            ck!(order(&ia) == oa && order(&ib) == ob, "operations {op0}, {code}: an operand changed");
                            cx.st();
                        }
                        Ok(())
                    },
                );
            }
        }
    }

    pub fn all(c: &mut Ctx, depth: usize) {
        let lists: [&[u32]; 6] = [&[], &[5], &[3, 4, 5, 6], &[1, 5, 9, 300], &[5, 6, 7, 8, 9], &[2, 9, 30, 4, 77, 300]];
        for x in lists {
            for y in lists {
                let f = |v: &[u32]| FrozenSet::<u32, PH>::from_vec_with_hasher(v.to_vec(), MIX);
                let s = |v: &[u32]| ScanningSet::from_vec(v.to_vec());
                let cm = |v: &[u32]| CommonSet::<u32, u8, PH>::from_vec_with_hasher(v.to_vec(), LOW2);
                let i = |v: &[u32]| IntegerSet::<u32, u8>::from_vec(v.to_vec());
                let h = |v: &[u32]| v.iter().copied().collect::<HashSet<u32>>();
                let b = |v: &[u32]| v.iter().copied().collect::<BTreeSet<u32>>();
                both(c, "FrozenSet, FrozenSet", x, y, &|| (f(x), f(y)), depth);
                both(c, "FrozenSet, HashSet", x, y, &|| (f(x), h(y)), depth);
                both(c, "BTreeSet, FrozenSet", x, y, &|| (b(x), f(y)), depth);
                both(c, "ScanningSet, CommonSet", x, y, &|| (s(x), cm(y)), depth);
                both(c, "IntegerSet, CommonSet", x, y, &|| (i(x), cm(y)), depth);
                if x.windows(2).all(|w| w[0] + 1 == w[1]) {
                    both(c, "IntegerRangeSet, IntegerSet", x, y, &|| (IntegerRangeSet::from_vec(x.to_vec()), i(y)), depth);
                }
            }
        }
    }
}

// ---- two collections of one type which are read, moved about, and replaced by clones of each other

mod moved {
    use super::*;
    use frozen_collections_core::facades::{FrozenMap, FrozenSet};
    use frozen_collections_core::specialized_maps::*;
    use frozen_collections_core::specialized_sets::*;
    use mc::hashers::*;

    const OPS: usize = 9;

    /// Something which answers questions about keys by their stored number.
    trait Asked<K> {
        fn ask(&mut self, how: usize, k: &K) -> Option<u32>;
        fn list(&self) -> Vec<(K, u32)>;
    }
    struct M<T>(T);
    impl<K: Clone + 'static, T: MapLike<K, u32>> Asked<K> for M<T> {
        fn ask(&mut self, how: usize, k: &K) -> Option<u32> {
            match how {
                0 => self.0.get(k).copied(),
                1 => self.0.get_kv(k).map(|e| *e.1),
                _ => self.0.get_mut(k).map(|v| *v),
            }
        }
        fn list(&self) -> Vec<(K, u32)> {
            self.0.entries().map(|e| (e.0.clone(), *e.1)).collect()
        }
    }
    impl<T: Clone> Clone for M<T> {
        fn clone(&self) -> Self {
            Self(self.0.clone())
        }
    }
    #[derive(Clone)]
    struct S<T>(T);
    impl<K: Clone + 'static, T: SetLike<K>> Asked<K> for S<T> {
        fn ask(&mut self, how: usize, k: &K) -> Option<u32> {
            match how {
                0 => self.0.has(k).then_some(0),
                1 => self.0.get(k).map(|_| 0),
                _ => self.0.trait_has(k).then_some(0),
            }
        }
        fn list(&self) -> Vec<(K, u32)> {
            self.0.elems().map(|e| (e.clone(), 0)).collect()
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn words<K: Clone + Eq + Debug + 'static, T: Asked<K> + Clone>(
        c: &mut Ctx,
        name: &str,
        x: &[(K, u32)],
        y: &[(K, u32)],
        absent: &K,
        make: &dyn Fn(Vec<(K, u32)>) -> T,
        depth: usize,
    ) {
        for op0 in 0..OPS {
            c.case(
                || format!("{name}: all sequences of {depth} reads, moves and clones of {x:?} and {y:?} starting with {op0}"),
                |cx| {
                    for code in 0..OPS.pow(depth as u32 - 1) {
                        let mut a = make(x.to_vec());
                        let mut b = make(y.to_vec());
                        let (mut ma, mut mb) = (x.to_vec(), y.to_vec());
                        let mut rest = code;
                        let mut w = vec![];
                        for i in 0..depth {
                            let op = if i == 0 { op0 } else { rest % OPS };
                            if i > 0 {
                                rest /= OPS;
                            }
                            w.push(op);
                            cx.tr(1);
                            match op {
                                0..=2 => {
                                    if let Some((k, v)) = [ma.first(), ma.last(), ma.get(ma.len() / 2)][op] {
                                        let g = a.ask(op, k);
                                        ck!(g == Some(*v), "{w:?}: asked for {k:?}: {g:?} instead of {v}");
                                    }
                                }
                                3 => {
                                    let g = a.ask(i % 3, absent);
                                    ck!(g.is_none(), "{w:?}: asked for the absent {absent:?}: {g:?}");
                                }
                                4 => {
                                    // an entry of the other one only
                                    if let Some((k, _)) = mb.iter().find(|e| !ma.iter().any(|f| f.0 == e.0)) {
                                        let g = a.ask(i % 3, k);
                                        ck!(g.is_none(), "{w:?}: asked for {k:?} of the other one: {g:?}");
                                    }
                                }
                                5 => {
                                    std::mem::swap(&mut a, &mut b);
                                    std::mem::swap(&mut ma, &mut mb);
                                }
                                6 => a = *Box::new(a),
                                7 => {
                                    b = a.clone();
                                    mb.clone_from(&ma);
                                }
                                _ => {
                                    a = make(mb.clone());
                                    ma.clone_from(&mb);
                                }
                            }
                        }
                        for (t, m) in [(&mut a, &ma), (&mut b, &mb)] {
                            for how in 0..3 {
                                for (k, v) in m {
                                    let g = t.ask(how, k);
                                    ck!(g == Some(*v), "after {w:?}: asked for {k:?}: {g:?} instead of {v}");
                                }
                                ck!(t.ask(how, absent).is_none(), "after {w:?}: the absent {absent:?} is found");
                            }
                            let l = t.list();
                            ck!(l.len() == m.len() && m.iter().all(|e| l.contains(e)), "after {w:?}: {l:?} instead of {m:?}");
                        }
                        cx.st();
                    }
                    Ok(())
                },
            );
        }
    }

    pub fn all(c: &mut Ctx, depth: usize) {
        let lists: [(&[u32], &[u32]); 4] =
            [(&[3, 4, 5, 6], &[4, 5, 6, 7]), (&[1, 5, 9, 300, 7], &[300, 2, 5, 10, 11]), (&[8, 9, 10], &[]), (&[1, 2, 3, 4, 5], &[9])];
        for (x, y) in lists {
            let p = |l: &[u32], d: u32| l.iter().enumerate().map(|(i, k)| (*k, d + i as u32)).collect::<Vec<_>>();
            let (x, y) = (p(x, 20), p(y, 50));
            let z: fn(&[(u32, u32)]) -> Vec<(u32, u32)> = |l| l.iter().map(|e| (e.0, 0)).collect();
            let k: fn(Vec<(u32, u32)>) -> Vec<u32> = |l| l.into_iter().map(|e| e.0).collect();
            words(c, "FrozenMap<u32>", &x, &y, &77, &|l| M(FrozenMap::<_, _, PH>::from_vec_with_hasher(l, MIX)), depth);
            words(c, "ScanningMap", &x, &y, &77, &|l| M(ScanningMap::from_vec(l)), depth);
            words(c, "CommonMap", &x, &y, &77, &|l| M(CommonMap::<_, _, u8, PH>::from_vec_with_hasher(l, LOW2)), depth);
            words(c, "IntegerMap", &x, &y, &77, &|l| M(IntegerMap::<_, _, u8>::from_vec(l)), depth);
            words(c, "FrozenSet<u32>", &z(&x), &z(&y), &77, &|l| S(FrozenSet::<_, PH>::from_vec_with_hasher(k(l), MIX)), depth);
            words(c, "CommonSet", &z(&x), &z(&y), &77, &|l| S(CommonSet::<_, u8, PH>::from_vec_with_hasher(k(l), LOW2)), depth);
            words(c, "IntegerSet", &z(&x), &z(&y), &77, &|l| S(IntegerSet::<_, u8>::from_vec(k(l))), depth);
            let range = |l: &[(u32, u32)]| l.windows(2).all(|w| w[0].0 + 1 == w[1].0);
            if range(&x) && range(&y) {
                words(c, "IntegerRangeMap", &x, &y, &77, &|l| M(IntegerRangeMap::from_vec(l)), depth);
                words(c, "IntegerRangeSet", &z(&x), &z(&y), &77, &|l| S(IntegerRangeSet::from_vec(k(l))), depth);
            }
        }
        let lists: [(&[&str], &[&str]); 3] = [
            (&["ax", "bx", "cxx", "dxxx"], &["bx", "ex", "fxx"]),
            (&["Hello", "Help", "Held", "Hero", "Hem"], &["Help", "Hex", "Help me"]),
            (&["long enough to be on the heap", "abc"], &["long enough to be on the hoop", "abd"]),
        ];
        for (x, y) in lists {
            let p = |l: &[&str], d: u32| l.iter().enumerate().map(|(i, k)| ((*k).to_string(), d + i as u32)).collect::<Vec<_>>();
            let (x, y) = (p(x, 20), p(y, 50));
            let ab = "absent".to_string();
            let z: fn(&[(String, u32)]) -> Vec<(String, u32)> = |l| l.iter().map(|e| (e.0.clone(), 0)).collect();
            let k: fn(Vec<(String, u32)>) -> Vec<String> = |l| l.into_iter().map(|e| e.0).collect();
            words(c, "FrozenMap<String>", &x, &y, &ab, &|l| M(FrozenMap::<_, _, PH>::from_vec_with_hasher(l, MIX)), depth);
            words(c, "LengthMap", &x, &y, &ab, &|l| M(LengthMap::<_, _, u8>::from_vec(l)), depth);
            words(c, "LeftSliceMap", &x, &y, &ab, &|l| M(LeftSliceMap::<_, _, u8, PH>::from_vec_with_hasher(l, 0..2, MIX)), depth);
            words(c, "RightSliceMap", &x, &y, &ab, &|l| M(RightSliceMap::<_, _, u8, PH>::from_vec_with_hasher(l, 1..2, MIX)), depth);
            words(c, "FrozenSet<String>", &z(&x), &z(&y), &ab, &|l| S(FrozenSet::<_, PH>::from_vec_with_hasher(k(l), MIX)), depth);
            words(c, "LengthSet", &z(&x), &z(&y), &ab, &|l| S(LengthSet::<_, u8>::from_vec(k(l))), depth);
        }
    }
}

fn main() {
    let mut c = Ctx::from_args();
    let d = c.pick(4, 5);
    let big = !c.quick();
    c.scenario("u32 maps", |c| {
        for z in u32_maps::<u32>(false) {
            map_sequences(c, &z, |i| 3 + 5 * i as u32, d);
        }
    });
    c.scenario("String maps", |c| {
        for z in str_maps::<u32>(false) {
            map_sequences(c, &z, |i| 3 + 5 * i as u32, d);
        }
    });
    c.scenario("maps of strings to strings", |c| {
        for z in str_maps::<String>(false) {
            map_sequences(c, &z, |i| format!("value {i}"), d - 1);
        }
    });
    c.scenario("large maps", |c| {
        let d = c.pick(2, 3);
        for z in u32_maps::<u32>(true).into_iter().filter(|z| z.keys.len() > 100) {
            map_sequences(c, &z, |i| 3 + 5 * i as u32, d);
        }
        for z in str_maps::<u32>(true).into_iter().filter(|z| z.keys.len() > 100) {
            map_sequences(c, &z, |i| 3 + 5 * i as u32, d);
        }
    });
    macro_rules! other {
        ($($t:ty),*) => {$(
            c.scenario(&format!("maps of {}", <$t as Gen>::NAME), |c| {
                for z in gen_maps::<$t, u32>(big) {
                    let d = if z.keys.len() > 100 { 1 } else { d - 1 };
                    map_sequences(c, &z, |i| 3 + 5 * i as u32, d);
                }
            });
            c.scenario(&format!("sets of {}", <$t as Gen>::NAME), |c| {
                for z in gen_sets::<$t>(big) {
                    let d = if z.els.len() > 100 { 1 } else { d - 1 };
                    set_sequences(c, &z, d);
                }
            });
        )*};
    }
    other!(u64, &'static str, (), (u32, u32), Box<str>);
    c.scenario("u32 sets", |c| {
        for z in u32_sets(false) {
            set_sequences(c, &z, d);
        }
    });
    c.scenario("String sets", |c| {
        for z in str_sets(false) {
            set_sequences(c, &z, d);
        }
    });
    c.scenario("large sets", |c| {
        let d = c.pick(2, 3);
        for z in u32_sets(true).into_iter().filter(|z| z.els.len() > 100) {
            set_sequences(c, &z, d);
        }
        for z in str_sets(true).into_iter().filter(|z| z.els.len() > 100) {
            set_sequences(c, &z, d);
        }
    });
    c.scenario("set algebra", |c| algebra::all(c, c.pick(4, 5)));
    c.scenario("the same read very often", |c| {
        let often = c.pick(70_000, 1 << 20);
        for z in u32_maps::<u32>(false) {
            map_often(c, &z, |i| 3 + 5 * i as u32, often);
        }
        for z in str_maps::<u32>(false) {
            map_often(c, &z, |i| 3 + 5 * i as u32, often);
        }
        for z in u32_sets(false) {
            set_often(c, &z, often);
        }
        for z in str_sets(false) {
            set_often(c, &z, often);
        }
    });
    c.scenario("moved and cloned collections", |c| moved::all(c, c.pick(5, 6)));
    c.finish();
}
