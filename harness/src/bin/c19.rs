//! Specialized maps and sets agree with an ordinary map or set.
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::*;
use frozen_collections_core::traits::len::Len;
use mc::hashers::*;
use mc::keys::*;
use mc::maps::{content, lookups, paired, MapLike};
use mc::sets::{elements, membership, SetLike};
use mc::*;
use num_traits::{AsPrimitive, PrimInt, Unsigned};
use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet, HashSet, LinkedList, VecDeque};
use std::ffi::{CString, OsString};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

#[inline(never)]
fn map_case<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, m: &mut dyn MapLike<K, u32>, model: &[(K, u32)], absent: &[K]) -> R {
    lookups(cx, m, model, absent)?;
    content(cx, m, model)?;
    let n = model.len();
    for (i, j) in [(0, n.saturating_sub(1)), (n / 2, 0)] {
        if i < n && j < n {
            let r = m.many2([&model[i].0, &model[j].0]).map(|[a, b]| (*a, *b));
            let e = if i == j { None } else { Some((model[i].1, model[j].1)) };
            ck!(r == e, "get_many_mut of keys {i} and {j} gives {r:?} instead of {e:?}");
        }
        if let (Some(x), Some(a)) = (model.get(i), absent.first()) {
            ck!(m.many2([&x.0, a]).is_none() && m.many2([a, &x.0]).is_none(), "get_many_mut finds an absent key");
        }
    }
    // writes reach the right entry
    for (k, v) in model {
        *m.get_mut(k).ok_or("get_mut fails")? = !*v;
    }
    for (k, v) in model {
        ck!(m.get(k) == Some(&!*v), "get({k:?}) is {:?} after writing {}", m.get(k), !*v);
    }
    cx.tr(2 * n as u64);
    cx.out(n as u64);
    Ok(())
}

#[inline(never)]
fn set_case<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, s: &dyn SetLike<K>, model: &[K], absent: &[K]) -> R {
    membership(cx, s, model, absent)?;
    elements(cx, s, model)?;
    Ok(())
}

/// All subsets of `dom` with up to `max` members (as masks).
fn subsets(dom: usize, max: u32) -> Vec<u32> {
    (0..1u32 << dom).filter(|m| m.count_ones() <= max).collect()
}

fn split<K: Clone>(dom: &[K], mask: u32, order: u8) -> (Vec<K>, Vec<K>) {
    let mut keys: Vec<K> = dom.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| k.clone()).collect();
    let absent = dom.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, k)| k.clone()).collect();
    match order {
        1 => keys.reverse(),
        2 => {
            let n = keys.len();
            keys.rotate_left(n / 2);
        }
        _ => {}
    }
    (keys, absent)
}

// ---- integers ----

fn int_domain<K: PrimInt>() -> Vec<K> {
    // extremes, around zero, around byte and word limits, equal in the low 64 bits
    let one = K::one();
    let z = K::zero();
    let (lo, hi) = (K::min_value(), K::max_value());
    let mut v = vec![z, one, one + one, hi, hi - one, lo, lo + one, hi - (hi >> 1), hi >> 1];
    if lo < z {
        v.push(z - one);
    }
    let bits = std::mem::size_of::<K>() * 8;
    for s in [7usize, 8, 16, 32, 63, 64, 65] {
        if s + 1 < bits {
            v.push(one << s);
            if s == 64 {
                v.push((one << s) + one);
            }
        }
    }
    let mut d: Vec<K> = Vec::new();
    for x in v {
        if !d.contains(&x) {
            d.push(x);
        }
    }
    d.truncate(14);
    d
}

fn ints<K, S>(c: &mut Ctx, kn: &str, sn: &str)
where
    K: PrimInt + AsPrimitive<u64> + Hash + Debug + 'static,
    S: PrimInt + Unsigned + 'static,
{
    c.scenario(&format!("integers {kn}, size {sn}"), |c| {
        let dom = int_domain::<K>();
        let max = c.pick(if sn == "u8" { 7 } else { 4 }, if sn == "u8" { 14 } else { 7 });
        for mask in subsets(dom.len(), max) {
            for order in 0..2 {
                c.case(
                    || format!("IntegerMap/Set<{kn}, {sn}> of {:?}", split(&dom, mask, order).0),
                    |cx| {
                        let (keys, absent) = split(&dom, mask, order);
                        let model = paired(&keys);
                        let mut m = IntegerMap::<K, u32, S>::from_vec(model.clone());
                        map_case(cx, &mut m, &model, &absent)?;
                        let s = IntegerSet::<K, S>::from_vec(keys.clone());
                        set_case(cx, &s, &keys, &absent)?;
                        if order == 0 {
                            let mut m: IntegerMap<K, u32, S> = model.iter().copied().collect();
                            map_case(cx, &mut m, &model, &absent)?;
                            let s: IntegerSet<K, S> = keys.iter().copied().collect();
                            set_case(cx, &s, &keys, &absent)?;
                        }
                        Ok(())
                    },
                );
            }
        }
        // windows around the extremes, contiguous or not
        let w = 8u32;
        for base in 0..3 {
            for mask in subsets(w as usize, 8) {
                let at = |i: u32| {
                    let mut x = [K::min_value(), K::max_value(), K::zero()][base];
                    for _ in 0..i {
                        x = if base == 1 { x - K::one() } else { x + K::one() };
                    }
                    x
                };
                c.case(
                    || format!("IntegerMap/Set<{kn}, {sn}>: members {mask:#b} of the window {base}"),
                    |cx| {
                        let keys: Vec<K> = (0..w).filter(|i| mask >> i & 1 == 1).map(at).collect();
                        let absent: Vec<K> = (0..w + 2).filter(|i| mask >> i & 1 == 0).map(at).collect();
                        let model = paired(&keys);
                        let mut m = IntegerMap::<K, u32, S>::from_vec(model.clone());
                        map_case(cx, &mut m, &model, &absent)?;
                        let s = IntegerSet::<K, S>::from_vec(keys.clone());
                        set_case(cx, &s, &keys, &absent)
                    },
                );
            }
        }
    });
}

macro_rules! int_sizes {
    ($c:expr, $($k:ident)*) => {
        $(
            ints::<$k, u8>($c, stringify!($k), "u8");
            ints::<$k, u16>($c, stringify!($k), "u16");
            ints::<$k, u32>($c, stringify!($k), "u32");
            ints::<$k, u64>($c, stringify!($k), "u64");
            ints::<$k, usize>($c, stringify!($k), "usize");
            ints::<$k, u128>($c, stringify!($k), "u128");
        )*
    };
}

// ---- subranges ----

fn strings(alpha: &[&str], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|s| alpha.iter().map(move |a| format!("{s}{a}"))).collect();
        v.extend(last.iter().cloned());
    }
    v
}

fn slices<S: PrimInt + Unsigned + 'static>(c: &mut Ctx, sn: &str, hashers: &[PH], max: u32) {
    c.scenario(&format!("subranges, size {sn}"), |c| {
        let dom: Vec<String> = strings(&["a", "b"], 3).into_iter().filter(|s| s != "bb" && s != "abb").chain(["é".to_string(), "日a".to_string()]).collect();
        let mut ranges = Vec::new();
        for s in 0..=4usize {
            for e in s..=5 {
                ranges.push(s..e);
            }
        }
        ranges.extend([7..9, 100..100, 0..usize::MAX, usize::MAX - 1..usize::MAX, usize::MAX..usize::MAX, 5..5]);
        for r in &ranges {
            for h in hashers {
                for mask in subsets(dom.len(), max) {
                    c.case(
                        || format!("LeftSlice/RightSlice collections, size {sn}, subrange {r:?}, {h:?}, of {:?}", split(&dom, mask, 0).0),
                        |cx| {
                            let (keys, absent) = split(&dom, mask, (mask % 3) as u8);
                            let model = paired(&keys);
                            let mut m = LeftSliceMap::<String, u32, S, PH>::from_vec_with_hasher(model.clone(), r.clone(), *h);
                            map_case(cx, &mut m, &model, &absent).map_err(|e| format!("LeftSliceMap: {e}"))?;
                            let mut m = RightSliceMap::<String, u32, S, PH>::from_vec_with_hasher(model.clone(), r.clone(), *h);
                            map_case(cx, &mut m, &model, &absent).map_err(|e| format!("RightSliceMap: {e}"))?;
                            let s = LeftSliceSet::<String, S, PH>::from_iter_with_hasher(keys.clone(), r.clone(), *h);
                            set_case(cx, &s, &keys, &absent).map_err(|e| format!("LeftSliceSet: {e}"))?;
                            let s = RightSliceSet::<String, S, PH>::from_iter_with_hasher(keys.clone(), r.clone(), *h);
                            set_case(cx, &s, &keys, &absent).map_err(|e| format!("RightSliceSet: {e}"))?;
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn long_slices<S: PrimInt + Unsigned + 'static>(c: &mut Ctx, sn: &str) {
    // many keys, of various lengths, which the subrange tells apart in part
    c.scenario(&format!("subranges of many keys, size {sn}"), |c| {
        for n in [9usize, 40, 254, 255] {
            for fam in 0..6 {
                for r in [0..0usize, 0..1, 0..2, 0..3, 1..2, 1..3, 2..4, 3..6, 4..5, 9..12] {
                    for h in [MIX, ZERO, SUM, LAST] {
                        c.case(
                            || format!("{n} keys of family {fam}, subrange {r:?}, {h:?}, size {sn}"),
                            |cx| {
                                let make = |i: usize| match fam {
                                    0 => format!("{i}"),
                                    1 => format!("{i:04}"),
                                    2 => format!("pre{i:03}"),
                                    3 => format!("{i:03}post"),
                                    4 => "x".repeat(i % 100) + &format!("{}", i / 100),
                                    _ => format!("{}é{}", i % 7, i / 7),
                                };
                                let keys: Vec<String> = (0..n).map(make).collect();
                                let absent: Vec<String> = (n..n + 20).map(make).chain(["".to_string(), "x".to_string(), "pre".to_string()]).filter(|x| !keys.contains(x)).collect();
                                let model = paired(&keys);
                                let mut m = LeftSliceMap::<String, u32, S, PH>::with_hasher([], r.clone(), *&h);
                                map_case(cx, &mut m, &[], &absent)?;
                                m = LeftSliceMap::from_vec_with_hasher(model.clone(), r.clone(), h);
                                map_case(cx, &mut m, &model, &absent).map_err(|e| format!("LeftSliceMap: {e}"))?;
                                let mut m = RightSliceMap::<String, u32, S, PH>::from_vec_with_hasher(model.clone(), r.clone(), h);
                                map_case(cx, &mut m, &model, &absent).map_err(|e| format!("RightSliceMap: {e}"))?;
                                let m = LeftSliceSet::<String, S, PH>::from_vec_with_hasher(keys.clone(), r.clone(), h);
                                set_case(cx, &m, &keys, &absent).map_err(|e| format!("LeftSliceSet: {e}"))?;
                                let m = RightSliceSet::<String, S, PH>::from_vec_with_hasher(keys.clone(), r.clone(), h);
                                set_case(cx, &m, &keys, &absent).map_err(|e| format!("RightSliceSet: {e}"))
                            },
                        );
                    }
                }
            }
        }
        for n in 0..6usize {
            c.case(
                || format!("{n} keys with the random hasher, size {sn}"),
                |cx| {
                    let keys: Vec<String> = (0..n).map(|i| format!("k{i}k")).collect();
                    let absent: Vec<String> = (n..9).map(|i| format!("k{i}k")).chain(["k".to_string()]).collect();
                    let model = paired(&keys);
                    let mut m = LeftSliceMap::<String, u32, S>::from_vec(model.clone(), 1..2);
                    map_case(cx, &mut m, &model, &absent)?;
                    let mut m = LeftSliceMap::<String, u32, S>::from_iter(model.clone(), 0..2);
                    map_case(cx, &mut m, &model, &absent)?;
                    let mut m = RightSliceMap::<String, u32, S>::from_vec(model.clone(), 1..2);
                    map_case(cx, &mut m, &model, &absent)?;
                    let mut m = RightSliceMap::<String, u32, S>::from_iter(model.clone(), 0..3);
                    map_case(cx, &mut m, &model, &absent)?;
                    let s = LeftSliceSet::<String, S>::from_vec(keys.clone(), 1..2);
                    set_case(cx, &s, &keys, &absent)?;
                    let s = RightSliceSet::<String, S>::from_iter(keys.clone(), 1..9);
                    set_case(cx, &s, &keys, &absent)?;
                    let s = LeftSliceSet::<String, S>::from(["a".to_string(), "ab".to_string()], 0..1);
                    set_case(cx, &s, &["a".to_string(), "ab".to_string()], &absent)?;
                    let s = RightSliceSet::<String, S>::from(["a".to_string(), "ab".to_string()], 0..1);
                    set_case(cx, &s, &["a".to_string(), "ab".to_string()], &absent)?;
                    let mut m = LeftSliceMap::<String, u32, S>::from([("a".to_string(), 1), ("ab".to_string(), 2)], 0..1);
                    map_case(cx, &mut m, &[("a".to_string(), 1), ("ab".to_string(), 2)], &absent)?;
                    let mut m = RightSliceMap::<String, u32, S>::from([("a".to_string(), 1), ("ab".to_string(), 2)], 0..1);
                    map_case(cx, &mut m, &[("a".to_string(), 1), ("ab".to_string(), 2)], &absent)
                },
            );
        }
    });
}

// ---- lengths ----

fn lengths<K: Len + Eq + Hash + Clone + Debug + 'static>(c: &mut Ctx, kn: &str, dom: Vec<K>) {
    c.scenario(&format!("lengths of {kn}"), |c| {
        let max = c.pick(6, 12);
        let dom = &dom[..dom.len().min(12)];
        for mask in subsets(dom.len(), max) {
            for order in 0..3 {
                c.case(
                    || format!("LengthMap/Set<{kn}> of {:?}", split(dom, mask, order).0),
                    |cx| {
                        let (keys, absent) = split(dom, mask, order);
                        let model = paired(&keys);
                        let mut m = LengthMap::<K, u32, u8>::from_vec(model.clone());
                        map_case(cx, &mut m, &model, &absent)?;
                        let mut m: LengthMap<K, u32> = model.iter().cloned().collect();
                        map_case(cx, &mut m, &model, &absent)?;
                        let mut m = LengthMap::<K, u32, usize>::from_vec(model.clone());
                        map_case(cx, &mut m, &model, &absent)?;
                        let s = LengthSet::<K, u16>::from_vec(keys.clone());
                        set_case(cx, &s, &keys, &absent)?;
                        let s: LengthSet<K, u8> = keys.iter().cloned().collect();
                        set_case(cx, &s, &keys, &absent)?;
                        let s = LengthSet::<K, u128>::from_vec(keys.clone());
                        set_case(cx, &s, &keys, &absent)
                    },
                );
            }
        }
    });
}

fn some_strings() -> Vec<String> {
    ["", "a", "b", "aa", "ab", "ba", "aaa", "é", "x".repeat(255).as_str(), "x".repeat(256).as_str(), "y".repeat(256).as_str(), "zzzzzz"].map(String::from).to_vec()
}

// ---- hash codes ----

fn common<K: Gen>(c: &mut Ctx) {
    c.scenario(&format!("hash codes of {}", K::NAME), |c| {
        let quick = c.quick();
        let d = K::CARD.min(if quick { 8 } else { 10 });
        let dom: Vec<K> = (0..d).map(K::gen).collect();
        for mask in subsets(d, 10) {
            for h in ALL {
                c.case(
                    || format!("CommonMap/Set<{}> with {h:?} of {:?}", K::NAME, split(&dom, mask, 0).0),
                    |cx| {
                        let (keys, absent) = split(&dom, mask, h.0 % 3);
                        let model = paired(&keys);
                        let mut m = CommonMap::<K, u32, u8, PH>::from_vec_with_hasher(model.clone(), h);
                        map_case(cx, &mut m, &model, &absent)?;
                        let mut m = CommonMap::<K, u32, u128, PH>::from_vec_with_hasher(model.clone(), h);
                        map_case(cx, &mut m, &model, &absent)?;
                        let mut m = CommonMap::<K, u32, u64, PH>::from_iter_with_hasher(model.clone(), h);
                        map_case(cx, &mut m, &model, &absent)?;
                        let s = CommonSet::<K, u16, PH>::from_vec_with_hasher(keys.clone(), h);
                        set_case(cx, &s, &keys, &absent)?;
                        let s = CommonSet::<K, usize, PH>::from_iter_with_hasher(keys.clone(), h);
                        set_case(cx, &s, &keys, &absent)?;
                        if h == MIX {
                            let mut m: CommonMap<K, u32, u32> = model.iter().cloned().collect();
                            map_case(cx, &mut m, &model, &absent)?;
                            let s: CommonSet<K, u32> = keys.iter().cloned().collect();
                            set_case(cx, &s, &keys, &absent)?;
                            let mut m = ScanningMap::from_vec(model.clone());
                            map_case(cx, &mut m, &model, &absent)?;
                            let mut m: ScanningMap<K, u32> = model.iter().cloned().collect();
                            map_case(cx, &mut m, &model, &absent)?;
                            let s = ScanningSet::from_vec(keys.clone());
                            set_case(cx, &s, &keys, &absent)?;
                            // alternative forms of equal keys
                            for (i, (k, v)) in model.iter().enumerate() {
                                let _ = i;
                                let j = dom.iter().position(|x| x == k).ok_or("gone")?;
                                ck!(m.get(&K::alt(j)) == Some(&!*v), "get of an equal key fails");
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

// ---- borrowed forms ----

/// Every lookup through a borrowed form of the key.
macro_rules! borrowed {
    ($cx:expr, $m:expr, $model:expr, $absent:expr, $q:ty) => {{
        let m = &mut $m;
        for (k, v) in $model.iter() {
            let q: &$q = k.borrow();
            ck!(m.get::<$q>(q) == Some(v), "get by borrowed {q:?} is {:?}", m.get::<$q>(q));
            ck!(m.get_key_value::<$q>(q) == Some((k, v)), "get_key_value by borrowed {q:?} is {:?}", m.get_key_value::<$q>(q));
            ck!(m.contains_key::<$q>(q), "contains_key by borrowed {q:?} is false");
            ck!(m.get_mut::<$q>(q).as_deref() == Some(v), "get_mut by borrowed {q:?}");
            let r = m.get_many_mut::<$q, 1>([q]).map(|[x]| *x);
            ck!(r == Some(*v), "get_many_mut by borrowed {q:?} is {r:?}");
        }
        if $model.len() > 1 {
            let (a, b): (&$q, &$q) = ($model[0].0.borrow(), $model[1].0.borrow());
            let r = m.get_many_mut::<$q, 2>([a, b]).map(|[x, y]| (*x, *y));
            ck!(r == Some(($model[0].1, $model[1].1)), "get_many_mut by borrowed keys is {r:?}");
            ck!(m.get_many_mut::<$q, 2>([a, a]).is_none(), "get_many_mut gives two references to one value");
        }
        for k in $absent.iter() {
            let q: &$q = k.borrow();
            ck!(m.get::<$q>(q).is_none() && m.get_key_value::<$q>(q).is_none() && !m.contains_key::<$q>(q) && m.get_mut::<$q>(q).is_none(), "borrowed {q:?} is found");
            ck!(m.get_many_mut::<$q, 1>([q]).is_none(), "borrowed {q:?} is found by get_many_mut");
        }
        $cx.tr(5 * ($model.len() + $absent.len()) as u64);
    }};
}
macro_rules! borrowed_set {
    ($cx:expr, $s:expr, $keys:expr, $absent:expr, $q:ty) => {{
        let s = &$s;
        for k in $keys.iter() {
            let q: &$q = k.borrow();
            ck!(s.get::<$q>(q) == Some(k) && s.contains::<$q>(q), "borrowed {q:?} is not found");
        }
        for k in $absent.iter() {
            let q: &$q = k.borrow();
            ck!(s.get::<$q>(q).is_none() && !s.contains::<$q>(q), "borrowed {q:?} is found");
        }
        $cx.tr(2 * ($keys.len() + $absent.len()) as u64);
    }};
}

/// A string of the user's, which can be borrowed as a `String`.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Own(String, u8);
impl Borrow<String> for Own {
    fn borrow(&self) -> &String {
        &self.0
    }
}
impl Len for Own {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl frozen_collections_core::traits::slice_hash::SliceHash for Own {
    fn hash<BH: std::hash::BuildHasher>(&self, bh: &BH, range: std::ops::Range<usize>) -> u64 {
        frozen_collections_core::traits::slice_hash::SliceHash::hash(&self.0, bh, range)
    }
}

fn borrows(c: &mut Ctx) {
    c.scenario("borrowed forms", |c| {
        let strs = some_strings();
        let max = c.pick(6, 9);
        for mask in subsets(strs.len(), max) {
            c.case(
                || format!("lookups by borrowed forms of {:?}", split(&strs, mask, 0).0),
                |cx| {
                    let (keys, absent) = split(&strs, mask, (mask % 3) as u8);
                    macro_rules! form {
                        ($k:ty, $q:ty, $f:expr) => {{
                            let f: fn(String) -> $k = $f;
                            let keys: Vec<$k> = keys.iter().cloned().map(f).collect();
                            let absent: Vec<$k> = absent.iter().cloned().map(f).collect();
                            let model = paired(&keys);
                            let mut m = CommonMap::<$k, u32, u8, PH>::from_vec_with_hasher(model.clone(), LOW2);
                            borrowed!(cx, m, model, absent, $q);
                            let mut m = ScanningMap::from_vec(model.clone());
                            borrowed!(cx, m, model, absent, $q);
                            let s = CommonSet::<$k, u16, PH>::from_vec_with_hasher(keys.clone(), MIX);
                            borrowed_set!(cx, s, keys, absent, $q);
                            let s = ScanningSet::from_vec(keys.clone());
                            borrowed_set!(cx, s, keys, absent, $q);
                        }};
                    }
                    form!(Box<String>, String, Box::new);
                    form!(Rc<String>, String, Rc::new);
                    form!(Arc<Vec<u8>>, Vec<u8>, |s| Arc::new(s.into_bytes()));
                    {
                        let f = |s: &String| Rc::new(s.clone());
                        let (keys, absent): (Vec<Rc<String>>, Vec<Rc<String>>) = (keys.iter().map(f).collect(), absent.iter().map(f).collect());
                        let model = paired(&keys);
                        let mut m = LengthMap::<Rc<String>, u32, u8>::from_vec(model.clone());
                        borrowed!(cx, m, model, absent, String);
                        borrowed!(cx, m, model, absent, Rc<String>);
                        let s = LengthSet::<Rc<String>, u16>::from_vec(keys.clone());
                        borrowed_set!(cx, s, keys, absent, String);
                    }
                    {
                        let f = |s: &String| Own(s.clone(), 3);
                        let (keys, absent): (Vec<Own>, Vec<Own>) = (keys.iter().map(f).collect(), absent.iter().map(f).collect());
                        let model = paired(&keys);
                        for r in [0..0usize, 0..1, 1..2, 0..3, 5..6] {
                            let mut m = LeftSliceMap::<Own, u32, u8, PH>::from_vec_with_hasher(model.clone(), r.clone(), MIX);
                            borrowed!(cx, m, model, absent, String);
                            let mut m = RightSliceMap::<Own, u32, u8, PH>::from_vec_with_hasher(model.clone(), r.clone(), MIX);
                            borrowed!(cx, m, model, absent, String);
                            let s = LeftSliceSet::<Own, u8, PH>::from_vec_with_hasher(keys.clone(), r.clone(), MIX);
                            borrowed_set!(cx, s, keys, absent, String);
                            let s = RightSliceSet::<Own, u8, PH>::from_vec_with_hasher(keys.clone(), r, MIX);
                            borrowed_set!(cx, s, keys, absent, String);
                        }
                        for (k, v) in &model {
                            let mut m = LeftSliceMap::<Own, u32, u8, PH>::from_vec_with_hasher(model.clone(), 0..1, MIX);
                            ck!(m[k.0.clone()] == *v, "indexing by a borrowed form");
                            m[k.0.clone()] = 7;
                            ck!(m[k.clone()] == 7, "indexing after writing");
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}

// ---- sizes ----

/// Every size up to 70, and those around powers of two, of every kind.
fn sizes(c: &mut Ctx) {
    let top = c.pick(70usize, 140);
    let mut ns: Vec<usize> = (0..=top).collect();
    ns.extend([100, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000].into_iter().filter(|n| *n > top));
    ns.sort_unstable();
    ns.dedup();
    type Make = fn(usize) -> String;
    let strings: [(&str, Make); 5] = [
        ("numbers", |i| format!("{i}")),
        ("prefixed", |i| format!("pre{i:04}")),
        ("suffixed", |i| format!("{i:04}post")),
        ("lengths", |i| "x".repeat(i)),
        ("outer", |i| format!("{:02}mid{:02}", i / 40, i % 40)),
    ];
    for n in ns {
        c.scenario(&format!("size {n}"), |c| {
            for order in 0..3u8 {
                let arrange = move |mut v: Vec<usize>| -> Vec<usize> {
                    match order {
                        1 => v.reverse(),
                        2 => {
                            let n = v.len();
                            v.sort_by_key(|i| (i * 7919 % n.max(1), *i));
                        }
                        _ => {}
                    }
                    v
                };
                for (sn, make) in strings {
                    for h in [MIX, ZERO, SUM] {
                        if n > 300 && h == ZERO {
                            continue;
                        }
                        c.case(
                            || format!("{n} strings ({sn}), order {order}, {h:?}"),
                            |cx| {
                                let keys: Vec<String> = arrange((0..n).collect()).into_iter().map(make).collect();
                                let absent: Vec<String> = (n..n + 4).map(make).chain(["".to_string(), "q".to_string()]).filter(|x| !keys.contains(x)).collect();
                                let model = paired(&keys);
                                macro_rules! with {
                                    ($s:ty) => {{
                                        let mut m = CommonMap::<String, u32, $s, PH>::from_vec_with_hasher(model.clone(), h);
                                        map_case(cx, &mut m, &model, &absent).map_err(|e| format!("CommonMap: {e}"))?;
                                        let s = CommonSet::<String, $s, PH>::from_vec_with_hasher(keys.clone(), h);
                                        set_case(cx, &s, &keys, &absent).map_err(|e| format!("CommonSet: {e}"))?;
                                        for r in [0..2usize, 0..4, 2..5] {
                                            let mut m = LeftSliceMap::<String, u32, $s, PH>::from_vec_with_hasher(model.clone(), r.clone(), h);
                                            map_case(cx, &mut m, &model, &absent).map_err(|e| format!("LeftSliceMap {r:?}: {e}"))?;
                                            let mut m = RightSliceMap::<String, u32, $s, PH>::from_vec_with_hasher(model.clone(), r.clone(), h);
                                            map_case(cx, &mut m, &model, &absent).map_err(|e| format!("RightSliceMap {r:?}: {e}"))?;
                                            let s = LeftSliceSet::<String, $s, PH>::from_vec_with_hasher(keys.clone(), r.clone(), h);
                                            set_case(cx, &s, &keys, &absent).map_err(|e| format!("LeftSliceSet {r:?}: {e}"))?;
                                            let s = RightSliceSet::<String, $s, PH>::from_vec_with_hasher(keys.clone(), r.clone(), h);
                                            set_case(cx, &s, &keys, &absent).map_err(|e| format!("RightSliceSet {r:?}: {e}"))?;
                                        }
                                        let mut m = LengthMap::<String, u32, $s>::from_vec(model.clone());
                                        map_case(cx, &mut m, &model, &absent).map_err(|e| format!("LengthMap: {e}"))?;
                                        let s = LengthSet::<String, $s>::from_vec(keys.clone());
                                        set_case(cx, &s, &keys, &absent).map_err(|e| format!("LengthSet: {e}"))?;
                                    }};
                                }
                                if n <= 255 && order != 1 {
                                    with!(u8);
                                } else {
                                    with!(u16);
                                }
                                if h == MIX {
                                    let mut m = ScanningMap::from_vec(model.clone());
                                    map_case(cx, &mut m, &model, &absent).map_err(|e| format!("ScanningMap: {e}"))?;
                                    let s = ScanningSet::from_vec(keys.clone());
                                    set_case(cx, &s, &keys, &absent).map_err(|e| format!("ScanningSet: {e}"))?;
                                }
                                Ok(())
                            },
                        );
                    }
                }
                type Num = fn(usize) -> u64;
                let numbers: [(&str, Num); 5] = [
                    ("in turn", |i| i as u64 + 5),
                    ("even", |i| 2 * i as u64),
                    ("squares", |i| (i * i) as u64),
                    ("high", |i| (i as u64) << 56 | (i as u64) >> 8),
                    ("ending at the maximum", |i| u64::MAX - i as u64),
                ];
                for (nn, num) in numbers {
                    c.case(
                        || format!("{n} integers ({nn}), order {order}"),
                        |cx| {
                            let all: Vec<u64> = arrange((0..n).collect()).into_iter().map(num).collect();
                            let other: Vec<u64> = (n..n + 4).map(num).chain([3, 1 << 40, u64::MAX >> 1]).filter(|x| !all.contains(x)).collect();
                            macro_rules! ints {
                                ($k:ty, $s:ty) => {{
                                    let mut keys: Vec<$k> = Vec::new();
                                    let mut seen = BTreeSet::new();
                                    keys.extend(all.iter().map(|x| *x as $k).filter(|x| seen.insert(*x)));
                                    let absent: Vec<$k> = other.iter().map(|x| *x as $k).filter(|x| !seen.contains(x)).collect();
                                    let model = paired(&keys);
                                    let mut m = IntegerMap::<$k, u32, $s>::from_vec(model.clone());
                                    map_case(cx, &mut m, &model, &absent).map_err(|e| format!("IntegerMap<{}>: {e}", stringify!($k)))?;
                                    let s = IntegerSet::<$k, $s>::from_vec(keys.clone());
                                    set_case(cx, &s, &keys, &absent).map_err(|e| format!("IntegerSet<{}>: {e}", stringify!($k)))?;
                                }};
                            }
                            if n <= 255 && order != 1 {
                                ints!(u64, u8);
                                ints!(i32, u8);
                                ints!(u16, u8);
                                ints!(i8, u8);
                            } else {
                                ints!(u64, u16);
                                ints!(i64, u16);
                                ints!(i16, u16);
                                ints!(u8, u16);
                            }
                            let model = paired(&all);
                            let mut m = ScanningMap::from_vec(model.clone());
                            map_case(cx, &mut m, &model, &other).map_err(|e| format!("ScanningMap: {e}"))?;
                            let s = ScanningSet::from_vec(all.clone());
                            set_case(cx, &s, &all, &other).map_err(|e| format!("ScanningSet: {e}"))?;
                            Ok(())
                        },
                    );
                }
            }
        });
    }
}

fn main() {
    let mut c = Ctx::from_args();
    int_sizes!(&mut c, u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
    let q = c.quick();
    let few = [MIX];
    let many = [MIX, ZERO, LAST, SUM, FIRST, MAXC];
    let hs: &[PH] = &many;
    slices::<u8>(&mut c, "u8", hs, if q { 4 } else { 6 });
    slices::<u16>(&mut c, "u16", &few[..1], if q { 3 } else { 4 });
    slices::<u32>(&mut c, "u32", &few[..1], if q { 3 } else { 4 });
    slices::<u64>(&mut c, "u64", &few[..1], if q { 3 } else { 4 });
    slices::<usize>(&mut c, "usize", &few[..1], if q { 3 } else { 4 });
    slices::<u128>(&mut c, "u128", &few[..1], if q { 3 } else { 4 });
    long_slices::<u8>(&mut c, "u8");
    long_slices::<u16>(&mut c, "u16");
    long_slices::<usize>(&mut c, "usize");
    let ss = some_strings();
    lengths(&mut c, "String", ss.clone());
    lengths(&mut c, "Box<String>", ss.iter().cloned().map(Box::new).collect());
    lengths(&mut c, "Box<str>", ss.iter().map(|s| s.clone().into_boxed_str()).collect());
    lengths(&mut c, "Rc<str>", ss.iter().map(|s| Rc::<str>::from(s.as_str())).collect());
    lengths(&mut c, "Arc<String>", ss.iter().cloned().map(Arc::new).collect());
    lengths(&mut c, "CString", ss.iter().map(|s| CString::new(s.as_str()).unwrap()).collect());
    lengths(&mut c, "OsString", ss.iter().map(OsString::from).collect());
    lengths(&mut c, "Vec<u8>", ss.iter().map(|s| s.clone().into_bytes()).collect());
    lengths(&mut c, "Vec<()>", (0..12).map(|n| vec![(); n * n]).collect());
    lengths(&mut c, "VecDeque<u8>", ss.iter().map(|s| s.bytes().collect::<VecDeque<_>>()).collect());
    lengths(&mut c, "LinkedList<u8>", ss.iter().map(|s| s.bytes().collect::<LinkedList<_>>()).collect());
    lengths(&mut c, "BTreeSet<u32>", (0..12u32).map(|n| (n..n + n / 2).collect::<BTreeSet<_>>()).enumerate().filter(|(i, _)| *i != 1).map(|x| x.1).collect());
    lengths(&mut c, "BTreeMap<u32, u8>", (0..12u32).map(|n| (0..n / 2).map(|i| (i, n as u8)).collect::<BTreeMap<_, _>>()).enumerate().filter(|(i, _)| *i != 1).map(|x| x.1).collect());
    lengths(&mut c, "Arc<[u16]>", (0..12u16).map(|n| (n..n + n / 3).collect::<Arc<[u16]>>()).enumerate().filter(|(i, _)| *i != 1 && *i != 2).map(|x| x.1).collect());
    mc::some_key_types!(common, &mut c);
    borrows(&mut c);
    sizes(&mut c);
    let _ = HashSet::<u8>::new();
    c.finish();
}
