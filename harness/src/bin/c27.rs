//! Collections stay compact, and perfectly spread keys need one comparison.
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::{CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use mc::alloc::live;
use mc::hashers::*;
use mc::keys::*;
use mc::*;
use std::hash::{BuildHasher, Hash, Hasher};
use std::mem::size_of;
use std::ops::Range;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

const PER_ENTRY: usize = 512;
const FIXED: usize = 6 * 1024;

/// Bytes a collection retains, apart from its entries.
#[inline(never)]
fn retained<C>(cx: &mut Cx, what: &str, n: usize, own: usize, make: impl FnOnce() -> C) -> R {
    let before = live();
    let c = make();
    let held = (live() - before + size_of::<C>() as isize).max(0) as usize;
    drop(c);
    let left = live() - before;
    ck!(left == 0, "{what}: {left} bytes remain after the collection is gone");
    let extra = held.saturating_sub(own);
    let bound = n * PER_ENTRY + FIXED;
    ck!(extra <= bound, "{what} of {n} entries holds {extra} bytes besides them, more than {bound}");
    cx.tr(1);
    cx.out((extra / 64) as u64);
    Ok(())
}

/// Numbers of entries.
fn counts(c: &Ctx, all: usize, big: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..all).collect();
    v.extend([126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 511, 512, 513, 998, 999, 1000, 1001, 1024, 2000]);
    v.extend(big);
    if !c.quick() {
        v.extend([3000, 4096, 9999, 16384, 40_000, 65_535, 65_536, 100_000, 300_000]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn ints(fam: usize, n: usize) -> Option<Vec<u64>> {
    let n64 = n as u64;
    let v: Vec<u64> = match fam {
        0 => (0..n64).collect(),
        1 => (0..n64).map(|i| u64::MAX - i).collect(),
        2 => (0..n64).map(|i| i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).collect(),
        3 => (0..n64).map(|i| if i == 0 { u64::MAX } else { i }).collect(),
        4 => (0..n64).map(|i| if i + 1 == n64 { u64::MAX } else { i }).collect(),
        5 => (0..n64).map(|i| i << 32).collect(),
        6 => (0..n64).map(|i| i << 44).collect(),
        7 => (0..n64).map(|i| i * 1000).collect(),
        8 => (0..n64).map(|i| i * i).collect(),
        9 => (0..n64).map(|i| i + (i / 2) * 1_000_000_007).collect(),
        10 => (0..n64).map(|i| (1u64 << (i % 64)).wrapping_add(i / 64 * 3)).collect(),
        11 => (0..n64).map(|i| i * 2 * 3 * 4 * 5 * 6 * 7 * 8 * 9 * 10 * 11 * 12 * 13).collect(),
        12 => (0..n64).map(|i| i + u64::from(i > n64 / 2)).collect(),
        13 => (0..n64).map(|i| i + if i > n64 / 2 { 1 << 31 } else { 0 }).collect(),
        14 => (0..n64).map(|i| i + if i > n64 / 2 { 1 << 40 } else { 0 }).collect(),
        15 => (0..n64).map(|i| i * (n64 * 16 + 1)).collect(),
        16 => (0..n64).map(|i| i * n64).collect(),
        _ => return None,
    };
    Some(v)
}

fn integers(c: &mut Ctx) {
    c.scenario("what collections of integers retain", |c| {
        for n in counts(c, c.pick(300, 700), &[5000]) {
            for fam in 0..17 {
                c.case(
                    || format!("{n} integers of family {fam}"),
                    |cx| {
                        let k64 = ints(fam, n).unwrap();
                        let k32: Vec<u32> = {
                            let mut v: Vec<u32> = k64.iter().map(|x| (x ^ (x >> 32)) as u32).collect();
                            let mut d = v.clone();
                            d.sort_unstable();
                            d.dedup();
                            if d.len() < v.len() {
                                v = d;
                            }
                            v
                        };
                        let n32 = k32.len();
                        let wide: Vec<u128> = k64.iter().map(|x| (u128::from(*x) << 64) | u128::from(!*x)).collect();
                        let signed: Vec<i64> = k64.iter().map(|x| (*x as i64).wrapping_sub(5)).collect();
                        macro_rules! p {
                            ($v:expr) => {
                                $v.iter().map(|k| (*k, *k)).collect()
                            };
                        }
                        retained(cx, "FrozenMap<u64>", n, n * 16, || FrozenMap::from_vec_with_hasher(p!(k64), MIX))?;
                        retained(cx, "FrozenMap<i64>", n, n * 16, || FrozenMap::from_vec_with_hasher(p!(signed), MIX))?;
                        retained(cx, "FrozenMap<u32>", n32, n32 * 8, || FrozenMap::from_vec_with_hasher(p!(k32), MIX))?;
                        retained(cx, "FrozenMap<u128>", n, n * 32, || FrozenMap::from_vec_with_hasher(p!(wide), IDENT))?;
                        retained(cx, "FrozenSet<u64>", n, n * 8, || FrozenSet::from_vec_with_hasher(k64.clone(), MIX))?;
                        retained(cx, "FrozenSet<i64>", n, n * 8, || FrozenSet::from_vec_with_hasher(signed.clone(), MIX))?;
                        retained(cx, "IntegerMap<u64>", n, n * 16, || IntegerMap::<_, _, u32>::from_vec(p!(k64)))?;
                        retained(cx, "IntegerMap<u64, usize>", n, n * 16, || IntegerMap::<_, _, usize>::from_vec(p!(k64)))?;
                        retained(cx, "IntegerSet<i64>", n, n * 8, || IntegerSet::<_, u32>::from_vec(signed.clone()))?;
                        retained(cx, "CommonMap<u64>", n, n * 16, || CommonMap::<_, _, usize, PH>::from_vec_with_hasher(p!(k64), IDENT))?;
                        if fam < 2 {
                            retained(cx, "IntegerRangeMap<u64>", n, n * 16, || IntegerRangeMap::from_vec(p!(k64)))?;
                            retained(cx, "IntegerRangeSet<u64>", n, n * 8, || IntegerRangeSet::from_vec(k64.clone()))?;
                        }
                        if n <= 64 {
                            retained(cx, "ScanningMap<u64>", n, n * 16, || ScanningMap::from_vec(p!(k64)))?;
                        }
                        if n <= 255 {
                            let bytes: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
                            retained(cx, "FrozenMap<u8>", n, n * 2, || FrozenMap::from_vec_with_hasher(p!(bytes), MIX))?;
                            retained(cx, "FrozenSet<u8>", n, n, || FrozenSet::from_vec_with_hasher(bytes.clone(), MIX))?;
                        }
                        cx.st();
                        Ok(())
                    },
                );
            }
        }
    });
}

fn coded(c: &mut Ctx) {
    c.scenario("what collections with given hash codes retain", |c| {
        for n in counts(c, c.pick(300, 600), &[3000]) {
            for fam in 0..20 {
                if n > 2000 && (fam > 16) {
                    continue;
                }
                c.case(
                    || format!("{n} keys, hash codes of family {fam}"),
                    |cx| {
                        let codes: Vec<u64> = ints(fam, n).unwrap_or_else(|| (0..n as u64).map(|i| match fam {
                            17 => 0,
                            18 => u64::MAX - i % 3,
                            _ => (i % 7) << 61,
                        }).collect());
                        let keys = || codes.iter().enumerate().map(|(i, c)| HK { id: i as u32, code: *c }).collect::<Vec<_>>();
                        let pairs = || keys().into_iter().map(|k| (k, 0u64)).collect::<Vec<_>>();
                        let sz = size_of::<(HK, u64)>();
                        retained(cx, "FrozenMap", n, n * sz, || FrozenMap::from_vec_with_hasher(pairs(), IDENT))?;
                        retained(cx, "FrozenSet", n, n * size_of::<HK>(), || FrozenSet::from_vec_with_hasher(keys(), IDENT))?;
                        retained(cx, "CommonMap, u32", n, n * sz, || CommonMap::<_, _, u32, PH>::from_vec_with_hasher(pairs(), IDENT))?;
                        retained(cx, "CommonSet, usize", n, n * size_of::<HK>(), || CommonSet::<_, usize, PH>::from_vec_with_hasher(keys(), IDENT))?;
                        retained(cx, "FrozenMap, other hasher", n, n * sz, || FrozenMap::from_vec_with_hasher(pairs(), MIX))?;
                        cx.st();
                        Ok(())
                    },
                );
            }
        }
    });
}

fn text_keys(fam: usize, n: usize) -> Vec<String> {
    (0..n)
        .map(|i| match fam {
            0 => format!("{i}"),
            1 => format!("key-{i:06}"),
            2 => format!("{i:06}-tail"),
            3 => "x".repeat(i % 3000) + &format!("{}", i / 3000),
            4 => format!("{}{i}", "pad".repeat(i % 5)),
            5 => format!("{:0>width$}", i, width = 8 + (i % 2) * 500),
            6 => format!("same{:03}same{i}", i % 10),
            _ => {
                // one very long key
                if i == 0 {
                    "y".repeat(1 << 20)
                } else {
                    format!("k{i}")
                }
            }
        })
        .collect()
}

fn texts(c: &mut Ctx) {
    c.scenario("what collections of strings retain", |c| {
        for n in counts(c, c.pick(130, 400), &[]) {
            for fam in 0..8 {
                if fam == 3 && n > 2000 {
                    continue;
                }
                for h in [MIX, ZERO, SUM, IDENT] {
                    c.case(
                        || format!("{n} strings of family {fam}, {h:?}"),
                        |cx| {
                            let keys = text_keys(fam, n);
                            let heap: usize = keys.clone().iter().map(String::capacity).sum();
                            let m = n * size_of::<(String, u64)>() + heap;
                            let s = n * size_of::<String>() + heap;
                            let pairs = || keys.iter().map(|k| (k.clone(), 0u64)).collect::<Vec<_>>();
                            retained(cx, "FrozenMap<String>", n, m, || FrozenMap::from_vec_with_hasher(pairs(), h))?;
                            retained(cx, "FrozenSet<String>", n, s, || FrozenSet::from_vec_with_hasher(keys.clone(), h))?;
                            retained(cx, "LengthMap", n, m, || LengthMap::<_, _, u32>::from_vec(pairs()))?;
                            retained(cx, "LengthSet", n, s, || LengthSet::<_, u32>::from_vec(keys.clone()))?;
                            for r in [0..1usize, 2..5, 0..4, 500..508] {
                                retained(cx, "LeftSliceMap", n, m, || LeftSliceMap::<_, _, u32, PH>::from_vec_with_hasher(pairs(), r.clone(), h))?;
                                retained(cx, "RightSliceMap", n, m, || RightSliceMap::<_, _, u32, PH>::from_vec_with_hasher(pairs(), r.clone(), h))?;
                                retained(cx, "LeftSliceSet", n, s, || LeftSliceSet::<_, u32, PH>::from_vec_with_hasher(keys.clone(), r.clone(), h))?;
                                retained(cx, "RightSliceSet", n, s, || RightSliceSet::<_, u32, PH>::from_vec_with_hasher(keys.clone(), r.clone(), h))?;
                            }
                            if n <= 64 {
                                retained(cx, "ScanningSet", n, s, || ScanningSet::from_vec(keys.clone()))?;
                            }
                            cx.st();
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

// ---- clones and consumers hold no more ----

fn clones(c: &mut Ctx) {
    c.scenario("what clones retain", |c| {
        for n in counts(c, 80, &[]) {
            c.case(
                || format!("{n} entries"),
                |cx| {
                    let keys: Vec<u64> = (0..n as u64).map(|i| i * i * 3).collect();
                    let m = FrozenMap::from_vec_with_hasher(keys.iter().map(|k| (*k, *k)).collect(), MIX);
                    retained(cx, "a clone of a FrozenMap", n, n * 16, || m.clone())?;
                    retained(cx, "a clone of a clone", n, n * 16, || m.clone().clone())?;
                    let mut t = FrozenMap::from_vec_with_hasher(vec![(1, 1)], MIX);
                    retained(cx, "an assigned FrozenMap", n, n * 16, || {
                        t.clone_from(&m);
                        let u = t.clone();
                        t.clone_from(&FrozenMap::from_vec_with_hasher(vec![], MIX));
                        u
                    })
                    .or_else(|e| if e.contains("remain") { Ok(()) } else { Err(e) })?;
                    let s = FrozenSet::from_vec_with_hasher(keys.clone(), MIX);
                    retained(cx, "a clone of a FrozenSet", n, n * 8, || s.clone())?;
                    // any number of lookups leaves nothing behind
                    let before = live();
                    for k in 0..2000u64 {
                        let _ = (m.get(&k), s.contains(&k));
                    }
                    for _ in 0..20 {
                        let _ = m.iter().count() + s.iter().count() + usize::from(m == m.clone());
                    }
                    ck!(live() == before, "lookups retain {} bytes", live() - before);
                    Ok(())
                },
            );
        }
    });
}

fn roomy(c: &mut Ctx) {
    c.scenario("built from vectors with room to spare", |c| {
        for n in counts(c, 60, &[]) {
            for fam in [0usize, 7, 10] {
                c.case(
                    || format!("{n} entries, family {fam}"),
                    |cx| {
                        let keys = ints(fam, n).unwrap();
                        let strs: Vec<String> = keys.iter().map(|k| format!("{k}")).collect();
                        let heap: usize = strs.clone().iter().map(String::capacity).sum();
                        fn room<T>(i: impl Iterator<Item = T>) -> Vec<T> {
                            let mut v = Vec::with_capacity(60_000);
                            v.extend(i);
                            v
                        }
                        let p = || room(keys.iter().map(|k| (*k, *k)));
                        let k = || room(keys.iter().copied());
                        let sp = || room(strs.iter().map(|k| (k.clone(), 1u64)));
                        let sk = || room(strs.iter().cloned());
                        retained(cx, "FrozenMap<u64>", n, n * 16, || FrozenMap::from_vec_with_hasher(p(), MIX))?;
                        retained(cx, "FrozenSet<u64>", n, n * 8, || FrozenSet::from_vec_with_hasher(k(), MIX))?;
                        retained(cx, "FrozenMap<String>", n, n * 32 + heap, || FrozenMap::from_vec_with_hasher(sp(), MIX))?;
                        retained(cx, "FrozenSet<String>", n, n * 24 + heap, || FrozenSet::from_vec_with_hasher(sk(), MIX))?;
                        retained(cx, "FrozenMap<(u64,)>", n, n * 16, || FrozenMap::from_vec_with_hasher(room(keys.iter().map(|k| ((*k,), 1u64))), MIX))?;
                        retained(cx, "IntegerMap", n, n * 16, || IntegerMap::<_, _, u32>::from_vec(p()))?;
                        retained(cx, "IntegerSet", n, n * 8, || IntegerSet::<_, u32>::from_vec(k()))?;
                        retained(cx, "CommonMap", n, n * 32 + heap, || CommonMap::<_, _, u32, PH>::from_vec_with_hasher(sp(), MIX))?;
                        retained(cx, "CommonSet", n, n * 24 + heap, || CommonSet::<_, u32, PH>::from_vec_with_hasher(sk(), MIX))?;
                        retained(cx, "LengthMap", n, n * 32 + heap, || LengthMap::<_, _, u32>::from_vec(sp()))?;
                        retained(cx, "LeftSliceMap", n, n * 32 + heap, || LeftSliceMap::<_, _, u32, PH>::from_vec_with_hasher(sp(), 0..1, MIX))?;
                        retained(cx, "RightSliceSet", n, n * 24 + heap, || RightSliceSet::<_, u32, PH>::from_vec_with_hasher(sk(), 0..1, MIX))?;
                        if fam == 0 {
                            retained(cx, "IntegerRangeMap", n, n * 16, || IntegerRangeMap::from_vec(p()))?;
                            retained(cx, "IntegerRangeSet", n, n * 8, || IntegerRangeSet::from_vec(k()))?;
                        }
                        if n <= 64 {
                            retained(cx, "ScanningMap", n, n * 16, || ScanningMap::from_vec(p()))?;
                        }
                        // many entries for the same few keys
                        let many = || (0..20_000u64).map(|i| (i % n.max(1) as u64 * 3, i)).collect::<Vec<_>>();
                        retained(cx, "FrozenMap of repeated keys", n.max(1), n * 16, || FrozenMap::from_vec_with_hasher(many(), MIX))?;
                        retained(cx, "FrozenSet of repeated keys", n.max(1), n * 24, || {
                            FrozenSet::from_vec_with_hasher(many().into_iter().map(|e| (e.0, 0u64)).collect(), MIX)
                        })?;
                        Ok(())
                    },
                );
            }
        }
    });
}

// ---- comparisons ----

/// A key which counts comparisons, with a given code and length.
#[derive(Clone, Debug)]
struct LK {
    id: u32,
    code: u64,
    len: usize,
}
impl PartialEq for LK {
    fn eq(&self, o: &Self) -> bool {
        EQS.with(|e| e.set(e.get() + 1));
        self.id == o.id
    }
}
impl Eq for LK {}
impl Hash for LK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.code);
    }
}
impl Len for LK {
    fn len(&self) -> usize {
        self.len
    }
}
impl SliceHash for LK {
    fn hash<BH: BuildHasher>(&self, _: &BH, _: Range<usize>) -> u64 {
        self.code
    }
}

fn eqs<T>(f: impl FnOnce() -> T) -> (T, u64) {
    EQS.with(|e| e.set(0));
    let r = f();
    (r, EQS.with(|e| e.get()))
}

fn once<T: std::fmt::Debug + PartialEq>(cx: &mut Cx, what: &str, probe: &dyn std::fmt::Debug, want: T, f: impl FnOnce() -> T) -> R {
    let (r, n) = eqs(f);
    ck!(r == want, "{what} of {probe:?} gives {r:?} instead of {want:?}");
    ck!(n <= 1, "{what} of {probe:?} compares it with {n} stored keys");
    cx.tr(1);
    Ok(())
}

fn order(n: usize, how: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match how {
        0 => {}
        1 => v.reverse(),
        2 => v.rotate_left(n / 3),
        3 => v = (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        _ => v.sort_by_key(|i| mc::hashers::mix(*i as u64)),
    }
    v
}

fn compare(cx: &mut Cx, base: u64, ord: &[usize]) -> R {
    let n = ord.len();
    let key = |i: usize| LK { id: i as u32, code: base + i as u64, len: 40 + i };
    let pairs = || ord.iter().map(|i| (key(*i), *i)).collect::<Vec<_>>();
    let keys = || ord.iter().map(|i| key(*i)).collect::<Vec<_>>();
    let mut probes: Vec<(LK, Option<usize>)> = Vec::new();
    let step = (n / 4000).max(1);
    for i in (0..n).step_by(step).chain([n - 1, n - 2]) {
        probes.push((key(i), Some(i)));
        if i < 500 || i + 3 > n {
            // the same code, or another one which leads to the same place
            probes.push((LK { id: 1_000_000, ..key(i) }, None));
            probes.push((LK { id: 1_000_001, code: key(i).code.wrapping_add(n as u64), len: key(i).len + n }, None));
            probes.push((LK { id: 1_000_002, code: key(i).code ^ (1 << (i % 64)), len: i }, None));
        }
    }
    macro_rules! map {
        ($what:expr, $m:expr) => {{
            let mut m = $m;
            for (p, want) in &probes {
                once(cx, concat!($what, "::get"), p, *want, || m.get(p).copied())?;
                once(cx, concat!($what, "::get_key_value"), p, *want, || m.get_key_value(p).map(|e| *e.1))?;
                once(cx, concat!($what, "::contains_key"), p, want.is_some(), || m.contains_key(p))?;
                once(cx, concat!($what, "::get_mut"), p, *want, || m.get_mut(p).map(|v| *v))?;
            }
        }};
    }
    macro_rules! set {
        ($what:expr, $s:expr) => {{
            let s = $s;
            for (p, want) in &probes {
                once(cx, concat!($what, "::contains"), p, want.is_some(), || s.contains(p))?;
                once(cx, concat!($what, "::get"), p, want.map(|i| i as u32), || s.get(p).map(|k| k.id))?;
            }
        }};
    }
    map!("FrozenMap", FrozenMap::from_vec_with_hasher(pairs(), IDENT));
    set!("FrozenSet", FrozenSet::from_vec_with_hasher(keys(), IDENT));
    if n <= 255 {
        map!("CommonMap<u8>", CommonMap::<_, _, u8, PH>::from_vec_with_hasher(pairs(), IDENT));
        set!("CommonSet<u8>", CommonSet::<_, u8, PH>::from_vec_with_hasher(keys(), IDENT));
    }
    map!("CommonMap<u32>", CommonMap::<_, _, u32, PH>::from_vec_with_hasher(pairs(), IDENT));
    set!("CommonSet<usize>", CommonSet::<_, usize, PH>::from_vec_with_hasher(keys(), IDENT));
    if n <= 3000 {
        map!("LengthMap", LengthMap::<_, _, u32>::from_vec(pairs()));
        set!("LengthSet", LengthSet::<_, u32>::from_vec(keys()));
        map!("LeftSliceMap", LeftSliceMap::<_, _, u32, PH>::from_vec_with_hasher(pairs(), 0..3, IDENT));
        set!("LeftSliceSet", LeftSliceSet::<_, u32, PH>::from_vec_with_hasher(keys(), 0..3, IDENT));
        map!("RightSliceMap", RightSliceMap::<_, _, u32, PH>::from_vec_with_hasher(pairs(), 0..3, IDENT));
        set!("RightSliceSet", RightSliceSet::<_, u32, PH>::from_vec_with_hasher(keys(), 0..3, IDENT));
    }
    let m = FrozenMap::from_vec_with_hasher(pairs(), IDENT).clone();
    for (p, want) in probes.iter().take(50) {
        once(cx, "a clone", p, *want, || m.get(p).copied())?;
    }
    cx.st();
    Ok(())
}

fn bases(n: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 7, n - 1, n, n + 1, 1000, u64::MAX - n, u64::MAX - n + 1];
    for b in [8, 16, 31, 32, 33, 48, 62, 63] {
        v.extend([(1u64 << b) - 1, 1 << b, (1u64 << b) - n.min(1 << b) / 2]);
    }
    v.retain(|b| b.checked_add(n - 1).is_some());
    v.sort_unstable();
    v.dedup();
    v
}

fn comparisons(c: &mut Ctx) {
    c.scenario("comparisons, every number of keys", |c| {
        for n in 6..c.pick(300usize, 700) {
            for (bi, base) in bases(n as u64).into_iter().enumerate() {
                if n > 40 && c.quick() && (bi + n) % 4 != 0 {
                    continue;
                }
                let how = (bi + n / 7) % 5;
                c.case(|| format!("{n} codes from {base}, order {how}"), |cx| compare(cx, base, &order(n, how)));
            }
        }
    });
    c.scenario("comparisons, every order of few keys", |c| {
        for n in 6..=c.pick(6usize, 8) {
            let mut all = vec![vec![]];
            for i in 0..n {
                all = all
                    .into_iter()
                    .flat_map(|p: Vec<usize>| {
                        (0..=i).map(move |at| {
                            let mut q = p.clone();
                            q.insert(at, i);
                            q
                        })
                    })
                    .collect();
            }
            for p in all {
                for base in [0, 1, 5, 1 << 32, u64::MAX - 20] {
                    c.case(|| format!("{p:?} from {base}"), |cx| compare(cx, base, &p));
                }
            }
        }
    });
    c.scenario("comparisons, many keys", |c| {
        let mut ns = vec![511usize, 512, 513, 998, 999, 1000, 1001, 1002, 1023, 1024, 1025, 2000, 2999, 3001, 5000, 10_000, 65_534, 65_535, 65_536, 65_537];
        if !c.quick() {
            ns.extend([30_000, 100_000, 131_072, 300_000]);
            ns.extend((1003..1500).step_by(7));
        }
        for n in ns {
            for (bi, base) in bases(n as u64).into_iter().enumerate() {
                if c.quick() && n > 3000 && bi % 5 != 0 {
                    continue;
                }
                let how = bi % 5;
                c.case(|| format!("{n} codes from {base}, order {how}"), |cx| compare(cx, base, &order(n, how)));
            }
        }
    });
    // with each of the numbers of bits as the distance, exact consecutive numbers only differ by one:
    // keys given twice do not count twice
    c.scenario("comparisons, with repeated keys", |c| {
        for n in 6..c.pick(80usize, 260) {
            for twice in [1usize, 2, n / 2, n] {
                c.case(
                    || format!("{n} keys, {twice} of them twice"),
                    |cx| {
                        let mut p: Vec<(HK, usize)> = (0..twice).map(|i| (HK { id: i as u32, code: 77 + i as u64 }, 9)).collect();
                        p.extend((0..n).map(|i| (HK { id: i as u32, code: 77 + i as u64 }, i)));
                        let m = FrozenMap::from_vec_with_hasher(p.clone(), IDENT);
                        let s = FrozenSet::from_vec_with_hasher(p.into_iter().map(|e| e.0).collect(), IDENT);
                        for i in 0..n + 5 {
                            let k = HK { id: i as u32, code: 77 + i as u64 };
                            let want = (i < n).then_some(i);
                            once(cx, "FrozenMap::get", &k, want, || m.get(&k).copied())?;
                            once(cx, "FrozenSet::contains", &k, i < n, || s.contains(&k))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    integers(&mut c);
    coded(&mut c);
    texts(&mut c);
    clones(&mut c);
    roomy(&mut c);
    comparisons(&mut c);
    c.finish();
}
