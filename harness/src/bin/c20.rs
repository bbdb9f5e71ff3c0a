//! Size parameters accept exactly the number of entries they can count.
//!
//! All entry counts in windows around the limits of the size types, with all the ways in which the entries
//! can be spread over the hash slots that matter for the counting: which entry counts end up in which slots
//! is controlled through hash codes, lengths, subranges and key values.
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::*;
use mc::hashers::*;
use mc::iters::It;
use mc::keys::HK;
use mc::maps::MapLike;
use mc::sets::SetLike;
use mc::*;
use num_traits::{PrimInt, Unsigned};
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// How entry `i` of `n` is spread.
const SPREADS: usize = 9;
fn code(spread: usize, i: usize, n: usize) -> u64 {
    let (i, n) = (i as u64, n as u64);
    match spread {
        // all apart
        0 => i,
        // all but one / two together
        1 => u64::from(i == 0),
        2 => u64::from(i + 1 == n) + 2 * u64::from(i == n / 2),
        // all together
        3 => 5,
        // pairs, halves, sixteen groups
        4 => i / 2,
        5 => u64::from(i * 2 < n) * 1000 + 3,
        6 => i % 16,
        // growing groups
        7 => (i as f64).sqrt() as u64 * 7,
        // scattered
        _ => mix(i),
    }
}

/// Lookup of each entry by the map's own methods (in a sample of methods when there are many).
#[inline(never)]
fn full_map<K: Eq + Clone + Debug + 'static>(cx: &mut Cx, m: &mut dyn MapLike<K, u32>, keys: &[K], absent: &[K], fast: bool) -> R {
    let n = keys.len();
    ck!(m.size() == n && m.empty() == (n == 0), "len() is {} instead of {n}", m.size());
    if !fast {
        for (i, k) in keys.iter().enumerate() {
            ck!(m.get(k) == Some(&(i as u32)), "get of key {i} of {n} is {:?}", m.get(k));
            ck!(m.get_kv(k).is_some_and(|e| *e.1 == i as u32), "get_key_value of key {i} of {n} is wrong");
            ck!(m.has(k), "contains_key of key {i} of {n} is false");
        }
        for (i, k) in keys.iter().enumerate() {
            let v = m.get_mut(k).ok_or_else(|| format!("get_mut of key {i} of {n} fails"))?;
            ck!(*v == i as u32, "get_mut of key {i} of {n} gives {v}");
            *v = !(i as u32);
        }
        for (i, k) in keys.iter().enumerate() {
            ck!(m.get(k) == Some(&!(i as u32)), "get of key {i} of {n} is {:?} after writing", m.get(k));
            *m.get_mut(k).ok_or("gone")? = i as u32;
        }
        cx.tr(6 * n as u64);
    } else {
        // everything is in one slot: each lookup is long
        for i in [0, 1, 2, n / 3, n / 2, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1), 254, 255, 256, 65534, 65535, 65536] {
            if i < n {
                ck!(m.get(&keys[i]) == Some(&(i as u32)), "get of key {i} of {n} is {:?}", m.get(&keys[i]));
                ck!(m.get_kv(&keys[i]).is_some_and(|e| *e.1 == i as u32) && m.has(&keys[i]), "lookup of key {i} of {n} is wrong");
                ck!(m.get_mut(&keys[i]).is_some_and(|e| *e == i as u32), "get_mut of key {i} of {n} is wrong");
                cx.tr(4);
            }
        }
    }
    for k in absent {
        ck!(m.get(k).is_none() && !m.has(k) && m.get_mut(k).is_none(), "an absent key is found among {n}");
    }
    let mut seen = vec![false; n];
    let mut it: It<(&K, &u32)> = m.entries();
    let mut c = 0;
    while let Some((k, v)) = it.step() {
        let i = *v as usize;
        ck!(i < n && !seen[i] && keys[i] == *k, "iteration over {n} gives {k:?} with {v}");
        seen[i] = true;
        c += 1;
    }
    ck!(c == n, "iteration gives {c} entries instead of {n}");
    cx.tr(n as u64);
    cx.st();
    cx.out(n as u64);
    Ok(())
}

#[inline(never)]
fn full_set<K: Eq + Clone + Debug + 'static>(cx: &mut Cx, m: &dyn SetLike<K>, keys: &[K], absent: &[K], fast: bool) -> R {
    let n = keys.len();
    ck!(m.size() == n && m.empty() == (n == 0), "len() is {} instead of {n}", m.size());
    let stride = if fast { (n / 9).max(1) } else { 1 };
    for i in (0..n).step_by(stride).chain([n.saturating_sub(1)]) {
        if i < n {
            ck!(m.has(&keys[i]) && m.get(&keys[i]) == Some(&keys[i]), "element {i} of {n} is not found");
            cx.tr(2);
        }
    }
    for k in absent {
        ck!(!m.has(k) && m.get(k).is_none(), "an absent element is found among {n}");
    }
    let mut it = m.elems();
    let mut c = 0;
    while it.step().is_some() {
        c += 1;
    }
    ck!(c == n, "iteration gives {c} elements instead of {n}");
    cx.st();
    Ok(())
}

/// Too many: the construction panics. Otherwise it succeeds.
fn accepts<T>(n: usize, max: u128, what: &str, make: impl FnOnce() -> T) -> Result<Option<T>, String> {
    match catch(make) {
        Ok(x) if n as u128 <= max => Ok(Some(x)),
        Ok(_) => Err(format!("{what} with {n} entries is accepted")),
        Err(p) if n as u128 > max => {
            ck!(!p.contains("overflow") || true, "{p}");
            Ok(None)
        }
        Err(p) => Err(format!("{what} with {n} entries panics: {p}")),
    }
}

fn maxof<S: PrimInt>() -> u128 {
    S::max_value().to_u128().unwrap_or(u128::MAX)
}

fn codes<S: PrimInt + Unsigned + 'static>(c: &mut Ctx, sn: &str, counts: &[usize]) {
    c.scenario(&format!("CommonMap and CommonSet, size {sn}"), |c| {
        for &n in counts {
            for spread in 0..SPREADS {
                for rev in [false, true] {
                    c.case(
                        || format!("{n} entries, spread {spread}, reversed {rev}, size {sn}"),
                        |cx| {
                            let mut keys: Vec<HK> = (0..n).map(|i| HK { id: i as u32, code: code(spread, i, n) }).collect();
                            if rev {
                                keys.reverse();
                            }
                            let absent: Vec<HK> = (0..6).map(|i| HK { id: (n + i) as u32, code: code(spread, n + i, n) }).collect();
                            let fast = n > 1000 && matches!(spread, 1 | 2 | 3 | 5 | 6);
                            let p: Vec<(HK, u32)> = keys.iter().cloned().zip(0..).collect();
                            if let Some(mut m) = accepts(n, maxof::<S>(), "CommonMap", || CommonMap::<HK, u32, S, PH>::from_vec_with_hasher(p, IDENT))? {
                                full_map(cx, &mut m, &keys, &absent, fast)?;
                                let mut d = m.clone();
                                drop(m);
                                full_map(cx, &mut d, &keys, &absent, true)?;
                            }
                            if let Some(s) = accepts(n, maxof::<S>(), "CommonSet", || CommonSet::<HK, S, PH>::from_iter_with_hasher(keys.iter().cloned(), IDENT))? {
                                full_set(cx, &s, &keys, &absent, fast)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn ints<S: PrimInt + Unsigned + 'static>(c: &mut Ctx, sn: &str, counts: &[usize]) {
    c.scenario(&format!("IntegerMap and IntegerSet, size {sn}"), |c| {
        for &n in counts {
            for fam in 0..7 {
                c.case(
                    || format!("{n} integers of family {fam}, size {sn}"),
                    |cx| {
                        let f = |i: usize| -> u64 {
                            let i = i as u64;
                            match fam {
                                0 => i,
                                1 => i * 3,
                                2 => i << 16,
                                3 => mix(i),
                                4 => (i % 7) << 32 | i / 7,
                                5 => u64::MAX - i * 2,
                                _ => i * i,
                            }
                        };
                        let keys: Vec<u64> = (0..n).map(f).collect();
                        let absent: Vec<u64> = (n..n + 6).map(f).chain([u64::MAX / 3]).filter(|x| !keys.contains(x)).collect();
                        let p: Vec<(u64, u32)> = keys.iter().copied().zip(0..).collect();
                        if let Some(mut m) = accepts(n, maxof::<S>(), "IntegerMap", || p.into_iter().collect::<IntegerMap<u64, u32, S>>())? {
                            full_map(cx, &mut m, &keys, &absent, n > 1000 && fam == 2)?;
                        }
                        if let Some(s) = accepts(n, maxof::<S>(), "IntegerSet", || IntegerSet::<u64, S>::from_vec(keys.clone()))? {
                            full_set(cx, &s, &keys, &absent, n > 1000 && fam == 2)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

fn strings(n: usize, fam: usize) -> (Vec<String>, Vec<String>) {
    let f = |i: usize| match fam {
        // told apart by length only
        0 => "x".repeat(i),
        // by a prefix, a suffix
        1 => format!("{i:06}tail"),
        2 => format!("head{i:06}"),
        // in groups
        3 => format!("{:02}-{i}", i % 50),
        _ => format!("{i}"),
    };
    ((0..n).map(f).collect(), (n..n + 5).map(f).collect())
}

fn strs<S: PrimInt + Unsigned + 'static>(c: &mut Ctx, sn: &str, counts: &[usize]) {
    c.scenario(&format!("string types, size {sn}"), |c| {
        for &n in counts {
            for fam in 0..5 {
                if n > 1000 && fam == 0 {
                    continue;
                }
                for kind in 0..7 {
                    c.case(
                        || format!("{n} strings of family {fam}, kind {kind}, size {sn}"),
                        |cx| {
                            let (keys, absent) = strings(n, fam);
                            let p: Vec<(String, u32)> = keys.iter().cloned().zip(0..).collect();
                            let max = maxof::<S>();
                            let fast = n > 1000 && !matches!((kind, fam), (1, 1) | (3, 2));
                            match kind {
                                0 => {
                                    if let Some(mut m) = accepts(n, max, "LengthMap", || LengthMap::<String, u32, S>::from_vec(p))? {
                                        full_map(cx, &mut m, &keys, &absent, fast)?;
                                    }
                                    if let Some(s) = accepts(n, max, "LengthSet", || LengthSet::<String, S>::from_vec(keys.clone()))? {
                                        full_set(cx, &s, &keys, &absent, fast)?;
                                    }
                                }
                                1 | 2 => {
                                    let r = if kind == 1 { 0..6 } else { 0..3 };
                                    if let Some(mut m) = accepts(n, max, "LeftSliceMap", || LeftSliceMap::<String, u32, S, PH>::from_vec_with_hasher(p, r.clone(), MIX))? {
                                        full_map(cx, &mut m, &keys, &absent, fast)?;
                                    }
                                    if let Some(s) = accepts(n, max, "LeftSliceSet", || LeftSliceSet::<String, S, PH>::from_iter_with_hasher(keys.clone(), r.clone(), MIX))? {
                                        full_set(cx, &s, &keys, &absent, fast)?;
                                    }
                                }
                                3 | 4 => {
                                    let r = if kind == 3 { 0..6 } else { 1..4 };
                                    if let Some(mut m) = accepts(n, max, "RightSliceMap", || RightSliceMap::<String, u32, S, PH>::from_iter_with_hasher(p, r.clone(), MIX))? {
                                        full_map(cx, &mut m, &keys, &absent, fast)?;
                                    }
                                    if let Some(s) = accepts(n, max, "RightSliceSet", || RightSliceSet::<String, S, PH>::from_vec_with_hasher(keys.clone(), r.clone(), MIX))? {
                                        full_set(cx, &s, &keys, &absent, fast)?;
                                    }
                                }
                                _ => {
                                    // nothing is told apart
                                    let r = if kind == 5 { 0..0 } else { 90_000..90_001 };
                                    if let Some(mut m) = accepts(n, max, "LeftSliceMap", || LeftSliceMap::<String, u32, S, PH>::from_vec_with_hasher(p.clone(), r.clone(), MIX))? {
                                        full_map(cx, &mut m, &keys, &absent, fast)?;
                                    }
                                    if let Some(mut m) = accepts(n, max, "RightSliceMap", || RightSliceMap::<String, u32, S, PH>::from_vec_with_hasher(p, r.clone(), MIX))? {
                                        full_map(cx, &mut m, &keys, &absent, fast)?;
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

/// The frozen collections choose for themselves.
fn frozen(c: &mut Ctx, counts: &[usize]) {
    c.scenario("frozen collections", |c| {
        for &n in counts {
            for fam in 0..6 {
                c.case(
                    || format!("FrozenMap/FrozenSet<u32> of {n}, family {fam}"),
                    |cx| {
                        let f = |i: usize| match fam {
                            0 => i as u32,
                            1 => i as u32 * 3,
                            2 => u32::MAX - i as u32,
                            3 => (i as u32) << 8 | (i as u32) >> 24,
                            4 => (i as u32).wrapping_mul(0x9E37_79B1),
                            _ => i as u32 + u32::from(i + 1 == n),
                        };
                        let keys: Vec<u32> = (0..n).map(f).collect();
                        let absent: Vec<u32> = [0x1234_5601, 0x8000_0001, n as u32 + 7].into_iter().filter(|x| !keys.contains(x)).collect();
                        let p: Vec<(u32, u32)> = keys.iter().copied().zip(0..).collect();
                        let mut m = FrozenMap::from_vec_with_hasher(p, MIX);
                        full_map(cx, &mut m, &keys, &absent, false)?;
                        let s = FrozenSet::from_vec_with_hasher(keys.clone(), MIX);
                        full_set(cx, &s, &keys, &absent, false)
                    },
                );
            }
            for fam in 0..5 {
                if n > 1000 && fam == 0 {
                    continue;
                }
                for h in [MIX, SIP] {
                    c.case(
                        || format!("FrozenMap/FrozenSet<String> of {n}, family {fam}, {h:?}"),
                        |cx| {
                            let (keys, absent) = strings(n, fam);
                            let p: Vec<(String, u32)> = keys.iter().cloned().zip(0..).collect();
                            let mut m = FrozenMap::from_vec_with_hasher(p, h);
                            full_map(cx, &mut m, &keys, &absent, false)?;
                            let s = FrozenSet::from_vec_with_hasher(keys.clone(), h);
                            full_set(cx, &s, &keys, &absent, false)
                        },
                    );
                }
            }
            for spread in 0..SPREADS {
                c.case(
                    || format!("FrozenMap/FrozenSet<HK> of {n}, spread {spread}"),
                    |cx| {
                        let keys: Vec<HK> = (0..n).map(|i| HK { id: i as u32, code: code(spread, i, n) }).collect();
                        let absent: Vec<HK> = (0..6).map(|i| HK { id: (n + i) as u32, code: code(spread, n + i, n) }).collect();
                        // with these, duplicates are found by long comparisons
                        let fast = n > 1000 && matches!(spread, 1 | 2 | 3 | 5 | 6);
                        if fast && spread != 6 {
                            return Ok(());
                        }
                        let p: Vec<(HK, u32)> = keys.iter().cloned().zip(0..).collect();
                        let mut m = FrozenMap::from_vec_with_hasher(p, IDENT);
                        full_map(cx, &mut m, &keys, &absent, fast)?;
                        let s = FrozenSet::from_vec_with_hasher(keys.clone(), IDENT);
                        full_set(cx, &s, &keys, &absent, fast)
                    },
                );
            }
        }
    });
}

fn types_without_size(c: &mut Ctx, counts: &[usize]) {
    c.scenario("types without a size parameter", |c| {
        for &n in counts {
            c.case(
                || format!("{n} entries"),
                |cx| {
                    let keys: Vec<u32> = (0..n).map(|i| i as u32 + 77).collect();
                    let absent = [76, 77 + n as u32, 0, u32::MAX];
                    let p: Vec<(u32, u32)> = keys.iter().copied().zip(0..).collect();
                    let mut m = IntegerRangeMap::from_vec(p.clone());
                    full_map(cx, &mut m, &keys, &absent, false)?;
                    let s = IntegerRangeSet::from_vec(keys.clone());
                    full_set(cx, &s, &keys, &absent, false)?;
                    let mut m = ScanningMap::from_vec(p);
                    full_map(cx, &mut m, &keys, &absent, n > 1000)?;
                    let s = ScanningSet::from_vec(keys.clone());
                    full_set(cx, &s, &keys, &absent, n > 1000)
                },
            );
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    let q = c.quick();
    let small: Vec<usize> = if q { (0..8).chain([31, 127, 128, 129]).chain(250..=260).chain([300, 511, 512]).collect() } else { (0..=1100).collect() };
    let large: Vec<usize> = if q { (65533..65538).collect() } else { (65500..65570).chain([70_000, 131_071, 131_072]).collect() };
    let all: Vec<usize> = small.iter().chain(&large).copied().collect();
    codes::<u8>(&mut c, "u8", &all);
    codes::<u16>(&mut c, "u16", &all);
    codes::<u32>(&mut c, "u32", &all);
    codes::<u64>(&mut c, "u64", &small);
    codes::<usize>(&mut c, "usize", &all);
    codes::<u128>(&mut c, "u128", &small);
    ints::<u8>(&mut c, "u8", &all);
    ints::<u16>(&mut c, "u16", &all);
    ints::<u32>(&mut c, "u32", &all);
    ints::<u64>(&mut c, "u64", &small);
    ints::<usize>(&mut c, "usize", &all);
    ints::<u128>(&mut c, "u128", &small);
    strs::<u8>(&mut c, "u8", &all);
    strs::<u16>(&mut c, "u16", &all);
    strs::<u32>(&mut c, "u32", &small);
    strs::<u64>(&mut c, "u64", &small);
    strs::<usize>(&mut c, "usize", &small);
    strs::<u128>(&mut c, "u128", &small);
    frozen(&mut c, &all);
    types_without_size(&mut c, &all);
    let _ = <u8 as Hash>::hash::<std::collections::hash_map::DefaultHasher>;
    c.finish();
}
