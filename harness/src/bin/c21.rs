//! Range collections accept exactly contiguous distinct integers.
use frozen_collections_core::specialized_maps::IntegerRangeMap;
use frozen_collections_core::specialized_sets::IntegerRangeSet;
use mc::maps::{content, lookups, paired};
use mc::sets::{elements, membership};
use mc::*;
use num_traits::PrimInt;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// Distinct and contiguous?
fn contiguous<K: PrimInt>(keys: &[K]) -> bool {
    let mut s: Vec<K> = keys.to_vec();
    s.sort_unstable();
    s.windows(2).all(|w| w[0] < w[1] && w[0].checked_add(&K::one()) == Some(w[1]))
}

/// Steps from `x`, as far as the type goes.
fn step<K: PrimInt>(x: K, by: i64) -> Option<K> {
    let mut x = x;
    for _ in 0..by.abs() {
        x = if by > 0 { x.checked_add(&K::one())? } else { x.checked_sub(&K::one())? };
    }
    Some(x)
}

fn probes<K: PrimInt>(keys: &[K]) -> Vec<K> {
    let mut v = vec![K::zero(), K::one(), K::min_value(), K::max_value(), K::max_value() >> 1, K::max_value() - (K::max_value() >> 1)];
    if K::min_value() < K::zero() {
        v.push(K::zero() - K::one());
    }
    let bits = std::mem::size_of::<K>() * 8;
    for k in keys.iter().take(1).chain(keys.last()) {
        for d in [-2, -1, 1, 2, keys.len() as i64] {
            v.extend(step(*k, d));
        }
        // differing in one bit only
        for b in 0..bits {
            v.push(*k ^ (K::one() << b));
        }
        v.push(!*k);
    }
    let mut d: Vec<K> = Vec::new();
    v.sort_unstable();
    for x in v {
        if d.last() != Some(&x) && !keys.contains(&x) {
            d.push(x);
        }
    }
    d
}

#[inline(never)]
fn verdict<K: PrimInt + Hash + Debug + 'static>(cx: &mut Cx, keys: &[K], also: bool) -> R {
    let good = contiguous(keys);
    let model = paired(keys);
    let m = catch(|| IntegerRangeMap::from_vec(model.clone()));
    let s = catch(|| IntegerRangeSet::from_vec(keys.to_vec()));
    ck!(m.is_ok() == good, "a range map of {keys:?} is {}", if good { "rejected" } else { "accepted" });
    ck!(s.is_ok() == good, "a range set of {keys:?} is {}", if good { "rejected" } else { "accepted" });
    if also {
        let (k2, m2) = (keys.to_vec(), model.clone());
        let a = catch(|| m2.into_iter().collect::<IntegerRangeMap<K, u32>>());
        let b = catch(|| k2.into_iter().collect::<IntegerRangeSet<K>>());
        ck!(a.is_ok() == good && b.is_ok() == good, "collecting {keys:?} is {}", if good { "rejected" } else { "accepted" });
        if let (Ok(a), Ok(m)) = (&a, &m) {
            ck!(a == m, "collecting {keys:?} gives a different map");
        }
        if let (Ok(a), Ok(m)) = (&b, &s) {
            ck!(a == m, "collecting {keys:?} gives a different set");
        }
        macro_rules! array {
            ($n:expr) => {
                if let (Ok(k), Ok(p)) = (<[K; $n]>::try_from(keys.to_vec()), <[(K, u32); $n]>::try_from(model.clone())) {
                    let a = catch(|| IntegerRangeMap::from(p));
                    let b = catch(|| IntegerRangeSet::from(k));
                    ck!(a.is_ok() == good && b.is_ok() == good, "array {keys:?} is {}", if good { "rejected" } else { "accepted" });
                }
            };
        }
        array!(0);
        array!(1);
        array!(2);
        array!(3);
        array!(4);
    }
    cx.tr(2);
    cx.st();
    if let (Ok(mut m), Ok(s)) = (m, s) {
        let absent = probes(keys);
        lookups(cx, &mut m, &model, &absent)?;
        content(cx, &m, &model)?;
        membership(cx, &s, keys, &absent)?;
        elements(cx, &s, keys)?;
        if let (Some(a), Some(b), Some(x)) = (model.first(), model.last(), absent.first()) {
            let r = m.get_many_mut([&a.0, &b.0]).map(|[p, q]| (*p, *q));
            let e = if a.0 == b.0 { None } else { Some((a.1, b.1)) };
            ck!(r == e, "get_many_mut gives {r:?} instead of {e:?}");
            ck!(m.get_many_mut([&a.0, x]).is_none(), "get_many_mut finds an absent key");
        }
        let c = m.clone();
        ck!(c == m && s.clone() == s, "a clone differs");
        cx.out(1 + keys.len() as u64);
    } else {
        cx.out(0);
    }
    Ok(())
}

fn words(c: &mut Ctx, w: usize, max: usize, mut f: impl FnMut(&mut Ctx, &[usize])) {
    let _ = &c;
    for n in 0..=max {
        for code in 0..w.pow(n as u32) {
            let mut x = code;
            let word: Vec<usize> = (0..n)
                .map(|_| {
                    let d = x % w;
                    x /= w;
                    d
                })
                .collect();
            f(c, &word);
        }
    }
}

fn typ<K: PrimInt + Hash + Debug + 'static>(c: &mut Ctx, name: &str) {
    let (w, max) = c.pick((6, 5), (7, 6));
    c.scenario(&format!("all lists over windows of {name}"), |c| {
        let half = K::max_value() >> 1;
        // windows at the extremes, across zero, in the middle, and joined across the extremes
        let mut windows: Vec<(&str, Vec<K>)> = vec![
            ("lowest", (0..w as i64).filter_map(|i| step(K::min_value(), i)).collect()),
            ("highest", (0..w as i64).filter_map(|i| step(K::max_value(), -i)).collect()),
            ("middle", (0..w as i64).filter_map(|i| step(half, i - 3)).collect()),
            ("both ends", (0..w as i64).filter_map(|i| if i % 2 == 0 { step(K::min_value(), i / 2) } else { step(K::max_value(), -(i / 2)) }).collect()),
        ];
        if K::min_value() < K::zero() {
            windows.push(("across zero", (0..w as i64).map(|i| if i < 3 { step(K::zero(), i - 3).unwrap() } else { step(K::zero(), i - 3).unwrap() }).collect()));
        }
        for (wn, win) in windows {
            words(c, win.len(), max, |c, word| {
                c.case(
                    || format!("{name}, {wn}: {:?}", word.iter().map(|i| win[*i]).collect::<Vec<_>>()),
                    |cx| {
                        let keys: Vec<K> = word.iter().map(|i| win[*i]).collect();
                        verdict(cx, &keys, word.len() <= 4)
                    },
                );
            });
        }
    });
    c.scenario(&format!("long lists of {name}"), |c| {
        let bits = std::mem::size_of::<K>() * 8;
        let mut ns = vec![7usize, 16, 100, 127, 128, 129, 255, 256];
        if bits > 8 {
            ns.extend([257, 300, 1000]);
        }
        if bits > 16 {
            ns.push(70_000);
        }
        for n in ns {
            for at in 0..4 {
                for order in 0..3 {
                    for flaw in 0..6 {
                        if n > 1000 && (order == 1 || flaw == 3) && c.quick() {
                            continue;
                        }
                        c.case(
                            || format!("{name}: {n} integers, place {at}, order {order}, flaw {flaw}"),
                            |cx| {
                                let mut keys: Vec<K> = Vec::with_capacity(n);
                                let mut x = match at {
                                    0 => K::min_value(),
                                    1 => K::max_value(),
                                    2 => K::zero(),
                                    _ => K::max_value() >> 1,
                                };
                                for i in 0..n {
                                    keys.push(x);
                                    let y = if at == 1 { x.checked_sub(&K::one()) } else { x.checked_add(&K::one()) };
                                    match y {
                                        Some(y) => x = y,
                                        None if i + 1 == n => {}
                                        None => return Ok(()),
                                    }
                                }
                                match order {
                                    1 => keys.reverse(),
                                    2 => keys.rotate_left(n / 3),
                                    _ => {}
                                }
                                match flaw {
                                    // one missing / one twice / one replaced by another / one moved away
                                    1 => {
                                        keys.remove(n / 2);
                                    }
                                    2 => keys.push(keys[n / 2]),
                                    3 => keys[0] = keys[n - 1],
                                    4 => {
                                        let k = keys[n / 2];
                                        keys[n / 2] = k ^ (K::one() << (bits - 1));
                                    }
                                    5 => {
                                        keys.remove(0);
                                        keys.remove(keys.len() / 2);
                                    }
                                    _ => {}
                                }
                                if n > 2000 {
                                    // without quadratic effort in the reference
                                    let good = contiguous(&keys);
                                    let m = catch(|| IntegerRangeMap::from_vec(keys.iter().map(|k| (*k, *k)).collect()));
                                    ck!(m.is_ok() == good, "accepted: {}", m.is_ok());
                                    let s = catch(|| IntegerRangeSet::from_vec(keys.clone()));
                                    ck!(s.is_ok() == good, "set accepted: {}", s.is_ok());
                                    if let (Ok(mut m), Ok(s)) = (m, s) {
                                        for k in &keys {
                                            ck!(m.get(k) == Some(k) && m.get_mut(k).as_deref() == Some(k) && s.contains(k), "get({k:?}) is {:?}", m.get(k));
                                        }
                                        let (lo, hi) = (*keys.iter().min().unwrap(), *keys.iter().max().unwrap());
                                        for b in 0..bits {
                                            for k in [lo, hi] {
                                                let p = k ^ (K::one() << b);
                                                ck!(m.contains_key(&p) == (p >= lo && p <= hi) && s.contains(&p) == (p >= lo && p <= hi), "contains_key({p:?})");
                                            }
                                        }
                                        ck!(m.iter().map(|e| *e.0).collect::<BTreeSet<_>>().len() == keys.len(), "iteration");
                                    }
                                    cx.tr(keys.len() as u64 * 3);
                                    return Ok(());
                                }
                                verdict(cx, &keys, false)
                            },
                        );
                    }
                }
            }
        }
    });
}

fn bytes<K: PrimInt + Hash + Debug + 'static>(c: &mut Ctx, name: &str) {
    // every range there is
    c.scenario(&format!("all ranges of {name}"), |c| {
        let all: Vec<K> = {
            let mut v = vec![K::min_value()];
            while let Some(x) = step(*v.last().unwrap(), 1) {
                v.push(x);
            }
            v
        };
        for a in 0..256usize {
            for b in a + 1..=256 {
                c.case(
                    || format!("{:?}..={:?}", all[a], all[b - 1]),
                    |cx| {
                        let mut keys: Vec<K> = all[a..b].to_vec();
                        let n = keys.len();
                        if (a + b) % 3 == 1 {
                            keys.reverse();
                        } else if (a + b) % 3 == 2 {
                            keys.rotate_left(n / 2);
                        }
                        let m = IntegerRangeMap::from_vec(keys.iter().map(|k| (*k, *k)).collect());
                        let s = IntegerRangeSet::from_vec(keys.clone());
                        let mut mm = m.clone();
                        for (i, k) in all.iter().enumerate() {
                            let e = (i >= a && i < b).then_some(k);
                            ck!(m.get(k) == e && s.get(k) == e && m.contains_key(k) == e.is_some() && s.contains(k) == e.is_some(), "lookup of {k:?} gives {:?}", m.get(k));
                            ck!(mm.get_mut(k).as_deref() == e && m.get_key_value(k) == e.map(|k| (k, k)), "lookup of {k:?} gives {:?}", m.get_key_value(k));
                        }
                        // one missing
                        if n >= 3 {
                            let mut k2 = keys.clone();
                            let x = k2.remove(n / 3);
                            let inner = x != all[a] && x != all[b - 1];
                            ck!(catch(|| IntegerRangeSet::from_vec(k2.clone())).is_ok() != inner, "without {x:?}");
                            ck!(catch(|| IntegerRangeMap::from_vec(k2.iter().map(|k| (*k, ())).collect())).is_ok() != inner, "without {x:?}");
                        }
                        // one twice
                        keys.push(keys[n / 4]);
                        ck!(catch(|| IntegerRangeSet::from_vec(keys.clone())).is_err(), "{:?} twice is accepted", keys[n]);
                        ck!(catch(|| IntegerRangeMap::from_vec(keys.iter().map(|k| (*k, ())).collect())).is_err(), "{:?} twice is accepted", keys[n]);
                        cx.tr(256 * 6);
                        cx.out(n as u64);
                        Ok(())
                    },
                );
            }
        }
    });
    // every subset of a small domain
    c.scenario(&format!("all subsets of 14 integers of {name}"), |c| {
        for base in 0..3 {
            for mask in 0..1u32 << 14 {
                c.case(
                    || format!("{name}: {mask:#b} from {base}"),
                    |cx| {
                        let b = [K::min_value(), K::zero(), step(K::max_value(), -13).unwrap()][base];
                        let keys: Vec<K> = (0..14).filter(|i| mask >> i & 1 == 1).map(|i| step(b, i).unwrap()).collect();
                        verdict(cx, &keys, false)
                    },
                );
            }
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    macro_rules! all {
        ($($t:ident)*) => { $( typ::<$t>(&mut c, stringify!($t)); )* };
    }
    all!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
    bytes::<u8>(&mut c, "u8");
    bytes::<i8>(&mut c, "i8");
    c.finish();
}
