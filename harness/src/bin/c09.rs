//! Multi-key mutable access is all-or-nothing and never aliases.
use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::*;
use mc::hashers::*;
use mc::keys::*;
use mc::maps::MapLike;
use mc::spaces::words;
use mc::zoo::*;
use mc::*;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

struct Pool<K> {
    /// (key to ask for, position in the list if it is present)
    keys: Vec<(K, Option<usize>)>,
}

fn pool<K: Clone + PartialEq>(keys: &[K], absent: &[K], alts: &[K], big: bool) -> Pool<K> {
    let n = keys.len();
    let mut at: Vec<usize> = if n <= 4 { (0..n).collect() } else { vec![0, 1, n / 2, n - 1] };
    at.dedup();
    let mut p: Vec<(K, Option<usize>)> = at.iter().map(|i| (keys[*i].clone(), Some(*i))).collect();
    for a in alts.iter().take(1 + usize::from(big)) {
        if let Some(i) = keys.iter().position(|k| k == a) {
            p.push((a.clone(), Some(i)));
        }
    }
    for a in absent.iter().take(1 + usize::from(big)) {
        p.push((a.clone(), None));
    }
    Pool { keys: p }
}

fn judge<V: Val>(asked: &[Option<usize>], got: Option<Vec<&mut V>>, state: &mut [V], fresh: &mut dyn FnMut() -> V) -> R {
    let ok = asked.iter().all(Option::is_some) && (0..asked.len()).all(|i| (0..i).all(|j| asked[i] != asked[j]));
    match got {
        None => {
            ck!(!ok, "nothing is returned although all keys are present and different");
        }
        Some(mut r) => {
            ck!(ok, "references are returned although a key is absent or repeated");
            ck!(r.len() == asked.len(), "{} references for {} keys", r.len(), asked.len());
            if std::mem::size_of::<V>() > 0 {
                for i in 0..r.len() {
                    for j in 0..i {
                        let (a, b) = (&raw const *r[i] as usize, &raw const *r[j] as usize);
                        ck!(a.abs_diff(b) >= std::mem::size_of::<V>(), "two references to overlapping memory");
                    }
                }
            }
            for (x, i) in r.iter().zip(asked) {
                let e = &state[i.unwrap()];
                ck!(**x == *e, "reference to {x:?} instead of {e:?}");
            }
            // write through all of them, then see that each kept its own
            let vals: Vec<V> = asked.iter().map(|_| fresh()).collect();
            for (x, v) in r.iter_mut().zip(&vals) {
                **x = v.clone();
            }
            for (x, v) in r.iter().zip(&vals) {
                ck!(**x == *v, "a reference sees {x:?} after {v:?} was written through it");
            }
            for (i, v) in asked.iter().zip(vals) {
                state[i.unwrap()] = v;
            }
        }
    }
    Ok(())
}

fn unchanged<K: Debug + 'static, V: Val>(cx: &mut Cx, m: &dyn MapLike<K, V>, keys: &[K], state: &[V]) -> R {
    for (k, v) in keys.iter().zip(state) {
        let g = m.get(k);
        ck!(g == Some(v), "afterwards get({k:?}) is {g:?} instead of {v:?}");
    }
    cx.tr(keys.len() as u64);
    Ok(())
}

fn explore<K: Clone + Eq + Hash + Debug + 'static, V: Val>(c: &mut Ctx, name: &str, zoo: Vec<Zoo<K, V>>, alts: &dyn Fn(&[K]) -> Vec<K>, mk: fn(usize) -> V) {
    c.scenario(name, |c| {
        let big = !c.quick();
        for z in &zoo {
            let p = pool(&z.keys, &z.absent, &alts(&z.keys), big);
            let d: usize = if z.keys.len() > 20 && !big { 3 } else { 4 };
            for len in 0..=d {
                for first in 0..if len == 0 { 1 } else { p.keys.len() } {
                    c.case(
                        || format!("{} with keys {:?}: get_many_mut with every tuple of {len} keys beginning with number {first} of {:?}", z.name, &z.keys[..z.keys.len().min(12)], p.keys),
                        |cx| {
                            let mut next = 1_000_000;
                            let mut fresh = || {
                                next += 1;
                                mk(next)
                            };
                            let mut state: Vec<V> = (0..z.keys.len()).map(mk).collect();
                            let mut m = z.build(&mut |i| mk(i));
                            let mut err = Ok(());
                            words(p.keys.len(), len.saturating_sub(1), &mut |w| {
                                if err.is_err() {
                                    return;
                                }
                                let t: Vec<usize> = (len > 0).then_some(first).into_iter().chain(w.iter().copied()).collect();
                                let asked: Vec<Option<usize>> = t.iter().map(|i| p.keys[*i].1).collect();
                                let k = |i: usize| &p.keys[t[i]].0;
                                err = (|| {
                                    let got: Option<Vec<&mut V>> = match len {
                                        0 => m.many0().map(Vec::from),
                                        1 => m.many1([k(0)]).map(Vec::from),
                                        2 => m.many2([k(0), k(1)]).map(Vec::from),
                                        3 => m.many3([k(0), k(1), k(2)]).map(Vec::from),
                                        _ => m.many4([k(0), k(1), k(2), k(3)]).map(Vec::from),
                                    };
                                    judge(&asked, got, &mut state, &mut fresh)?;
                                    if z.keys.len() <= 20 || t.first() == Some(&0) {
                                        unchanged(cx, &*m as &dyn MapPlus<K, V>, &z.keys, &state)?;
                                    }
                                    Ok(())
                                })()
                                .map_err(|e: String| format!("tuple {t:?}: {e}"));
                                cx.st();
                                cx.tr(1);
                            });
                            err?;
                            unchanged(cx, &*m as &dyn MapPlus<K, V>, &z.keys, &state)
                        },
                    );
                }
            }
        }
    });
}

/// Longer tuples: all of them over a few keys, then all present keys in some orders, then with one fault.
macro_rules! long {
    ($c:expr, $name:expr, $keys:expr, $absent:expr, $make:expr) => {{
        let keys: Vec<_> = $keys;
        let absent = $absent;
        let make = $make;
        $c.scenario($name, |c| {
            long!(@n c, keys, absent, make, 5);
            long!(@n c, keys, absent, make, 6);
            long!(@n c, keys, absent, make, 7);
            long!(@w c, keys, absent, make, 8);
            long!(@w c, keys, absent, make, 9);
            long!(@w c, keys, absent, make, 16);
            long!(@w c, keys, absent, make, 17);
            long!(@w c, keys, absent, make, 31);
            long!(@w c, keys, absent, make, 32);
            long!(@w c, keys, absent, make, 33);
            long!(@w c, keys, absent, make, 64);
            long!(@w c, keys, absent, make, 65);
            long!(@w c, keys, absent, make, 128);
            long!(@w c, keys, absent, make, 129);
            long!(@w c, keys, absent, make, 200);
        });
    }};
    // every word of 5..7 positions over {3 keys + absent}, plus every arrangement with one deviation
    (@n $c:expr, $keys:expr, $absent:expr, $make:expr, $n:literal) => {
        $c.case(|| format!("get_many_mut with {} keys", $n), |cx| {
            let keys = &$keys;
            let mut m = $make(keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect());
            let mut state: Vec<u64> = (0..keys.len() as u64).collect();
            let mut next = 1_000_000u64;
            let mut err = Ok(());
            let mut go = |asked: &[Option<usize>]| {
                if err.is_err() { return; }
                let a: [_; $n] = std::array::from_fn(|i| asked[i].map_or(&$absent, |j| &keys[j]));
                err = judge(asked, m.get_many_mut(a).map(Vec::from), &mut state, &mut || { next += 1; next })
                    .and_then(|()| { for (k, v) in keys.iter().zip(&state) { ck!(m.get(k) == Some(v), "afterwards get({k:?}) is {:?} instead of {v}", m.get(k)); } Ok(()) })
                    .map_err(|e| format!("keys {asked:?}: {e}"));
                cx.st();
            };
            words(4, $n, &mut |w| go(&w.iter().map(|i| (*i < 3).then_some(*i)).collect::<Vec<_>>()));
            words($n, 2, &mut |w| {
                // different keys but for one place
                let mut a: Vec<Option<usize>> = (0..$n).map(|i| Some((i * 5 + 2) % $keys.len())).collect();
                go(&a);
                a[w[0]] = a[w[1]];
                go(&a);
                a[w[0]] = None;
                go(&a);
            });
            err
        });
    };
    // different keys in some orders, every pair of places made equal, every place absent
    (@w $c:expr, $keys:expr, $absent:expr, $make:expr, $n:literal) => {
        if $n <= $keys.len() {
        for rot in [0usize, 1, $keys.len() - 1] {
        $c.case(|| format!("get_many_mut with {} keys, rotated by {rot}", $n), |cx| {
            let keys = &$keys;
            let mut m = $make(keys.iter().cloned().enumerate().map(|(i, k)| (k, i as u64)).collect());
            let mut state: Vec<u64> = (0..keys.len() as u64).collect();
            let mut next = 1_000_000u64;
            let mut err = Ok(());
            let mut go = |asked: &[Option<usize>]| {
                if err.is_err() { return; }
                let a: [_; $n] = std::array::from_fn(|i| asked[i].map_or(&$absent, |j| &keys[j]));
                err = judge(asked, m.get_many_mut(a).map(Vec::from), &mut state, &mut || { next += 1; next })
                    .map_err(|e| format!("keys {asked:?}: {e}"));
                cx.st();
                cx.tr(1);
            };
            let base: Vec<Option<usize>> = (0..$n).map(|i| Some((i + rot) % keys.len())).collect();
            go(&base);
            for i in 0..$n {
                let mut a = base.clone();
                a[i] = None;
                go(&a);
                for j in (0..i).filter(|j| $n <= 40 || *j < 2 || *j + 2 > i || *j == i / 2) {
                    let mut a = base.clone();
                    a[i] = a[j];
                    go(&a);
                }
            }
            go(&base);
            err?;
            for (k, v) in keys.iter().zip(&state) { ck!(m.get(k) == Some(v), "afterwards get({k:?}) is {:?} instead of {v}", m.get(k)); }
            Ok(())
        });
        }
        }
    };
}

/// Every pair of keys of collections of every size; of larger ones those at certain distances, and triples.
fn couples<K: Clone + Eq + Hash + Debug + 'static, V: Val>(cx: &mut Cx, z: &Zoo<K, V>, all: usize, mk: fn(usize) -> V) -> R {
    let n = z.keys.len();
    let mut m = z.build(&mut |i| mk(i));
    let mut state: Vec<V> = (0..n).map(mk).collect();
    let mut next = 1_000_000;
    let mut fresh = || {
        next += 1;
        mk(next)
    };
    let ds: Vec<usize> = if n <= all {
        (0..n).collect()
    } else {
        let mut d: Vec<usize> = (0..16).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).chain([n / 3, n / 2, n - 1]).filter(|d| *d < n).collect();
        d.sort_unstable();
        d.dedup();
        d
    };
    for i in 0..n {
        for &d in &ds {
            let j = (i + d) % n;
            let got = m.many2([&z.keys[i], &z.keys[j]]).map(Vec::from);
            judge(&[Some(i), Some(j)], got, &mut state, &mut fresh).map_err(|e| format!("keys number {i} and {j}: {e}"))?;
            cx.tr(1);
        }
        if n > 2 {
            let t = [i, (i + n / 2) % n, (i + 1) % n];
            let got = m.many3(t.map(|i| &z.keys[i])).map(Vec::from);
            judge(&t.map(Some), got, &mut state, &mut fresh).map_err(|e| format!("keys number {t:?}: {e}"))?;
        }
        if let Some(a) = z.absent.get(i % z.absent.len().max(1)) {
            for flip in [false, true] {
                let got = m.many2(if flip { [a, &z.keys[i]] } else { [&z.keys[i], a] }).map(Vec::from);
                judge(&if flip { [None, Some(i)] } else { [Some(i), None] }, got, &mut state, &mut fresh).map_err(|e| format!("key number {i} and {a:?}: {e}"))?;
            }
        }
    }
    let got = m.many0().map(Vec::from);
    judge(&[], got, &mut state, &mut fresh)?;
    cx.st();
    unchanged(cx, &*m as &dyn MapPlus<K, V>, &z.keys, &state)
}

fn sizes(c: &mut Ctx) {
    let (each, all, top) = c.pick((130, 70, 5000), (600, 300, 10_000));
    for n in ladder(each, top) {
        c.scenario(&format!("pairs of keys, size {n}"), |c| {
            for z in u32_maps_sized::<u64>(n) {
                c.case(|| format!("{}, pairs of keys", z.name), |cx| couples(cx, &z, all, |i| i as u64));
            }
            for z in str_maps_sized::<u16>(n) {
                c.case(|| format!("{}, pairs of keys", z.name), |cx| couples(cx, &z, all, |i| i as u16));
            }
        });
    }
}

fn typ<K: Gen>(c: &mut Ctx) {
    let alts = |k: &[K]| (0..k.len().min(2)).map(K::alt).collect();
    explore::<K, u64>(c, &format!("{} -> u64", K::NAME), gen_maps(!c.quick()), &alts, |i| i as u64);
}

fn main() {
    let mut c = Ctx::from_args();
    explore::<u32, u64>(&mut c, "u32 -> u64", u32_maps(true), &|k| k.to_vec(), |i| i as u64);
    explore::<String, u64>(&mut c, "String -> u64", str_maps(true), &|k| k.to_vec(), |i| i as u64);
    explore::<u32, String>(&mut c, "u32 -> String", u32_maps(false), &|k| k.to_vec(), |i| format!("v{i}"));
    explore::<String, ()>(&mut c, "String -> ()", str_maps(false), &|k| k.to_vec(), |_| ());
    explore::<u32, Aligned>(&mut c, "u32 -> Aligned", u32_maps(false), &|k| k.to_vec(), |i| Aligned(i as u8));
    mc::all_key_types!(typ, &mut c);
    sizes(&mut c);
    let spread: Vec<u32> = (0..211).map(|i| i * i * 3 + 1).collect();
    let range: Vec<u32> = (50..261).collect();
    let strs: Vec<String> = (0..211).map(|i| format!("{i:03}")).collect();
    let lens: Vec<String> = (0..211).map(|i| "x".repeat(i / 3) + ["", "y", "z"][i % 3]).collect();
    long!(c, "long FrozenMap, range", range.clone(), 0u32, |v: Vec<(u32, u64)>| FrozenMap::from_vec_with_hasher(v, MIX));
    long!(c, "long FrozenMap, spread", spread.clone(), 0u32, |v: Vec<(u32, u64)>| FrozenMap::from_vec_with_hasher(v, MIX));
    long!(c, "long FrozenMap, scan", vec![3u32, 9, 1], 0u32, |v: Vec<(u32, u64)>| FrozenMap::from_vec_with_hasher(v, MIX));
    long!(c, "long FrozenMap, strings", strs.clone(), String::from("zz"), |v: Vec<(String, u64)>| FrozenMap::from_vec_with_hasher(v, MIX));
    long!(c, "long FrozenMap, lengths", lens.clone(), String::from("zz"), |v: Vec<(String, u64)>| FrozenMap::from_vec_with_hasher(v, MIX));
    long!(c, "long FrozenMap, common", (0..300u64).collect(), 1000u64, |v: Vec<(u64, u64)>| FrozenMap::from_vec_with_hasher(v, LOW2));
    long!(c, "long ScanningMap", spread.clone(), 0u32, |v: Vec<(u32, u64)>| ScanningMap::from_vec(v));
    long!(c, "long CommonMap", spread.clone(), 0u32, |v: Vec<(u32, u64)>| CommonMap::<_, _, u16, PH>::from_vec_with_hasher(v, SUM));
    long!(c, "long IntegerMap", spread, 0u32, |v: Vec<(u32, u64)>| IntegerMap::<_, _, u8>::from_vec(v));
    long!(c, "long IntegerRangeMap", range, 0u32, |v: Vec<(u32, u64)>| IntegerRangeMap::from_vec(v));
    long!(c, "long LengthMap", lens, String::from("zz"), |v: Vec<(String, u64)>| LengthMap::<_, _, u8>::from_vec(v));
    long!(c, "long LeftSliceMap", strs.clone(), String::from("zz"), |v: Vec<(String, u64)>| LeftSliceMap::<_, _, u8, PH>::from_vec_with_hasher(v, 0..3, MIX));
    long!(c, "long RightSliceMap", strs, String::from("zz"), |v: Vec<(String, u64)>| RightSliceMap::<_, _, u8, PH>::from_vec_with_hasher(v, 0..2, MIX));
    c.finish();
}
