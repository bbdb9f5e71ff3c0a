//! Repeated keys: the last one wins and is counted once.
use frozen_collections_core::specialized_sets::Set;
use frozen_collections_core::traits::len::Len;
use mc::hashers::*;
use mc::keys::*;
use mc::maps::{content, lookups, val, FM};
use mc::sets::{elements, membership, FS};
use mc::spaces::*;
use mc::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// All but the last occurrence of each key removed.
fn keep_last<K: Clone + Eq + Hash, V: Clone>(l: &[(K, V)]) -> Vec<(K, V)> {
    let mut last: HashMap<&K, usize> = HashMap::new();
    for (i, (k, _)) in l.iter().enumerate() {
        last.insert(k, i);
    }
    l.iter().enumerate().filter(|(i, (k, _))| last[k] == *i).map(|(_, e)| e.clone()).collect()
}

fn check<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, list: &[K], absent: &[K], h: PH) -> R {
    let pairs: Vec<(K, u32)> = list.iter().enumerate().map(|(i, k)| (k.clone(), val(i))).collect();
    let model = keep_last(&pairs);
    let n = model.len();
    let clean = FM::from_vec_with_hasher(model.clone(), h);
    for way in 0..2 {
        let mut m = if way == 0 { FM::from_vec_with_hasher(pairs.clone(), h) } else { FM::from_iter_with_hasher(pairs.iter().cloned(), h) };
        lookups(cx, &mut m, &model, absent)?;
        content(cx, &m, &model)?;
        ck!(m == clean && clean == m, "the map is not equal to the one without the repeated keys");
        ck!(!(m != clean), "the map differs from the one without the repeated keys");
        for (k, v) in &model {
            let (sk, sv) = m.get_key_value(k).ok_or("not found")?;
            // the key stored is the one listed last
            ck!(format!("{sk:?}") == format!("{k:?}") && sv == v, "get_key_value({k:?}) returns ({sk:?}, {sv:?}) instead of ({k:?}, {v:?})");
        }
        for (k, v) in &m {
            ck!(model.iter().any(|(a, b)| b == v && format!("{a:?}") == format!("{k:?}")), "iteration yields the key {k:?} with {v:?}");
        }
    }
    let els: Vec<K> = model.iter().map(|e| e.0.clone()).collect();
    let sclean = FS::from_vec_with_hasher(els.clone(), h);
    let std: HashSet<K> = els.iter().cloned().collect();
    for way in 0..2 {
        let s = if way == 0 { FS::from_vec_with_hasher(list.to_vec(), h) } else { FS::from_iter_with_hasher(list.iter().cloned(), h) };
        membership(cx, &s, &els, absent)?;
        elements(cx, &s, &els)?;
        for k in &els {
            let g = s.get(k).ok_or("not found")?;
            ck!(format!("{g:?}") == format!("{k:?}"), "get({k:?}) returns {g:?}, {k:?} was listed last");
        }
        ck!(s == sclean && sclean == s, "the set is not equal to the one without the repeated values");
        ck!(s.is_subset(&sclean) && s.is_superset(&sclean) && sclean.is_subset(&s) && sclean.is_superset(&s), "subset/superset of itself without repetitions is wrong");
        ck!(s.is_subset(&std) && s.is_superset(&std) && s.is_disjoint(&std) == (n == 0), "relation to the equal HashSet is wrong");
        ck!(s.union(&sclean).count() == n, "union with itself has {} elements instead of {n}", s.union(&sclean).count());
        ck!(s.intersection(&std).count() == n, "intersection with itself has {} elements instead of {n}", s.intersection(&std).count());
        ck!(s.difference(&sclean).count() == 0 && s.symmetric_difference(&std).count() == 0, "difference to itself is not empty");
        // smaller and larger sets
        if n > 0 {
            let less: HashSet<K> = els[1..].iter().cloned().collect();
            ck!(!s.is_subset(&less) && s.is_superset(&less), "relation to a proper subset is wrong");
            ck!(s.difference(&less).count() == 1 && s.union(&less).count() == n && s.intersection(&less).count() == n - 1, "set algebra with a proper subset is wrong");
            let lessf = FS::from_vec_with_hasher(els[1..].to_vec(), h);
            ck!(s != lessf && !s.is_subset(&lessf) && s.is_superset(&lessf) && lessf.is_subset(&s), "relation to a proper frozen subset is wrong");
            cx.tr(9);
        }
        ck!(Len::len(&s) == n, "length is {} instead of {n}", Len::len(&s));
        cx.tr(16);
    }
    cx.out(n as u64);
    Ok(())
}

fn all_words<K: Clone + Eq + Hash + Debug + 'static>(c: &mut Ctx, name: &str, pool: &[K], absent: &[K], len: usize, hs: &[PH]) {
    c.scenario(name, |c| {
        for l in 0..=len {
            words(pool.len(), l, &mut |w| {
                for &h in hs {
                    c.case(
                        || format!("list {:?}, {h:?}", w.iter().map(|i| &pool[*i]).collect::<Vec<_>>()),
                        |cx| {
                            let list: Vec<K> = w.iter().map(|i| pool[*i].clone()).collect();
                            let used: BTreeSet<usize> = w.iter().copied().collect();
                            let mut ab: Vec<K> = (0..pool.len()).filter(|i| !used.contains(i)).map(|i| pool[i].clone()).collect();
                            ab.retain(|k| !list.contains(k));
                            ab.extend(absent.iter().cloned());
                            check(cx, &list, &ab, h)
                        },
                    );
                }
            });
        }
    });
}

/// Lists of `n` keys with `r` repetitions placed by `class`.
fn ladder<K: Clone + Eq + Hash + Debug + 'static>(c: &mut Ctx, name: &str, key: impl Fn(usize, bool) -> K, hs: &[PH]) {
    c.scenario(name, |c| {
        let ns: Vec<usize> = if c.quick() {
            vec![3, 4, 5, 7, 127, 128, 253, 254, 255, 256, 257, 300]
        } else {
            (0..40).chain([126, 127, 128, 129]).chain(250..=260).chain([300, 511, 512, 513, 999, 1000, 1001]).collect()
        };
        for n in ns {
            for r in [0usize, 1, 2, 3, n / 2, n, 2 * n, 255, 256] {
                for class in 0..6 {
                    for &h in hs {
                        c.case(
                            || format!("{n} distinct keys, {r} repetitions of class {class}, {h:?}"),
                            |cx| {
                                let m = n.max(1);
                                let base: Vec<K> = (0..n).map(|i| key(i, false)).collect();
                                let reps: Vec<K> = (0..if n == 0 { 0 } else { r })
                                    .map(|j| {
                                        let i = match class {
                                            0 => j % m,
                                            1 => m - 1 - j % m,
                                            2 => 0,
                                            3 => m / 2,
                                            4 => (j * 7) % m,
                                            _ => j / 2 % m,
                                        };
                                        key(i, true)
                                    })
                                    .collect();
                                let list: Vec<K> = match class {
                                    // repetitions first, last, or interleaved
                                    0 | 3 => base.iter().chain(&reps).cloned().collect(),
                                    1 | 4 => reps.iter().chain(&base).cloned().collect(),
                                    _ => {
                                        let mut l = Vec::new();
                                        let mut it = reps.iter();
                                        for b in &base {
                                            l.push(b.clone());
                                            if let Some(x) = it.next() {
                                                l.push(x.clone());
                                            }
                                        }
                                        l.extend(it.cloned());
                                        l
                                    }
                                };
                                let absent: Vec<K> = (n..n + 6).map(|i| key(i, false)).collect();
                                check(cx, &list, &absent, h)
                            },
                        );
                    }
                }
            }
        }
    });
}

/// Lists of every length: with one repetition at every pair of places, and with a period.
fn places<K: Clone + Eq + Hash + Debug + 'static>(c: &mut Ctx, name: &str, key: impl Fn(usize, bool) -> K, h: PH) {
    c.scenario(name, |c| {
        let max = c.pick(36, 70);
        let mut lens: Vec<usize> = (2..=max).collect();
        lens.extend([63, 64, 65, 66, 127, 128, 129, 130]);
        for n in lens {
            for i in 0..n {
                c.case(
                    || format!("{n} entries, entry {i} is repeated later, at each place"),
                    |cx| {
                        let step = if n > max { 1 + n / 40 } else { 1 };
                        for j in (i + 1..n).step_by(step).chain([n - 1]).filter(|j| *j > i) {
                            let list: Vec<K> = (0..n).map(|x| if x == j { key(i, true) } else { key(x, false) }).collect();
                            let absent = [key(j, false), key(n, false), key(n + 7, false)];
                            check(cx, &list, &absent, h).map_err(|e| format!("repeated at {j}: {e}"))?;
                            cx.st();
                        }
                        Ok(())
                    },
                );
            }
        }
        let max = c.pick(135, 270);
        for n in 1..=max {
            c.case(
                || format!("{n} entries with every period"),
                |cx| {
                    let all: Vec<usize> = (1..n.min(6)).chain([n / 3, n / 2, n / 2 + 1, n - 1]).chain([30, 31, 32, 33, 63, 64, 65, 127, 128]).collect();
                    let all: BTreeSet<usize> = all.into_iter().filter(|p| *p > 0 && *p < n).collect();
                    for p in all {
                        let list: Vec<K> = (0..n).map(|x| key(x % p, x >= p)).collect();
                        check(cx, &list, &[key(p, false), key(p + 7, false)], h).map_err(|e| format!("period {p}: {e}"))?;
                        // the same, some of them in blocks
                        let list: Vec<K> = (0..n).map(|x| key(x / (n / p + 1), x % 2 == 1)).collect();
                        check(cx, &list, &[key(n, false), key(n + 7, false)], h).map_err(|e| format!("blocks of {}: {e}", n / p + 1))?;
                        cx.st();
                    }
                    Ok(())
                },
            );
        }
    });
}

fn typ<K: Gen>(c: &mut Ctx) {
    let k = K::CARD.min(3);
    let mut pool: Vec<K> = (0..k).map(K::gen).collect();
    pool.push(K::alt(0));
    let absent: Vec<K> = (k..K::CARD.min(8)).map(K::gen).collect();
    let len = c.pick(4, 6);
    all_words(c, &format!("words of {}", K::NAME), &pool, &absent, len, &[MIX]);
    let absent: Vec<K> = (5..K::CARD.min(9)).map(K::gen).collect();
    let pool: Vec<K> = (0..K::CARD.min(5)).map(K::gen).chain([K::alt(1.min(K::CARD - 1))]).collect();
    c.scenario(&format!("more of {}", K::NAME), |c| {
        // 4 or 5 distinct keys, and up to two repetitions at every place
        let p = pool.len();
        let reps = c.pick(2, 3);
        for r in 1..=reps {
            words(p, r, &mut |w| {
                for at in 0..=p {
                    c.case(
                        || format!("keys 0..{p} with repetitions {w:?} inserted at {at}"),
                        |cx| {
                            let mut list: Vec<K> = pool.clone();
                            for (j, i) in w.iter().enumerate() {
                                list.insert((at * (j + 1)) % (list.len() + 1), pool[*i].clone());
                            }
                            check(cx, &list, &absent, LOW2)
                        },
                    );
                }
            });
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    let l = c.pick(6, 7);
    all_words(&mut c, "u32 words, contiguous", &[10u32, 11, 12, 13, 14], &[9, 15, 0], l, &[MIX]);
    all_words(&mut c, "u32 words, spread", &[0u32, 1, 256, u32::MAX, 77], &[2, 257], l, &[MIX]);
    let s = |l: &[&str]| l.iter().map(|s| (*s).to_string()).collect::<Vec<_>>();
    all_words(&mut c, "string words, equal lengths", &s(&["aa", "ab", "ba", "bb", "cc"]), &s(&["a", "", "ac", "aaa"]), l - 1, &[MIX, ZERO]);
    all_words(&mut c, "string words, distinct lengths", &s(&["", "a", "aa", "aaaa", "aaaaa"]), &s(&["b", "aaa"]), l - 1, &[MIX]);
    all_words(&mut c, "string words, common suffix", &s(&["ax", "bx", "cbx", "dx", "eax"]), &s(&["x", "cx"]), l - 1, &[MIX]);
    all_words(
        &mut c,
        "Mod1000 words",
        &[Mod1000(1), Mod1000(1001), Mod1000(2), Mod1000(5002), Mod1000(3)],
        &[Mod1000(4), Mod1000(1000)],
        l,
        &[MIX, ZERO],
    );
    mc::all_key_types!(typ, &mut c);
    ladder(&mut c, "u32 ladder, contiguous", |i, _| i as u32, &[MIX]);
    ladder(&mut c, "u32 ladder, spread", |i, _| i as u32 * 17 + (i as u32 % 3), &[MIX]);
    ladder(&mut c, "String ladder", |i, _| format!("{i:04}"), &[MIX]);
    ladder(&mut c, "String ladder, by length", |i, _| "x".repeat(i / 3) + ["", "y", "z"][i % 3], &[MIX]);
    ladder(&mut c, "CiString ladder", |i, alt| CiString(if alt { format!("k{i}") } else { format!("K{i}") }), &[MIX, LOWBYTE]);
    places(&mut c, "places, u32 contiguous", |i, _| i as u32, MIX);
    places(&mut c, "places, u32 spread", |i, _| i as u32 * 17 + (i as u32 % 3), MIX);
    places(&mut c, "places, String", |i, _| format!("{i:04}"), MIX);
    places(&mut c, "places, CiString", |i, alt| CiString(if alt { format!("k{i}") } else { format!("K{i}") }), LOWBYTE);
    c.finish();
}
