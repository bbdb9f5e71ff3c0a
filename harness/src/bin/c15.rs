//! Collections are equal exactly when their contents are equal.
use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::*;
use mc::hashers::*;
use mc::keys::*;
use mc::pairs::*;
use mc::spaces::words;
use mc::zoo::*;
use mc::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

type Mk<K, V> = (&'static str, fn(Vec<(K, V)>, usize) -> Option<Box<dyn MapPlus<K, V>>>);

fn hs(way: usize) -> PH {
    [MIX, ZERO, LOW2, SUM][way % 4]
}

fn u32_makers<V: Val>() -> Vec<Mk<u32, V>> {
    vec![
        ("FrozenMap", |v, w| Some(Box::new(FrozenMap::from_vec_with_hasher(v, hs(w))))),
        ("ScanningMap", |v, _| Some(Box::new(ScanningMap::from_vec(v)))),
        ("IntegerMap<u8>", |v, _| Some(Box::new(IntegerMap::<_, _, u8>::from_vec(v)))),
        ("IntegerMap<u64>", |v, _| Some(Box::new(IntegerMap::<_, _, u64>::from_vec(v)))),
        ("CommonMap<u8>", |v, w| Some(Box::new(CommonMap::<_, _, u8, PH>::from_vec_with_hasher(v, hs(w))))),
        ("CommonMap<usize>", |v, w| Some(Box::new(CommonMap::<_, _, usize, PH>::from_vec_with_hasher(v, hs(w))))),
        ("IntegerRangeMap", |v, _| contiguous(&v.iter().map(|e| e.0).collect::<Vec<_>>()).then(|| Box::new(IntegerRangeMap::from_vec(v)) as _)),
    ]
}

fn str_makers<V: Val>() -> Vec<Mk<String, V>> {
    vec![
        ("FrozenMap", |v, w| Some(Box::new(FrozenMap::from_vec_with_hasher(v, hs(w))))),
        ("ScanningMap", |v, _| Some(Box::new(ScanningMap::from_vec(v)))),
        ("CommonMap<u16>", |v, w| Some(Box::new(CommonMap::<_, _, u16, PH>::from_vec_with_hasher(v, hs(w))))),
        ("LengthMap<u8>", |v, _| Some(Box::new(LengthMap::<_, _, u8>::from_vec(v)))),
        ("LeftSliceMap<u8>", |v, w| Some(Box::new(LeftSliceMap::<_, _, u8, PH>::from_vec_with_hasher(v, if w % 2 == 0 { 0..1 } else { 1..2 }, hs(w))))),
        ("RightSliceMap<usize>", |v, w| Some(Box::new(RightSliceMap::<_, _, usize, PH>::from_vec_with_hasher(v, if w % 2 == 0 { 0..1 } else { 1..2 }, hs(w))))),
    ]
}

fn gen_makers<K: Gen, V: Val>() -> Vec<Mk<K, V>> {
    vec![
        ("FrozenMap", |v, w| Some(Box::new(FrozenMap::from_vec_with_hasher(v, hs(w))))),
        ("ScanningMap", |v, _| Some(Box::new(ScanningMap::from_vec(v)))),
        ("CommonMap<u16>", |v, w| Some(Box::new(CommonMap::<_, _, u16, PH>::from_vec_with_hasher(v, hs(w))))),
    ]
}

fn same_content<K: Hash + Eq, V: PartialEq>(a: &[(K, V)], b: &[(K, V)]) -> bool {
    let m: HashMap<&K, &V> = a.iter().map(|(k, v)| (k, v)).collect();
    a.len() == b.len() && b.iter().all(|(k, v)| m.get(k).is_some_and(|x| *x == v))
}

fn compare<K: Hash + Eq + Debug + 'static, V: Val>(cx: &mut Cx, a: &dyn MapPlus<K, V>, ca: &[(K, V)], b: &dyn MapPlus<K, V>, cb: &[(K, V)]) -> R {
    let e = same_content(ca, cb);
    ck!(a.same(b) == e, "{ca:?} == {cb:?} is {}", !e);
    ck!(b.same(a) == e, "{cb:?} == {ca:?} is {}", !e);
    ck!(a.differs(b) != e, "{ca:?} != {cb:?} is {e}");
    cx.tr(3);
    cx.out(u64::from(e));
    Ok(())
}

/// All contents over the keys, with values out of two: every key is absent or has one of the values.
fn all_pairs<K: Clone + Hash + Eq + Debug + 'static, V: Val>(c: &mut Ctx, name: &str, keys: &[K], vals: [V; 2], makers: Vec<Mk<K, V>>) {
    c.scenario(name, |c| {
        let mut contents: Vec<Vec<(K, V)>> = Vec::new();
        words(3, keys.len(), &mut |w| {
            contents.push(w.iter().zip(keys).filter(|(x, _)| **x > 0).map(|(x, k)| (k.clone(), vals[*x - 1].clone())).collect());
        });
        for (mn, mk) in &makers {
            for (i, ca) in contents.iter().enumerate() {
                c.case(
                    || format!("{mn} of {ca:?} compared with every content over {keys:?} x {vals:?}"),
                    |cx| {
                        for way in 0..2 {
                            let mut l = ca.clone();
                            if way == 1 {
                                l.reverse();
                            }
                            let Some(mut a) = mk(l, way) else { return Ok(()) };
                            ck!(a.same(&*a) && !a.differs(&*a), "not equal to itself: {ca:?}");
                            for (j, cb) in contents.iter().enumerate() {
                                let mut r = cb.clone();
                                if (i + j) % 2 == 1 {
                                    r.reverse();
                                } else if r.len() > 2 {
                                    r.rotate_left(1);
                                }
                                let Some(b) = mk(r, way + i + j) else { continue };
                                compare(cx, &*a, ca, &*b, cb)?;
                                if way == 0 {
                                    cx.st();
                                }
                            }
                            // changes in place
                            for p in 0..ca.len() {
                                let mut cb = ca.clone();
                                for (q, v) in [(p, 0), (p, 1), ((p + 1) % ca.len(), 0)] {
                                    *a.get_mut(&ca[q].0).ok_or("get_mut fails")? = vals[v].clone();
                                    cb[q].1 = vals[v].clone();
                                    let b = mk(cb.clone(), way + 1).unwrap();
                                    compare(cx, &*a, &cb, &*b, &cb).map_err(|e| format!("changed in place: {e}"))?;
                                    let o = mk(ca.clone(), way).unwrap();
                                    compare(cx, &*a, &cb, &*o, ca).map_err(|e| format!("changed in place: {e}"))?;
                                }
                                for (k, v) in ca {
                                    *a.get_mut(k).ok_or("get_mut fails")? = v.clone();
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

#[inline(never)]
fn set_pairs_u32(cx: &mut Cx, x: &U32Kinds, y: &U32Kinds) -> R {
    let e = x.els.iter().collect::<HashSet<_>>() == y.els.iter().collect::<HashSet<_>>();
    let (a, b) = (x.frozen.as_ref().unwrap(), y.frozen.as_ref().unwrap());
    ck!((a == b) == e && (b == a) == e && (a != b) != e, "FrozenSet {:?} == {:?} is not {e}", x.els, y.els);
    mc::each_kind!(u32 special, x, |a, na| {
        mc::each_kind!(u32, y, |b, nb| {
            ck!((*a == *b) == e, "{na} {:?} == {nb} {:?} is not {e}", x.els, y.els);
            ck!((*a != *b) != e, "{na} {:?} != {nb} {:?} is {e}", x.els, y.els);
            cx.tr(2);
        });
    });
    cx.st();
    Ok(())
}
#[inline(never)]
fn set_pairs_str(cx: &mut Cx, x: &StrKinds, y: &StrKinds) -> R {
    let e = x.els.iter().collect::<HashSet<_>>() == y.els.iter().collect::<HashSet<_>>();
    let (a, b) = (x.frozen.as_ref().unwrap(), y.frozen.as_ref().unwrap());
    ck!((a == b) == e && (b == a) == e && (a != b) != e, "FrozenSet {:?} == {:?} is not {e}", x.els, y.els);
    mc::each_kind!(str special, x, |a, na| {
        mc::each_kind!(str, y, |b, nb| {
            ck!((*a == *b) == e, "{na} {:?} == {nb} {:?} is not {e}", x.els, y.els);
            ck!((*a != *b) != e, "{na} {:?} != {nb} {:?} is {e}", x.els, y.els);
            cx.tr(2);
        });
    });
    cx.st();
    Ok(())
}
#[inline(never)]
fn set_pairs_gen<K: Gen>(cx: &mut Cx, x: &GenKinds<K>, y: &GenKinds<K>) -> R {
    let e = x.els.iter().collect::<HashSet<_>>() == y.els.iter().collect::<HashSet<_>>();
    let fx = [x.frozen.as_ref().unwrap(), x.zero.as_ref().unwrap()];
    let fy = [y.frozen.as_ref().unwrap(), y.zero.as_ref().unwrap()];
    for a in fx {
        for b in fy {
            ck!((a == b) == e && (b == a) == e && (a != b) != e, "FrozenSet {:?} == {:?} is not {e}", x.els, y.els);
        }
    }
    mc::each_kind!(gen special, x, |a, na| {
        mc::each_kind!(gen, y, |b, nb| {
            ck!((*a == *b) == e, "{na} {:?} == {nb} {:?} is not {e}", x.els, y.els);
            cx.tr(1);
        });
    });
    cx.st();
    Ok(())
}

fn typ<K: Gen>(c: &mut Ctx) {
    let keys: Vec<K> = (0..K::CARD.min(c.pick(4, 5))).map(K::gen).collect();
    all_pairs(c, &format!("maps with keys {}", K::NAME), &keys, [1u8, 2], gen_makers());
    c.scenario(&format!("sets of {}", K::NAME), |c| {
        let d: Vec<K> = (0..K::CARD.min(c.pick(5, 6))).map(K::gen).collect();
        let e: Vec<K> = (0..d.len()).map(K::alt).rev().collect();
        for a in 0..1 << d.len() {
            for b in 0..1 << d.len() {
                c.case(
                    || format!("{:?} and {:?}", pick(&d, a), pick(&e, b)),
                    |cx| set_pairs_gen(cx, &GenKinds::new(&pick(&d, a)), &GenKinds::new(&pick(&e, b))),
                );
            }
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    let quick = c.quick();
    let s = |l: &[&str]| l.iter().map(|s| (*s).to_string()).collect::<Vec<_>>();
    let k = c.pick(5, 6);
    all_pairs(&mut c, "u32 maps, contiguous", &[10u32, 11, 12, 13, 14, 15][..k], [1u64, 2], u32_makers());
    all_pairs(&mut c, "u32 maps, spread", &[0u32, u32::MAX, 5, 256, 512, 77][..k], [1u64, 2], u32_makers());
    all_pairs(&mut c, "u32 maps, String values", &[1u32, 2, 3, 5][..], ["a".to_string(), "b".to_string()], u32_makers());
    all_pairs(&mut c, "u32 maps, () and () values", &[1u32, 2, 3, 4, 6][..k], [(), ()], u32_makers());
    all_pairs(&mut c, "u32 maps, NaN values", &[1u32, 2, 3, 5][..], [0.0f64, f64::NAN], Vec::new());
    all_pairs(&mut c, "u32 maps, 0.0 and -0.0", &[1u32, 2, 3, 5][..], [0.0f64, -0.0], u32_makers());
    all_pairs(&mut c, "string maps, lengths", &s(&["", "a", "bb", "ccc", "dddd"]), [1u64, 2], str_makers());
    all_pairs(&mut c, "string maps, left", &s(&["ax", "bx", "cx", "dx", "ex"]), [1u64, 2], str_makers());
    all_pairs(&mut c, "string maps, right", &s(&["xa", "xb", "xc", "xd", "yxa"]), [1u64, 2], str_makers());
    mc::some_key_types!(typ, &mut c);
    c.scenario("NaN", |c| {
        // values which are not equal to themselves make maps which are not equal to anything
        for n in [1usize, 3, 4, 6, 300] {
            for p in [0, n / 2, n - 1] {
                for (mn, mk) in u32_makers::<f64>() {
                    if n > 255 && mn.ends_with("<u8>") {
                        continue;
                    }
                    c.case(
                        || format!("{mn} with {n} keys, NaN at {p}"),
                        |cx| {
                            let l: Vec<(u32, f64)> = (0..n).map(|i| (i as u32, if i == p { f64::NAN } else { 1.0 })).collect();
                            let a = mk(l.clone(), 0).unwrap();
                            let b = mk(l, 1).unwrap();
                            ck!(!a.same(&*b) && a.differs(&*b) && !a.same(&*a), "equal in spite of a value which is not equal to itself");
                            cx.tr(3);
                            Ok(())
                        },
                    );
                }
            }
        }
    });
    for (i, d) in u32_domains(quick).into_iter().enumerate() {
        c.scenario(&format!("u32 sets, domain {i}"), |c| {
            for a in 0..1 << d.len() {
                for b in 0..1 << d.len() {
                    c.case(
                        || format!("{:?} and {:?}", pick(&d, a), pick(&d, b)),
                        |cx| {
                            let mut y = pick(&d, b);
                            y.reverse();
                            set_pairs_u32(cx, &U32Kinds::new(&pick(&d, a)), &U32Kinds::new(&y))
                        },
                    );
                }
            }
        });
    }
    for (i, d) in str_domains(false).into_iter().enumerate() {
        c.scenario(&format!("String sets, domain {i}"), |c| {
            for a in 0..1 << d.len() {
                for b in 0..1 << d.len() {
                    c.case(
                        || format!("{:?} and {:?}", pick(&d, a), pick(&d, b)),
                        |cx| {
                            let mut y = pick(&d, b);
                            y.reverse();
                            set_pairs_str(cx, &StrKinds::new(&pick(&d, a)), &StrKinds::new(&y))
                        },
                    );
                }
            }
        });
    }
    c.scenario("one apart", |c| {
        for n in [4usize, 5, 8, 20, 40, 64, 65, 100, 128, 254, 255, 256, 257, 300, 1000] {
            for step in [1u32, 2, 257] {
                for fault in 0..6 {
                    let at: Vec<usize> = if n <= 20 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
                    for p in at {
                        let a: Vec<(u32, u32)> = (0..n as u32).map(|i| (i * step + 5, i * 7)).collect();
                        let mut b = a.clone();
                        match fault {
                            0 => b[p].0 = 3,
                            1 => {
                                b.remove(p);
                            }
                            2 => b.insert(p, (3, 3)),
                            3 => b[p].1 ^= 1,
                            4 => {
                                let q = (p + 1) % n;
                                let v = b[p].1;
                                b[p].1 = b[q].1;
                                b[q].1 = v;
                            }
                            _ => b.rotate_left(p),
                        }
                        c.case(
                            || format!("maps of {n} keys with stride {step}, fault {fault} at {p}"),
                            |cx| {
                                for (mn, mk) in u32_makers() {
                                    if (n > 40 && mn == "ScanningMap") || (n > 200 && mn.ends_with("<u8>")) {
                                        continue;
                                    }
                                    let (Some(x), Some(y)) = (mk(a.clone(), 0), mk(b.clone(), 2)) else { continue };
                                    let e = fault == 5;
                                    ck!(x.same(&*y) == e && y.same(&*x) == e && x.differs(&*y) != e, "{mn}: equality is not {e}");
                                }
                                let f = |v: &[(u32, u32)]| v.iter().map(|x| (format!("{:x}", x.0), x.1)).collect::<Vec<_>>();
                                for (mn, mk) in str_makers() {
                                    if (n > 40 && mn == "ScanningMap") || (n > 200 && mn.ends_with("<u8>")) {
                                        continue;
                                    }
                                    let (Some(x), Some(y)) = (mk(f(&a), 0), mk(f(&b), 2)) else { continue };
                                    let e = fault == 5;
                                    ck!(x.same(&*y) == e && y.same(&*x) == e && x.differs(&*y) != e, "{mn}<String>: equality is not {e}");
                                }
                                if fault != 3 && fault != 4 {
                                    let g = |v: &[(u32, u32)]| v.iter().map(|x| x.0).collect::<Vec<_>>();
                                    set_pairs_u32(cx, &U32Kinds::new(&g(&a)), &U32Kinds::new(&g(&b)))?;
                                    let h = |v: &[(u32, u32)]| v.iter().map(|x| format!("{:x}", x.0)).collect::<Vec<_>>();
                                    set_pairs_str(cx, &StrKinds::new(&h(&a)), &StrKinds::new(&h(&b)))?;
                                }
                                cx.tr(100);
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    });
    c.finish();
}
