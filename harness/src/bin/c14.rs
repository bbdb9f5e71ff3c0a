//! Subset, superset and disjointness tests are exact.
use frozen_collections_core::specialized_sets::Set;
use mc::keys::*;
use mc::pairs::*;
use mc::*;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

struct Truth {
    subset: bool,
    superset: bool,
    disjoint: bool,
}

fn truth<T: Eq + Hash>(a: &[T], b: &[T]) -> Truth {
    let (x, y): (HashSet<&T>, HashSet<&T>) = (a.iter().collect(), b.iter().collect());
    Truth {
        subset: x.iter().all(|e| y.contains(e)),
        superset: y.iter().all(|e| x.contains(e)),
        disjoint: !x.iter().any(|e| y.contains(e)),
    }
}

#[inline(never)]
fn pair<T: Debug, A: Set<T>, B: Set<T>>(cx: &mut Cx, t: &Truth, a: &A, na: &str, b: &B, nb: &str, deep: bool) -> R {
    ck!(a.is_subset(b) == t.subset, "{na} is_subset {nb} is not {}", t.subset);
    ck!(a.is_superset(b) == t.superset, "{na} is_superset {nb} is not {}", t.superset);
    ck!(a.is_disjoint(b) == t.disjoint, "{na} is_disjoint {nb} is not {}", t.disjoint);
    cx.tr(3);
    if deep {
        // consistent with the set operations and with membership
        let (d, i) = (a.difference(b).next().is_none(), a.intersection(b).next().is_none());
        ck!(d == t.subset, "{na} difference {nb} is {}empty", if d { "" } else { "not " });
        ck!(i == t.disjoint, "{na} intersection {nb} is {}empty", if i { "" } else { "not " });
        ck!(a.iter().all(|x| b.contains(x)) == t.subset, "membership of the elements of {na} in {nb}");
        cx.tr(3);
    }
    Ok(())
}

macro_rules! all {
    ($cx:expr, $kind:tt, $t:ty, $x:expr, $y:expr, $deep:expr) => {{
        let (x, y) = (&$x, &$y);
        let t = truth(&x.els, &y.els);
        mc::each_kind!($kind, x, |a, na| {
            mc::each_kind!($kind, y, |b, nb| {
                pair::<$t, _, _>($cx, &t, a, na, b, nb, $deep)?;
            });
        });
        $cx.out(t.subset as u64 * 4 + t.superset as u64 * 2 + t.disjoint as u64);
        $cx.st();
    }};
}
#[inline(never)]
fn u32_all(cx: &mut Cx, x: &U32Kinds, y: &U32Kinds) -> R {
    all!(cx, u32, u32, *x, *y, x.els.len() + y.els.len() < 600);
    Ok(())
}
#[inline(never)]
fn str_all(cx: &mut Cx, x: &StrKinds, y: &StrKinds) -> R {
    all!(cx, str, String, *x, *y, x.els.len() + y.els.len() < 600);
    Ok(())
}
#[inline(never)]
fn gen_all<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, x: &GenKinds<K>, y: &GenKinds<K>) -> R {
    all!(cx, gen, K, *x, *y, true);
    Ok(())
}

fn typ<K: Gen>(c: &mut Ctx) {
    c.scenario(&format!("type {}", K::NAME), |c| {
        let d: Vec<K> = (0..K::CARD.min(c.pick(5, 7))).map(K::gen).collect();
        let e: Vec<K> = (0..d.len()).map(K::alt).collect();
        for a in 0..1 << d.len() {
            for b in 0..1 << d.len() {
                c.case(
                    || format!("elements {:?} and {:?}", pick(&d, a), pick(&e, b)),
                    |cx| gen_all(cx, &GenKinds::new(&pick(&d, a)), &GenKinds::new(&pick(&e, b))),
                );
            }
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    let quick = c.quick();
    let mut ud = u32_domains(false);
    if !quick {
        ud.push((97..105).collect());
    }
    for (i, d) in ud.into_iter().enumerate() {
        c.scenario(&format!("u32 domain {i}"), |c| {
            for a in 0..1 << d.len() {
                for b in 0..1 << d.len() {
                    c.case(
                        || format!("elements {:?} and {:?}", pick(&d, a), pick(&d, b)),
                        |cx| u32_all(cx, &U32Kinds::new(&pick(&d, a)), &U32Kinds::new(&pick(&d, b))),
                    );
                }
            }
        });
    }
    for (i, d) in str_domains(false).into_iter().enumerate() {
        c.scenario(&format!("String domain {i}"), |c| {
            for a in 0..1 << d.len() {
                for b in 0..1 << d.len() {
                    c.case(
                        || format!("elements {:?} and {:?}", pick(&d, a), pick(&d, b)),
                        |cx| str_all(cx, &StrKinds::new(&pick(&d, a)), &StrKinds::new(&pick(&d, b))),
                    );
                }
            }
        });
    }
    mc::some_key_types!(typ, &mut c);
    c.scenario("big u32", |c| {
        for (name, a, b) in u32_big_pairs(quick) {
            c.case(|| name.clone(), |cx| u32_all(cx, &U32Kinds::new(&a), &U32Kinds::new(&b)));
        }
    });
    c.scenario("one apart", |c| {
        // sets which are equal, or a subset of the other, but for one element at each place
        for n in [1usize, 2, 3, 4, 5, 8, 20, 63, 64, 65, 100, 254, 255, 256, 257, 300] {
            for step in [1u32, 2, 257] {
                for fault in 0..4 {
                    let at: Vec<usize> = if n <= 20 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
                    for p in at {
                        let a: Vec<u32> = (0..n as u32).map(|i| i * step + 5).collect();
                        let mut b = a.clone();
                        match fault {
                            0 => {
                                b[p] = 3;
                            }
                            1 => {
                                b.remove(p);
                            }
                            2 => {
                                b.insert(p, 3);
                            }
                            _ => {
                                // all different but one
                                for (i, x) in b.iter_mut().enumerate() {
                                    if i != p {
                                        *x = x.wrapping_add(1 << 20);
                                    }
                                }
                            }
                        }
                        c.case(|| format!("{n} elements with stride {step}, fault {fault} at {p}"), |cx| u32_all(cx, &U32Kinds::new(&a), &U32Kinds::new(&b)));
                        if p == 0 || n <= 20 {
                            c.case(
                                || format!("{n} strings with stride {step}, fault {fault} at {p}"),
                                |cx| {
                                    let f = |v: &[u32]| v.iter().map(|x| format!("{x:x}")).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
                                    str_all(cx, &StrKinds::new(&f(&a)), &StrKinds::new(&f(&b)))
                                },
                            );
                        }
                    }
                }
            }
        }
    });
    c.finish();
}
