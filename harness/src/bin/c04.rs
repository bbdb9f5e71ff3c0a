//! Frozen sets report membership exactly.
use mc::hashers::*;
use mc::keys::*;
use mc::sets::{elements, membership, FS};
use mc::spaces::*;
use mc::*;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

fn check<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, keys: &[K], absent: &[K], h: PH) -> R {
    let s = FS::from_vec_with_hasher(keys.to_vec(), h);
    membership(cx, &s, keys, absent)?;
    elements(cx, &s, keys)
}

fn run_u(c: &mut Ctx, spec: US) {
    c.case(
        || format!("FrozenSet<u32> of {spec:?}"),
        |cx| {
            let keys = spec.keys();
            check(cx, &keys, &uprobes(&keys), MIX)
        },
    );
}

fn run_s(c: &mut Ctx, spec: SS, h: PH) {
    c.case(
        || format!("FrozenSet<String, {h:?}> of {spec:?}"),
        |cx| {
            let keys = spec.keys();
            check(cx, &keys, &sprobes(&keys), h)
        },
    );
}

fn typ<K: Gen>(c: &mut Ctx) {
    c.scenario(&format!("type {}", K::NAME), |c| {
        let mut ns: Vec<usize> = (0..=c.pick(14, 64)).collect();
        ns.extend([127, 128, 254, 255, 256, 257, 300]);
        if !c.quick() {
            ns.extend([512, 999, 1000, 1001, 2000]);
        }
        for n in ns {
            if n > K::CARD {
                continue;
            }
            for h in ALL {
                for order in 0..c.pick(1, 3) {
                    c.case(
                        || format!("FrozenSet<{}, {h:?}> of the first {n} values, order {order}", K::NAME),
                        |cx| {
                            let mut keys: Vec<K> = (0..n).map(K::gen).collect();
                            match order {
                                1 => keys.reverse(),
                                2 => keys.rotate_left(n / 2),
                                _ => {}
                            }
                            let absent: Vec<K> = (n..(n + 12).min(K::CARD)).map(K::gen).collect();
                            check(cx, &keys, &absent, h)?;
                            let s = FS::from_vec_with_hasher((0..n).map(K::gen).collect(), h);
                            for i in 0..n {
                                let k = K::alt(i);
                                ck!(s.contains(&k), "contains({k:?}) is false");
                                let g = s.get(&k).ok_or_else(|| format!("get({k:?}) is None"))?;
                                ck!(format!("{g:?}") == format!("{:?}", K::gen(i)), "get({k:?}) returns {g:?}, stored was {:?}", K::gen(i));
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
        for k in 0..=5 {
            subsets(K::CARD.min(9), k, &mut |s| {
                for h in [MIX, LOW2] {
                    c.case(
                        || format!("FrozenSet<{}, {h:?}> of values {s:?}", K::NAME),
                        |cx| {
                            let keys: Vec<K> = s.iter().map(|i| K::gen(*i)).collect();
                            let absent: Vec<K> = (0..K::CARD.min(12)).filter(|i| !s.contains(i)).map(K::gen).collect();
                            check(cx, &keys, &absent, h)
                        },
                    );
                }
            });
        }
    });
}

const CODES: [u64; 8] = [0, 1, 2, 3, 7, 1 << 63, u64::MAX, 1 << 32];

fn main() {
    let mut c = Ctx::from_args();
    let w = c.pick(10, 15);
    c.scenario("u32-windows", |c| windows(w, 3, |s| run_u(c, s)));
    c.scenario("u32-special-values", |c| {
        for k in 0..=c.pick(4, 6) {
            subsets(SPECIALS.len(), k, &mut |s| run_u(c, US::List(s.iter().map(|i| SPECIALS[*i]).collect())));
        }
    });
    c.scenario("u32-small-spread", |c| {
        let (n, k) = c.pick((40, 4), (44, 5));
        subsets(n, k, &mut |s| run_u(c, US::List(s.iter().map(|i| *i as u32).collect())));
    });
    c.scenario("u32-sizes", |c| {
        for n in sizes(c.quick()) {
            for fam in 0..UFAMS {
                for order in 0..c.pick(1, 3) {
                    run_u(c, US::Fam { fam, n, order: if c.quick() { fam % 3 } else { order } });
                }
            }
        }
    });
    c.scenario("u32-large", |c| {
        let sizes: &[usize] = c.pick(&LARGE[4..5], &LARGE[..]);
        for &n in sizes {
            for fam in 0..UFAMS {
                run_u(c, US::Fam { fam, n, order: (fam % 3) });
            }
        }
    });
    let few = [PH(0), PH(1), PH(3), PH(14), PH(15)];
    c.scenario("str-subsets", |c| {
        for uni in 0..UNIVERSES {
            let n = universe(uni).len();
            for mask in 0..1u64 << n {
                let hs: &[PH] = if c.quick() && n > 13 { &few[..2] } else if c.quick() { &few } else { &ALL };
                for &h in hs {
                    run_s(c, SS::Mask { uni, mask, order: (mask % 3) as u8 }, h);
                }
            }
        }
    });
    c.scenario("str-sizes", |c| {
        let ns: Vec<usize> = if c.quick() {
            (0..=24).chain([63, 64, 100, 128, 200]).chain(253..=258).chain([300, 999, 1000, 1001, 1002]).collect()
        } else {
            (0..=300).chain([512, 999, 1000, 1001, 1002, 1024, 4096]).collect()
        };
        for n in ns {
            for fam in 0..SFAMS {
                if matches!(fam, 6 | 7 | 8 | 9 | 10) && n > 600 {
                    continue;
                }
                for (p, s) in [(0, 0), (2, 1), (0, 3), (17, 0)] {
                    for h in c.pick(&few[..3], &ALL[..]) {
                        run_s(c, SS::Fam { fam, n, p, s, order: fam % 3 }, *h);
                    }
                }
            }
        }
    });
    mc::all_key_types!(typ, &mut c);
    c.scenario("hash-tables", |c| {
        for n in 1..=c.pick(5usize, 6) {
            words(8, n, &mut |w| {
                c.case(
                    || format!("FrozenSet of {n} values with hash codes {:?}", w.iter().map(|i| CODES[*i]).collect::<Vec<_>>()),
                    |cx| {
                        let mut codes = [0; 16];
                        for (i, x) in w.iter().enumerate() {
                            codes[i] = CODES[*x];
                        }
                        for i in 0..8 {
                            codes[8 + i] = CODES[i];
                        }
                        set_codes(codes);
                        let keys: Vec<CK> = (0..n as u8).map(CK).collect();
                        let absent: Vec<CK> = (8..16).map(CK).collect();
                        check(cx, &keys, &absent, IDENT)
                    },
                );
            });
        }
    });
    c.scenario("many-values", |c| {
        for n in sizes(c.quick()) {
            if n > 1100 && c.quick() {
                continue;
            }
            for class in 0..9 {
                if class == 0 && n > 1100 {
                    continue;
                }
                let code = |i: usize| -> u64 {
                    let x = i as u64;
                    [5, x, x / 2, x * n as u64, x % 3, x << 56, mix(x), mix(x) & 0xff, x * x][class]
                };
                c.case(
                    || format!("FrozenSet of {n} values, hash codes of class {class}"),
                    |cx| {
                        let keys: Vec<HK> = (0..n).map(|i| HK { id: i as u32, code: code(i) }).collect();
                        let mut absent: Vec<HK> = Vec::new();
                        for (j, k) in keys.iter().enumerate().step_by((n / 16).max(1)) {
                            absent.push(HK { id: 1_000_000 + j as u32, code: k.code });
                            absent.push(HK { id: 2_000_000 + j as u32, code: k.code ^ 1 });
                        }
                        check(cx, &keys, &absent, IDENT)
                    },
                );
            }
        }
    });
    c.finish();
}
