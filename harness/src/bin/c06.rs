//! Building a frozen collection always succeeds.
use frozen_collections_core::traits::len::Len;
use mc::hashers::*;
use mc::keys::*;
use mc::maps::FM;
use mc::sets::FS;
use mc::spaces::*;
use mc::*;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// Builds a map and a set in bounded memory, drops them, and sees that all memory was given back.
fn build<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, keys: Vec<K>, distinct: usize, h: PH) -> R {
    let n = keys.len();
    let room = (64 << 20) + n * (4096 + 8 * std::mem::size_of::<K>());
    let before = mc::alloc::live();
    let pairs: Vec<(K, u32)> = keys.iter().cloned().zip(0..).collect();
    let set: Vec<K> = keys.clone();
    mc::alloc::limit(Some(room));
    let m = catch(move || FM::from_vec_with_hasher(pairs, h));
    mc::alloc::limit(None);
    let m = m.map_err(|p| format!("building the map panics: {p}"))?;
    ck!(m.len() == distinct, "the map has {} entries instead of {distinct}", m.len());
    mc::alloc::limit(Some(room));
    let s = catch(move || FS::from_vec_with_hasher(set, h));
    mc::alloc::limit(None);
    let s = s.map_err(|p| format!("building the set panics: {p}"))?;
    ck!(Len::len(&s) == distinct, "the set has {} elements instead of {distinct}", Len::len(&s));
    for i in [0, n / 2, n.wrapping_sub(1)] {
        if let Some(k) = keys.get(i) {
            ck!(m.contains_key(k), "contains_key({k:?}) is false");
            ck!(s.contains(k), "contains({k:?}) is false");
        }
    }
    drop(m);
    drop(s);
    let after = mc::alloc::live();
    ck!(after == before, "{} bytes are not given back", after - before);
    cx.tr(2);
    cx.st();
    Ok(())
}

fn u(c: &mut Ctx, spec: US) {
    c.case(
        || format!("building from u32 keys {spec:?}"),
        |cx| {
            let k = spec.keys();
            let n = k.len();
            build(cx, k, n, MIX)
        },
    );
}

fn s(c: &mut Ctx, spec: SS, h: PH) {
    c.case(
        || format!("building from String keys {spec:?} with {h:?}"),
        |cx| {
            let k = spec.keys();
            let n = k.len();
            build(cx, k, n, h)
        },
    );
}

fn typ<K: Gen>(c: &mut Ctx) {
    c.scenario(&format!("type {}", K::NAME), |c| {
        for n in (0..=c.pick(10, 40)).chain([254, 255, 256, 257, 999, 1000, 1001]) {
            if n > K::CARD {
                continue;
            }
            for h in ALL {
                for rep in 0..2 {
                    c.case(
                        || format!("building from {n} keys of type {}, {h:?}, repetitions {rep}", K::NAME),
                        |cx| {
                            let mut k: Vec<K> = (0..n).map(K::gen).collect();
                            if rep == 1 {
                                k.extend((0..n).map(K::alt));
                            }
                            build(cx, k, n, h)
                        },
                    );
                }
            }
        }
    });
}

const CODES: [u64; 8] = [0, 1, 2, 3, 7, 1 << 63, u64::MAX, 1 << 32];

fn main() {
    let mut c = Ctx::from_args();
    let w = c.pick(14, 18);
    c.scenario("u32-windows", |c| windows(w, 1, |x| u(c, x)));
    c.scenario("u32-special-values", |c| {
        for k in 0..=c.pick(6, 7) {
            subsets(SPECIALS.len(), k, &mut |x| u(c, US::List(x.iter().map(|i| SPECIALS[*i]).collect())));
        }
    });
    c.scenario("u32-sizes", |c| {
        for n in 0..=c.pick(1030, 4200) {
            for fam in 0..UFAMS {
                u(c, US::Fam { fam, n, order: ((n + fam as usize) % 3) as u8 });
            }
        }
    });
    c.scenario("u32-large", |c| {
        for n in [16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 131_073, 262_144].into_iter().chain(if c.quick() { vec![] } else { vec![1 << 20, 3_000_001] }) {
            for fam in 0..UFAMS {
                if !c.quick() || n < 100_000 || fam % 4 == 0 {
                    u(c, US::Fam { fam, n, order: fam % 3 });
                }
            }
        }
    });
    c.scenario("str-subsets", |c| {
        for uni in 0..UNIVERSES {
            let n = universe(uni).len();
            for mask in 0..1u64 << n {
                for h in ALL {
                    if c.quick() && n > 13 && h.0 % 6 != 0 {
                        continue;
                    }
                    s(c, SS::Mask { uni, mask, order: (mask % 3) as u8 }, h);
                }
            }
        }
    });
    c.scenario("str-sizes", |c| {
        let ns: Vec<usize> = if c.quick() {
            (0..=40).chain([63, 64, 100, 127, 128, 199, 200]).chain(250..=260).chain([300, 512, 998, 999, 1000, 1001, 1002, 1003]).collect()
        } else {
            (0..=320).chain(500..=530).chain(990..=1030).chain([4096, 20_000]).collect()
        };
        for n in ns {
            for fam in 0..SFAMS {
                if matches!(fam, 6 | 7 | 8 | 9 | 10) && n > 1100 {
                    continue;
                }
                for (p, q) in [(0, 0), (2, 1), (0, 3), (17, 0), (0, 40)] {
                    for h in [PH(0), PH(1), PH(3), PH(14), PH(15)] {
                        s(c, SS::Fam { fam, n, p, s: q, order: fam % 3 }, h);
                    }
                }
            }
        }
    });
    c.scenario("str-long", |c| {
        // very long strings: everywhere equal except at one place, or with very different lengths
        for len in [255usize, 256, 257, 65_535, 65_536, 65_537, 1 << 20] {
            for n in [1usize, 3, 4, 5, 20] {
                for class in 0..6 {
                    for h in [MIX, ZERO, SUM] {
                        c.case(
                            || format!("building from {n} strings of about {len} bytes, class {class}, {h:?}"),
                            |cx| {
                                let keys: Vec<String> = (0..n)
                                    .map(|i| {
                                        let ch = (b'A' + i as u8) as char;
                                        match class {
                                            0 => format!("{}{ch}", "q".repeat(len - 1)),
                                            1 => format!("{ch}{}", "q".repeat(len - 1)),
                                            2 => format!("{}{ch}{}", "q".repeat(len / 2), "q".repeat(len - len / 2 - 1)),
                                            3 => "q".repeat(len + i),
                                            4 => {
                                                if i == 0 {
                                                    "q".repeat(len)
                                                } else {
                                                    "r".repeat(i)
                                                }
                                            }
                                            _ => format!("{}{ch}", "q".repeat(len / (i + 1))),
                                        }
                                    })
                                    .collect();
                                build(cx, keys, n, h)
                            },
                        );
                    }
                }
            }
        }
    });
    c.scenario("str-large", |c| {
        let ns: &[usize] = c.pick(&[30_000, 65_536], &[30_000, 65_535, 65_536, 65_537, 300_000]);
        for &n in ns {
            for fam in [0, 1, 2, 4, 5, 11, 12, 14, 18, 19, 21] {
                for h in c.pick(&ALL[..1], &ALL[..2]) {
                    s(c, SS::Fam { fam, n, p: 1, s: 1, order: 0 }, *h);
                }
            }
        }
    });
    mc::all_key_types!(typ, &mut c);
    c.scenario("hash-tables", |c| {
        for n in 1..=c.pick(6usize, 7) {
            words(8, n, &mut |w| {
                c.case(
                    || format!("building from {n} keys with hash codes {:?}", w.iter().map(|i| CODES[*i]).collect::<Vec<_>>()),
                    |cx| {
                        let keys: Vec<HK> = w.iter().enumerate().map(|(i, x)| HK { id: i as u32, code: CODES[*x] }).collect();
                        build(cx, keys, n, IDENT)
                    },
                );
            });
        }
    });
    c.scenario("many-keys", |c| {
        for n in (0..=c.pick(520usize, 2100)).chain([999, 1000, 1001, 4096, 65_535, 65_536, 65_537]).chain(if c.quick() { None } else { Some(1_000_000) }) {
            for class in 0..12 {
                let code = |i: usize| -> u64 {
                    let x = i as u64;
                    match class {
                        0 => 5,
                        1 => x,
                        2 => x / 2,
                        3 => x.wrapping_mul(n as u64),
                        4 => x % 3,
                        5 => x << 56,
                        6 => mix(x),
                        7 => mix(x) & 0xff,
                        8 => x * x,
                        9 => u64::MAX - x,
                        10 => x.wrapping_mul(0x1234_5678_9abc_def0),
                        _ => u64::from(i == 0),
                    }
                };
                c.case(
                    || format!("building from {n} keys, hash codes of class {class}"),
                    |cx| build(cx, (0..n).map(|i| HK { id: i as u32, code: code(i) }).collect(), n, IDENT),
                );
            }
        }
    });
    // beyond the table of primes the analyser looks for a prime by itself
    c.scenario("beyond-the-primes", |c| {
        for n in [7_578_283usize, 7_578_284, 7_600_000] {
            for class in 0..4 {
                if c.quick() && (n < 7_600_000) != (class == 1) {
                    continue;
                }
                let code = |i: usize| -> u64 {
                    let x = i as u64;
                    match class {
                        0 => x * 2,
                        1 => x,
                        2 => mix(x),
                        _ => x.wrapping_mul(n as u64) + x % 7,
                    }
                };
                c.case(
                    || format!("building from {n} keys, hash codes of class {class}"),
                    |cx| build(cx, (0..n).map(|i| HK { id: i as u32, code: code(i) }).collect(), n, IDENT),
                );
            }
        }
    });
    c.finish();
}
