//! Frozen maps are correct for any key type and any hash function.
use mc::hashers::*;
use mc::keys::*;
use mc::maps::{content, lookups, paired, FM};
use mc::spaces::*;
use mc::*;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

fn check<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, keys: &[K], absent: &[K], h: PH) -> R {
    let model = paired(keys);
    let mut m = FM::from_vec_with_hasher(model.clone(), h);
    lookups(cx, &mut m, &model, absent)?;
    content(cx, &m, &model)
}

fn typ<K: Gen>(c: &mut Ctx) {
    c.scenario(&format!("type {}", K::NAME), |c| {
        let mut ns: Vec<usize> = (0..=c.pick(24, 64)).collect();
        ns.extend([126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300]);
        if !c.quick() {
            ns.extend([512, 999, 1000, 1001, 2000]);
        }
        for n in ns {
            if n > K::CARD {
                continue;
            }
            for h in ALL {
                for order in 0..c.pick(1, 3) {
                    c.case(
                        || format!("FrozenMap<{}, u32, {h:?}> of the first {n} keys, order {order}", K::NAME),
                        |cx| {
                            let mut keys: Vec<K> = (0..n).map(K::gen).collect();
                            match order {
                                1 => keys.reverse(),
                                2 => keys.rotate_left(n / 2),
                                _ => {}
                            }
                            let absent: Vec<K> = (n..(n + 12).min(K::CARD)).map(K::gen).collect();
                            check(cx, &keys, &absent, h)?;
                            // equal keys which are not identical find the stored ones
                            let m = FM::from_vec_with_hasher((0..n).map(|i| (K::gen(i), i)).collect(), h);
                            for i in 0..n {
                                let k = K::alt(i);
                                ck!(m.get(&k) == Some(&i), "get({k:?}) is {:?} instead of {i}", m.get(&k));
                                let (s, v) = m.get_key_value(&k).ok_or_else(|| format!("get_key_value({k:?}) is None"))?;
                                ck!(*v == i, "get_key_value({k:?}) has value {v} instead of {i}");
                                ck!(format!("{s:?}") == format!("{:?}", K::gen(i)), "get_key_value({k:?}) returns the key {s:?}, stored was {:?}", K::gen(i));
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
        // all small subsets, in which the types' peculiarities matter
        for k in 0..=5 {
            subsets(K::CARD.min(9), k, &mut |s| {
                for h in [MIX, LOW2] {
                    c.case(
                        || format!("FrozenMap<{}, u32, {h:?}> of keys {s:?}", K::NAME),
                        |cx| {
                            let keys: Vec<K> = s.iter().map(|i| K::gen(*i)).collect();
                            let absent: Vec<K> = (0..K::CARD.min(12)).filter(|i| !s.contains(i)).map(K::gen).collect();
                            check(cx, &keys, &absent, h)
                        },
                    );
                }
            });
        }
    });
}

fn value<V: Clone + PartialEq + Debug + 'static>(c: &mut Ctx, name: &str, mk: fn(usize) -> V) {
    c.scenario(&format!("value {name}"), |c| {
        let fams = [
            US::Fam { fam: 0, n: 0, order: 0 },
            US::Fam { fam: 0, n: 3, order: 0 },
            US::Fam { fam: 1, n: 5, order: 1 },
            US::Fam { fam: 13, n: 6, order: 2 },
            US::Fam { fam: 10, n: 30, order: 0 },
            US::Fam { fam: 0, n: 257, order: 1 },
            US::Fam { fam: 3, n: 255, order: 1 },
            US::Fam { fam: 3, n: 256, order: 1 },
        ];
        for spec in fams {
            for h in [MIX, ZERO] {
                c.case(
                    || format!("value type {name}, keys u32 / String / (u32,) of {spec:?}, {h:?}"),
                    |cx| {
                        let keys = spec.keys();
                        let probes = uprobes(&keys);
                        let model: Vec<(u32, V)> = keys.iter().enumerate().map(|(i, k)| (*k, mk(i))).collect();
                        let mut m = FM::from_vec_with_hasher(model.clone(), h);
                        lookups(cx, &mut m, &model, &probes)?;
                        content(cx, &m, &model)?;
                        for w in [0, 3, 6] {
                            let f = |k: &u32| format!("{}{k:0w$}", "q".repeat(w / 3));
                            let smodel: Vec<(String, V)> = model.iter().map(|(k, v)| (f(k), v.clone())).collect();
                            let sprobes: Vec<String> = probes.iter().take(50).map(f).collect();
                            let mut m = FM::from_vec_with_hasher(smodel.clone(), h);
                            lookups(cx, &mut m, &smodel, &sprobes)?;
                            content(cx, &m, &smodel)?;
                        }
                        let tmodel: Vec<((u32,), V)> = model.iter().map(|(k, v)| ((*k,), v.clone())).collect();
                        let tprobes: Vec<(u32,)> = probes.iter().map(|k| (*k,)).collect();
                        let mut m = FM::from_vec_with_hasher(tmodel.clone(), h);
                        lookups(cx, &mut m, &tmodel, &tprobes)?;
                        content(cx, &m, &tmodel)
                    },
                );
            }
        }
    });
}

const CODES: [u64; 8] = [0, 1, 2, 3, 7, 1 << 63, u64::MAX, 1 << 32];

fn main() {
    let mut c = Ctx::from_args();
    mc::all_key_types!(typ, &mut c);
    value::<()>(&mut c, "()", |_| ());
    value::<u8>(&mut c, "u8", |i| i as u8);
    value::<[u64; 40]>(&mut c, "[u64; 40]", |i| [i as u64; 40]);
    value::<String>(&mut c, "String", |i| format!("value {i}"));
    value::<Option<Box<u16>>>(&mut c, "Option<Box<u16>>", |i| (i % 3 > 0).then(|| Box::new(i as u16)));
    value::<Aligned>(&mut c, "Aligned(64)", |i| Aligned(i as u8));
    value::<Vec<Vec<u8>>>(&mut c, "Vec<Vec<u8>>", |i| vec![vec![i as u8; i % 5]; i % 3]);
    value::<fn(u32) -> u32>(&mut c, "fn", |i| if i % 2 == 0 { |x| x + 1 } else { |x| x + 2 });

    // every assignment of hash codes to keys
    c.scenario("hash-tables", |c| {
        for n in 1..=c.pick(5usize, 6) {
            words(8, n, &mut |w| {
                c.case(
                    || format!("FrozenMap of {n} keys with hash codes {:?}", w.iter().map(|i| CODES[*i]).collect::<Vec<_>>()),
                    |cx| {
                        let mut codes = [0; 16];
                        for (i, x) in w.iter().enumerate() {
                            codes[i] = CODES[*x];
                        }
                        // absent keys with each of the codes, which includes those of all keys
                        for i in 0..8 {
                            codes[8 + i] = CODES[i];
                        }
                        set_codes(codes);
                        let keys: Vec<CK> = (0..n as u8).map(CK).collect();
                        let absent: Vec<CK> = (8..16).map(CK).collect();
                        check(cx, &keys, &absent, IDENT)
                    },
                );
            });
        }
    });
    // hash codes from a small range, more keys
    c.scenario("hash-classes", |c| {
        for n in [6usize, 7, 8] {
            words(c.pick(3, 4), n, &mut |w| {
                c.case(
                    || format!("FrozenMap of {n} keys with hash codes {w:?}"),
                    |cx| {
                        let keys: Vec<HK> = w.iter().enumerate().map(|(i, x)| HK { id: i as u32, code: *x as u64 }).collect();
                        let absent: Vec<HK> = (0..5u64).map(|x| HK { id: 100 + x as u32, code: x }).collect();
                        check(cx, &keys, &absent, IDENT)
                    },
                );
            });
        }
    });
    c.scenario("many-keys", |c| {
        for n in sizes(c.quick()) {
            if n > 1100 && c.quick() {
                continue;
            }
            for class in 0..14 {
                if class == 0 && n > 1100 {
                    continue;
                }
                let code = |i: usize| -> u64 {
                    let (x, n) = (i as u64, n as u64);
                    match class {
                        0 => 5,
                        1 => x,
                        2 => x / 2,
                        3 => x * n,
                        4 => u64::from(i + 1 == n as usize),
                        5 => x % 3,
                        6 => x << 56,
                        7 => u64::MAX - x,
                        8 => mix(x),
                        9 => mix(x) & 0xff,
                        10 => x * 131,
                        11 => x * 163 * 131,
                        12 => x * x,
                        13 => x / 20 * 7,
                        _ => unreachable!(),
                    }
                };
                c.case(
                    || format!("FrozenMap of {n} keys, hash codes of class {class}"),
                    |cx| {
                        let keys: Vec<HK> = (0..n).map(|i| HK { id: i as u32, code: code(i) }).collect();
                        // absent keys: same codes as stored ones, neighbouring codes
                        let mut absent: Vec<HK> = Vec::new();
                        for (j, k) in keys.iter().enumerate().step_by((n / 16).max(1)) {
                            absent.push(HK { id: 1_000_000 + j as u32, code: k.code });
                            absent.push(HK { id: 2_000_000 + j as u32, code: k.code ^ 1 });
                        }
                        check(cx, &keys, &absent, IDENT)
                    },
                );
            }
        }
    });
    c.finish();
}
