//! String-keyed frozen maps answer every lookup like an ordinary map.
use mc::hashers::{ALL, PH};
use mc::maps::{content, lookups, paired, FM};
use mc::spaces::*;
use mc::*;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

fn check(cx: &mut Cx, keys: &[String], h: PH) -> R {
    let model = paired(keys);
    let probes = sprobes(keys);
    let mut m = FM::from_vec_with_hasher(model.clone(), h);
    lookups(cx, &mut m, &model, &probes)?;
    content(cx, &m, &model)?;
    cx.out(keys.len() as u64);
    Ok(())
}

fn run(c: &mut Ctx, spec: SS, h: PH) {
    c.case(|| format!("FrozenMap<String, u32, {h:?}> of {:?}", spec), |cx| check(cx, &spec.keys(), h));
}

fn main() {
    let mut c = Ctx::from_args();
    let few = [PH(0), PH(1), PH(3), PH(14), PH(15)];
    c.scenario("all-subsets", |c| {
        for uni in 0..UNIVERSES {
            let n = universe(uni).len();
            for mask in 0..1u64 << n {
                let k = mask.count_ones();
                let hs: &[PH] = if c.quick() && n > 13 { &few[..3] } else if c.quick() { &few } else { &ALL };
                for &h in hs {
                    let orders = if k < 2 || n > 13 { 1 } else { c.pick(1, 3) };
                    for order in 0..orders {
                        // three orders in turn
                        let order = if c.quick() { (mask % 3) as u8 } else { order };
                        run(c, SS::Mask { uni, mask, order }, h);
                    }
                }
            }
        }
    });
    c.scenario("subsets-all-hashers", |c| {
        for uni in 0..UNIVERSES {
            let n = universe(uni).len();
            for k in 4..=c.pick(5, 6) {
                let mut i = 0u64;
                subsets(n, k, &mut |s| {
                    i += 1;
                    let mask = s.iter().fold(0u64, |m, i| m | 1 << i);
                    for &h in &ALL {
                        if c.quick() && n > 13 && (i + u64::from(h.0)) % 3 != 0 {
                            continue;
                        }
                        run(c, SS::Mask { uni, mask, order: (i % 3) as u8 }, h);
                    }
                });
            }
        }
    });
    c.scenario("words", |c| {
        // every 4- and 5-element set of the words of length 2 and 3 over a small alphabet
        let w: Vec<String> = words_upto(&["a", "b", "c"], 3).into_iter().filter(|w| w.len() >= 2).collect();
        for k in 4..=c.pick(4, 5) {
            subsets(w.len(), k, &mut |s| {
                run(c, SS::List(s.iter().map(|i| w[*i].clone()).collect()), PH(0));
            });
        }
    });
    c.scenario("affixes", |c| {
        // all prefix and suffix lengths around the limits on subslice lengths
        for fam in 0..SFAMS {
            let ends: Vec<usize> = c.pick(vec![0, 1, 2, 7, 14, 15, 16, 17], (0..=18).collect());
            for &p in &ends {
                for &s in &ends {
                    if (fam == 6 || fam == 10) && s > 0 {
                        continue;
                    }
                    for n in c.pick(vec![4, 5, 20], vec![4, 5, 8, 16, 20, 21, 40, 60, 100]) {
                        let hs: &[PH] = c.pick(&few[..3], &few);
                        for &h in hs {
                            run(c, SS::Fam { fam, n, p, s, order: (p % 3) as u8 }, h);
                        }
                    }
                }
            }
        }
    });
    c.scenario("sizes", |c| {
        for fam in 0..SFAMS {
            let mut sizes: Vec<usize> = c.pick((0..=64).chain([100, 126, 127, 128, 129, 130]).collect(), (0..=300).collect());
            sizes.extend([240, 250, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300]);
            for n in sizes {
                for (p, s) in [(0, 0), (1, 2), (17, 3)] {
                    for h in c.pick(vec![PH(0), PH(1), PH(14)], ALL.to_vec()) {
                        run(c, SS::Fam { fam, n, p, s, order: 0 }, h);
                    }
                }
            }
        }
    });
    c.scenario("large", |c| {
        for fam in 0..SFAMS {
            for n in c.pick(vec![512, 999, 1000, 1001], vec![512, 700, 999, 1000, 1001, 2000, 5000, 10_000]) {
                if n > 600 && matches!(fam, 6..=10 | 17) {
                    continue;
                }
                for (p, s) in [(0, 0), (2, 1)] {
                    for h in [PH(0), PH(3), PH(16)] {
                        run(c, SS::Fam { fam, n, p, s, order: 1 }, h);
                    }
                }
            }
        }
        for fam in [0, 1, 5, 21] {
            for h in [PH(0), PH(5), PH(14)] {
                // 5 % of so many keys may collide completely
                let n = if h == PH(0) { 65_536 } else { 8_000 };
                run(c, SS::Fam { fam, n, p: 1, s: 1, order: 0 }, h);
            }
        }
    });
    c.scenario("long-keys", |c| {
        for len in [254usize, 255, 256, 257, 65_534, 65_535, 65_536, 65_537] {
            for n in [4usize, 5, 20] {
                for place in 0..4 {
                    for h in few {
                        let keys: Vec<String> = (0..n)
                            .map(|i| {
                                let u = char::from(b'A' + i as u8).to_string();
                                match place {
                                    0 => format!("{u}{}", "x".repeat(len - 1)),
                                    1 => format!("{}{u}", "x".repeat(len - 1)),
                                    2 => format!("{}{u}{}", "x".repeat(len / 2), "x".repeat(len - 1 - len / 2)),
                                    _ => "x".repeat(len + i),
                                }
                            })
                            .collect();
                        c.case(
                            || format!("FrozenMap<String, u32, {h:?}> of {n} keys of length {len}, distinct in place {place}"),
                            |cx| check(cx, &keys, h),
                        );
                    }
                }
            }
        }
    });
    c.finish();
}
