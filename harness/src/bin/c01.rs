//! Integer-keyed frozen maps answer every lookup like an ordinary map.
use mc::hashers::{MIX, ZERO};
use mc::maps::{content, lookups, paired, FM};
use mc::spaces::*;
use mc::*;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

fn check(cx: &mut Cx, keys: &[u32]) -> R {
    let model = paired(keys);
    let probes = uprobes(keys);
    let mut m = FM::from_vec_with_hasher(model.clone(), MIX);
    lookups(cx, &mut m, &model, &probes)?;
    content(cx, &m, &model)?;
    cx.out(keys.len() as u64);
    Ok(())
}

fn run(c: &mut Ctx, spec: US) {
    c.case(|| format!("FrozenMap<u32, u32> of {spec:?}"), |cx| check(cx, &spec.keys()));
}

fn main() {
    let mut c = Ctx::from_args();
    let w = c.pick(11, 15);
    c.scenario("windows", |c| windows(w, 3, |s| run(c, s)));
    c.scenario("permutations", |c| {
        for n in 0..=c.pick(6, 8) {
            for keys in [
                (0..n as u32).collect::<Vec<_>>(),
                (0..n as u32).map(|i| u32::MAX - i).collect(),
                (0..n as u32).map(|i| i * i + 3).collect(),
                SPECIALS[..n].to_vec(),
                SPECIALS[26 - n..].to_vec(),
            ] {
                permutations(n, &mut |p| run(c, US::List(p.iter().map(|i| keys[*i]).collect())));
            }
        }
    });
    c.scenario("special-values", |c| {
        for k in 0..=c.pick(5, 6) {
            subsets(SPECIALS.len(), k, &mut |s| {
                run(c, US::List(s.iter().map(|i| SPECIALS[*i]).collect()));
            });
        }
    });
    c.scenario("small-spread", |c| {
        let (n, k) = c.pick((40, 4), (44, 5));
        subsets(n, k, &mut |s| run(c, US::List(s.iter().map(|i| *i as u32).collect())));
    });
    c.scenario("sizes", |c| {
        for n in sizes(c.quick()) {
            for fam in 0..UFAMS {
                for order in 0..3 {
                    if order > 0 && c.quick() && n > 260 {
                        continue;
                    }
                    run(c, US::Fam { fam, n, order });
                }
            }
        }
    });
    c.scenario("large", |c| {
        let sizes: &[usize] = c.pick(&LARGE[2..5], &LARGE[..]);
        for &n in sizes {
            for fam in 0..UFAMS {
                if c.quick() && fam % 3 != 0 && n != 65_536 {
                    continue;
                }
                run(c, US::Fam { fam, n, order: (fam % 3) });
            }
        }
    });
    if !c.quick() {
        c.scenario("very-large", |c| {
            for n in [1_000_000, 7_199_368, 7_199_369, 7_578_284, 7_600_000] {
                for fam in [0, 3, 6, 16] {
                    let spec = US::Fam { fam, n, order: 0 };
                    c.case(
                        || format!("FrozenMap<u32, u32> of {spec:?}"),
                        |cx| {
                            let keys = spec.keys();
                            let model = paired(&keys);
                            let probes = uprobes(&keys);
                            let m = FM::from_vec_with_hasher(model.clone(), ZERO);
                            ck!(m.len() == n, "len() is {} instead of {n}", m.len());
                            for (k, v) in &model {
                                ck!(m.get(k) == Some(v), "get({k}) is {:?} instead of {v}", m.get(k));
                            }
                            for k in &probes {
                                ck!(m.get(k).is_none(), "get({k}) is {:?} for an absent key", m.get(k));
                            }
                            cx.tr((n + probes.len()) as u64);
                            Ok(())
                        },
                    );
                }
            }
        });
    }
    c.finish();
}
