//! Iterating a map yields every entry exactly once.
use mc::iters::{drain, tapes, walk};
use mc::keys::*;
use mc::maps::{content, MapLike};
use mc::zoo::*;
use mc::*;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

fn iterators<K: Clone + Eq + Hash + Debug + 'static, V: Val>(cx: &mut Cx, m: &dyn MapLike<K, V>, model: &[(K, V)], depth: usize, stride: usize) -> R {
    content(cx, m, model)?;
    let n = model.len();
    // the references to expect are those which lookups give
    let keys: Vec<&K> = drain(cx, m.key_iter(), n)?;
    let mut exp: Vec<(&K, &V)> = Vec::with_capacity(n);
    for k in keys {
        exp.push(m.get_kv(k).ok_or_else(|| format!("keys() yields {k:?} which is not found"))?);
    }
    let ks: Vec<&K> = exp.iter().map(|e| e.0).collect();
    let vs: Vec<&V> = exp.iter().map(|e| e.1).collect();
    let deep = n <= 300;
    let se = |a: &(&K, &V), b: &(&K, &V)| std::ptr::eq(a.0, b.0) && std::ptr::eq(a.1, b.1);
    let sk = |a: &&K, b: &&K| std::ptr::eq(*a, *b);
    let sv = |a: &&V, b: &&V| std::ptr::eq(*a, *b);
    walk(cx, &|| m.entries(), &exp, &se, deep).map_err(|e| format!("iter(): {e}"))?;
    walk(cx, &|| m.ref_iter(), &exp, &se, deep).map_err(|e| format!("iteration over a reference: {e}"))?;
    walk(cx, &|| m.key_iter(), &ks, &sk, deep).map_err(|e| format!("keys(): {e}"))?;
    walk(cx, &|| m.value_iter(), &vs, &sv, deep).map_err(|e| format!("values(): {e}"))?;
    // call sequences from every (or every so many) position
    let mut p = 0;
    while p <= n {
        let mut a = m.entries();
        let mut r = m.ref_iter();
        let mut k = m.key_iter();
        let mut v = m.value_iter();
        for _ in 0..p {
            a.step();
            r.step();
            k.step();
            v.step();
        }
        tapes(cx, &a, &exp[p..], &se, depth).map_err(|e| format!("iter() from {p}: {e}"))?;
        tapes(cx, &r, &exp[p..], &se, depth).map_err(|e| format!("iteration over a reference from {p}: {e}"))?;
        tapes(cx, &k, &ks[p..], &sk, depth).map_err(|e| format!("keys() from {p}: {e}"))?;
        tapes(cx, &v, &vs[p..], &sv, depth).map_err(|e| format!("values() from {p}: {e}"))?;
        p += stride;
    }
    cx.out(n as u64);
    Ok(())
}

fn explore<K: Clone + Eq + Hash + Debug + 'static, V: Val>(c: &mut Ctx, name: &str, zoo: Vec<Zoo<K, V>>, mk: fn(usize) -> V) {
    c.scenario(name, |c| {
        let depth = c.pick(3, 4);
        for z in &zoo {
            let n = z.keys.len();
            // the keys as listed, reversed, rotated
            for order in 0..3 {
                c.case(
                    || format!("{} with keys {:?}, order {order}", z.name, &z.keys[..n.min(12)]),
                    |cx| {
                        let mut model: Vec<(K, V)> = z.keys.iter().cloned().enumerate().map(|(i, k)| (k, mk(i))).collect();
                        match order {
                            1 => model.reverse(),
                            2 => model.rotate_left(n / 2),
                            _ => {}
                        }
                        let mut m = (z.make)(model.clone());
                        let (d, s) = if n <= 10 { (depth, 1) } else { (2, n / 5) };
                        iterators(cx, &*m as &dyn MapPlus<K, V>, &model, d, s)?;
                        // again after all values were replaced
                        for (i, e) in model.iter_mut().enumerate() {
                            let v = mk(n + i + 1);
                            *m.get_mut(&e.0).ok_or("get_mut fails")? = v.clone();
                            e.1 = v;
                        }
                        iterators(cx, &*m as &dyn MapPlus<K, V>, &model, 1, s.max(2))?;
                        // and on a clone
                        let d = m.dup();
                        drop(m);
                        iterators(cx, &*d as &dyn MapPlus<K, V>, &model, 1, s.max(2))
                    },
                );
            }
        }
    });
}

fn typ<K: Gen>(c: &mut Ctx) {
    let big = !c.quick();
    explore::<K, u64>(c, &format!("{} -> u64", K::NAME), gen_maps(big), |i| i as u64);
}

fn main() {
    let mut c = Ctx::from_args();
    explore::<u32, u64>(&mut c, "u32 -> u64", u32_maps(true), |i| i as u64);
    explore::<String, u64>(&mut c, "String -> u64", str_maps(true), |i| i as u64);
    explore::<u32, String>(&mut c, "u32 -> String", u32_maps(true), |i| format!("v{i}"));
    explore::<String, Aligned>(&mut c, "String -> Aligned", str_maps(false), |i| Aligned(i as u8));
    explore::<u32, ()>(&mut c, "u32 -> ()", u32_maps(true), |_| ());
    mc::all_key_types!(typ, &mut c);
    // wider windows, lighter
    c.scenario("windows", |c| {
        spaces::windows(c.pick(8, 11), 2, |s| {
            c.case(
                || format!("FrozenMap<u32, u32> of {s:?}"),
                |cx| {
                    let model = maps::paired(&s.keys());
                    let m = maps::FM::from_vec_with_hasher(model.clone(), hashers::MIX);
                    iterators(cx, &m, &model, 2, 2)
                },
            );
        });
    });
    c.scenario("sizes", |c| {
        for n in spaces::sizes(c.quick()) {
            for fam in [0u8, 3, 6, 11, 16, 13] {
                c.case(
                    || format!("FrozenMap<u32, u32> of {n} keys of family {fam}"),
                    |cx| {
                        let model = maps::paired(&spaces::US::Fam { fam, n, order: fam % 3 }.keys());
                        let m = maps::FM::from_vec_with_hasher(model.clone(), hashers::MIX);
                        content(cx, &m, &model)?;
                        let mut it = m.iter();
                        for i in 0..=n {
                            ck!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)), "len() is {} with {} left", it.len(), n - i);
                            ck!(it.next().is_some() == (i < n), "ends at {i}");
                        }
                        ck!(m.keys().count() == n && m.values().count() == n && m.iter().count() == n, "count() is wrong");
                        ck!(m.iter().map(|e| *e.0 as u64).sum::<u64>() == model.iter().map(|e| e.0 as u64).sum(), "sum of keys is wrong");
                        ck!(m.iter().last().map(|e| *e.0) == m.keys().last().copied(), "last() is wrong");
                        cx.tr(n as u64 * 2);
                        Ok(())
                    },
                );
            }
        }
    });
    c.finish();
}
