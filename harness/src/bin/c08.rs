//! A mutation changes exactly the addressed value.
use mc::keys::*;
use mc::maps::MapLike;
use mc::zoo::*;
use mc::*;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// What a step does; keys are positions in the list, negative ones absent keys.
#[derive(Clone, Copy, Debug)]
enum Op {
    GetMut(i32),
    IndexMut(i32),
    Many1(i32),
    Many2(i32, i32),
    Many3(i32, i32, i32),
    Many4(i32, i32, i32, i32),
    Get(i32),
}

fn ops(n: usize, absent: usize, quick: bool) -> Vec<Op> {
    let mut at: Vec<i32> = if n <= 4 { (0..n as i32).collect() } else { vec![0, 1, n as i32 / 2, n as i32 - 1] };
    at.dedup();
    if absent > 0 {
        at.push(-1);
    }
    if absent > 1 && !quick {
        at.push(-(absent as i32));
    }
    let mut o = Vec::new();
    for &k in &at {
        o.push(Op::GetMut(k));
        o.push(Op::IndexMut(k));
    }
    if let Some(&k) = at.first() {
        o.push(Op::Many1(k));
        o.push(Op::Get(k));
    }
    for &a in &at {
        for &b in &at {
            if !quick || (a as i64 * 3 + b as i64) % 2 == 0 {
                o.push(Op::Many2(a, b));
            }
        }
    }
    if n >= 3 {
        o.push(Op::Many3(at[2], at[0], at[1]));
        o.push(Op::Many3(at[0], at[1], at[0]));
    }
    if n >= 4 {
        o.push(Op::Many4(at[3], at[1], at[0], at[2]));
    }
    o
}

fn apply<K: Clone + 'static, V: Val>(m: &mut dyn MapPlus<K, V>, z: &Zoo<K, V>, state: &mut [V], op: Op, fresh: &mut dyn FnMut() -> V) -> R
where
    K: Debug,
{
    let key = |i: i32| if i >= 0 { &z.keys[i as usize] } else { &z.absent[(-i - 1) as usize] };
    macro_rules! many {
        ($f:ident, $is:expr) => {{
            let is = $is;
            let ok = is.iter().all(|i| *i >= 0) && (0..is.len()).all(|i| (0..i).all(|j| is[i] != is[j]));
            match m.$f(is.map(key)) {
                Some(r) => {
                    ck!(ok, "get_many_mut gives references for absent or repeated keys");
                    for (x, i) in r.into_iter().zip(is) {
                        ck!(*x == state[i as usize], "get_many_mut gives {x:?} for {:?} instead of {:?}", key(i), state[i as usize]);
                        let v = fresh();
                        *x = v.clone();
                        state[i as usize] = v;
                    }
                }
                None => ck!(!ok, "get_many_mut gives nothing for {op:?}"),
            }
        }};
    }
    match op {
        Op::GetMut(i) => match m.get_mut(key(i)) {
            Some(x) => {
                ck!(i >= 0, "get_mut finds the absent {:?}", key(i));
                ck!(*x == state[i as usize], "get_mut({:?}) is {x:?} instead of {:?}", key(i), state[i as usize]);
                let v = fresh();
                *x = v.clone();
                state[i as usize] = v;
            }
            None => ck!(i < 0, "get_mut does not find {:?}", key(i)),
        },
        Op::IndexMut(i) => {
            let v = fresh();
            if i >= 0 {
                *m.at_mut(key(i).clone()) = v.clone();
                state[i as usize] = v;
            } else {
                let k = key(i).clone();
                ck!(catch(|| *m.at_mut(k) = v).is_err(), "mutable indexing with the absent {:?} does not panic", key(i));
            }
        }
        Op::Get(i) => {
            if i >= 0 {
                let g = m.get(key(i));
                ck!(g == Some(&state[i as usize]), "get({:?}) is {g:?} instead of {:?}", key(i), state[i as usize]);
            }
        }
        Op::Many1(i) => many!(many1, [i]),
        Op::Many2(a, b) => many!(many2, [a, b]),
        Op::Many3(a, b, c) => many!(many3, [a, b, c]),
        Op::Many4(a, b, c, d) => many!(many4, [a, b, c, d]),
    }
    Ok(())
}

fn explore<K: Clone + Eq + Hash + Debug + 'static, V: Val>(c: &mut Ctx, name: &str, zoo: Vec<Zoo<K, V>>, mk: fn(usize) -> V, depth: &dyn Fn(usize) -> usize) {
    c.scenario(name, |c| {
        let quick = c.quick();
        for z in &zoo {
            let n = z.keys.len();
            let ops = ops(n, z.absent.len(), quick || n > 20);
            let d = depth(n);
            for len in 0..=d {
                // one case per first op: the rest of the sequences are explored within
                for first in 0..if len == 0 { 1 } else { ops.len() } {
                    c.case(
                        || format!("{} with keys {:?}: all sequences of {len} operations beginning with {:?}", z.name, &z.keys[..n.min(12)], ops.get(first)),
                        |cx| {
                            let mut err = Ok(());
                            spaces::words(ops.len(), len.saturating_sub(1), &mut |w| {
                                if err.is_err() {
                                    return;
                                }
                                let seq: Vec<Op> = (len > 0).then_some(first).into_iter().chain(w.iter().copied()).map(|i| ops[i]).collect();
                                let mut next = 1_000_000;
                                let mut state: Vec<V> = (0..n).map(mk).collect();
                                let mut m = z.build(&mut |i| mk(i));
                                let order: Vec<K> = mc::iters::drain(cx, m.key_iter(), n + 1).unwrap_or_default().into_iter().cloned().collect();
                                err = (|| {
                                    for op in &seq {
                                        apply(&mut *m, z, &mut state, *op, &mut || {
                                            next += 1;
                                            mk(next)
                                        })?;
                                        cx.tr(1);
                                    }
                                    let model: Vec<(K, V)> = z.keys.iter().cloned().zip(state.iter().cloned()).collect();
                                    check(cx, &*m, &model, &z.absent, &order)
                                })()
                                .map_err(|e| format!("after {seq:?}: {e}"));
                                cx.st();
                            });
                            err
                        },
                    );
                }
            }
        }
    });
}

/// One long history: writes to every key in several ways, each of which must leave the others as they were.
fn long<K: Clone + Eq + Hash + Debug + 'static, V: Val>(cx: &mut Cx, z: &Zoo<K, V>, mk: fn(usize) -> V) -> R {
    let n = z.keys.len();
    let mut m = z.build(&mut |i| mk(i));
    let order: Vec<K> = mc::iters::drain(cx, m.key_iter(), n + 1)?.into_iter().cloned().collect();
    let at: std::collections::HashMap<&K, usize> = z.keys.iter().enumerate().map(|(i, k)| (k, i)).collect();
    let mut state: Vec<V> = (0..n).map(mk).collect();
    let mut next = 1_000_000;
    let mut fresh = || {
        next += 1;
        mk(next)
    };
    let full = |cx: &mut Cx, m: &dyn MapPlus<K, V>, state: &[V], what: &str| -> R {
        ck!(m.size() == n, "{what}: len() is {}", m.size());
        for (i, k) in z.keys.iter().enumerate() {
            let g = m.get(k);
            ck!(g == Some(&state[i]), "{what}: get({k:?}) is {g:?} instead of {:?}", state[i]);
        }
        let mut es = m.entries();
        let mut i = 0;
        while let Some((k, v)) = es.step() {
            ck!(order.get(i) == Some(k), "{what}: iteration position {i} has the key {k:?} instead of {:?}", order.get(i));
            ck!(*v == state[at[k]], "{what}: iteration yields ({k:?}, {v:?}) instead of {:?}", state[at[k]]);
            i += 1;
        }
        ck!(i == n, "{what}: iteration yields {i} entries");
        for k in z.absent.iter().take(4) {
            ck!(m.get(k).is_none(), "{what}: the absent {k:?} is found");
        }
        cx.tr(n as u64);
        cx.st();
        Ok(())
    };
    // with few keys everything is looked at after every write
    for i in 0..n {
        apply(&mut *m, z, &mut state, Op::GetMut(i as i32), &mut fresh)?;
        cx.tr(1);
        if n <= 40 {
            full(cx, &*m, &state, &format!("after get_mut of key {i}"))?;
        }
    }
    full(cx, &*m, &state, "after get_mut of every key")?;
    for i in (0..n).rev() {
        apply(&mut *m, z, &mut state, Op::IndexMut(i as i32), &mut fresh)?;
        cx.tr(1);
        if n <= 40 {
            full(cx, &*m, &state, &format!("after the assignment to key {i}"))?;
        }
    }
    full(cx, &*m, &state, "after assignments to every key")?;
    for i in 0..n {
        for d in [1, n / 2, n - 1] {
            apply(&mut *m, z, &mut state, Op::Many2(i as i32, ((i + d) % n) as i32), &mut fresh)?;
        }
        if n > 4 {
            let j = |d: usize| ((i * 7 + d) % n) as i32;
            apply(&mut *m, z, &mut state, Op::Many4(j(0), j(3), j(n / 2), j(n - 1)), &mut fresh)?;
        }
        cx.tr(4);
    }
    full(cx, &*m, &state, "after get_many_mut of every key")?;
    for i in 0..z.absent.len().min(6) {
        apply(&mut *m, z, &mut state, Op::GetMut(-(i as i32) - 1), &mut fresh)?;
        if n > 0 {
            apply(&mut *m, z, &mut state, Op::Many2(0, -(i as i32) - 1), &mut fresh)?;
        }
    }
    full(cx, &*m, &state, "after requests for absent keys")
}

fn sizes(c: &mut Ctx) {
    let (all, top) = c.pick((260, 5000), (1100, 10_000));
    for n in ladder(all, top) {
        c.scenario(&format!("size {n}"), |c| {
            for z in u32_maps_sized::<u64>(n) {
                c.case(|| format!("{} (u64 values)", z.name), |cx| long(cx, &z, |i| i as u64));
            }
            for z in u32_maps_sized::<u8>(n) {
                c.case(|| format!("{} (u8 values)", z.name), |cx| long(cx, &z, |i| i as u8));
            }
            for z in str_maps_sized::<[u16; 3]>(n) {
                c.case(|| format!("{} ([u16; 3] values)", z.name), |cx| long(cx, &z, |i| [i as u16, (i >> 16) as u16, 7]));
            }
        });
    }
}

fn check<K: Clone + Eq + Hash + Debug + 'static, V: Val>(cx: &mut Cx, m: &dyn MapPlus<K, V>, model: &[(K, V)], absent: &[K], order: &[K]) -> R {
    let m: &dyn MapPlus<K, V> = m;
    ck!(m.size() == model.len(), "len() is {} instead of {}", m.size(), model.len());
    for (k, v) in model {
        let g = m.get(k);
        ck!(g == Some(v), "get({k:?}) is {g:?} instead of {v:?}");
    }
    if let Some((k, v)) = model.last() {
        let g = m.get_kv(k);
        ck!(g == Some((k, v)), "get_key_value({k:?}) is {g:?} instead of {v:?}");
    }
    for k in absent.iter().take(4) {
        ck!(m.get(k).is_none() && !m.has(k), "absent {k:?} is found");
    }
    let mut i = 0;
    let mut es = m.entries();
    let mut vs = m.value_iter();
    while let Some((k, v)) = es.step() {
        ck!(order.get(i) == Some(k), "iteration position {i} has the key {k:?} instead of {:?}", order.get(i));
        let e = model.iter().find(|e| e.0 == *k).ok_or_else(|| format!("iteration yields {k:?}"))?;
        ck!(*v == e.1, "iteration yields ({k:?}, {v:?}) instead of {:?}", e.1);
        ck!(vs.step() == Some(v), "values() disagrees with iter()");
        i += 1;
    }
    ck!(i == model.len(), "iteration yields {i} entries instead of {}", model.len());
    cx.tr(model.len() as u64 + i as u64);
    Ok(())
}

fn typ<K: Gen>(c: &mut Ctx) {
    let d = c.pick(2, 3);
    explore::<K, u64>(c, &format!("{} -> u64", K::NAME), gen_maps(true), |i| i as u64, &|n| if n > 20 { 1 } else { d });
}

fn main() {
    let mut c = Ctx::from_args();
    let (d, e) = c.pick((3, 2), (4, 3));
    explore::<u32, u64>(&mut c, "u32 -> u64", u32_maps(true), |i| i as u64, &|n| if n > 20 { 1 } else if n > 5 { e } else { d });
    explore::<String, u64>(&mut c, "String -> u64", str_maps(true), |i| i as u64, &|n| if n > 20 { 1 } else { e });
    explore::<u32, String>(&mut c, "u32 -> String", u32_maps(false), |i| format!("v{i}"), &|_| e);
    explore::<String, ()>(&mut c, "String -> ()", str_maps(false), |_| (), &|_| 2);
    explore::<u32, Aligned>(&mut c, "u32 -> Aligned", u32_maps(true), |i| Aligned(i as u8), &|n| if n > 20 { 1 } else { 2 });
    explore::<u32, [u8; 3]>(&mut c, "u32 -> [u8; 3]", u32_maps(true), |i| [i as u8, (i >> 8) as u8, (i >> 16) as u8], &|n| if n > 20 { 1 } else { 2 });
    mc::all_key_types!(typ, &mut c);
    sizes(&mut c);
    c.finish();
}
