//! Every key and value is dropped exactly once.
//!
//! A history is a construction (kind, list with repetitions) followed by operations. It is run once
//! without faults, and once for every call the library makes into user code, with a panic in that call.
//! A ledger of all instances notices second drops, uses after the drop, and instances left over.
use mc::alloc::{blocks, live};
use mc::kinds::*;
use mc::maps::MapLike;
use mc::sets::SetLike;
use mc::user::*;
use mc::zoo::*;
use mc::*;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

const MAP_OPS: usize = 12;

#[inline(never)]
fn map_op<K: UKey, V: UVal>(kind: &MapKind<K, V>, m: MP<K, V>, word: &[usize], op: usize) -> Result<MP<K, V>, String> {
    let mut m = m;
    let key = |i: usize| K::mk(kind.table, i);
    let n = word.iter().max().map_or(0, |x| x + 1);
    match op {
        0 => {
            let d = m.dup();
            drop(d);
        }
        1 => {
            let d = m.dup();
            drop(m);
            m = d;
        }
        2 => {
            // assignment from one with other values
            let other = (kind.make)((0..n).map(|i| (key(i), V::mk(50 + i as u32))).collect());
            if other.as_any().type_id() == m.as_any().type_id() {
                m.assign(&*other);
            }
        }
        3 => {
            for i in 0..n + 2 {
                let k = key(i);
                let f = m.get(&k).is_some();
                ck!(f == (i < n), "get of key {i} is {f}");
                ck!(m.has(&k) == f && m.get_kv(&k).is_some() == f, "lookups differ");
            }
        }
        4 => {
            let mut it = m.entries();
            let mut c = 0;
            while let Some(e) = it.step() {
                tick(Call::Own);
                c += 1;
                let _ = (e.0.id(), e.1.id());
            }
            ck!(c == n, "iterates over {c} entries");
            let _ = it;
            let _ = m.key_iter().collect_all().len() + m.value_iter().fold_all().len();
        }
        5 => {
            let _ = m.dbg(false).len() + m.dbg(true).len();
            let _ = m.entries().dbg(false).len();
        }
        6 => {
            for i in 0..n {
                let k = key(i);
                *m.get_mut(&k).ok_or("get_mut fails")? = V::mk(80 + i as u32);
            }
        }
        7 => {
            if n >= 2 {
                let (a, b) = (key(0), key(n - 1));
                let [x, y] = m.many2([&a, &b]).ok_or("get_many_mut fails")?;
                std::mem::swap(x, y);
                *x = V::mk(99);
            }
            let (a, b, c) = (key(0), key(1), key(n));
            ck!(m.many3([&a, &b, &c]).is_none(), "get_many_mut finds an absent key");
            ck!(m.many2([&a, &a]).is_none(), "get_many_mut gives two references to one value");
        }
        8 => {
            let d = m.dup();
            ck!(m.same(&*d) && !d.differs(&*m), "a clone differs");
        }
        9 => {
            if n > 0 {
                let _ = m.at(key(n - 1)).id();
                *m.at_mut(key(0)) = V::mk(3);
            }
        }
        10 => {
            // the library panics; the probe must still be dropped once
            let (a, b) = (key(n), key(n + 1));
            ck!(catch(|| m.at(a).id()).is_err(), "indexing with an absent key does not panic");
            ck!(catch(|| m.at_mut(b).id()).is_err(), "indexing with an absent key does not panic");
        }
        _ => {
            // the values are replaced while the others stay
            if n > 0 {
                let k = key(0);
                let old = std::mem::replace(m.get_mut(&k).ok_or("get_mut fails")?, V::mk(1));
                tick(Call::Own);
                drop(old);
            }
        }
    }
    Ok(m)
}

fn map_history<K: UKey, V: UVal>(kind: &MapKind<K, V>, word: &[usize], ops: &[usize], lawful: bool) -> R {
    let payload: Vec<(K, V)> = word.iter().enumerate().map(|(p, i)| (K::mk(kind.table, *i), V::mk(p as u32))).collect();
    let mut m = (kind.make)(payload);
    if lawful {
        // only the entries of the collection are left
        let n = word.iter().max().map_or(0, |x| x + 1);
        let tracked = usize::from(std::mem::size_of::<K>() == std::mem::size_of::<TK>() && std::any::TypeId::of::<K>() == std::any::TypeId::of::<TK>())
            + usize::from(std::any::TypeId::of::<V>() == std::any::TypeId::of::<TV>());
        let l = live_instances();
        ck!(l == n * tracked, "{l} instances are alive after the construction, {} are in the collection", n * tracked);
        let (a, b) = zst_balance();
        ck!(std::any::TypeId::of::<V>() != std::any::TypeId::of::<ZV>() || a - b == n as i64, "{} zero-sized values are alive after the construction", a - b);
    }
    for op in ops {
        m = map_op(kind, m, word, *op)?;
    }
    drop(m);
    Ok(())
}

/// The fault-free run, then a panic at every call.
fn explore(cx: &mut Cx, faults: bool, what: &dyn Fn() -> String, run: &dyn Fn(bool) -> R) -> R {
    begin(&[], false);
    let (l0, b0) = (live(), blocks());
    match catch(|| run(true)) {
        Ok(r) => r.map_err(|e| format!("{}: {e}", what()))?,
        Err(p) => return Err(format!("{}: unexpected panic: {p}", what())),
    }
    verdict().map_err(|e| format!("{}: {e}", what()))?;
    ck!(live_instances() == 0, "{}: {} instances are never dropped", what(), live_instances());
    let (a, b) = zst_balance();
    ck!(a == b, "{}: {a} zero-sized values were made and {b} dropped", what());
    // operation 10 catches panics, whose message is kept
    ck!(blocks() - b0 <= 1 && live() - l0 < 4096, "{}: {} bytes in {} blocks are leaked", what(), live() - l0, blocks() - b0);
    let total = calls();
    cx.st();
    cx.tr(total);
    if !faults {
        return Ok(());
    }
    for at in 1..=total {
        begin(&[(at, PANIC)], false);
        let r = catch(|| run(false));
        behave();
        verdict().map_err(|e| format!("{}, with a panic in call {at} of {total} into user code: {e}", what()))?;
        let (a, b) = zst_balance();
        ck!(b <= a, "{}, panic in call {at}: {a} zero-sized values were made and {b} dropped", what());
        if let Ok(Err(e)) = r {
            return Err(format!("{}, panic in call {at} of {total}: {e}", what()));
        }
        cx.st();
    }
    Ok(())
}

fn words(kind_dups: bool, max: usize) -> Vec<Vec<usize>> {
    let mut w = Vec::new();
    for n in 0..=max {
        if kind_dups {
            w.extend(patterns(n));
        } else {
            w.push((0..n).collect());
            if n > 1 {
                w.push((0..n).rev().collect());
            }
        }
    }
    w
}

fn maps<K: UKey, V: UVal>(c: &mut Ctx, name: &str, kinds: Vec<MapKind<K, V>>) {
    let max = c.pick(5, 6);
    for faults in [false, true] {
        c.scenario(&format!("{name}{}", if faults { ", with faults" } else { "" }), |c| {
            for k in &kinds {
                for w in words(k.dups, max) {
                    let distinct = w.iter().max().map_or(0, |x| x + 1);
                    let twice = distinct >= 4 || distinct == w.len() || w.len() <= 3;
                    let depth2 = !faults || !c.quick() || (twice && w.len() <= 4);
                    c.case(
                        || format!("{} of the list {w:?}, all operation sequences", k.name),
                        |cx| {
                            explore(cx, faults, &|| "construction alone".to_string(), &|l| map_history(k, &w, &[], l))?;
                            for a in 0..MAP_OPS {
                                explore(cx, faults, &|| format!("operation {a}"), &|l| map_history(k, &w, &[a], l))?;
                                for b in 0..if depth2 { MAP_OPS } else { 0 } {
                                    explore(cx, faults, &|| format!("operations {a}, {b}"), &|l| map_history(k, &w, &[a, b], l))?;
                                }
                            }
                            cx.out(w.len() as u64);
                            Ok(())
                        },
                    );
                }
            }
        });
    }
}

const SET_OPS: usize = 8;

#[inline(never)]
fn set_op<T: UKey>(kind: &SetKind<T>, s: Box<dyn SetPlus<T>>, word: &[usize], op: usize) -> Result<Option<Box<dyn SetPlus<T>>>, String> {
    let mut s = s;
    let key = |i: usize| T::mk(kind.table, i);
    let n = word.iter().max().map_or(0, |x| x + 1);
    match op {
        0 => {
            let d = s.dup();
            drop(d);
        }
        1 => {
            let d = s.dup();
            drop(s);
            s = d;
        }
        2 => {
            let other = (kind.make)((0..n).map(key).collect());
            if other.as_any().type_id() == s.as_any().type_id() {
                s.assign(&*other);
            }
        }
        3 => {
            for i in 0..n + 2 {
                let k = key(i);
                ck!(s.has(&k) == (i < n) && s.trait_has(&k) == (i < n) && s.get(&k).is_some() == (i < n), "lookups of {i} are wrong");
            }
        }
        4 => {
            let mut it = s.elems();
            let mut c = 0;
            while let Some(e) = it.step() {
                tick(Call::Own);
                c += 1;
                let _ = e.id();
            }
            ck!(c == n, "iterates over {c} elements");
            let _ = s.dbg(true).map(|x| x.len());
        }
        5 => {
            let d = s.dup();
            ck!(s.same(&*d) && !d.differs(&*s), "a clone differs");
        }
        // consume to the end / in part
        6 => {
            let Some(mut it) = s.consume() else { return Ok(None) };
            let mut c = 0;
            while let Some(x) = it.step() {
                tick(Call::Own);
                c += 1;
                drop(x);
            }
            ck!(c == n, "yields {c} elements");
            return Ok(None);
        }
        _ => {
            let Some(it) = s.consume() else { return Ok(None) };
            let v = it.collect_all();
            ck!(v.len() == n, "collects {} elements", v.len());
            return Ok(None);
        }
    }
    Ok(Some(s))
}

/// Consuming iteration: every number of steps before each way to end.
fn consumption<T: UKey>(kind: &SetKind<T>, word: &[usize], steps: usize, way: usize) -> R {
    let n = word.iter().max().map_or(0, |x| x + 1);
    let s = (kind.make)(word.iter().map(|i| T::mk(kind.table, *i)).collect());
    let Some(mut it) = s.consume() else { return Ok(()) };
    let mut kept = Vec::new();
    for i in 0..steps {
        let x = it.step();
        ck!(x.is_some() == (i < n), "step {i} of {n}");
        kept.extend(x);
    }
    let left = n.saturating_sub(steps);
    match way {
        0 => drop(it),
        1 => ck!(it.count_all() == left, "count() is wrong"),
        2 => ck!(it.fold_all().len() == left, "fold is wrong"),
        3 => ck!(it.last_one().is_some() == (left > 0), "last() is wrong"),
        4 => {
            let x = it.skip_to(1);
            ck!(x.is_some() == (left > 1), "nth(1) is wrong");
            drop(it);
            drop(x);
        }
        5 => {
            // a clone of the iterator, of which half is consumed
            let mut d = it.dup();
            for _ in 0..left.div_ceil(2) {
                drop(d.step());
            }
            drop(it);
            ck!(d.collect_all().len() == left / 2, "clone of the iterator is wrong");
        }
        6 => {
            let d = it.dup();
            let a = it.collect_all();
            drop(d);
            ck!(a.len() == left, "collect is wrong");
        }
        7 => {
            let x = it.find_nth(left / 2);
            ck!(x.is_some() == (left > 0), "find is wrong");
            let _ = it.dbg(false);
            drop(x);
            while it.step().is_some() {}
            ck!(it.step().is_none(), "not fused");
        }
        _ => {
            tick(Call::Own);
            ck!(it.each_all().len() == left, "for_each is wrong");
        }
    }
    drop(kept);
    Ok(())
}

fn set_history<T: UKey>(kind: &SetKind<T>, word: &[usize], ops: &[usize], lawful: bool) -> R {
    let mut s = (kind.make)(word.iter().map(|i| T::mk(kind.table, *i)).collect());
    if lawful && std::any::TypeId::of::<T>() == std::any::TypeId::of::<TK>() {
        let n = word.iter().max().map_or(0, |x| x + 1);
        let l = live_instances();
        ck!(l == n, "{l} instances are alive after the construction, {n} are in the collection");
    }
    for op in ops {
        match set_op(kind, s, word, *op)? {
            Some(x) => s = x,
            None => return Ok(()),
        }
    }
    drop(s);
    Ok(())
}

fn sets<T: UKey>(c: &mut Ctx, name: &str, kinds: Vec<SetKind<T>>) {
    let max = c.pick(5, 6);
    for faults in [false, true] {
        c.scenario(&format!("{name}{}", if faults { ", with faults" } else { "" }), |c| {
            for k in &kinds {
                for w in words(k.dups, max) {
                    c.case(
                        || format!("{} of the list {w:?}, all operation sequences", k.name),
                        |cx| {
                            explore(cx, faults, &|| "construction alone".to_string(), &|l| set_history(k, &w, &[], l))?;
                            for a in 0..SET_OPS {
                                explore(cx, faults, &|| format!("operation {a}"), &|l| set_history(k, &w, &[a], l))?;
                                for b in 0..if a < 6 && (!faults || w.len() <= 4) { SET_OPS } else { 0 } {
                                    explore(cx, faults, &|| format!("operations {a}, {b}"), &|l| set_history(k, &w, &[a, b], l))?;
                                }
                            }
                            if !k.dups {
                                for steps in 0..=w.len() + 1 {
                                    for way in 0..9 {
                                        explore(cx, faults, &|| format!("consuming {steps}, then in way {way}"), &|_| consumption(k, &w, steps, way))?;
                                    }
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        });
    }
}

fn main() {
    let mut c = Ctx::from_args();
    c.own_thread = true;
    maps::<TK, TV>(&mut c, "specialized maps", special_maps());
    maps::<TK, ZV>(&mut c, "specialized maps of zero-sized values", special_maps());
    maps::<u32, TV>(&mut c, "integer maps", integer_maps());
    maps::<TK, TV>(&mut c, "frozen maps", frozen_maps());
    maps::<u32, TV>(&mut c, "frozen maps of u32", frozen_maps());
    maps::<String, TV>(&mut c, "frozen maps of String", frozen_maps());
    maps::<u32, ZV>(&mut c, "frozen maps of u32 and zero-sized values", frozen_maps());
    sets::<TK>(&mut c, "specialized sets", special_sets());
    sets::<TK>(&mut c, "frozen sets", frozen_sets());
    c.scenario("set operators", |c| {
        use frozen_collections_core::facades::FrozenSet;
        use frozen_collections_core::specialized_sets::{CommonSet, Set};
        for (wa, wb) in patterns(3).into_iter().flat_map(|a| patterns(3).into_iter().map(move |b| (a.clone(), b))).chain([(vec![0, 1, 2, 3, 4], vec![3, 4, 5, 6]), (vec![0, 1, 2, 3], vec![])]) {
            for shift in [0usize, 1, 3] {
                c.case(
                    || format!("{wa:?} and {wb:?} shifted by {shift}"),
                    |cx| {
                        for op in 0..5 {
                            explore(cx, true, &|| format!("operator {op} of frozen sets"), &|_| {
                                let a: FrozenSet<TK, UH> = FrozenSet::from_vec_with_hasher(wa.iter().map(|i| TK::new(*i as u32)).collect(), UH(1));
                                let b: FrozenSet<TK, UH> = FrozenSet::from_vec_with_hasher(wb.iter().map(|i| TK::new((*i + shift) as u32)).collect(), UH(2));
                                let r = match op {
                                    0 => &a | &b,
                                    1 => &a & &b,
                                    2 => &a - &b,
                                    3 => &a ^ &b,
                                    _ => a.union(&b).cloned().collect(),
                                };
                                let f = FrozenSet::from_iter_with_hasher(r, UH(1));
                                drop(a);
                                drop(b);
                                drop(f);
                                Ok(())
                            })?;
                            let (da, db): (std::collections::BTreeSet<_>, std::collections::BTreeSet<_>) = (wa.iter().collect(), wb.iter().collect());
                            explore(cx, true, &|| format!("operator {op} of common sets"), &|_| {
                                let a: CommonSet<TK, u8, UH> = CommonSet::from_vec_with_hasher(da.iter().map(|i| TK::new(**i as u32)).collect(), UH(1));
                                let b: CommonSet<TK, u8, UH> = CommonSet::from_vec_with_hasher(db.iter().map(|i| TK::new((**i + shift) as u32)).collect(), UH(2));
                                let r = match op {
                                    0 => &a | &b,
                                    1 => &a & &b,
                                    2 => &a - &b,
                                    3 => &a ^ &b,
                                    _ => a.intersection(&b).cloned().collect(),
                                };
                                drop(a);
                                drop(r);
                                drop(b);
                                Ok(())
                            })?;
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    c.finish();
}
