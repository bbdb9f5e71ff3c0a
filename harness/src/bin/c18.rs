//! Ill-behaved keys and hashers cannot corrupt anything.
//!
//! A history is a construction, then an operation, then another. All ways in which the calls into user
//! code can deviate (other answers, panics) are explored up to a number of deviations; further, answers
//! which change for good at any point, and all tapes of answers of the first calls of a kind.
use mc::kinds::*;
use mc::maps::MapLike;
use mc::sets::SetLike;
use mc::user::*;
use mc::zoo::*;
use mc::*;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

const MAP_OPS: usize = 8;

/// The addresses of the stored entries. Runs no user code.
fn entries<K: UKey, V: UVal>(m: &dyn MapLike<K, V>) -> Result<Vec<(*const K, *const V)>, String> {
    let mut v = Vec::new();
    let mut it = m.entries();
    while let Some((k, x)) = it.step() {
        v.push((k as *const K, x as *const V));
        ck!(v.len() <= 64, "iteration does not end");
    }
    Ok(v)
}

#[inline(never)]
fn map_op<K: UKey, V: UVal>(kind: &MapKind<K, V>, m: &mut MP<K, V>, n: usize, op: usize) -> R {
    let key = |i: usize| K::mk(kind.table, i);
    let e = entries(&**m as &dyn MapLike<K, V>)?;
    let zst = std::mem::size_of::<V>() == 0;
    let at = |v: &V| e.iter().position(|x| std::ptr::eq(x.1, v));
    match op {
        0 => {
            for i in 0..n + 1 {
                let k = key(i);
                if let Some(v) = m.get(&k) {
                    ck!(at(v).is_some(), "get returns something which is not a stored value");
                    let _ = v.id();
                }
            }
        }
        1 => {
            for i in (0..n + 1).rev() {
                let k = key(i);
                if let Some((k, v)) = m.get_kv(&k) {
                    ck!(e.iter().any(|x| std::ptr::eq(x.0, k) && std::ptr::eq(x.1, v)), "get_key_value returns something which is not a stored entry");
                    let _ = (k.id(), v.id());
                }
                let _ = m.has(&k);
            }
        }
        2 => {
            for i in 0..n + 1 {
                let k = key(i);
                if let Some(v) = m.get_mut(&k) {
                    ck!(at(v).is_some(), "get_mut returns something which is not a stored value");
                    *v = V::mk(70);
                }
            }
        }
        3 => {
            for i in 0..n + 1 {
                for j in 0..n + 1 {
                    let (a, b) = (key(i), key(j));
                    if let Some([x, y]) = m.many2([&a, &b]) {
                        ck!(zst || !std::ptr::eq(x, y), "get_many_mut returns two references to one value");
                        ck!(at(x).is_some() && at(y).is_some(), "get_many_mut returns something which is not a stored value");
                        std::mem::swap(x, y);
                        *x = V::mk(71);
                    }
                }
            }
        }
        4 => {
            let (a, b, c, d) = (key(0), key(1), key(n.saturating_sub(1)), key(n));
            for q in [[&a, &b, &c], [&a, &c, &a], [&a, &b, &d]] {
                if let Some([x, y, z]) = m.many3(q) {
                    ck!(zst || !(std::ptr::eq(x, y) || std::ptr::eq(y, z) || std::ptr::eq(x, z)), "get_many_mut returns two references to one value");
                    ck!(at(x).is_some() && at(y).is_some() && at(z).is_some(), "get_many_mut returns something which is not a stored value");
                    *y = V::mk(72);
                    *x = V::mk(73);
                    *z = V::mk(74);
                }
            }
            if let Some([w, x, y, z]) = m.many4([&a, &b, &c, &d]) {
                let mut p = [w as *mut V, x, y, z];
                p.sort_unstable();
                ck!(zst || p.windows(2).all(|w| w[0] != w[1]), "get_many_mut returns two references to one value");
            }
        }
        5 => {
            let d = m.dup();
            let f = entries(&*d as &dyn MapPlus<K, V>)?;
            ck!(f.len() == e.len(), "a clone has {} entries instead of {}", f.len(), e.len());
            let _ = m.same(&*d);
            let _ = d.differs(&**m);
            drop(std::mem::replace(m, d));
        }
        6 => {
            let _ = m.at(key(0)).id();
            *m.at_mut(key(n.saturating_sub(1))) = V::mk(75);
        }
        _ => {
            let _ = (m.dbg(false), m.entries().dbg(true));
            let _ = (m.size(), m.empty());
        }
    }
    Ok(())
}

/// Runs a history.
#[inline(never)]
fn map_history<K: UKey, V: UVal>(kind: &MapKind<K, V>, word: &[usize], ops: &[usize]) -> R {
    let n = word.iter().max().map_or(0, |x| x + 1);
    let made = catch(|| {
        let payload: Vec<(K, V)> = word.iter().enumerate().map(|(p, i)| (K::mk(kind.table, *i), V::mk(p as u32))).collect();
        (kind.make)(payload)
    });
    let lawful = !deviated();
    let Ok(mut m) = made else { return Ok(()) };
    let before = entries(&*m as &dyn MapPlus<K, V>)?;
    ck!(m.size() == before.len(), "len() is {} but there are {} entries", m.size(), before.len());
    for op in ops {
        if let Ok(r) = catch(|| map_op(kind, &mut m, n, *op)) {
            r?;
        }
    }
    behave();
    let after = entries(&*m as &dyn MapPlus<K, V>)?;
    ck!(after.len() == before.len(), "the collection has {} entries instead of {}", after.len(), before.len());
    if lawful {
        // still usable
        for i in 0..n + 2 {
            let k = K::mk(kind.table, i);
            ck!(m.get(&k).is_some() == (i < n) && m.has(&k) == (i < n), "afterwards, with lawful answers, get of key {i} is {}", m.get(&k).is_some());
            ck!(m.get_kv(&k).map_or(i >= n, |e| e.0.id() == k.id()), "afterwards, get_key_value of key {i} gives another entry");
            ck!(m.get_mut(&k).is_some() == (i < n), "afterwards, get_mut of key {i} is wrong");
        }
        if n >= 2 {
            let (a, b) = (K::mk(kind.table, 0), K::mk(kind.table, 1));
            ck!(m.many2([&a, &b]).is_some(), "afterwards, get_many_mut fails");
        }
    } else {
        for (k, v) in &after {
            let (k, v) = unsafe { (&**k, &**v) };
            let _ = k.clone();
            let _ = v.clone();
        }
    }
    drop(m);
    Ok(())
}

type Run<'a> = &'a dyn Fn() -> R;

fn one(cx: &mut Cx, what: &dyn Fn() -> String, how: &dyn Fn() -> String, run: Run) -> R {
    match catch(run) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => {
            behave();
            return Err(format!("{}, {}: {e}", what(), how()));
        }
        Err(p) => {
            behave();
            return Err(format!("{}, {}: unexpected panic {p}", what(), how()));
        }
    }
    behave();
    verdict().map_err(|e| format!("{}, {}: {e}", what(), how()))?;
    cx.st();
    Ok(())
}

fn ways(k: Call) -> impl Iterator<Item = u8> {
    (1..=alternatives(k)).chain([PANIC])
}

/// All plans of up to `depth` deviations, all persistent changes, all tapes.
fn explore(cx: &mut Cx, depth: usize, tapes: u32, what: &dyn Fn() -> String, run: Run) -> R {
    begin(&[], true);
    match catch(run) {
        Ok(r) => r.map_err(|e| format!("{}, lawfully: {e}", what()))?,
        Err(p) => return Err(format!("{}, lawfully: unexpected panic {p}", what())),
    }
    verdict().map_err(|e| format!("{}, lawfully: {e}", what()))?;
    let ks = kinds();
    cx.tr(ks.len() as u64);
    for (i, k) in ks.iter().enumerate() {
        let i = i as u64 + 1;
        for a in ways(*k) {
            begin(&[(i, a)], depth > 1);
            one(cx, what, &|| format!("with {k:?} deviating in way {a} at call {i}"), run)?;
            if depth > 1 {
                let ks2 = kinds();
                for (j, l) in ks2.iter().enumerate().skip(i as usize) {
                    let j = j as u64 + 1;
                    for b in ways(*l) {
                        begin(&[(i, a), (j, b)], false);
                        one(cx, what, &|| format!("with {k:?} deviating in way {a} at call {i} and {l:?} in way {b} at call {j}"), run)?;
                    }
                }
            }
        }
    }
    // answers which change for good
    for k in [Call::Eq, Call::Hash, Call::Finish, Call::Len, Call::SliceHash] {
        if !ks.contains(&k) {
            continue;
        }
        for from in 1..=ks.len() as u64 {
            if ks[from as usize - 1] != k {
                continue;
            }
            for a in 1..=alternatives(k) {
                begin(&[], false);
                persist(from, k, a);
                one(cx, what, &|| format!("with {k:?} answering in way {a} from call {from} on"), run)?;
            }
        }
        let (bits, len) = match k {
            Call::Eq => (1, tapes),
            _ => (2, tapes / 2),
        };
        if tapes > 0 {
            for t in 0..1u64 << (bits * len) {
                begin(&[], false);
                tape(k, t, bits, len);
                one(cx, what, &|| format!("with {k:?} answering by tape {t:#b}"), run)?;
            }
        }
    }
    Ok(())
}

fn words(dups: bool, quick: bool) -> Vec<Vec<usize>> {
    let mut w: Vec<Vec<usize>> = (0..=5).map(|n| (0..n).collect()).collect();
    if dups {
        w.extend([vec![0, 0], vec![0, 1, 0], vec![0, 1, 1, 2], vec![0, 1, 2, 3, 0], vec![0, 1, 2, 3, 3, 4]]);
        if !quick {
            w.extend(patterns(4).into_iter().filter(|p| p.iter().max() != Some(&3)));
        }
    }
    if !quick {
        w.push((0..6).collect());
        w.push((0..8).rev().collect());
    }
    w
}

fn maps<K: UKey, V: UVal>(c: &mut Ctx, name: &str, kinds: Vec<MapKind<K, V>>) {
    let quick = c.quick();
    for two in [false, true] {
        c.scenario(&format!("{name}, {}", if two { "two deviations" } else { "one deviation, changes, tapes" }), |c| {
            for k in &kinds {
                for w in words(k.dups, quick) {
                    if two && w.len() > if quick { 3 } else { 5 } {
                        continue;
                    }
                    for a in 0..MAP_OPS {
                        c.case(
                            || format!("{} of the list {w:?}, then operation {a} (and another)", k.name),
                            |cx| {
                                if two {
                                    return explore(cx, 2, 0, &|| format!("operation {a}"), &|| map_history(k, &w, &[a]));
                                }
                                explore(cx, 1, if quick { 6 } else { 10 }, &|| format!("operation {a}"), &|| map_history(k, &w, &[a]))?;
                                for o in 0..MAP_OPS {
                                    explore(cx, 1, 0, &|| format!("operations {a}, {o}"), &|| map_history(k, &w, &[a, o]))?;
                                }
                                cx.out(a as u64);
                                Ok(())
                            },
                        );
                    }
                }
            }
        });
    }
}

const SET_OPS: usize = 6;

fn elements<T: UKey>(s: &dyn SetLike<T>) -> Result<Vec<*const T>, String> {
    let mut v = Vec::new();
    let mut it = s.elems();
    while let Some(k) = it.step() {
        v.push(k as *const T);
        ck!(v.len() <= 64, "iteration does not end");
    }
    Ok(v)
}

fn set_op<T: UKey>(kind: &SetKind<T>, s: &mut Option<Box<dyn SetPlus<T>>>, n: usize, op: usize) -> R {
    let key = |i: usize| T::mk(kind.table, i);
    let Some(x) = s.as_mut() else { return Ok(()) };
    let e = elements(&**x as &dyn SetLike<T>)?;
    match op {
        0 => {
            for i in 0..n + 1 {
                let k = key(i);
                if let Some(v) = x.get(&k) {
                    ck!(e.iter().any(|p| std::ptr::eq(*p, v)), "get returns something which is not a stored element");
                    let _ = v.id();
                }
            }
        }
        1 => {
            for i in 0..n + 1 {
                let k = key(i);
                let _ = (x.has(&k), x.trait_has(&k));
            }
        }
        2 => {
            let d = x.dup();
            ck!(elements(&*d as &dyn SetPlus<T>)?.len() == e.len(), "a clone has another number of elements");
            let _ = x.same(&*d);
            *x = d;
        }
        3 => {
            let d = (kind.make)((0..n).map(key).collect());
            if d.as_any().type_id() == x.as_any().type_id() {
                let _ = x.same(&*d);
                let _ = d.differs(&**x);
                x.assign(&*d);
            }
        }
        4 => {
            let _ = (x.dbg(false), x.elems().dbg(true));
        }
        _ => {
            let d = x.dup();
            if let Some(mut it) = d.consume() {
                let a = it.step();
                let f = it.dup();
                drop(it);
                drop(a);
                let _ = f.collect_all();
            }
        }
    }
    Ok(())
}

fn set_history<T: UKey>(kind: &SetKind<T>, word: &[usize], ops: &[usize]) -> R {
    let n = word.iter().max().map_or(0, |x| x + 1);
    let made = catch(|| (kind.make)(word.iter().map(|i| T::mk(kind.table, *i)).collect()));
    let lawful = !deviated();
    let Ok(s) = made else { return Ok(()) };
    let mut s = Some(s);
    for op in ops {
        if let Ok(r) = catch(|| set_op(kind, &mut s, n, *op)) {
            r?;
        }
    }
    behave();
    let Some(s) = s else { return Ok(()) };
    let after = elements(&*s as &dyn SetPlus<T>)?;
    if lawful && !ops.contains(&3) {
        for i in 0..n + 2 {
            let k = T::mk(kind.table, i);
            ck!(s.has(&k) == (i < n) && s.get(&k).is_some() == (i < n), "afterwards, with lawful answers, contains of {i} is {}", s.has(&k));
        }
    } else {
        for k in after {
            let _ = unsafe { &*k }.clone();
        }
    }
    Ok(())
}

fn sets<T: UKey>(c: &mut Ctx, name: &str, kinds: Vec<SetKind<T>>) {
    let quick = c.quick();
    c.scenario(name, |c| {
        for k in &kinds {
            for w in words(k.dups, quick) {
                for a in 0..SET_OPS {
                    c.case(
                        || format!("{} of the list {w:?}, then operation {a} (and another)", k.name),
                        |cx| {
                            let d = if w.len() <= if quick { 3 } else { 5 } { 2 } else { 1 };
                            explore(cx, d, if quick { 6 } else { 10 }, &|| format!("operation {a}"), &|| set_history(k, &w, &[a]))?;
                            for o in 0..SET_OPS {
                                explore(cx, 1, 0, &|| format!("operations {a}, {o}"), &|| set_history(k, &w, &[a, o]))?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    c.own_thread = true;
    maps::<TK, TV>(&mut c, "specialized maps", special_maps());
    maps::<TK, TV>(&mut c, "frozen maps", frozen_maps());
    maps::<TK, ZV>(&mut c, "frozen maps of zero-sized values", frozen_maps());
    maps::<String, TV>(&mut c, "frozen maps of String", frozen_maps());
    sets::<TK>(&mut c, "specialized sets", special_sets());
    sets::<TK>(&mut c, "frozen sets", frozen_sets());
    set_operations(&mut c);
    c.finish();
}

// ---- set operations, also with sets of the user's own making ----

use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::{CommonSet, Set};
use frozen_collections_core::traits::len::Len;

/// A set of the user's, whose answers are up to the explorer.
struct Liar {
    v: Vec<TK>,
}
impl Len for Liar {
    fn len(&self) -> usize {
        match tick(Call::Len) {
            0 => self.v.len(),
            1 => 0,
            2 => self.v.len() + 1,
            3 => usize::MAX,
            _ => 1000,
        }
    }
}
impl Set<TK> for Liar {
    type Iterator<'a> = std::slice::Iter<'a, TK>;
    fn iter(&self) -> Self::Iterator<'_> {
        match tick(Call::Len) {
            0 => self.v.iter(),
            1 => self.v[..0].iter(),
            2 => self.v[self.v.len().min(1)..].iter(),
            _ => self.v[..self.v.len() / 2].iter(),
        }
    }
    fn contains(&self, value: &TK) -> bool {
        (self.v.iter().any(|x| x.key == value.key)) ^ (tick(Call::Eq) != 0)
    }
}

fn all_operations<A: Set<TK>, B: Set<TK>>(a: &A, b: &B, op: usize) -> R {
    let pool: Vec<*const TK> = a.iter().chain(b.iter()).map(|x| x as *const TK).collect();
    let whole = pool.len();
    let check = |v: Vec<&TK>| -> R {
        ck!(v.len() <= 2 * whole + 8, "a set operation yields {} elements out of {whole}", v.len());
        for x in v {
            ck!(x.tok.ok(), "a set operation yields something which is not an element");
            let _ = x.key;
        }
        Ok(())
    };
    fn gather<'a>(mut it: impl Iterator<Item = &'a TK>, cap: usize) -> Vec<&'a TK> {
        // like collect, without trusting the hint
        let mut v = Vec::new();
        let _ = it.size_hint();
        while let Some(x) = it.next() {
            v.push(x);
            let _ = it.size_hint();
            if v.len() > cap {
                break;
            }
        }
        v
    }
    let cap = 4 * whole + 16;
    match op {
        0 => check(gather(a.union(b), cap)),
        1 => check(gather(a.intersection(b), cap)),
        2 => check(gather(a.difference(b), cap)),
        3 => check(gather(a.symmetric_difference(b), cap)),
        4 => {
            let _ = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b));
            Ok(())
        }
        _ => {
            let mut it = a.union(b).map(|x| x.key);
            let _ = it.nth(1);
            let _ = it.count();
            let _ = a.intersection(b).fold(0u64, |s, x| s + u64::from(x.key));
            let _ = a.symmetric_difference(b).last().map(|x| x.key);
            Ok(())
        }
    }
}

fn set_operations(c: &mut Ctx) {
    let quick = c.quick();
    c.scenario("set operations", |c| {
        let ranges = [(0, 0), (0, 1), (0, 3), (1, 3), (0, 5), (2, 6)];
        for kind in 0..5 {
            for (a0, a1) in ranges {
                for (b0, b1) in ranges {
                    c.case(
                        || format!("kinds {kind}, {a0}..{a1} and {b0}..{b1}"),
                        |cx| {
                            for op in 0..6 {
                                explore(cx, if a1 - a0 + b1 - b0 <= if quick { 4 } else { 7 } { 2 } else { 1 }, 6, &|| format!("operation {op}"), &|| {
                                    let ka = || (a0..a1).map(TK::new).collect::<Vec<_>>();
                                    let kb = || (b0..b1).map(TK::new).collect::<Vec<_>>();
                                    // deviations in the construction are explored elsewhere
                                    let made = catch(|| match kind {
                                        0 => (Some(FrozenSet::<TK, UH>::from_vec_with_hasher(ka(), UH(1))), Some(FrozenSet::<TK, UH>::from_vec_with_hasher(kb(), UH(2))), None, None),
                                        1 => (Some(FrozenSet::from_vec_with_hasher(ka(), UH(1))), None, None, Some(Liar { v: kb() })),
                                        2 => (None, Some(FrozenSet::from_vec_with_hasher(kb(), UH(1))), None, Some(Liar { v: ka() })),
                                        3 => (None, None, Some(CommonSet::<TK, u8, UH>::from_vec_with_hasher(ka(), UH(0))), Some(Liar { v: kb() })),
                                        _ => (Some(FrozenSet::from_vec_with_hasher(ka(), UH(1))), None, Some(CommonSet::from_vec_with_hasher(kb(), UH(1))), None),
                                    });
                                    let lawful = !deviated();
                                    let Ok(made) = made else { return Ok(()) };
                                    let r = catch(|| match &made {
                                        (Some(a), Some(b), _, _) => {
                                            if op == 5 {
                                                let r = [a | b, a & b, a - b, a ^ b];
                                                ck!(r.iter().all(|s| s.iter().all(|x| x.tok.ok())), "an operator yields something else");
                                                let _ = a == b;
                                            }
                                            all_operations(a, b, op)
                                        }
                                        (Some(a), _, _, Some(l)) => all_operations(a, l, op),
                                        (_, Some(b), _, Some(l)) => all_operations(l, b, op),
                                        (_, _, Some(a), Some(l)) => {
                                            let _ = *a == *l;
                                            all_operations(a, l, op)
                                        }
                                        (Some(a), _, Some(b), _) => all_operations(a, b, op),
                                        _ => Ok(()),
                                    });
                                    behave();
                                    if let Ok(r) = r {
                                        r?;
                                    }
                                    // nothing changed
                                    if let Some(a) = &made.0 {
                                        for x in a.iter() {
                                            ck!(x.tok.ok(), "an element is gone");
                                        }
                                    }
                                    Ok(())
                                })?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}
