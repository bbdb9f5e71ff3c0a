//! No sequence of safe calls has undefined behaviour.
//!
//! The calls are made in builds which notice undefined behaviour: with a checking allocator and the standard library's
//! precondition checks, with AddressSanitizer (`--cfg asan`), and under Miri.
use frozen_collections_core::specialized_sets::Set;
use mc::alloc::live;
use mc::keys::*;
use mc::pairs::*;
use mc::spaces::{permutations, words};
use mc::zoo::*;
use mc::*;
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::AssertUnwindSafe;

#[cfg(not(any(miri, asan)))]
#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// Counts only: the tools keep an eye on the memory themselves.
#[cfg(any(miri, asan))]
struct Counting;
thread_local!(static COUNT: Cell<isize> = const { Cell::new(0) });
#[cfg(any(miri, asan))]
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        COUNT.with(|c| c.set(c.get() + l.size() as isize));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        COUNT.with(|c| c.set(c.get() - l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
}
#[cfg(any(miri, asan))]
#[global_allocator]
static A: Counting = Counting;

fn held() -> isize {
    live() + COUNT.with(Cell::get)
}

/// A value on the heap.
type V = Box<u32>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Get(usize),
    GetAbsent,
    GetMut(usize),
    GetMutAbsent,
    Many0,
    Many1(usize),
    Many2(usize, usize),
    Many2Absent(usize),
    Many3(usize, usize, usize),
    Many4,
    At(usize),
    AtMut(usize),
    AtAbsent,
    Held,
    Iterators,
    Partly,
    Clone,
    CloneFrom,
    Equal,
    Show,
    Threads,
}

fn alphabet(n: usize) -> Vec<Op> {
    let mut v = vec![Op::GetAbsent, Op::GetMutAbsent, Op::Many0, Op::Held, Op::Iterators, Op::Partly, Op::Clone, Op::CloneFrom, Op::Equal, Op::Show, Op::Threads];
    if n > 0 {
        let l = n - 1;
        v.extend([Op::Get(0), Op::GetMut(l), Op::Many1(l), Op::Many2(0, 0), Op::Many2Absent(l), Op::At(0), Op::AtMut(l)]);
    }
    if n > 1 {
        v.extend([Op::Get(n - 1), Op::Many2(0, n - 1), Op::Many2(n - 1, 0)]);
    }
    if n > 2 {
        v.extend([Op::Many3(0, n - 1, 1), Op::Many3(1, 0, 1), Op::AtAbsent]);
    }
    if n > 3 {
        v.push(Op::Many4);
    }
    v
}

struct Sendable<T>(T);
/// SAFETY: the collections of these tests are sendable and shareable, which C26 checks.
unsafe impl<T> Send for Sendable<T> {}
unsafe impl<T> Sync for Sendable<T> {}
impl<T> Sendable<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

type M<K> = Box<dyn MapPlus<K, V>>;

/// One call; the model is the list of values.
fn step<K: Clone + Debug + PartialEq + Sync + 'static>(z: &Zoo<K, V>, m: &mut M<K>, other: &M<K>, model: &mut [u32], op: Op, stamp: u32) -> R {
    let ks = &z.keys;
    let ab = z.absent.first();
    let n = ks.len();
    match op {
        Op::Get(i) => {
            let (a, b) = (m.get(&ks[i]), m.get_kv(&ks[i]));
            ck!(a.map(|v| **v) == Some(model[i]) && b.map(|e| **e.1) == Some(model[i]) && b.unwrap().0 == &ks[i], "get({:?})", ks[i]);
            ck!(m.has(&ks[i]), "contains_key({:?})", ks[i]);
        }
        Op::GetAbsent => {
            if let Some(k) = ab {
                ck!(m.get(k).is_none() && m.get_kv(k).is_none() && !m.has(k), "get({k:?})");
            }
        }
        Op::GetMut(i) => {
            let r = m.get_mut(&ks[i]);
            ck!(r.as_ref().map(|v| ***v) == Some(model[i]), "get_mut({:?})", ks[i]);
            *r.unwrap() = Box::new(stamp);
            model[i] = stamp;
        }
        Op::GetMutAbsent => {
            if let Some(k) = ab {
                ck!(m.get_mut(k).is_none(), "get_mut({k:?})");
            }
        }
        Op::Many0 => ck!(m.many0().is_some(), "get_many_mut([])"),
        Op::Many1(i) => match m.many1([&ks[i]]) {
            Some([a]) => {
                **a = stamp;
                model[i] = stamp;
            }
            None => ck!(false, "get_many_mut of one"),
        },
        Op::Many2(i, j) => match m.many2([&ks[i], &ks[j]]) {
            Some([a, b]) => {
                ck!(i != j, "two references to one value");
                // both are in use at the same time
                std::mem::swap(a, b);
                **a += 1;
                *b = Box::new(stamp);
                **a += **b;
                let x = model[j].wrapping_add(1).wrapping_add(stamp);
                model[j] = stamp;
                model[i] = x;
            }
            None => ck!(i == j, "get_many_mut of two"),
        },
        Op::Many2Absent(i) => {
            if let Some(k) = ab {
                ck!(m.many2([&ks[i], k]).is_none() && m.many2([k, &ks[i]]).is_none(), "get_many_mut with {k:?}");
            }
        }
        Op::Many3(i, j, k) => match m.many3([&ks[i], &ks[j], &ks[k]]) {
            Some([a, b, c]) => {
                ck!(i != j && j != k && i != k, "two references to one value");
                *a = Box::new(stamp);
                **c = **a + 1;
                *b = std::mem::replace(c, Box::new(stamp + 2));
                model[i] = stamp;
                model[j] = stamp + 1;
                model[k] = stamp + 2;
            }
            None => ck!(i == j || j == k || i == k, "get_many_mut of three"),
        },
        Op::Many4 => match m.many4([&ks[3], &ks[1], &ks[0], &ks[2]]) {
            Some(r) => {
                let mut s = 0;
                for x in r.iter() {
                    s += ***x;
                }
                for (x, i) in r.into_iter().zip([3, 1, 0, 2]) {
                    **x = s;
                    model[i] = s;
                }
            }
            None => ck!(false, "get_many_mut of four"),
        },
        Op::At(i) => ck!(**m.at(ks[i].clone()) == model[i], "[{:?}]", ks[i]),
        Op::AtMut(i) => {
            **m.at_mut(ks[i].clone()) = stamp;
            model[i] = stamp;
        }
        Op::AtAbsent => {
            if let Some(k) = ab {
                ck!(catch(AssertUnwindSafe(|| **m.at(k.clone()))).is_err(), "[{k:?}]");
                ck!(catch(AssertUnwindSafe(|| **m.at_mut(k.clone()) = 1)).is_err(), "[{k:?}] = ");
            }
        }
        Op::Held => {
            // references from many reads live together
            let got: Vec<&V> = ks.iter().map(|k| m.get(k).unwrap()).collect();
            let mut it = m.entries();
            let first = it.next();
            let kv: Vec<(&K, &V)> = ks.iter().map(|k| m.get_kv(k).unwrap()).collect();
            let rest: Vec<(&K, &V)> = it.collect();
            for (i, v) in got.iter().enumerate() {
                ck!(***v == model[i] && **kv[i].1 == model[i], "references held");
            }
            ck!(rest.len() + usize::from(first.is_some()) == n, "iter()");
        }
        Op::Iterators => {
            let mut s = 0u64;
            for (_, v) in m.entries() {
                s += u64::from(**v);
            }
            for v in m.value_iter() {
                s += u64::from(**v);
            }
            for (k, v) in m.ref_iter() {
                ck!(ks.contains(k), "iterates over {k:?}");
                s += u64::from(**v);
            }
            ck!(m.key_iter().filter(|k| ks.contains(k)).count() == n, "keys()");
            ck!(s == 3 * model.iter().map(|x| u64::from(*x)).sum::<u64>(), "iterators");
        }
        Op::Partly => {
            let mut a = m.entries();
            let mut b = m.key_iter();
            let mut c = m.value_iter();
            for i in 0..=n / 2 {
                ck!(a.next().is_some() == (i < n) && b.next().is_some() == (i < n) && c.next().is_some() == (i < n), "iterators");
            }
            let left = a.len();
            drop(a);
            ck!(b.count() == left && c.len() == left, "iterators");
        }
        Op::Clone => {
            let d = m.dup();
            let old = std::mem::replace(m, d);
            drop(old);
        }
        Op::CloneFrom => {
            m.assign(&**other);
            for (i, x) in model.iter_mut().enumerate() {
                *x = i as u32 + 900;
            }
        }
        Op::Equal => {
            let d = m.dup();
            ck!(m.same(&*d) && !m.differs(&*d) && d.same(&**m), "==");
            let _ = m.same(&**other);
        }
        Op::Show => {
            ck!(m.dbg(false).len() >= 2 && m.dbg(true).len() >= 2, "{{:?}}");
            let _ = format!("{:?}", m.shown());
        }
        Op::Threads => {
            let s = Sendable(&*m);
            std::thread::scope(|t| {
                for _ in 0..2 {
                    t.spawn(|| {
                        let m = s.get();
                        let mut x = 0u32;
                        for k in ks.iter().chain(ab) {
                            x = x.wrapping_add(m.get(k).map_or(0, |v| **v));
                        }
                        for e in m.entries() {
                            x = x.wrapping_add(**e.1);
                        }
                        std::hint::black_box(x)
                    });
                }
            });
        }
    }
    Ok(())
}

/// One word of calls, on copies of the two collections if there are any.
fn word<K: Clone + Debug + PartialEq + Sync + 'static>(cx: &mut Cx, z: &Zoo<K, V>, ops: &[Op], made: Option<&(M<K>, M<K>)>) -> R {
    let before = held();
    {
        let mut model: Vec<u32> = (0..z.keys.len() as u32).map(|i| i + 3).collect();
        let (mut m, other) = match made {
            Some((a, b)) => (a.dup(), b.dup()),
            None => make_two(z),
        };
        for (at, op) in ops.iter().enumerate() {
            step(z, &mut m, &other, &mut model, *op, 50 * (at as u32 + 1))?;
            cx.tr(1);
        }
        for (k, x) in z.keys.iter().zip(&model) {
            ck!(m.get(k).map(|v| **v) == Some(*x), "afterwards, get({k:?})");
        }
    }
    // the text of a panic and what describes a thread may be kept
    let after = held();
    let kept = ops.iter().any(|o| [Op::AtAbsent, Op::Threads].contains(o));
    ck!(kept || before == after, "{} bytes leaked", after - before);
    Ok(())
}
fn make_two<K: Clone + 'static>(z: &Zoo<K, V>) -> (M<K>, M<K>) {
    (z.build(&mut |i| Box::new(i as u32 + 3)), z.build(&mut |i| Box::new(i as u32 + 900)))
}
fn make_two_fast<K: Clone + 'static>(z: &Zoo<K, V>) -> (M<K>, M<K>) {
    let a = z.build(&mut |i| Box::new(i as u32 + 3));
    let mut b = a.dup();
    for (i, k) in z.keys.iter().enumerate() {
        if let Some(x) = b.get_mut(k) {
            **x = i as u32 + 900;
        }
    }
    (a, b)
}

/// All words of calls.
fn maps<K: Clone + Debug + PartialEq + Sync + 'static>(c: &mut Ctx, name: &str, depth: usize, threads: bool, zoo: Vec<Zoo<K, V>>) {
    c.scenario(name, |c| {
        for z in &zoo {
            let mut ops = alphabet(z.keys.len());
            if !threads {
                ops.retain(|o| *o != Op::Threads);
            }
            if cfg!(miri) {
                // to build one takes longer than what is done with it
                c.case(
                    || format!("{}, all words up to {depth}", z.name),
                    |cx| {
                        let made = make_two_fast(z);
                        let mut r = Ok(());
                        words(ops.len(), depth, &mut |w| {
                            let w: Vec<Op> = w.iter().map(|i| ops[*i]).collect();
                            if r.is_ok() {
                                cx.st();
                                r = word(cx, z, &w, Some(&made)).map_err(|m| format!("{w:?}: {m}"));
                            }
                        });
                        r
                    },
                );
                continue;
            }
            words(ops.len(), depth, &mut |w| {
                c.case(
                    || format!("{}: {:?}", z.name, w.iter().map(|i| ops[*i]).collect::<Vec<_>>()),
                    |cx| {
                        let w: Vec<Op> = w.iter().map(|i| ops[*i]).collect();
                        word(cx, z, &w, None)
                    },
                );
            });
        }
    });
}

fn set_word<T: Clone + Debug + PartialEq + 'static>(cx: &mut Cx, z: &SetZoo<T>, ops: &[usize], made: &dyn SetPlus<T>) -> R {
    let before = held();
    {
        let mut s = made.dup();
        let other = made.dup();
        let n = z.els.len();
        for op in ops {
            cx.tr(1);
            match op {
                0 => {
                    for x in &z.els {
                        ck!(s.has(x) && s.trait_has(x) && s.get(x) == Some(x), "get({x:?})");
                    }
                    for x in z.absent.iter().take(3) {
                        ck!(!s.has(x) && s.get(x).is_none(), "get({x:?})");
                    }
                }
                1 => {
                    let refs: Vec<&T> = s.elems().collect();
                    let mut again = s.ref_iter();
                    let _ = again.next();
                    ck!(refs.len() == n && again.count() == n.saturating_sub(1), "iter()");
                    ck!(refs.iter().all(|x| z.els.contains(x)), "iter()");
                    drop(s.trait_iter().last());
                }
                2 => {
                    let d = s.dup();
                    s = d;
                }
                3 => s.assign(&*other),
                4 => ck!(s.same(&*other) && !s.differs(&*other), "=="),
                5 => {
                    let _ = (s.dbg(false), s.dbg(true), s.shown().map(|d| format!("{d:?}")));
                }
                _ => {
                    // partly consumed: 0, 1, .. all elements
                    for take in 0..=n {
                        if let Some(mut i) = s.dup().consume() {
                            for _ in 0..take {
                                ck!(i.next().is_some(), "into_iter()");
                            }
                            ck!(i.len() == n - take, "into_iter()");
                        }
                    }
                }
            }
        }
    }
    let after = held();
    ck!(before == after, "{} bytes leaked", after - before);
    Ok(())
}

/// Consumes, compares, copies and shows sets.
fn set_words<T: Clone + Debug + PartialEq + 'static>(c: &mut Ctx, name: &str, depth: usize, zoo: Vec<SetZoo<T>>) {
    c.scenario(name, |c| {
        for z in &zoo {
            c.case(
                || format!("{}, all words up to {depth}", z.name),
                |cx| {
                    let before = held();
                    let mut r = Ok(());
                    {
                        let made = z.build();
                        words(7, depth, &mut |w| {
                            if r.is_ok() {
                                cx.st();
                                r = set_word(cx, z, w, &*made).map_err(|m| format!("{w:?}: {m}"));
                            }
                        });
                    }
                    let after = held();
                    ck!(r.is_err() || before == after, "{} bytes leaked", after - before);
                    r
                },
            );
        }
    });
}

#[inline(never)]
fn algebra<T: Eq + Hash + Debug, A: Set<T>, B: Set<T>>(cx: &mut Cx, a: &A, b: &B) -> R {
    // all four at once, in turns, with others in between
    let (mut u, mut i, mut d, mut s) = (a.union(b), a.intersection(b), a.difference(b), a.symmetric_difference(b));
    let mut held: Vec<&T> = Vec::new();
    let mut turn = 0;
    loop {
        let (x, y, z, w) = (u.next(), i.next(), d.next(), s.next());
        if turn == 1 {
            held.extend(a.union(b));
            held.extend(a.symmetric_difference(b));
            held.extend(a.difference(b));
            held.extend(a.intersection(b));
        }
        turn += 1;
        cx.tr(4);
        if x.is_none() && y.is_none() && z.is_none() && w.is_none() {
            break;
        }
        held.extend(x.into_iter().chain(y).chain(z).chain(w));
        ck!(turn < 1000, "never ends");
    }
    let _ = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b));
    std::hint::black_box(held.iter().filter(|x| ***x == *held[0]).count());
    Ok(())
}

macro_rules! all_algebra {
    ($cx:expr, $kind:tt, $x:expr, $y:expr) => {{
        let (x, y) = (&$x, &$y);
        mc::each_kind!($kind, x, |a, na| {
            mc::each_kind!($kind, y, |b, nb| {
                algebra($cx, a, b)?;
            });
        });
        mc::each_kind!($kind own, x, |a, na| {
            mc::each_kind!($kind, y, |b, nb| {
                std::hint::black_box(((a | b).len(), (a & b).len(), (a - b).len(), (a ^ b).len()));
            });
        });
    }};
}
#[inline(never)]
fn u32_algebra(cx: &mut Cx, x: &U32Kinds, y: &U32Kinds) -> R {
    all_algebra!(cx, u32, *x, *y);
    Ok(())
}
#[inline(never)]
fn str_algebra(cx: &mut Cx, x: &StrKinds, y: &StrKinds) -> R {
    all_algebra!(cx, str, *x, *y);
    Ok(())
}
#[inline(never)]
fn gen_algebra<K: Clone + Eq + Hash + Debug>(cx: &mut Cx, x: &GenKinds<K>, y: &GenKinds<K>) -> R {
    all_algebra!(cx, gen, *x, *y);
    Ok(())
}

fn pairs_of(c: &mut Ctx, n: usize, what: &str, mut f: impl FnMut(&mut Cx, usize, usize) -> R) {
    for a in 0..1usize << n {
        for b in 0..1usize << n {
            c.case(|| format!("{what}, subsets {a:b} and {b:b}"), |cx| {
                let before = held();
                f(cx, a, b)?;
                let after = held();
                ck!(before == after, "{} bytes leaked", after - before);
                Ok(())
            });
        }
    }
}

/// Lists with repeated keys: construction drops some.
fn repeated<K: Gen>(c: &mut Ctx, len: usize) {
    use frozen_collections_core::facades::{FrozenMap, FrozenSet};
    use mc::hashers::*;
    c.scenario(&format!("repeated {}", K::NAME), |c| {
        for n in 0..=len {
            words(3.min(K::CARD), n, &mut |w| {
                c.case(
                    || format!("{} {w:?}", K::NAME),
                    |cx| {
                        let before = held();
                        for h in [MIX, ZERO] {
                            let p: Vec<(K, V)> = w.iter().enumerate().map(|(i, k)| (K::gen(*k), Box::new(i as u32))).collect();
                            let m = FrozenMap::from_vec_with_hasher(p, h);
                            for (k, v) in &m {
                                ck!(m.get(k) == Some(v), "get({k:?})");
                            }
                            let s = FrozenSet::from_vec_with_hasher(w.iter().map(|k| K::gen(*k)).collect::<Vec<K>>(), h);
                            ck!(s.iter().count() == m.len(), "iter()");
                            cx.tr(2);
                        }
                        let after = held();
                        // some keys of these types are leaked by the test itself
                        ck!(before == after || K::NAME.contains('&') || K::NAME.contains("Cow"), "{} bytes leaked", after - before);
                        Ok(())
                    },
                );
            });
        }
    });
}

/// Under Miri every step takes a thousand times longer: fewer contents, but all kinds of collections.
fn few<Z>(c: &Ctx, mut z: Vec<Z>, name: impl Fn(&Z) -> (String, usize)) -> Vec<Z> {
    if cfg!(miri) && c.quick() {
        let mut seen = std::collections::HashSet::new();
        z.retain(|z| {
            let (name, n) = name(z);
            n <= 4 && n != 2 && seen.insert(name)
        });
    }
    z
}

fn main() {
    let mut c = Ctx::from_args();
    let slow = cfg!(miri);
    let threads = cfg!(miri) || !c.quick();
    let depth = if slow { c.pick(1, 2) } else { c.pick(2, 3) };
    macro_rules! m {
        ($name:expr, $depth:expr, $zoo:expr) => {{
            let zoo = few(&c, $zoo, |z| (z.name.clone(), z.keys.len()));
            maps(&mut c, $name, $depth, threads, zoo)
        }};
    }
    // short words with all collections, longer ones with those that matter
    m!("u32 keys", depth, u32_maps::<V>(false));
    m!("String keys", depth, str_maps::<V>(false));
    m!("[u8; 3] keys", depth, gen_maps::<[u8; 3], V>(false));
    m!("() keys", depth, gen_maps::<(), V>(false));
    m!("(String, u32) keys", depth, gen_maps::<(String, u32), V>(false));
    m!("Box<u32> keys", depth, gen_maps::<Box<u32>, V>(false));
    if !slow {
        m!("u128 keys", depth, gen_maps::<u128, V>(false));
        m!("bool keys", depth, gen_maps::<bool, V>(false));
        m!("many u32 keys", 1, u32_maps::<V>(true));
        m!("many String keys", 1, str_maps::<V>(true));
    }
    let of_4 = |z: &String| z.ends_with("of 4") && !z.contains("u32, usize");
    if !(slow && c.quick()) {
        let mut zu = u32_maps::<V>(false);
        zu.retain(|z| of_4(&z.name));
        maps(&mut c, "u32 keys, longer", depth + 1, false, zu);
        let mut zs = str_maps::<V>(false);
        zs.retain(|z| of_4(&z.name));
        maps(&mut c, "String keys, longer", depth + 1, false, zs);
    }
    macro_rules! s {
        ($name:expr, $zoo:expr) => {{
            let zoo = few(&c, $zoo, |z| (z.name.clone(), z.els.len()));
            set_words(&mut c, $name, depth, zoo)
        }};
    }
    s!("u32 sets", u32_sets(!slow));
    s!("String sets", str_sets(!slow));
    s!("() sets", gen_sets::<()>(false));
    s!("Box<u32> sets", gen_sets::<Box<u32>>(false));
    let n = if slow { c.pick(2, 3) } else { 4 };
    c.scenario("algebra of u32", |c| {
        let d = [[10u32, 11, 12, 13], [0, u32::MAX, 7, 1 << 20]];
        for d in d.into_iter().take(if slow && c.quick() { 1 } else { 2 }) {
            pairs_of(c, n, &format!("{d:?}"), |cx, a, b| u32_algebra(cx, &U32Kinds::new(&pick(&d[..n], a)), &U32Kinds::new(&pick(&d[..n], b))));
        }
    });
    c.scenario("algebra of String", |c| {
        let d: Vec<String> = ["a1", "b1", "", "a2xyz"].iter().map(|s| s.to_string()).collect();
        pairs_of(c, n, &format!("{d:?}"), |cx, a, b| str_algebra(cx, &StrKinds::new(&pick(&d[..n], a)), &StrKinds::new(&pick(&d[..n], b))));
    });
    c.scenario("algebra of Box<u32>", |c| {
        let d: Vec<Box<u32>> = (0..4).map(<Box<u32>>::gen).collect();
        pairs_of(c, n, "Box<u32>", |cx, a, b| gen_algebra(cx, &GenKinds::new(&pick(&d[..n], a)), &GenKinds::new(&pick(&d[..n], b))));
    });
    c.scenario("algebra of ()", |c| {
        pairs_of(c, 1, "()", |cx, a, b| gen_algebra(cx, &GenKinds::new(&pick(&[()], a)), &GenKinds::new(&pick(&[()], b))));
    });
    let len = if slow { c.pick(3, 5) } else { c.pick(5, 7) };
    repeated::<u32>(&mut c, len);
    repeated::<String>(&mut c, len);
    repeated::<()>(&mut c, len);
    repeated::<u64>(&mut c, len);
    repeated::<Box<u32>>(&mut c, len);
    repeated::<(String, u32)>(&mut c, len);
    let _ = permutations;
    c.finish();
}
