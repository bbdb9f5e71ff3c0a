//! Debug output shows the exact content.
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::{
    CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet, Set,
};
use mc::hashers::*;
use mc::iters::drain;
use mc::zoo::*;
use mc::*;
use std::cell::RefCell;
use std::fmt::{self, Debug, Write};
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// What the standard library makes of the same entries.
struct Std<'a, K, V>(Vec<(&'a K, &'a V)>);
impl<K: Debug, V: Debug> Debug for Std<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.0.iter().map(|e| (e.0, e.1))).finish()
    }
}

fn styles(d: &dyn Debug) -> Vec<String> {
    vec![
        format!("{d:?}"),
        format!("{d:#?}"),
        format!("{d:x?}"),
        format!("{d:#x?}"),
        format!("{d:X?}"),
        format!("{d:5?}"),
        format!("{d:#05?}"),
        format!("{d:<9.1?}"),
        format!("{d:+?}"),
    ]
}

/// A writer which fails after some bytes.
struct Short {
    left: usize,
    got: String,
}
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

fn shortened(d: &dyn Debug, pretty: bool, left: usize) -> (bool, String) {
    let mut w = Short { left, got: String::new() };
    let r = if pretty { write!(w, "{d:#?}") } else { write!(w, "{d:?}") };
    (r.is_ok(), w.got)
}

fn map_shows<K: Debug, V: Debug>(cx: &mut Cx, got: &dyn Debug, entries: Vec<(&K, &V)>, cut: bool) -> R {
    let std = Std(entries);
    let (a, b) = (styles(got), styles(&std));
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        ck!(x == y, "style {i} shows {x} instead of {y}");
    }
    cx.tr(a.len() as u64);
    if cut {
        for (pretty, full) in [(false, &b[0]), (true, &b[1])] {
            for left in 0..=full.len() {
                let (x, y) = (shortened(got, pretty, left), shortened(&std, pretty, left));
                ck!(x == y, "with room for {left} bytes: {x:?} instead of {y:?}");
                cx.tr(1);
            }
        }
    }
    cx.out(b[0].len() as u64);
    Ok(())
}

/// The values shown in a text: what lies between quotes, or numbers.
fn tokens(text: &str, quoted: bool) -> Vec<String> {
    let mut v = Vec::new();
    if quoted {
        let mut parts = text.split('"');
        parts.next();
        while let Some(p) = parts.next() {
            v.push(p.to_string());
            parts.next();
        }
    } else {
        let mut cur = String::new();
        for ch in text.chars().chain([' ']) {
            if ch.is_ascii_digit() || ch == '-' {
                cur.push(ch);
            } else if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        }
    }
    v.sort_unstable();
    v
}

fn set_shows(cx: &mut Cx, got: &dyn Debug, mut want: Vec<String>, quoted: bool) -> R {
    want.sort_unstable();
    for text in [format!("{got:?}"), format!("{got:#?}")] {
        let t = tokens(&text, quoted);
        ck!(t == want, "{text} shows {t:?} instead of {want:?}");
        cx.out(text.len() as u64);
    }
    cx.tr(2);
    Ok(())
}

trait Plain {
    const QUOTED: bool;
    fn plain(&self) -> String;
}
impl Plain for u32 {
    const QUOTED: bool = false;
    fn plain(&self) -> String {
        self.to_string()
    }
}
impl Plain for String {
    const QUOTED: bool = true;
    fn plain(&self) -> String {
        self.clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Odd {
    Nothing,
    Text(String),
    Deep(Vec<Option<(i64, f64)>>),
}

fn odd(i: usize) -> Odd {
    match i % 4 {
        0 => Odd::Nothing,
        1 => Odd::Text(["", "\"", "}\n{", "a: b,", "é\u{7f}"][i / 4 % 5].to_string()),
        2 => Odd::Deep(vec![]),
        _ => Odd::Deep(vec![None, Some((-(i as i64), i as f64 / 3.0))]),
    }
}

fn maps<K: Clone + Debug + Hash + Eq + 'static, V: Val>(c: &mut Ctx, name: &str, zoo: &dyn Fn(bool) -> Vec<Zoo<K, V>>, val: &dyn Fn(usize) -> V) {
    let zoo = zoo(true);
    c.scenario(name, |c| {
        for z in &zoo {
            c.case(
                || z.name.clone(),
                |cx| {
                    let mut i = 0;
                    let m = z.build(&mut |_| {
                        i += 1;
                        val(i)
                    });
                    let d = m.shown();
                    { let e = drain(cx, m.entries(), z.keys.len())?; map_shows(cx, &*d, e, z.keys.len() < 9)?; }
                    let w = m.dup();
                    drop(d);
                    drop(m);
                    let d = w.shown();
                    { let e = drain(cx, w.entries(), z.keys.len())?; map_shows(cx, &*d, e, false) }
                },
            );
        }
    });
}

fn sets<T: Clone + Debug + Plain + Hash + Eq + 'static>(c: &mut Ctx, name: &str, zoo: Vec<SetZoo<T>>) {
    c.scenario(name, |c| {
        for z in &zoo {
            c.case(
                || z.name.clone(),
                |cx| {
                    let s = z.build();
                    let want: Vec<String> = z.els.iter().map(Plain::plain).collect();
                    let shown = s.shown();
                    if let Some(d) = &shown {
                        set_shows(cx, &**d, want, T::QUOTED)?;
                    }
                    drop(shown);
                    Ok(())
                },
            );
        }
    });
}

// every representation of every subset of a few elements in every order
fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    for i in 0..n {
        all = all
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                (0..=i).map(move |at| {
                    let mut q = p.clone();
                    q.insert(at, i);
                    q
                })
            })
            .collect();
    }
    all
}

fn all_u32(c: &mut Ctx) {
    let max = c.pick(6, 8);
    c.scenario("all orders of few integers", |c| {
        for n in 0..=max {
            for p in perms(n) {
                for stride in [1u32, 2, 16, 255, 1 << 20, 0x2aaa_aaab] {
                    let els: Vec<u32> = p.iter().map(|i| 5u32.wrapping_add(stride.wrapping_mul(*i as u32))).collect();
                    c.case(
                        || format!("{els:?}"),
                        |cx| {
                            let mut v = Vec::new();
                            u32_sets_of(&mut v, if stride == 1 { "range" } else { "any" }, &els, &[]);
                            for z in &v {
                                let s = z.build();
                                let shown = s.shown();
                                if let Some(d) = &shown {
                                    set_shows(cx, &**d, els.iter().map(Plain::plain).collect(), false).map_err(|e| format!("{}: {e}", z.name))?;
                                }
                            }
                            let pairs: Vec<(u32, Odd)> = els.iter().map(|k| (*k, odd(*k as usize % 61))).collect();
                            let m = FrozenMap::from_vec_with_hasher(pairs.clone(), MIX);
                            map_shows(cx, &m, m.iter().collect(), false)?;
                            let m = IntegerMap::<_, _, u8>::from_vec(pairs.clone());
                            map_shows(cx, &m, m.iter().collect(), false)?;
                            let m = CommonMap::<_, _, u8, PH>::from_vec_with_hasher(pairs.clone(), LOW2);
                            map_shows(cx, &m, m.iter().collect(), false)?;
                            let m = ScanningMap::from_vec(pairs.clone());
                            map_shows(cx, &m, m.iter().collect(), false)?;
                            if stride == 1 {
                                let m = IntegerRangeMap::from_vec(pairs);
                                map_shows(cx, &m, m.iter().collect(), false)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn all_str(c: &mut Ctx) {
    let max = c.pick(5, 5);
    let shapes: [&[&str]; 6] = [
        &["a", "b", "c", "d", "e"],
        &["", "a", "bb", "ccc", "dddd"],
        &["aX", "bX", "cX", "dXX", "eX"],
        &["Xa", "Xb", "XXc", "Xd", "Xe"],
        &["same-1", "same-2", "same-22", "same-3", "other"],
        &["{", "}", ": ()", ", ", "\\"],
    ];
    c.scenario("all orders of few strings", |c| {
        for (si, shape) in shapes.iter().enumerate() {
            for n in 0..=max {
                for p in perms(n) {
                    let els: Vec<String> = p.iter().map(|i| shape[*i].to_string()).collect();
                    c.case(
                        || format!("{els:?}"),
                        |cx| {
                            let mut v = Vec::new();
                            str_sets_of(&mut v, "any", &els, &[]);
                            for z in &v {
                                let s = z.build();
                                let shown = s.shown();
                                if let Some(d) = &shown {
                                    // as shown, with escapes
                                    let want = els.iter().map(|e| e.escape_debug().to_string()).collect();
                                    set_shows(cx, &**d, want, true).map_err(|e| format!("{}: {e}", z.name))?;
                                }
                            }
                            let pairs: Vec<(String, Odd)> = els.iter().enumerate().map(|(i, k)| (k.clone(), odd(i * 7 + si))).collect();
                            let m = FrozenMap::from_vec_with_hasher(pairs.clone(), MIX);
                            map_shows(cx, &m, m.iter().collect(), n < 4)?;
                            let m = LengthMap::<_, _, u8>::from_vec(pairs.clone());
                            map_shows(cx, &m, m.iter().collect(), false)?;
                            let m = LeftSliceMap::<_, _, u8, PH>::from_vec_with_hasher(pairs.clone(), 0..1, LOW2);
                            map_shows(cx, &m, m.iter().collect(), false)?;
                            let m = RightSliceMap::<_, _, u8, PH>::from_vec_with_hasher(pairs, 0..1, ZERO);
                            map_shows(cx, &m, m.iter().collect(), false)
                        },
                    );
                }
            }
        }
    });
}

// ---- elements which note that they are shown ----

thread_local!(static SHOWN: RefCell<Vec<(u32, bool)>> = const { RefCell::new(Vec::new()) });

#[derive(Clone, PartialEq, Eq, Hash)]
struct Noted(u32);
impl Debug for Noted {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        SHOWN.with(|s| s.borrow_mut().push((self.0, f.alternate())));
        Ok(())
    }
}
/// A value which must not matter to what is shown of a set.
fn noted(c: &mut Ctx) {
    c.scenario("elements that show nothing", |c| {
        for n in 0..=8u32 {
            for h in [MIX, ZERO, LOW2, IDENT] {
                for pretty in [false, true] {
                    c.case(
                        || format!("{n}, {h:?}, {pretty}"),
                        |cx| {
                            let v: Vec<Noted> = (0..n).map(Noted).collect();
                            let p: Vec<(Noted, Noted)> = (0..n).map(|i| (Noted(i), Noted(100 + i))).collect();
                            macro_rules! look {
                                ($e:expr, $map:expr) => {
                                    SHOWN.with(|s| s.borrow_mut().clear());
                                    let x = $e;
                                    let _ = if pretty { format!("{x:#?}") } else { format!("{x:?}") };
                                    let mut got = SHOWN.with(|s| s.borrow().clone());
                                    got.sort_unstable();
                                    let want: Vec<(u32, bool)> = (0..n).chain(if $map { 100..100 + n } else { 0..0 }).map(|i| (i, pretty)).collect();
                                    ck!(got == want, "{} shows {got:?}", stringify!($e));
                                    cx.tr(1);
                                };
                            }
                            look!(CommonSet::<_, u8, PH>::from_vec_with_hasher(v.clone(), h), false);
                            look!(CommonSet::<_, usize, PH>::from_vec_with_hasher(v.clone(), h), false);
                            look!(ScanningSet::from_vec(v.clone()), false);
                            look!(CommonMap::<_, _, u16, PH>::from_vec_with_hasher(p.clone(), h), true);
                            look!(ScanningMap::from_vec(p.clone()), true);
                            look!(FrozenMap::from_vec_with_hasher(p.clone(), h), true);
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

// ---- iterators ----

fn ahead<I: Iterator + Debug>(cx: &mut Cx, mut it: I, show: impl Fn(&I::Item) -> String, rest: impl Fn(&I) -> Vec<String>) -> R {
    loop {
        let want = rest(&it);
        set_shows(cx, &it, want, false)?;
        match it.next() {
            Some(x) => {
                let _ = show(&x);
            }
            None => break,
        }
    }
    set_shows(cx, &it, vec![], false)
}

fn iterators(c: &mut Ctx) {
    let max = c.pick(6u32, 8);
    c.scenario("what set iterators have yet to yield", |c| {
        for ma in 0..1u32 << max {
            for mb in 0..1u32 << max {
                c.case(
                    || format!("{ma:#b} {mb:#b}"),
                    |cx| {
                        let of = |m: u32| (0..max).filter(|i| m >> i & 1 == 1).map(|i| i * 3 + 10).collect::<Vec<u32>>();
                        let (va, vb) = (of(ma), of(mb));
                        fn left<'a, I: Iterator<Item = &'a u32> + Clone>(i: &I) -> Vec<String> {
                            i.clone().map(ToString::to_string).collect()
                        }
                        macro_rules! go {
                            ($n:expr, $a:expr, $b:expr) => {
                                let (a, b) = (&$a, &$b);
                                (|| {
                                    ahead(cx, a.union(b), |x| x.to_string(), left)?;
                                    ahead(cx, a.intersection(b), |x| x.to_string(), left)?;
                                    ahead(cx, a.difference(b), |x| x.to_string(), left)?;
                                    ahead(cx, a.symmetric_difference(b), |x| x.to_string(), left)?;
                                    ahead(cx, a.iter(), |x| x.to_string(), left)
                                })()
                                .map_err(|e: String| format!("{}: {e}", $n))?;
                            };
                        }
                        let cs = |v: &[u32]| CommonSet::<u32, u8, PH>::from_vec_with_hasher(v.to_vec(), MIX);
                        let is = |v: &[u32]| IntegerSet::<u32, u16>::from_vec(v.to_vec());
                        let sc = |v: &[u32]| ScanningSet::from_vec(v.to_vec());
                        let fs = |v: &[u32]| FrozenSet::from_vec_with_hasher(v.to_vec(), MIX);
                        go!("common, integer", cs(&va), is(&vb));
                        go!("integer, scanning", is(&va), sc(&vb));
                        go!("scanning, frozen", sc(&va), fs(&vb));
                        go!("frozen, common", fs(&va), cs(&vb));
                        if mb == 0 {
                            fn own<I: Iterator<Item = u32> + Clone>(i: &I) -> Vec<String> {
                                i.clone().map(|x| x.to_string()).collect()
                            }
                            ahead(cx, cs(&va).into_iter(), |x| x.to_string(), own)?;
                            ahead(cx, is(&va).into_iter(), |x| x.to_string(), own)?;
                            ahead(cx, sc(&va).into_iter(), |x| x.to_string(), own)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    });
    c.scenario("what map iterators have yet to yield", |c| {
        for mask in 0..1u32 << (max + 2) {
            c.case(
                || format!("{mask:#b}"),
                |cx| {
                    let p: Vec<(u32, u32)> = (0..max + 2).filter(|i| mask >> i & 1 == 1).map(|i| (i * 3 + 10, i + 1000)).collect();
                    macro_rules! each {
                        ($m:expr) => {
                            let m = $m;
                            // keys and values, as numbers
                            ahead(cx, m.iter(), |x| x.0.to_string(), |i| i.clone().flat_map(|e| [e.0.to_string(), e.1.to_string()]).collect())?;
                            ahead(cx, m.keys(), |x| x.to_string(), |i| i.clone().map(|e| e.to_string()).collect())?;
                            ahead(cx, m.values(), |x| x.to_string(), |i| i.clone().map(|e| e.to_string()).collect())?;
                        };
                    }
                    each!(FrozenMap::from_vec_with_hasher(p.clone(), MIX));
                    each!(CommonMap::<_, _, u8, PH>::from_vec_with_hasher(p.clone(), LOW2));
                    each!(IntegerMap::<_, _, u8>::from_vec(p.clone()));
                    each!(ScanningMap::from_vec(p));
                    Ok(())
                },
            );
        }
    });
}

fn nested(c: &mut Ctx) {
    c.scenario("collections in collections", |c| {
        for n in 0..6u32 {
            for k in 0..6u32 {
                c.case(
                    || format!("{n} maps of {k}"),
                    |cx| {
                        let inner = |b: u32| FrozenMap::from_vec_with_hasher((0..k).map(|i| (format!("{i}"), i * b)).collect(), MIX);
                        let m = FrozenMap::from_vec_with_hasher((0..n).map(|i| (i * 5, inner(i))).collect(), MIX);
                        map_shows(cx, &m, m.iter().collect(), n + k < 6)?;
                        // once more with what is inside replaced by what the standard library has
                        let inner: Vec<(u32, std::collections::BTreeMap<u32, String>)> =
                            (0..n).map(|i| (i * 5, (0..k).map(|j| (j, format!("{i}{j}"))).collect())).collect();
                        let m = CommonMap::<_, _, u8, PH>::from_vec_with_hasher(inner, LOW2);
                        map_shows(cx, &m, m.iter().collect(), n + k < 6)?;
                        let sets: Vec<(u32, IntegerSet<u32, u8>)> = (0..n).map(|i| (i, IntegerSet::from_vec((0..k).map(|j| 100 + i * 10 + j).collect()))).collect();
                        let want = (0..n).flat_map(|i| std::iter::once(i).chain((0..k).map(move |j| 100 + i * 10 + j))).map(|x| x.to_string()).collect();
                        set_shows(cx, &ScanningMap::from_vec(sets), want, false)?;
                        let ranges = IntegerRangeSet::from_vec((7..7 + n).collect());
                        set_shows(cx, &ranges, (7..7 + n).map(|x| x.to_string()).collect(), false)?;
                        let text: Vec<String> = (0..n).map(|i| "x".repeat(i as usize)).collect();
                        set_shows(cx, &LengthSet::<_, u8>::from_vec(text.clone()), text.clone(), true)?;
                        set_shows(cx, &LeftSliceSet::<_, u8, PH>::from_vec_with_hasher(text.clone(), 0..k as usize, MIX), text.clone(), true)?;
                        set_shows(cx, &RightSliceSet::<_, u8, PH>::from_vec_with_hasher(text.clone(), 0..k as usize, MIX), text, true)
                    },
                );
            }
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    maps::<u32, u32>(&mut c, "maps of integers to integers", &u32_maps, &|i| (i * 4099) as u32);
    maps::<u32, Odd>(&mut c, "maps of integers to odd values", &u32_maps, &odd);
    maps::<u32, ()>(&mut c, "maps of integers to nothing", &u32_maps, &|_| ());
    maps::<String, Odd>(&mut c, "maps of strings to odd values", &str_maps, &odd);
    maps::<String, f64>(&mut c, "maps of strings to floats", &str_maps, &|i| i as f64 * -1.25);
    macro_rules! gen {
        ($($t:ty),*) => { $( maps::<$t, Odd>(&mut c, concat!("maps of ", stringify!($t)), &gen_maps, &odd); )* };
    }
    use mc::keys::*;
    gen!(i64, char, (), &'static str, Vec<u8>, Option<String>, (String, u32), Mod1000, CiString, En, Big, Aligned, std::rc::Rc<str>);
    sets(&mut c, "sets of integers", u32_sets(true));
    sets(&mut c, "sets of strings", str_sets(true));
    all_u32(&mut c);
    all_str(&mut c);
    noted(&mut c);
    iterators(&mut c);
    nested(&mut c);
    c.finish();
}
