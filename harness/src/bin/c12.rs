//! Set algebra between any two sets is mathematically exact.
use frozen_collections_core::specialized_sets::Set;
use frozen_collections_core::traits::len::Len;
use mc::keys::*;
use mc::pairs::*;
use mc::*;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// Elements of both lists with the marks of their membership.
struct Math<'a, T> {
    marks: HashMap<&'a T, u8>,
    both: usize,
    na: usize,
    nb: usize,
}
impl<'a, T: Eq + Hash + Debug> Math<'a, T> {
    fn new(a: &'a [T], b: &'a [T]) -> Self {
        let mut marks: HashMap<&T, u8> = HashMap::new();
        for x in a {
            *marks.entry(x).or_default() |= 1;
        }
        for x in b {
            *marks.entry(x).or_default() |= 2;
        }
        let both = marks.values().filter(|m| **m == 3).count();
        Self { marks, both, na: a.len(), nb: b.len() }
    }
    fn size(&self, op: usize) -> usize {
        match op {
            0 => self.na + self.nb - self.both,
            1 => self.both,
            2 => self.na - self.both,
            _ => self.na + self.nb - 2 * self.both,
        }
    }
    fn is_in(&self, op: usize, x: &T) -> bool {
        let m = self.marks.get(x).copied().unwrap_or(0);
        match op {
            0 => m != 0,
            1 => m == 3,
            2 => m == 1,
            _ => m == 1 || m == 2,
        }
    }
    /// The items are exactly the result, each once.
    fn exact<I: Iterator>(&self, cx: &mut Cx, op: usize, items: I, what: &dyn Fn() -> String) -> R
    where
        I::Item: std::borrow::Borrow<T>,
    {
        let n = self.size(op);
        let v: Vec<I::Item> = items.take(n + 2).collect();
        let v: Vec<&T> = v.iter().map(std::borrow::Borrow::borrow).collect();
        self.exactly(cx, op, &v, what)
    }
    #[inline(never)]
    fn exactly(&self, cx: &mut Cx, op: usize, v: &[&T], what: &dyn Fn() -> String) -> R {
        let n = self.size(op);
        ck!(v.len() == n, "{}: {} elements instead of {n}", what(), v.len());
        for x in v {
            ck!(self.is_in(op, x), "{}: yields {x:?}", what());
        }
        if n > 1 {
            let d: std::collections::HashSet<&T> = v.iter().copied().collect();
            ck!(d.len() == n, "{}: repeats an element: {v:?}", what());
        }
        cx.tr(1 + n as u64);
        Ok(())
    }
}

const OPS: [&str; 4] = ["union", "intersection", "difference", "symmetric_difference"];

#[inline(never)]
fn pair<T: Eq + Hash + Debug, A: Set<T>, B: Set<T>>(cx: &mut Cx, m: &Math<T>, a: &A, na: &str, b: &B, nb: &str) -> R {
    let w = |op: usize| move || format!("{na} {} {nb}", OPS[op]);
    m.exact(cx, 0, a.union(b), &w(0))?;
    m.exact(cx, 1, a.intersection(b), &w(1))?;
    m.exact(cx, 2, a.difference(b), &w(2))?;
    m.exact(cx, 3, a.symmetric_difference(b), &w(3))
}
macro_rules! operators {
    ($cx:expr, $t:ty, $m:expr, $a:expr, $na:expr, $b:expr, $nb:expr) => {{
        let w = |op: &'static str| move || format!("{} {op} {}", $na, $nb);
        $m.exact($cx, 0, ($a | $b).into_iter(), &w("|"))?;
        $m.exact($cx, 1, ($a & $b).into_iter(), &w("&"))?;
        $m.exact($cx, 2, ($a - $b).into_iter(), &w("-"))?;
        $m.exact($cx, 3, ($a ^ $b).into_iter(), &w("^"))?;
        // the collected result is itself a working set
        let u = $a | $b;
        for x in $m.marks.keys() {
            ck!(u.contains(*x), "{} | {}: the result does not contain {x:?}", $na, $nb);
        }
    }};
}
macro_rules! untouched {
    ($k:expr, $a:expr, $na:expr) => {{
        ck!(Len::len($a) == $k.els.len(), "{}: length changed to {}", $na, Len::len($a));
        for x in &$k.els {
            ck!(Set::contains($a, x), "{}: lost {x:?}", $na);
        }
    }};
}
macro_rules! all {
    ($cx:expr, $kind:tt, $t:ty, $x:expr, $y:expr) => {{
        let (x, y) = (&$x, &$y);
        let m = Math::new(&x.els, &y.els);
        mc::each_kind!($kind, x, |a, na| {
            mc::each_kind!($kind, y, |b, nb| {
                pair::<$t, _, _>($cx, &m, a, na, b, nb)?;
            });
        });
        mc::each_kind!($kind own, x, |a, na| {
            mc::each_kind!($kind, y, |b, nb| {
                operators!($cx, $t, m, a, na, b, nb);
            });
        });
        mc::each_kind!($kind, x, |a, na| {
            untouched!(x, a, na);
        });
        $cx.out(m.both as u64 * 100 + m.na as u64 * 10 + m.nb as u64);
        $cx.st();
    }};
}

#[inline(never)]
fn u32_all(cx: &mut Cx, x: &U32Kinds, y: &U32Kinds) -> R {
    all!(cx, u32, u32, *x, *y);
    Ok(())
}
#[inline(never)]
fn str_all(cx: &mut Cx, x: &StrKinds, y: &StrKinds) -> R {
    all!(cx, str, String, *x, *y);
    Ok(())
}
#[inline(never)]
fn gen_all<K: Clone + Eq + Hash + Debug>(cx: &mut Cx, x: &GenKinds<K>, y: &GenKinds<K>) -> R {
    all!(cx, gen, K, *x, *y);
    Ok(())
}

fn typ<K: Gen>(c: &mut Ctx) {
    c.scenario(&format!("type {}", K::NAME), |c| {
        let d: Vec<K> = (0..K::CARD.min(c.pick(4, 5))).map(K::gen).collect();
        let e: Vec<K> = (0..d.len()).map(K::alt).collect();
        for a in 0..1 << d.len() {
            for b in 0..1 << d.len() {
                c.case(
                    || format!("elements {:?} and {:?}", pick(&d, a), pick(&e, b)),
                    |cx| gen_all(cx, &GenKinds::new(&pick(&d, a)), &GenKinds::new(&pick(&e, b))),
                );
            }
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    for (i, d) in u32_domains(c.quick()).into_iter().enumerate() {
        c.scenario(&format!("u32 domain {i}"), |c| {
            for a in 0..1 << d.len() {
                for b in 0..1 << d.len() {
                    c.case(
                        || format!("elements {:?} and {:?}", pick(&d, a), pick(&d, b)),
                        |cx| u32_all(cx, &U32Kinds::new(&pick(&d, a)), &U32Kinds::new(&pick(&d, b))),
                    );
                }
            }
        });
    }
    for (i, d) in str_domains(c.quick()).into_iter().enumerate() {
        c.scenario(&format!("String domain {i}"), |c| {
            for a in 0..1 << d.len() {
                for b in 0..1 << d.len() {
                    c.case(
                        || format!("elements {:?} and {:?}", pick(&d, a), pick(&d, b)),
                        |cx| str_all(cx, &StrKinds::new(&pick(&d, a)), &StrKinds::new(&pick(&d, b))),
                    );
                }
            }
        });
    }
    mc::some_key_types!(typ, &mut c);
    c.scenario("big u32", |c| {
        for (name, a, b) in u32_big_pairs(c.quick()) {
            c.case(|| name.clone(), |cx| u32_all(cx, &U32Kinds::new(&a), &U32Kinds::new(&b)));
        }
    });
    c.scenario("big String", |c| {
        for (name, a, b) in u32_big_pairs(true) {
            for shape in 0..4 {
                if a.len() > 300 || b.len() > 300 {
                    continue;
                }
                let f = move |x: &u32| match shape {
                    0 => format!("{x:06}"),
                    1 => format!("{x}"),
                    2 => "x".repeat(*x as usize / 257 / 2) + ["", "y"][*x as usize % 2] + &x.to_string(),
                    _ => format!("{}{x:06}", "p".repeat(*x as usize % 4)),
                };
                c.case(
                    || format!("{name}, as strings of shape {shape}"),
                    |cx| {
                        let (a, b): (BTreeSet<String>, BTreeSet<String>) = (a.iter().map(f).collect(), b.iter().map(f).collect());
                        str_all(cx, &StrKinds::new(&a.into_iter().collect::<Vec<_>>()), &StrKinds::new(&b.into_iter().collect::<Vec<_>>()))
                    },
                );
            }
        }
    });
    c.finish();
}
