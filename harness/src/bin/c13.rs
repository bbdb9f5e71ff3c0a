//! Set-operation iterators keep the iterator contract at every step.
use frozen_collections_core::specialized_sets::Set;
use mc::iters::{drain, tapes, walk, It, Pl};
use mc::keys::*;
use mc::pairs::*;
use mc::*;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

const OPS: [&str; 4] = ["union", "intersection", "difference", "symmetric_difference"];

/// Walks the iterator made by `make` and explores call sequences at its positions.
#[inline(never)]
fn contract<T: Eq + Hash + Debug>(cx: &mut Cx, op: usize, a: &[T], b: &[T], what: &dyn Fn() -> String, make: &dyn Fn() -> It<'static, &'static T>, depth: usize) -> R {
    let mut marks: HashMap<&T, u8> = HashMap::new();
    for x in a {
        *marks.entry(x).or_default() |= 1;
    }
    for x in b {
        *marks.entry(x).or_default() |= 2;
    }
    let want = |m: u8| match op {
        0 => m != 0,
        1 => m == 3,
        2 => m == 1,
        _ => m == 1 || m == 2,
    };
    let n = marks.values().filter(|m| want(**m)).count();
    (|| {
        let exp = drain(cx, make(), n)?;
        ck!(exp.len() == n, "{} elements instead of {n}", exp.len());
        for x in &exp {
            ck!(marks.get(x).is_some_and(|m| want(*m)), "yields {x:?}");
        }
        let same = |a: &&T, b: &&T| std::ptr::eq(*a, *b);
        walk(cx, make, &exp, &same, n <= 64)?;
        if depth > 0 {
            let mut it = make();
            for p in 0..=n {
                if n <= 12 || p < 2 || p + 2 > n || p == n / 2 {
                    tapes(cx, &it, &exp[p..], &same, depth).map_err(|e| format!("from position {p}: {e}"))?;
                }
                it.step();
            }
        }
        Ok(())
    })()
    .map_err(|e: String| format!("{}: {e}", what()))
}

macro_rules! pair {
    ($cx:expr, $t:ty, $x:expr, $y:expr, $a:expr, $na:expr, $b:expr, $nb:expr, $d:expr) => {{
        // the iterators are gone before the sets
        let (a, b) = unsafe { (&*(&raw const *$a), &*(&raw const *$b)) };
        let w = |op: usize| move || format!("{} {} {}", $na, OPS[op], $nb);
        contract::<$t>($cx, 0, &$x.els, &$y.els, &w(0), &|| Box::new(Pl(Set::<$t>::union(a, b))), $d)?;
        contract::<$t>($cx, 1, &$x.els, &$y.els, &w(1), &|| Box::new(Pl(Set::<$t>::intersection(a, b))), $d)?;
        contract::<$t>($cx, 2, &$x.els, &$y.els, &w(2), &|| Box::new(Pl(Set::<$t>::difference(a, b))), $d)?;
        contract::<$t>($cx, 3, &$x.els, &$y.els, &w(3), &|| Box::new(Pl(Set::<$t>::symmetric_difference(a, b))), $d)?;
    }};
}
macro_rules! all {
    ($cx:expr, $kind:tt, $t:ty, $x:expr, $y:expr, $d:expr) => {{
        let (x, y) = (&$x, &$y);
        mc::each_kind!($kind, x, |a, na| {
            mc::each_kind!($kind, y, |b, nb| {
                pair!($cx, $t, x, y, a, na, b, nb, $d);
            });
        });
        $cx.st();
    }};
}

#[inline(never)]
fn u32_all(cx: &mut Cx, x: &U32Kinds, y: &U32Kinds, d: usize) -> R {
    all!(cx, u32, u32, *x, *y, d);
    Ok(())
}
#[inline(never)]
fn str_all(cx: &mut Cx, x: &StrKinds, y: &StrKinds, d: usize) -> R {
    all!(cx, str, String, *x, *y, d);
    Ok(())
}
#[inline(never)]
fn gen_all<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, x: &GenKinds<K>, y: &GenKinds<K>, d: usize) -> R {
    all!(cx, gen, K, *x, *y, d);
    Ok(())
}

fn typ<K: Gen>(c: &mut Ctx) {
    c.scenario(&format!("type {}", K::NAME), |c| {
        let d: Vec<K> = (0..K::CARD.min(c.pick(4, 5))).map(K::gen).collect();
        for a in 0..1 << d.len() {
            for b in 0..1 << d.len() {
                c.case(
                    || format!("elements {:?} and {:?}", pick(&d, a), pick(&d, b)),
                    |cx| gen_all(cx, &GenKinds::new(&pick(&d, a)), &GenKinds::new(&pick(&d, b)), 2),
                );
            }
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    let quick = c.quick();
    let depth = c.pick(2, 4);
    for (i, d) in u32_domains(quick).into_iter().enumerate() {
        c.scenario(&format!("u32 domain {i}"), |c| {
            for a in 0..1 << d.len() {
                for b in 0..1 << d.len() {
                    c.case(
                        || format!("elements {:?} and {:?}", pick(&d, a), pick(&d, b)),
                        |cx| u32_all(cx, &U32Kinds::new(&pick(&d, a)), &U32Kinds::new(&pick(&d, b)), depth),
                    );
                }
            }
        });
    }
    for (i, d) in str_domains(quick).into_iter().enumerate() {
        c.scenario(&format!("String domain {i}"), |c| {
            for a in 0..1 << d.len() {
                for b in 0..1 << d.len() {
                    c.case(
                        || format!("elements {:?} and {:?}", pick(&d, a), pick(&d, b)),
                        |cx| str_all(cx, &StrKinds::new(&pick(&d, a)), &StrKinds::new(&pick(&d, b)), depth),
                    );
                }
            }
        });
    }
    typ::<u64>(&mut c);
    typ::<CiString>(&mut c);
    c.scenario("big u32", |c| {
        for (name, a, b) in u32_big_pairs(true) {
            if a.len() + b.len() > if quick { 520 } else { 3000 } {
                continue;
            }
            c.case(|| name.clone(), |cx| u32_all(cx, &U32Kinds::new(&a), &U32Kinds::new(&b), 1));
        }
    });
    c.finish();
}
