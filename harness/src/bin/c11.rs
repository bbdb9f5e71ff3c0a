//! Iterating a set yields every element exactly once.
use mc::hashers::MIX;
use mc::iters::{drain, tapes, walk, It};
use mc::keys::*;
use mc::sets::{elements, SetLike, FS};
use mc::zoo::*;
use mc::*;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::Hash;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

fn borrowing<T: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, s: &dyn SetLike<T>, els: &[T], depth: usize, stride: usize) -> R {
    elements(cx, s, els)?;
    let n = els.len();
    let exp: Vec<&T> = drain(cx, s.elems(), n)?;
    for e in &exp {
        ck!(s.get(e).is_some_and(|g| std::ptr::eq(g, *e)), "{e:?} of the iteration is not what get returns");
    }
    let same = |a: &&T, b: &&T| std::ptr::eq(*a, *b);
    walk(cx, &|| s.elems(), &exp, &same, n <= 300).map_err(|e| format!("iter(): {e}"))?;
    walk(cx, &|| s.trait_iter(), &exp, &same, n <= 300).map_err(|e| format!("Set::iter(): {e}"))?;
    walk(cx, &|| s.ref_iter(), &exp, &same, n <= 300).map_err(|e| format!("iteration over a reference: {e}"))?;
    let mut p = 0;
    while p <= n {
        for which in 0..3 {
            let mut it = match which {
                0 => s.elems(),
                1 => s.trait_iter(),
                _ => s.ref_iter(),
            };
            for _ in 0..p {
                it.step();
            }
            tapes(cx, &it, &exp[p..], &same, depth).map_err(|e| format!("from position {p}: {e}"))?;
        }
        p += stride;
    }
    cx.out(n as u64);
    Ok(())
}

fn consuming<T: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, make: &dyn Fn() -> Option<It<'static, T>>, els: &[T], depth: usize, stride: usize) -> R {
    let Some(it) = make() else { return Ok(()) };
    let n = els.len();
    let exp: Vec<T> = drain(cx, it, n)?;
    let a: HashSet<&T> = exp.iter().collect();
    ck!(exp.len() == n && a.len() == n && els.iter().all(|e| a.contains(e)), "iteration by value yields {exp:?} instead of {els:?}");
    let same = |a: &T, b: &T| *a == *b;
    walk(cx, &|| make().unwrap(), &exp, &same, n <= 300)?;
    let mut p = 0;
    while p <= n {
        let mut it = make().unwrap();
        for _ in 0..p {
            it.step();
        }
        tapes(cx, &it, &exp[p..], &same, depth).map_err(|e| format!("from position {p}: {e}"))?;
        p += stride;
    }
    Ok(())
}

fn explore<T: Clone + Eq + Hash + Debug + 'static>(c: &mut Ctx, name: &str, zoo: Vec<SetZoo<T>>) {
    c.scenario(name, |c| {
        let depth = c.pick(3, 4);
        for z in &zoo {
            let n = z.els.len();
            for order in 0..3 {
                c.case(
                    || format!("{} with {:?}, order {order}", z.name, &z.els[..n.min(12)]),
                    |cx| {
                        let mut els = z.els.clone();
                        match order {
                            1 => els.reverse(),
                            2 => els.rotate_left(n / 2),
                            _ => {}
                        }
                        let s = (z.make)(els.clone());
                        let (d, st) = if n <= 10 { (depth, 1) } else { (2, n / 4) };
                        borrowing(cx, &*s as &dyn SetPlus<T>, &els, d, st)?;
                        let k = s.dup();
                        drop(s);
                        borrowing(cx, &*k as &dyn SetPlus<T>, &els, 1, st.max(2))?;
                        consuming(cx, &|| k.dup().consume(), &els, d, st).map_err(|e| format!("by value: {e}"))?;
                        consuming(cx, &|| (z.make)(els.clone()).consume(), &els, 1, st.max(2)).map_err(|e| format!("by value: {e}"))
                    },
                );
            }
        }
    });
}

fn typ<K: Gen>(c: &mut Ctx) {
    let big = !c.quick();
    explore::<K>(c, K::NAME, gen_sets(big));
}

fn main() {
    let mut c = Ctx::from_args();
    explore::<u32>(&mut c, "u32 kinds", u32_sets(true));
    explore::<String>(&mut c, "String kinds", str_sets(true));
    mc::all_key_types!(typ, &mut c);
    c.scenario("windows", |c| {
        spaces::windows(c.pick(7, 10), 1, |s| {
            c.case(
                || format!("set kinds of u32 {s:?}"),
                |cx| {
                    let els = s.keys();
                    let range = els.len() > 1 && els[els.len() - 1] > els[0] && (els[els.len() - 1] - els[0]) as usize == els.len() - 1;
                    let mut v = Vec::new();
                    u32_sets_of(&mut v, if range { "range" } else { "" }, &els, &[]);
                    for z in v {
                        let s = z.build();
                        borrowing(cx, &*s as &dyn SetPlus<u32>, &els, 2, 2).map_err(|e| format!("{}: {e}", z.name))?;
                        consuming(cx, &|| s.dup().consume(), &els, 2, 2).map_err(|e| format!("{}: by value: {e}", z.name))?;
                    }
                    Ok(())
                },
            );
        });
    });
    c.scenario("sizes", |c| {
        for n in spaces::sizes(c.quick()) {
            for fam in [0u8, 3, 6, 11, 16, 13] {
                c.case(
                    || format!("FrozenSet<u32> of {n} elements of family {fam}"),
                    |cx| {
                        let els = spaces::US::Fam { fam, n, order: fam % 3 }.keys();
                        let s = FS::from_vec_with_hasher(els.clone(), MIX);
                        elements(cx, &s, &els)?;
                        let mut it = s.iter();
                        for i in 0..=n {
                            ck!(it.len() == n - i && it.size_hint() == (n - i, Some(n - i)), "len() is {} with {} left", it.len(), n - i);
                            if i % 7 == 0 || n - i < 3 {
                                ck!(it.clone().count() == n - i, "count() is {} with {} left", it.clone().count(), n - i);
                            }
                            ck!(it.next().is_some() == (i < n), "ends at {i}");
                        }
                        ck!(s.iter().map(|e| u64::from(*e)).sum::<u64>() == els.iter().map(|e| u64::from(*e)).sum(), "sum of elements is wrong");
                        cx.tr(n as u64 * 2);
                        Ok(())
                    },
                );
            }
        }
    });
    c.finish();
}
