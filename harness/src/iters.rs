//! Exploration of iterators: every position, every method, against the list of items still to come.
use crate::engine::{Cx, R};
use crate::ck;
use std::fmt::Debug;
use std::iter::FusedIterator;

pub trait DynIter<'a, T> {
    fn step(&mut self) -> Option<T>;
    fn hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> Option<usize>;
    fn skip_to(&mut self, n: usize) -> Option<T>;
    fn count_all(self: Box<Self>) -> usize;
    fn fold_all(self: Box<Self>) -> Vec<T>;
    fn collect_all(self: Box<Self>) -> Vec<T>;
    fn each_all(self: Box<Self>) -> Vec<T>;
    fn last_one(self: Box<Self>) -> Option<T>;
    fn dup(&self) -> Box<dyn DynIter<'a, T> + 'a>;
    fn dbg(&self, pretty: bool) -> String;
    fn find_nth(&mut self, n: usize) -> Option<T>;
}

pub struct Ex<I>(pub I);
pub struct Pl<I>(pub I);

macro_rules! dyn_iter {
    ($w:ident, [$($b:tt)*], $len:expr) => {
        impl<'a, T, I> DynIter<'a, T> for $w<I>
        where
            I: Iterator<Item = T> + FusedIterator + Clone + Debug + 'a $($b)*,
        {
            fn step(&mut self) -> Option<T> {
                self.0.next()
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn exact(&self) -> Option<usize> {
                let f: fn(&I) -> Option<usize> = $len;
                f(&self.0)
            }
            fn skip_to(&mut self, n: usize) -> Option<T> {
                self.0.nth(n)
            }
            fn count_all(self: Box<Self>) -> usize {
                self.0.count()
            }
            fn fold_all(self: Box<Self>) -> Vec<T> {
                self.0.fold(Vec::new(), |mut v, x| {
                    v.push(x);
                    v
                })
            }
            fn collect_all(self: Box<Self>) -> Vec<T> {
                self.0.collect()
            }
            fn each_all(self: Box<Self>) -> Vec<T> {
                let mut v = Vec::new();
                self.0.for_each(|x| v.push(x));
                v
            }
            fn last_one(self: Box<Self>) -> Option<T> {
                self.0.last()
            }
            fn dup(&self) -> Box<dyn DynIter<'a, T> + 'a> {
                Box::new($w(self.0.clone()))
            }
            fn dbg(&self, pretty: bool) -> String {
                if pretty {
                    format!("{:#?}", self.0)
                } else {
                    format!("{:?}", self.0)
                }
            }
            fn find_nth(&mut self, n: usize) -> Option<T> {
                let mut i = 0;
                self.0.find(|_| {
                    i += 1;
                    i == n + 1
                })
            }
        }
    };
}
dyn_iter!(Ex, [+ ExactSizeIterator], |i| Some(i.len()));
dyn_iter!(Pl, [], |_| None);

pub type It<'a, T> = Box<dyn DynIter<'a, T> + 'a>;

/// All items, by stepping; checks that exhaustion is final.
pub fn drain<'a, T: Clone>(cx: &mut Cx, mut it: It<'a, T>, bound: usize) -> Result<Vec<T>, String> {
    let mut v = Vec::new();
    while let Some(x) = it.step() {
        v.push(x);
        cx.tr(1);
        ck!(v.len() <= bound, "iterator yields more than {bound} items");
    }
    for _ in 0..3 {
        ck!(it.step().is_none(), "exhausted iterator yields again");
    }
    Ok(v)
}

fn hint_ok<'a, T>(it: &It<'a, T>, left: usize, what: &str) -> R {
    let (lo, hi) = it.hint();
    if let Some(e) = it.exact() {
        ck!(e == left, "{what}: len() is {e} with {left} items left");
        ck!((lo, hi) == (left, Some(left)), "{what}: size_hint {:?} with exactly {left} items left", (lo, hi));
    } else {
        ck!(lo <= left, "{what}: size_hint lower bound {lo} with {left} items left");
        if let Some(h) = hi {
            ck!(h >= left, "{what}: size_hint upper bound {h} with {left} items left");
        }
    }
    Ok(())
}

/// At the given position, every method of the iterator, on clones, against the expected remainder.
/// `same` compares items.
pub fn at_position<'a, T: Clone + Debug>(cx: &mut Cx, it: &It<'a, T>, rest: &[T], same: &dyn Fn(&T, &T) -> bool, deep: bool) -> R {
    let eqv = |a: &[T], b: &[T]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y));
    let n = rest.len();
    let p = "after some steps";
    hint_ok(it, n, p)?;
    let c = it.dup();
    hint_ok(&c, n, "clone")?;
    let k = it.dup().count_all();
    ck!(k == n, "count() is {k} with {n} items left");
    let v = it.dup().collect_all();
    ck!(eqv(&v, rest), "collect gives {v:?} instead of {rest:?}");
    let v = it.dup().fold_all();
    ck!(eqv(&v, rest), "fold gives {v:?} instead of {rest:?}");
    let v = it.dup().each_all();
    ck!(eqv(&v, rest), "for_each gives {v:?} instead of {rest:?}");
    let l = it.dup().last_one();
    ck!(
        match (&l, rest.last()) {
            (Some(a), Some(b)) => same(a, b),
            (None, None) => true,
            _ => false,
        },
        "last() is {l:?} instead of {:?}",
        rest.last()
    );
    if deep {
        let d = it.dbg(false);
        let e = format!("{rest:?}");
        ck!(d == e, "Debug of the iterator is {d} instead of {e}");
        let d = it.dbg(true);
        let e = format!("{rest:#?}");
        ck!(d == e, "pretty Debug of the iterator is {d} instead of {e}");
    }
    for j in [0usize, 1, 2, n.saturating_sub(1), n, n + 1] {
        for via_find in [false, true] {
            let mut c = it.dup();
            let x = if via_find { c.find_nth(j) } else { c.skip_to(j) };
            let e = rest.get(j);
            ck!(
                match (&x, e) {
                    (Some(a), Some(b)) => same(a, b),
                    (None, None) => true,
                    _ => false,
                },
                "nth({j}) gives {x:?} instead of {e:?}"
            );
            let left = n.saturating_sub(j + 1);
            hint_ok(&c, left, "after nth")?;
            let v = c.collect_all();
            ck!(eqv(&v, &rest[n - left..]), "after nth({j}): rest is {v:?} instead of {:?}", &rest[n - left..]);
        }
    }
    // far beyond the end, where a sum would wrap around to what was yielded before
    for j in [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, 1 << 32, 1 << 16] {
        let mut c = it.dup();
        if let Some(x) = c.skip_to(j) {
            return Err(format!("nth({j}) gives {x:?} with {n} items left"));
        }
        hint_ok(&c, 0, "after nth beyond the end")?;
        ck!(c.step().is_none(), "nth({j}) beyond the end, then next() yields");
    }
    cx.st();
    cx.tr(34);
    Ok(())
}

/// Walks an iterator to the end and beyond, exploring the methods at every position (at a few positions
/// only when there are many items).
pub fn walk<'a, T: Clone + Debug>(cx: &mut Cx, make: &dyn Fn() -> It<'a, T>, exp: &[T], same: &dyn Fn(&T, &T) -> bool, deep: bool) -> R {
    let n = exp.len();
    let mut it = make();
    for i in 0..=n {
        let interesting = n <= 24 || i <= 1 || i == n / 2 || i + 1 >= n;
        if interesting {
            at_position(cx, &it, &exp[i..], same, deep)?;
        } else {
            hint_ok(&it, n - i, "at position")?;
        }
        let saved = it.dup();
        let x = it.step();
        match (&x, exp.get(i)) {
            (Some(a), Some(b)) => ck!(same(a, b), "item {i} is {a:?} instead of {b:?}"),
            (None, None) => {}
            _ => return Err(format!("item {i} is {x:?} instead of {:?}", exp.get(i))),
        }
        // advancing the original must not advance the clone
        if interesting {
            hint_ok(&saved, n - i, "clone of which the original moved on")?;
            let k = saved.count_all();
            ck!(k == n - i, "a clone moved with its original");
        }
    }
    for _ in 0..3 {
        hint_ok(&it, 0, "exhausted")?;
        ck!(it.step().is_none(), "exhausted iterator yields again");
    }
    hint_ok(&it, 0, "exhausted")?;
    ck!(it.count_all() == 0, "exhausted iterator counts items");
    Ok(())
}

/// Explores every sequence of `depth` calls out of {next, nth(0), nth(1), nth(2), clone-and-continue,
/// find} by depth-first search; the state is the position in the expected sequence.
pub fn tapes<'a, T: Clone + Debug>(cx: &mut Cx, it: &It<'a, T>, rest: &[T], same: &dyn Fn(&T, &T) -> bool, depth: usize) -> R {
    hint_ok(it, rest.len(), "in a call sequence")?;
    if depth == 0 {
        let v = it.dup().collect_all();
        ck!(
            v.len() == rest.len() && v.iter().zip(rest).all(|(x, y)| same(x, y)),
            "rest is {v:?} instead of {rest:?}"
        );
        return Ok(());
    }
    for op in 0..6 {
        let mut c = it.dup();
        let (j, x) = match op {
            0 => (0, c.step()),
            1..=3 => (op - 1, c.skip_to(op - 1)),
            4 => {
                // continue on the clone of a moved iterator
                let mut o = c;
                let x = o.step();
                c = o.dup();
                let _ = o.step();
                (0, x)
            }
            _ => (1, c.find_nth(1)),
        };
        ck!(
            match (&x, rest.get(j)) {
                (Some(a), Some(b)) => same(a, b),
                (None, None) => true,
                _ => false,
            },
            "call {op} gives {x:?} instead of {:?}",
            rest.get(j)
        );
        cx.tr(1);
        tapes(cx, &c, &rest[(j + 1).min(rest.len())..], same, depth - 1)?;
    }
    Ok(())
}

impl<'a, T> Iterator for dyn DynIter<'a, T> + 'a {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.step()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint()
    }
}
impl<'a, T> ExactSizeIterator for dyn DynIter<'a, T> + 'a {
    fn len(&self) -> usize {
        self.exact().unwrap_or_else(|| self.hint().0)
    }
}
