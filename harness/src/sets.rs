//! A uniform view of all set types.
use crate::ck;
use crate::engine::{Cx, R};
use crate::hashers::PH;
use crate::iters::{drain, Ex, It};
use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::{
    CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet, Set,
};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};

pub type FS<T> = FrozenSet<T, PH>;

pub trait SetLike<T: 'static> {
    fn has(&self, v: &T) -> bool;
    fn trait_has(&self, v: &T) -> bool;
    fn get(&self, v: &T) -> Option<&T>;
    fn size(&self) -> usize;
    fn empty(&self) -> bool;
    fn trait_size(&self) -> (usize, bool);
    fn elems<'a>(&'a self) -> It<'a, &'a T>;
    fn trait_iter<'a>(&'a self) -> It<'a, &'a T>;
    fn ref_iter<'a>(&'a self) -> It<'a, &'a T>;
}

macro_rules! set_like {
    ([$($g:tt)*], $t:ty, $e:ty, [$($w:tt)*]) => {
        impl<$($g)*> SetLike<$e> for $t
        where
            $e: Debug + 'static,
            $($w)*
        {
            fn has(&self, v: &$e) -> bool {
                <$t>::contains(self, v)
            }
            fn trait_has(&self, v: &$e) -> bool {
                <$t as Set<$e>>::contains(self, v)
            }
            fn get(&self, v: &$e) -> Option<&$e> {
                <$t>::get(self, v)
            }
            fn size(&self) -> usize {
                Len::len(self)
            }
            fn trait_size(&self) -> (usize, bool) {
                (Len::len(self), Len::is_empty(self))
            }
            fn empty(&self) -> bool {
                self.is_empty()
            }
            fn elems<'a>(&'a self) -> It<'a, &'a $e> {
                Box::new(Ex(self.iter()))
            }
            fn trait_iter<'a>(&'a self) -> It<'a, &'a $e> {
                Box::new(Ex(<$t as Set<$e>>::iter(self)))
            }
            fn ref_iter<'a>(&'a self) -> It<'a, &'a $e> {
                Box::new(Ex(<&'a $t as IntoIterator>::into_iter(self)))
            }
        }
    };
}

set_like!([T, BH], FrozenSet<T, BH>, T, [T: Hash + Eq, BH: BuildHasher]);
set_like!([T, S, BH], CommonSet<T, S, BH>, T, [T: Hash + Eq, S: PrimInt + Unsigned, BH: BuildHasher]);
set_like!([T, S], IntegerSet<T, S>, T, [T: PrimInt + AsPrimitive<u64>, S: PrimInt + Unsigned]);
set_like!([T], IntegerRangeSet<T>, T, [T: PrimInt]);
set_like!([T, S, BH], LeftSliceSet<T, S, BH>, T, [T: SliceHash + Len + Eq, S: PrimInt + Unsigned, BH: BuildHasher]);
set_like!([T, S, BH], RightSliceSet<T, S, BH>, T, [T: SliceHash + Len + Eq, S: PrimInt + Unsigned, BH: BuildHasher]);
set_like!([T, S], LengthSet<T, S>, T, [T: Len + Eq, S: PrimInt + Unsigned]);
set_like!([T], ScanningSet<T>, T, [T: Eq]);

/// Membership of every element of the model and of no absent value, by every method; content by iteration.
pub fn membership<T>(cx: &mut Cx, s: &dyn SetLike<T>, model: &[T], absent: &[T]) -> R
where
    T: Eq + Hash + Debug + 'static,
{
    let n = model.len();
    ck!(s.size() == n, "len() is {} instead of {n}", s.size());
    ck!(s.empty() == (n == 0), "is_empty() is {} with {n} elements", s.empty());
    for v in model {
        ck!(s.has(v), "contains({v:?}) is false");
        ck!(s.trait_has(v), "Set::contains({v:?}) is false");
        let g = s.get(v);
        ck!(g == Some(v), "get({v:?}) is {g:?}");
    }
    for v in absent {
        ck!(!s.has(v), "contains({v:?}) is true for an absent value");
        ck!(!s.trait_has(v), "Set::contains({v:?}) is true for an absent value");
        let g = s.get(v);
        ck!(g.is_none(), "get({v:?}) is {g:?} for an absent value");
    }
    cx.tr(3 * (n + absent.len()) as u64 + 2);
    Ok(())
}

pub fn elements<T>(cx: &mut Cx, s: &dyn SetLike<T>, model: &[T]) -> R
where
    T: Eq + Hash + Debug + 'static,
{
    let n = model.len();
    let e = drain(cx, s.elems(), n)?;
    ck!(e.len() == n, "iter() yields {} elements instead of {n}", e.len());
    let idx: HashMap<&T, usize> = model.iter().enumerate().map(|(i, k)| (k, i)).collect();
    let mut seen = vec![false; n];
    for v in &e {
        match idx.get(v) {
            Some(&i) => {
                ck!(!seen[i], "iter() yields {v:?} twice");
                seen[i] = true;
            }
            None => return Err(format!("iter() yields {v:?} which was not given")),
        }
        // get returns the stored element itself
        let g = s.get(v);
        ck!(g.is_some_and(|g| std::mem::size_of::<T>() == 0 || std::ptr::eq(g, *v)), "get({v:?}) does not return the stored element");
    }
    let t = drain(cx, s.trait_iter(), n)?;
    ck!(t == e, "Set::iter() gives {t:?}, iter() gives {e:?}");
    let r = drain(cx, s.ref_iter(), n)?;
    ck!(r == e, "iteration over a reference gives {r:?}, iter() gives {e:?}");
    Ok(())
}
