//! A uniform view of all map types, and the reference comparison for lookups and content.
use crate::ck;
use crate::engine::{catch, Cx, R};
use crate::hashers::PH;
use crate::iters::{drain, Ex, It};
use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::{
    CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap,
};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use std::ops::{Index, IndexMut};

pub trait MapLike<K: 'static, V: 'static> {
    fn get(&self, k: &K) -> Option<&V>;
    fn get_kv(&self, k: &K) -> Option<(&K, &V)>;
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn has(&self, k: &K) -> bool;
    fn size(&self) -> usize;
    fn empty(&self) -> bool;
    fn trait_size(&self) -> (usize, bool);
    fn at(&self, k: K) -> &V;
    fn at_mut(&mut self, k: K) -> &mut V;
    fn many0(&mut self) -> Option<[&mut V; 0]>;
    fn many1(&mut self, k: [&K; 1]) -> Option<[&mut V; 1]>;
    fn many2(&mut self, k: [&K; 2]) -> Option<[&mut V; 2]>;
    fn many3(&mut self, k: [&K; 3]) -> Option<[&mut V; 3]>;
    fn many4(&mut self, k: [&K; 4]) -> Option<[&mut V; 4]>;
    fn entries<'a>(&'a self) -> It<'a, (&'a K, &'a V)>;
    fn key_iter<'a>(&'a self) -> It<'a, &'a K>;
    fn value_iter<'a>(&'a self) -> It<'a, &'a V>;
    fn ref_iter<'a>(&'a self) -> It<'a, (&'a K, &'a V)>;
    fn dbg(&self, pretty: bool) -> String;
    fn shown<'a>(&'a self) -> Box<dyn Debug + 'a>;
}

/// The length trait, where it is implemented.
struct W<'a, T>(&'a T);
trait Via {
    fn trait_len(&self, n: usize, e: bool) -> (usize, bool);
}
impl<T: Len> Via for W<'_, T> {
    fn trait_len(&self, _: usize, _: bool) -> (usize, bool) {
        (Len::len(self.0), Len::is_empty(self.0))
    }
}
trait Without {
    fn trait_len(&self, n: usize, e: bool) -> (usize, bool);
}
impl<T> Without for &W<'_, T> {
    fn trait_len(&self, n: usize, e: bool) -> (usize, bool) {
        (n, e)
    }
}

macro_rules! map_like {
    ([$($g:tt)*], $t:ty, $k:ty, $v:ty, [$($w:tt)*]) => {
        impl<$($g)*> MapLike<$k, $v> for $t
        where
            $k: Debug + 'static,
            $v: Debug + 'static,
            $($w)*
        {
            fn get(&self, k: &$k) -> Option<&$v> {
                <$t>::get(self, k)
            }
            fn get_kv(&self, k: &$k) -> Option<(&$k, &$v)> {
                <$t>::get_key_value(self, k)
            }
            fn get_mut(&mut self, k: &$k) -> Option<&mut $v> {
                <$t>::get_mut(self, k)
            }
            fn has(&self, k: &$k) -> bool {
                <$t>::contains_key(self, k)
            }
            fn size(&self) -> usize {
                <$t>::len(self)
            }
            fn empty(&self) -> bool {
                <$t>::is_empty(self)
            }
            fn trait_size(&self) -> (usize, bool) {
                (&W(self)).trait_len(<$t>::len(self), <$t>::is_empty(self))
            }
            fn at(&self, k: $k) -> &$v {
                <$t as Index<$k>>::index(self, k)
            }
            fn at_mut(&mut self, k: $k) -> &mut $v {
                <$t as IndexMut<$k>>::index_mut(self, k)
            }
            fn many0(&mut self) -> Option<[&mut $v; 0]> {
                let none: [&$k; 0] = [];
                self.get_many_mut(none)
            }
            fn many1(&mut self, k: [&$k; 1]) -> Option<[&mut $v; 1]> {
                self.get_many_mut(k)
            }
            fn many2(&mut self, k: [&$k; 2]) -> Option<[&mut $v; 2]> {
                self.get_many_mut(k)
            }
            fn many3(&mut self, k: [&$k; 3]) -> Option<[&mut $v; 3]> {
                self.get_many_mut(k)
            }
            fn many4(&mut self, k: [&$k; 4]) -> Option<[&mut $v; 4]> {
                self.get_many_mut(k)
            }
            fn entries<'a>(&'a self) -> It<'a, (&'a $k, &'a $v)> {
                Box::new(Ex(self.iter()))
            }
            fn key_iter<'a>(&'a self) -> It<'a, &'a $k> {
                Box::new(Ex(self.keys()))
            }
            fn value_iter<'a>(&'a self) -> It<'a, &'a $v> {
                Box::new(Ex(self.values()))
            }
            fn ref_iter<'a>(&'a self) -> It<'a, (&'a $k, &'a $v)> {
                Box::new(Ex(self.into_iter()))
            }
            fn dbg(&self, pretty: bool) -> String {
                if pretty {
                    format!("{self:#?}")
                } else {
                    format!("{self:?}")
                }
            }
            fn shown<'a>(&'a self) -> Box<dyn Debug + 'a> {
                Box::new(self)
            }
        }
    };
}

map_like!([K, V, BH], FrozenMap<K, V, BH>, K, V, [K: Hash + Eq, BH: BuildHasher]);
map_like!([K, V, S, BH], CommonMap<K, V, S, BH>, K, V, [K: Hash + Eq, S: PrimInt + Unsigned, BH: BuildHasher]);
map_like!([K, V, S], IntegerMap<K, V, S>, K, V, [K: PrimInt + AsPrimitive<u64>, S: PrimInt + Unsigned]);
map_like!([K, V], IntegerRangeMap<K, V>, K, V, [K: PrimInt]);
map_like!([K, V, S, BH], LeftSliceMap<K, V, S, BH>, K, V, [K: SliceHash + Len + Eq, S: PrimInt + Unsigned, BH: BuildHasher]);
map_like!([K, V, S, BH], RightSliceMap<K, V, S, BH>, K, V, [K: SliceHash + Len + Eq, S: PrimInt + Unsigned, BH: BuildHasher]);
map_like!([K, V, S], LengthMap<K, V, S>, K, V, [K: Len + Eq, S: PrimInt + Unsigned]);
map_like!([K, V], ScanningMap<K, V>, K, V, [K: Eq]);

pub type FM<K, V> = FrozenMap<K, V, PH>;

/// The value given for the `i`-th key.
#[inline]
pub fn val(i: usize) -> u32 {
    (i as u32).wrapping_mul(0x9E37_79B1) ^ 0xA5A5_0000
}

/// Pairs keys with distinct values.
pub fn paired<K: Clone>(keys: &[K]) -> Vec<(K, u32)> {
    keys.iter().enumerate().map(|(i, k)| (k.clone(), val(i))).collect()
}

/// Every key of the model is found with its value, every absent key is not, by every lookup method.
pub fn lookups<K, V>(cx: &mut Cx, m: &mut dyn MapLike<K, V>, model: &[(K, V)], absent: &[K]) -> R
where
    K: Clone + Eq + Debug + 'static,
    V: Clone + PartialEq + Debug + 'static,
{
    let n = model.len();
    ck!(m.size() == n, "len() is {} instead of {n}", m.size());
    ck!(m.empty() == (n == 0), "is_empty() is {} with {n} entries", m.empty());
    for (k, v) in model {
        let g = m.get(k);
        ck!(g == Some(v), "get({k:?}) is {g:?} instead of Some({v:?})");
        let g = m.get_kv(k);
        ck!(g == Some((k, v)), "get_key_value({k:?}) is {g:?} instead of Some(({k:?}, {v:?}))");
        ck!(m.has(k), "contains_key({k:?}) is false");
        let g = m.get_mut(k);
        ck!(g.as_deref() == Some(v), "get_mut({k:?}) is {g:?} instead of Some({v:?})");
    }
    for i in [0, n / 2, n.wrapping_sub(1)] {
        if let Some((k, v)) = model.get(i) {
            let g = m.at(k.clone());
            ck!(g == v, "[{k:?}] is {g:?} instead of {v:?}");
            let g = m.at_mut(k.clone());
            ck!(g == v, "mut [{k:?}] is {g:?} instead of {v:?}");
        }
    }
    for k in absent {
        let g = m.get(k);
        ck!(g.is_none(), "get({k:?}) is {g:?} for an absent key");
        let g = m.get_kv(k);
        ck!(g.is_none(), "get_key_value({k:?}) is {g:?} for an absent key");
        ck!(!m.has(k), "contains_key({k:?}) is true for an absent key");
        let g = m.get_mut(k);
        ck!(g.is_none(), "get_mut({k:?}) is {g:?} for an absent key");
    }
    if let Some(k) = absent.first() {
        ck!(catch(|| {
            let _ = m.at(k.clone());
        })
        .is_err(), "indexing with the absent {k:?} does not panic");
        ck!(catch(|| {
            let _ = m.at_mut(k.clone());
        })
        .is_err(), "mutable indexing with the absent {k:?} does not panic");
        cx.tr(2);
    }
    cx.tr(4 * (n + absent.len()) as u64 + 8);
    Ok(())
}

/// Iteration gives exactly the model, each entry once, in one common order for all iterators.
pub fn content<K, V>(cx: &mut Cx, m: &dyn MapLike<K, V>, model: &[(K, V)]) -> R
where
    K: Hash + Eq + Debug + 'static,
    V: PartialEq + Debug + 'static,
{
    let n = model.len();
    let e = drain(cx, m.entries(), n)?;
    ck!(e.len() == n, "iter() yields {} entries instead of {n}", e.len());
    let idx: HashMap<&K, usize> = model.iter().enumerate().map(|(i, (k, _))| (k, i)).collect();
    let mut seen = vec![false; n];
    for (k, v) in &e {
        match idx.get(k) {
            Some(&i) => {
                ck!(!seen[i], "iter() yields {k:?} twice");
                seen[i] = true;
                ck!(model[i].1 == **v, "iter() yields ({k:?}, {v:?}) instead of {:?}", model[i].1);
            }
            None => return Err(format!("iter() yields {k:?} which was not given")),
        }
    }
    let ks = drain(cx, m.key_iter(), n)?;
    ck!(ks.len() == n && ks.iter().zip(&e).all(|(a, b)| *a == b.0), "keys() gives {ks:?}, iter() gives {e:?}");
    let vs = drain(cx, m.value_iter(), n)?;
    ck!(vs.len() == n && vs.iter().zip(&e).all(|(a, b)| *a == b.1), "values() gives {vs:?}, iter() gives {e:?}");
    let rs = drain(cx, m.ref_iter(), n)?;
    ck!(rs == e, "iteration over a reference gives {rs:?}, iter() gives {e:?}");
    Ok(())
}
