//! The map and set kinds, with ledger-tracked keys, values and hashers, and the operations on them.
use crate::user::*;
use crate::zoo::*;
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::*;
use std::fmt::Debug;
use std::hash::Hash;

pub type MP<K, V> = Box<dyn MapPlus<K, V>>;

/// Something made with user code only under the control of the explorer.
pub trait UKey: Clone + Eq + Hash + Debug + 'static {
    /// How many key tables there are.
    const TABLES: usize;
    fn mk(table: usize, i: usize) -> Self;
    /// Identity, without running user code.
    fn id(&self) -> u64;
}
impl UKey for TK {
    const TABLES: usize = 2;
    fn mk(table: usize, i: usize) -> Self {
        TK::new([i as u32 + 2, i as u32 * 300][table])
    }
    fn id(&self) -> u64 {
        u64::from(self.key)
    }
}
impl UKey for u32 {
    const TABLES: usize = 2;
    fn mk(table: usize, i: usize) -> Self {
        [i as u32 + 7, (i * i) as u32 * 300][table]
    }
    fn id(&self) -> u64 {
        u64::from(*self)
    }
}
impl UKey for String {
    const TABLES: usize = 4;
    fn mk(table: usize, i: usize) -> Self {
        match table {
            // left slice, right slice, length, common
            0 => format!("{}yz", (b'a' + i as u8) as char),
            1 => format!("long-{}", (b'a' + i as u8) as char),
            2 => "x".repeat(i),
            _ => ["a", "b", "c", "", "d", "e", "f", "g"][i & 7].repeat(1 + i / 8),
        }
    }
    fn id(&self) -> u64 {
        self.bytes().fold(7, |a, b| a * 257 + u64::from(b))
    }
}

pub trait UVal: Clone + PartialEq + Debug + 'static {
    fn mk(i: u32) -> Self;
    fn id(&self) -> u32;
}
impl UVal for TV {
    fn mk(i: u32) -> Self {
        TV::new(i)
    }
    fn id(&self) -> u32 {
        self.v
    }
}
impl UVal for ZV {
    fn mk(_: u32) -> Self {
        ZV::new()
    }
    fn id(&self) -> u32 {
        0
    }
}

pub struct MapKind<K, V> {
    pub name: String,
    /// Accepts repeated keys.
    pub dups: bool,
    pub table: usize,
    pub make: Box<dyn Fn(Vec<(K, V)>) -> MP<K, V>>,
}

fn mk<K, V>(v: &mut Vec<MapKind<K, V>>, name: &str, dups: bool, table: usize, make: impl Fn(Vec<(K, V)>) -> MP<K, V> + 'static) {
    v.push(MapKind { name: format!("{name}, keys {table}"), dups, table, make: Box::new(make) });
}

/// Frozen maps.
pub fn frozen_maps<K: UKey, V: UVal>() -> Vec<MapKind<K, V>> {
    let mut v = Vec::new();
    for t in 0..K::TABLES {
        for h in [0u64, 1, 2] {
            mk(&mut v, &format!("FrozenMap::from_vec_with_hasher({h})"), true, t, move |p| Box::new(FrozenMap::from_vec_with_hasher(p, UH(h))));
        }
        mk(&mut v, "FrozenMap::from_iter_with_hasher(1)", true, t, |p| Box::new(FrozenMap::from_iter_with_hasher(UIter(p.into_iter()), UH(1))));
        mk(&mut v, "FrozenMap collect", true, t, |p| Box::new(UIter(p.into_iter()).collect::<FrozenMap<K, V>>()));
        mk(&mut v, "FrozenMap::with_hasher(array)", true, t, |p| {
            Box::new(match p.len() {
                2 => FrozenMap::with_hasher(<[_; 2]>::try_from(p).ok().unwrap(), UH(1)),
                3 => FrozenMap::with_hasher(<[_; 3]>::try_from(p).ok().unwrap(), UH(1)),
                4 => FrozenMap::with_hasher(<[_; 4]>::try_from(p).ok().unwrap(), UH(1)),
                5 => FrozenMap::with_hasher(<[_; 5]>::try_from(p).ok().unwrap(), UH(1)),
                _ => FrozenMap::from_vec_with_hasher(p, UH(1)),
            })
        });
    }
    v
}

pub fn special_maps<V: UVal>() -> Vec<MapKind<TK, V>> {
    let mut v: Vec<MapKind<TK, V>> = Vec::new();
    for h in [0u64, 1, 2] {
        mk(&mut v, &format!("CommonMap<_, _, u8>::from_vec_with_hasher({h})"), false, 0, move |p| {
            Box::new(CommonMap::<_, _, u8, UH>::from_vec_with_hasher(p, UH(h)))
        });
    }
    mk(&mut v, "CommonMap<_, _, u16>::from_iter_with_hasher(1)", false, 0, |p| {
        Box::new(CommonMap::<_, _, u16, UH>::from_iter_with_hasher(UIter(p.into_iter()), UH(1)))
    });
    mk(&mut v, "ScanningMap::from_vec", false, 0, |p| Box::new(ScanningMap::from_vec(p)));
    mk(&mut v, "ScanningMap collect", false, 0, |p| Box::new(UIter(p.into_iter()).collect::<ScanningMap<_, _>>()));
    mk(&mut v, "LengthMap::from_vec", false, 0, |p| Box::new(LengthMap::<_, _, u8>::from_vec(p)));
    mk(&mut v, "LengthMap collect", false, 1, |p| Box::new(UIter(p.into_iter()).collect::<LengthMap<_, _>>()));
    for r in [0..0usize, 0..1, 1..4] {
        let r1 = r.clone();
        mk(&mut v, &format!("LeftSliceMap::from_vec_with_hasher({r:?})"), false, 0, move |p| {
            Box::new(LeftSliceMap::<_, _, u8, UH>::from_vec_with_hasher(p, r1.clone(), UH(1)))
        });
        mk(&mut v, &format!("RightSliceMap::from_iter_with_hasher({r:?})"), false, 0, move |p| {
            Box::new(RightSliceMap::<_, _, u16, UH>::from_iter_with_hasher(UIter(p.into_iter()), r.clone(), UH(2)))
        });
    }
    v
}

pub fn integer_maps<V: UVal>() -> Vec<MapKind<u32, V>> {
    let mut v: Vec<MapKind<u32, V>> = Vec::new();
    for t in 0..2 {
        mk(&mut v, "IntegerMap::from_vec", false, t, |p| Box::new(IntegerMap::<u32, _, u8>::from_vec(p)));
        mk(&mut v, "IntegerMap collect", false, t, |p| Box::new(UIter(p.into_iter()).collect::<IntegerMap<u32, _, u16>>()));
    }
    mk(&mut v, "IntegerRangeMap::from_vec", false, 0, |p| Box::new(IntegerRangeMap::from_vec(p)));
    mk(&mut v, "IntegerRangeMap collect", false, 0, |p| Box::new(UIter(p.into_iter()).collect::<IntegerRangeMap<_, _>>()));
    v
}

pub struct SetKind<T> {
    pub name: String,
    pub dups: bool,
    pub table: usize,
    pub make: Box<dyn Fn(Vec<T>) -> Box<dyn SetPlus<T>>>,
}

fn sk<T>(v: &mut Vec<SetKind<T>>, name: &str, dups: bool, table: usize, make: impl Fn(Vec<T>) -> Box<dyn SetPlus<T>> + 'static) {
    v.push(SetKind { name: format!("{name}, elements {table}"), dups, table, make: Box::new(make) });
}

pub fn frozen_sets<T: UKey>() -> Vec<SetKind<T>> {
    let mut v: Vec<SetKind<T>> = Vec::new();
    for t in 0..T::TABLES {
        for h in [0u64, 1, 2] {
            sk(&mut v, &format!("FrozenSet::from_vec_with_hasher({h})"), true, t, move |p| Box::new(FrozenSet::from_vec_with_hasher(p, UH(h))));
        }
        sk(&mut v, "FrozenSet::from_iter_with_hasher(1)", true, t, |p| Box::new(FrozenSet::from_iter_with_hasher(UIter(p.into_iter()), UH(1))));
        sk(&mut v, "FrozenSet collect", true, t, |p| Box::new(UIter(p.into_iter()).collect::<FrozenSet<T>>()));
    }
    v
}

pub fn special_sets() -> Vec<SetKind<TK>> {
    let mut v: Vec<SetKind<TK>> = Vec::new();
    sk(&mut v, "CommonSet<_, u8>::from_vec_with_hasher(1)", false, 0, |p| Box::new(CommonSet::<_, u8, UH>::from_vec_with_hasher(p, UH(1))));
    sk(&mut v, "CommonSet<_, u16>::from_iter_with_hasher(0)", false, 0, |p| {
        Box::new(CommonSet::<_, u16, UH>::from_iter_with_hasher(UIter(p.into_iter()), UH(0)))
    });
    sk(&mut v, "ScanningSet::from_vec", false, 0, |p| Box::new(ScanningSet::from_vec(p)));
    sk(&mut v, "ScanningSet collect", false, 0, |p| Box::new(UIter(p.into_iter()).collect::<ScanningSet<_>>()));
    sk(&mut v, "LengthSet::from_vec", false, 0, |p| Box::new(LengthSet::<_, u8>::from_vec(p)));
    for r in [0..0usize, 1..4] {
        let r1 = r.clone();
        sk(&mut v, &format!("LeftSliceSet::from_vec_with_hasher({r:?})"), false, 0, move |p| {
            Box::new(LeftSliceSet::<_, u8, UH>::from_vec_with_hasher(p, r1.clone(), UH(1)))
        });
        sk(&mut v, &format!("RightSliceSet::from_iter_with_hasher({r:?})"), false, 0, move |p| {
            Box::new(RightSliceSet::<_, u16, UH>::from_iter_with_hasher(UIter(p.into_iter()), r.clone(), UH(2)))
        });
    }
    v
}

/// All equality patterns of lists of length `n` (restricted growth strings).
pub fn patterns(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, w: &mut Vec<usize>, top: usize, out: &mut Vec<Vec<usize>>) {
        if w.len() == n {
            out.push(w.clone());
            return;
        }
        for x in 0..=top {
            w.push(x);
            go(n, w, top.max(x + 1), out);
            w.pop();
        }
    }
    let mut out = Vec::new();
    go(n, &mut Vec::new(), 0, &mut out);
    out
}
