//! One of each: every map and set representation, with contents chosen to reach it.
use crate::hashers::*;
use crate::maps::MapLike;
use crate::spaces::SS;
use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::{
    CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap,
};
use std::any::Any;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};

/// A map which can also be cloned and compared.
pub trait MapPlus<K: 'static, V: 'static>: MapLike<K, V> {
    fn dup(&self) -> Box<dyn MapPlus<K, V>>;
    fn as_any(&self) -> &dyn Any;
    fn same(&self, other: &dyn MapPlus<K, V>) -> bool;
    fn differs(&self, other: &dyn MapPlus<K, V>) -> bool;
    fn assign(&mut self, other: &dyn MapPlus<K, V>);
}

impl<K: 'static, V: 'static, M> MapPlus<K, V> for M
where
    M: MapLike<K, V> + Clone + PartialEq + 'static,
{
    fn dup(&self) -> Box<dyn MapPlus<K, V>> {
        Box::new(self.clone())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn same(&self, other: &dyn MapPlus<K, V>) -> bool {
        *self == *other.as_any().downcast_ref::<M>().expect("same type")
    }
    fn differs(&self, other: &dyn MapPlus<K, V>) -> bool {
        *self != *other.as_any().downcast_ref::<M>().expect("same type")
    }
    fn assign(&mut self, other: &dyn MapPlus<K, V>) {
        self.clone_from(other.as_any().downcast_ref::<M>().expect("same type"));
    }
}

pub type Make<K, V> = Box<dyn Fn(Vec<(K, V)>) -> Box<dyn MapPlus<K, V>>>;

pub struct Zoo<K, V> {
    pub name: String,
    pub keys: Vec<K>,
    pub absent: Vec<K>,
    pub make: Make<K, V>,
}

impl<K: Clone + 'static, V: 'static> Zoo<K, V> {
    pub fn build(&self, v: &mut dyn FnMut(usize) -> V) -> Box<dyn MapPlus<K, V>> {
        (self.make)(self.keys.iter().enumerate().map(|(i, k)| (k.clone(), v(i))).collect())
    }
}

/// An interpreter is too slow for more than the least number of contents.
fn frugal() -> bool {
    cfg!(miri) && !std::env::args().any(|a| a == "thorough")
}
fn small<T>(mut v: Vec<(&'static str, Vec<T>)>) -> Vec<(&'static str, Vec<T>)> {
    if frugal() {
        v.retain(|c| c.1.len() <= 4 && c.1.len() != 2);
    }
    v
}
fn near() -> usize {
    if frugal() {
        1
    } else {
        6
    }
}

pub trait Val: Clone + PartialEq + Debug + 'static {}
impl<T: Clone + PartialEq + Debug + 'static> Val for T {}

fn z<K: 'static, V: Val>(
    v: &mut Vec<Zoo<K, V>>,
    name: &str,
    keys: Vec<K>,
    absent: Vec<K>,
    make: impl Fn(Vec<(K, V)>) -> Box<dyn MapPlus<K, V>> + 'static,
) {
    v.push(Zoo { name: format!("{name} of {}", keys.len()), keys, absent, make: Box::new(make) });
}

/// Contents for integer maps, with the representation they lead to in a frozen map.
pub fn u32_contents(big: bool) -> Vec<(&'static str, Vec<u32>)> {
    let mut v: Vec<(&'static str, Vec<u32>)> = vec![
        ("scan", vec![]),
        ("scan", vec![7]),
        ("scan", vec![u32::MAX, 0]),
        ("scan", vec![5, 3, 4]),
        ("range", vec![12, 10, 13, 11]),
        ("range", (u32::MAX - 6..=u32::MAX).collect()),
        ("small", vec![0, 1, 2, 100]),
        ("small", vec![3, 259, 515, 771, 1027]),
        ("small", vec![16, 0, 4, 9, 1, 25]),
        ("small", vec![1, 257, 2, 258, 1 << 16, 1 << 17, 3]),
    ];
    if big {
        v.push(("range", (100..400).collect()));
        v.push(("small", (0..255).map(|i| i * i).collect()));
        v.push(("large", (0..256).map(|i| i * 3).collect()));
        v.push(("large", (0..300u32).map(|i| i * i * 7 + 1).collect()));
    }
    small(v)
}

pub fn u32_absent(keys: &[u32]) -> Vec<u32> {
    let mut p: Vec<u32> = vec![0, 1, 6, 99, u32::MAX, 0x8000_0000];
    for k in keys.iter().take(near()) {
        p.extend([k.wrapping_add(1), k.wrapping_sub(1), k.wrapping_add(256), k.wrapping_add(keys.len() as u32)]);
    }
    p.retain(|x| !keys.contains(x));
    p.sort_unstable();
    p.dedup();
    p
}

/// The map kinds for the given `u32` keys.
pub fn u32_maps_of<V: Val>(v: &mut Vec<Zoo<u32, V>>, kind: &str, keys: Vec<u32>, ab: Vec<u32>) {
    let n = keys.len();
    z(v, &format!("FrozenMap<u32> ({kind})"), keys.clone(), ab.clone(), |p| Box::new(FrozenMap::from_vec_with_hasher(p, MIX)));
    if n <= 8 {
        z(v, "ScanningMap<u32>", keys.clone(), ab.clone(), |p| Box::new(ScanningMap::from_vec(p)));
    }
    if kind == "range" || n == 0 || n == 1 {
        z(v, "IntegerRangeMap<u32>", keys.clone(), ab.clone(), |p| Box::new(IntegerRangeMap::from_vec(p)));
    }
    if n <= 255 {
        z(v, "IntegerMap<u32, u8>", keys.clone(), ab.clone(), |p| Box::new(IntegerMap::<_, _, u8>::from_vec(p)));
        z(v, "CommonMap<u32, u8, LOW2>", keys.clone(), ab.clone(), |p| {
            Box::new(CommonMap::<_, _, u8, PH>::from_vec_with_hasher(p, LOW2))
        });
    }
    z(v, "IntegerMap<u32, u16>", keys.clone(), ab.clone(), |p| Box::new(IntegerMap::<_, _, u16>::from_vec(p)));
    if n <= 300 {
        z(v, "CommonMap<u32, usize, ZERO>", keys.clone(), ab.clone(), |p| {
            Box::new(CommonMap::<_, _, usize, PH>::from_vec_with_hasher(p, ZERO))
        });
    }
    z(v, "CommonMap<u32, u32, IDENT>", keys, ab, |p| {
        Box::new(CommonMap::<_, _, u32, PH>::from_vec_with_hasher(p, IDENT))
    });
}

/// Maps with `u32` keys.
pub fn u32_maps<V: Val>(big: bool) -> Vec<Zoo<u32, V>> {
    let mut v = Vec::new();
    for (kind, keys) in u32_contents(big) {
        let ab = u32_absent(&keys);
        u32_maps_of(&mut v, kind, keys, ab);
    }
    v
}

/// Contents for string maps, with the representation they lead to in a frozen map.
pub fn str_contents(big: bool) -> Vec<(&'static str, Vec<String>)> {
    let f = |fam, n, p, s| SS::Fam { fam, n, p, s, order: 0 }.keys();
    let l = |v: &[&str]| v.iter().map(|s| (*s).to_string()).collect::<Vec<_>>();
    let mut v = vec![
        ("scan", l(&[])),
        ("scan", l(&[""])),
        ("scan", l(&["a", "b"])),
        ("scan", l(&["x", "", "xx"])),
        ("length", l(&["", "a", "aa", "aaa"])),
        ("length", l(&["a", "b", "c", "dd", "ee", "ff", "g5555"])),
        ("left", l(&["alpha", "bravo", "carla", "delta", "echos"])),
        ("left", f(0, 6, 2, 2)),
        ("right", l(&["xxa", "xxb", "xxc", "xxd", "yxxe"])),
        ("right", l(&["pref-1", "pref-2", "pref-3", "pref-4", "pref-5", "pref-56"])),
        ("common", l(&["a", "b", "c", "d"])),
        ("common", l(&["aaaa", "aaab", "aaba", "abaa", "baaa", "abab"])),
        ("common", l(&["", "b", "c", "d", "e"])),
        ("common", l(&["é", "è", "日", "日本", "aa", "ab", "ba", "bb"])),
    ];
    if big {
        v.push(("common", f(18, 255, 0, 0)));
        v.push(("common", f(18, 256, 0, 0)));
        v.push(("left", f(0, 255, 1, 1)));
        v.push(("left", f(0, 300, 1, 1)));
        v.push(("right", f(5, 255, 2, 0)));
        v.push(("right", f(5, 256, 2, 0)));
        v.push(("length", f(8, 255, 0, 0)));
        v.push(("length", f(8, 256, 0, 0)));
    }
    small(v)
}

pub fn str_absent(keys: &[String]) -> Vec<String> {
    let mut p: Vec<String> = ["", "a", "b", "zz", "aab", "xxe", "pref-6", "日x"].iter().map(|s| (*s).to_string()).collect();
    for k in keys.iter().take(near()) {
        p.push(format!("{k}!"));
        p.push(format!("!{k}"));
        let mut c = k.chars();
        c.next();
        p.push(c.as_str().to_string());
    }
    p.retain(|x| !keys.contains(x));
    p.sort_unstable();
    p.dedup();
    p
}

/// The map kinds for the given `String` keys.
pub fn str_maps_of<V: Val>(v: &mut Vec<Zoo<String, V>>, kind: &str, keys: Vec<String>, ab: Vec<String>) {
    let n = keys.len();
    for h in [MIX, ZERO] {
        if h == MIX || n <= 300 {
            z(v, &format!("FrozenMap<String, {h:?}> ({kind})"), keys.clone(), ab.clone(), move |p| {
                Box::new(FrozenMap::from_vec_with_hasher(p, h))
            });
        }
    }
    if n <= 8 {
        z(v, "ScanningMap<String>", keys.clone(), ab.clone(), |p| Box::new(ScanningMap::from_vec(p)));
    }
    if n <= 255 {
        z(v, "CommonMap<String, u8, MIX>", keys.clone(), ab.clone(), |p| {
            Box::new(CommonMap::<_, _, u8, PH>::from_vec_with_hasher(p, MIX))
        });
        z(v, "LengthMap<String, u8>", keys.clone(), ab.clone(), |p| Box::new(LengthMap::<_, _, u8>::from_vec(p)));
    }
    z(v, "LengthMap<String, u16>", keys.clone(), ab.clone(), |p| Box::new(LengthMap::<_, _, u16>::from_vec(p)));
    for r in [0..1usize, 1..3] {
        let (r1, r2) = (r.clone(), r);
        z(v, &format!("LeftSliceMap<String, u16, {r1:?}>"), keys.clone(), ab.clone(), move |p| {
            Box::new(LeftSliceMap::<_, _, u16, PH>::from_vec_with_hasher(p, r1.clone(), MIX))
        });
        z(v, &format!("RightSliceMap<String, usize, {r2:?}>"), keys.clone(), ab.clone(), move |p| {
            Box::new(RightSliceMap::<_, _, usize, PH>::from_vec_with_hasher(p, r2.clone(), SUM))
        });
    }
}

/// Maps with `String` keys.
pub fn str_maps<V: Val>(big: bool) -> Vec<Zoo<String, V>> {
    let mut v = Vec::new();
    for (kind, keys) in str_contents(big) {
        let ab = str_absent(&keys);
        str_maps_of(&mut v, kind, keys, ab);
    }
    v
}

/// Maps with keys of some other type.
pub fn gen_maps<K: crate::keys::Gen, V: Val>(big: bool) -> Vec<Zoo<K, V>>
where
    K: Hash + Eq,
{
    let mut v = Vec::new();
    let mut ns = vec![0usize, 1, 3, 4, 5, 7];
    if frugal() {
        ns.truncate(4);
    }
    if big {
        ns.extend([255, 256, 257]);
    }
    for n in ns {
        if n > K::CARD {
            continue;
        }
        let keys: Vec<K> = (0..n).map(K::gen).collect();
        let ab: Vec<K> = (n..(n + 8).min(K::CARD)).map(K::gen).collect();
        for h in [MIX, ZERO, LOW2] {
            z(&mut v, &format!("FrozenMap<{}, {h:?}>", K::NAME), keys.clone(), ab.clone(), move |p| {
                Box::new(FrozenMap::from_vec_with_hasher(p, h))
            });
        }
    }
    v
}

// ---- sets ----

use crate::iters::{Ex, It};
use crate::sets::SetLike;
use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::{
    CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet,
};

/// A set which can also be cloned, compared, consumed and shown.
pub trait SetPlus<T: 'static>: SetLike<T> {
    fn dup(&self) -> Box<dyn SetPlus<T>>;
    fn as_any(&self) -> &dyn Any;
    fn same(&self, other: &dyn SetPlus<T>) -> bool;
    fn differs(&self, other: &dyn SetPlus<T>) -> bool;
    fn assign(&mut self, other: &dyn SetPlus<T>);
    /// Iteration by value, if there is any.
    fn consume(self: Box<Self>) -> Option<It<'static, T>>;
    fn dbg(&self, pretty: bool) -> Option<String>;
    fn shown<'a>(&'a self) -> Option<Box<dyn Debug + 'a>>;
}

macro_rules! set_plus {
    ([$($g:tt)*], $t:ty, $e:ty, [$($w:tt)*], |$s:ident| $consume:expr, |$d:ident, $p:ident| $dbg:expr, |$w1:ident| $shown:expr) => {
        impl<$($g)*> SetPlus<$e> for $t
        where
            $e: Debug + 'static,
            $($w)*
        {
            fn dup(&self) -> Box<dyn SetPlus<$e>> {
                Box::new(self.clone())
            }
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn same(&self, other: &dyn SetPlus<$e>) -> bool {
                *self == *other.as_any().downcast_ref::<$t>().expect("same type")
            }
            fn differs(&self, other: &dyn SetPlus<$e>) -> bool {
                *self != *other.as_any().downcast_ref::<$t>().expect("same type")
            }
            fn assign(&mut self, other: &dyn SetPlus<$e>) {
                self.clone_from(other.as_any().downcast_ref::<$t>().expect("same type"));
            }
            fn consume(self: Box<Self>) -> Option<It<'static, $e>> {
                let $s = *self;
                $consume
            }
            fn dbg(&self, $p: bool) -> Option<String> {
                let $d = self;
                $dbg
            }
            fn shown<'a>(&'a self) -> Option<Box<dyn Debug + 'a>> {
                let $w1 = self;
                $shown
            }
        }
    };
}
macro_rules! set_plus_by_value {
    ([$($g:tt)*], $t:ty, $e:ty, [$($w:tt)*]) => {
        set_plus!([$($g)*], $t, $e, [$($w)*], |s| Some(Box::new(Ex(s.into_iter()))), |d, p| Some(if p { format!("{d:#?}") } else { format!("{d:?}") }), |d| Some(Box::new(d)));
    };
}
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};
set_plus!([T, BH], FrozenSet<T, BH>, T, [T: Hash + Eq + Clone, BH: BuildHasher + Clone + Default + 'static], |s| { let _ = s; None }, |d, p| { let _ = (d, p); None }, |d| { let _ = d; None });
set_plus_by_value!([T, S, BH], CommonSet<T, S, BH>, T, [T: Hash + Eq + Clone, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + Default + 'static]);
set_plus_by_value!([T, S], IntegerSet<T, S>, T, [T: PrimInt + AsPrimitive<u64> + Hash, S: PrimInt + Unsigned + 'static]);
set_plus_by_value!([T], IntegerRangeSet<T>, T, [T: PrimInt + Hash]);
set_plus_by_value!([T, S, BH], LeftSliceSet<T, S, BH>, T, [T: SliceHash + Len + Eq + Hash + Clone, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + Default + 'static]);
set_plus_by_value!([T, S, BH], RightSliceSet<T, S, BH>, T, [T: SliceHash + Len + Eq + Hash + Clone, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + Default + 'static]);
set_plus_by_value!([T, S], LengthSet<T, S>, T, [T: Len + Eq + Hash + Clone, S: PrimInt + Unsigned + 'static]);
set_plus_by_value!([T], ScanningSet<T>, T, [T: Hash + Eq + Clone]);

pub struct SetZoo<T> {
    pub name: String,
    pub els: Vec<T>,
    pub absent: Vec<T>,
    pub make: Box<dyn Fn(Vec<T>) -> Box<dyn SetPlus<T>>>,
}

impl<T: Clone> SetZoo<T> {
    pub fn build(&self) -> Box<dyn SetPlus<T>> {
        (self.make)(self.els.clone())
    }
}

fn sz<T: 'static>(v: &mut Vec<SetZoo<T>>, name: &str, els: &[T], absent: &[T], make: impl Fn(Vec<T>) -> Box<dyn SetPlus<T>> + 'static)
where
    T: Clone,
{
    v.push(SetZoo { name: format!("{name} of {}", els.len()), els: els.to_vec(), absent: absent.to_vec(), make: Box::new(make) });
}

/// The set kinds for the given `u32` elements.
pub fn u32_sets_of(v: &mut Vec<SetZoo<u32>>, kind: &str, els: &[u32], ab: &[u32]) {
    let n = els.len();
    sz(v, &format!("FrozenSet<u32> ({kind})"), els, ab, |p| Box::new(FrozenSet::from_vec_with_hasher(p, MIX)));
    if n <= 8 {
        sz(v, "ScanningSet<u32>", els, ab, |p| Box::new(ScanningSet::from_vec(p)));
    }
    if kind == "range" || n <= 1 {
        sz(v, "IntegerRangeSet<u32>", els, ab, |p| Box::new(IntegerRangeSet::from_vec(p)));
    }
    if n <= 255 {
        sz(v, "IntegerSet<u32, u8>", els, ab, |p| Box::new(IntegerSet::<_, u8>::from_vec(p)));
        sz(v, "CommonSet<u32, u8, LOW2>", els, ab, |p| Box::new(CommonSet::<_, u8, PH>::from_vec_with_hasher(p, LOW2)));
    }
    sz(v, "IntegerSet<u32, u16>", els, ab, |p| Box::new(IntegerSet::<_, u16>::from_vec(p)));
    if n <= 300 {
        sz(v, "CommonSet<u32, usize, ZERO>", els, ab, |p| Box::new(CommonSet::<_, usize, PH>::from_vec_with_hasher(p, ZERO)));
    }
    sz(v, "CommonSet<u32, u32, IDENT>", els, ab, |p| Box::new(CommonSet::<_, u32, PH>::from_vec_with_hasher(p, IDENT)));
}

pub fn u32_sets(big: bool) -> Vec<SetZoo<u32>> {
    let mut v = Vec::new();
    for (kind, els) in u32_contents(big) {
        u32_sets_of(&mut v, kind, &els, &u32_absent(&els));
    }
    v
}

/// The set kinds for the given `String` elements.
pub fn str_sets_of(v: &mut Vec<SetZoo<String>>, kind: &str, els: &[String], ab: &[String]) {
    let n = els.len();
    for h in [MIX, ZERO] {
        if h == MIX || n <= 300 {
            sz(v, &format!("FrozenSet<String, {h:?}> ({kind})"), els, ab, move |p| Box::new(FrozenSet::from_vec_with_hasher(p, h)));
        }
    }
    if n <= 8 {
        sz(v, "ScanningSet<String>", els, ab, |p| Box::new(ScanningSet::from_vec(p)));
    }
    if n <= 255 {
        sz(v, "CommonSet<String, u8, MIX>", els, ab, |p| Box::new(CommonSet::<_, u8, PH>::from_vec_with_hasher(p, MIX)));
        sz(v, "LengthSet<String, u8>", els, ab, |p| Box::new(LengthSet::<_, u8>::from_vec(p)));
    }
    sz(v, "LengthSet<String, u16>", els, ab, |p| Box::new(LengthSet::<_, u16>::from_vec(p)));
    for r in [0..1usize, 1..3] {
        let (r1, r2) = (r.clone(), r);
        sz(v, &format!("LeftSliceSet<String, u16, {r1:?}>"), els, ab, move |p| {
            Box::new(LeftSliceSet::<_, u16, PH>::from_vec_with_hasher(p, r1.clone(), MIX))
        });
        sz(v, &format!("RightSliceSet<String, usize, {r2:?}>"), els, ab, move |p| {
            Box::new(RightSliceSet::<_, usize, PH>::from_vec_with_hasher(p, r2.clone(), SUM))
        });
    }
}

pub fn str_sets(big: bool) -> Vec<SetZoo<String>> {
    let mut v = Vec::new();
    for (kind, els) in str_contents(big) {
        str_sets_of(&mut v, kind, &els, &str_absent(&els));
    }
    v
}

/// Sets with elements of some other type.
pub fn gen_sets<K: crate::keys::Gen>(big: bool) -> Vec<SetZoo<K>> {
    let mut v = Vec::new();
    let mut ns = vec![0usize, 1, 3, 4, 5, 7];
    if frugal() {
        ns.truncate(4);
    }
    if big {
        ns.extend([255, 256, 257]);
    }
    for n in ns {
        if n > K::CARD {
            continue;
        }
        let els: Vec<K> = (0..n).map(K::gen).collect();
        let ab: Vec<K> = (n..(n + 8).min(K::CARD)).map(K::gen).collect();
        for h in [MIX, ZERO, LOW2] {
            sz(&mut v, &format!("FrozenSet<{}, {h:?}>", K::NAME), &els, &ab, move |p| Box::new(FrozenSet::from_vec_with_hasher(p, h)));
        }
        if n <= 8 {
            sz(&mut v, &format!("ScanningSet<{}>", K::NAME), &els, &ab, |p| Box::new(ScanningSet::from_vec(p)));
        }
        sz(&mut v, &format!("CommonSet<{}, u16, LOW2>", K::NAME), &els, &ab, |p| Box::new(CommonSet::<_, u16, PH>::from_vec_with_hasher(p, LOW2)));
    }
    v
}

// ---- one size after the other ----

/// Every size up to `all`, and those around round numbers above it up to `top`.
pub fn ladder(all: usize, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    v.extend([100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 600, 800]);
    v.extend([999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 10_000]);
    v.retain(|n| *n <= top);
    v.sort_unstable();
    v.dedup();
    v
}

/// Contents of the given size for integers.
pub fn u32_sized(n: usize) -> Vec<(&'static str, Vec<u32>)> {
    let n = n as u32;
    let mut v = vec![
        ("range", (0..n).map(|i| 1000 + i).collect()),
        ("spread", (0..n).map(|i| i.wrapping_mul(0x9E37_79B1)).collect::<Vec<u32>>()),
        ("steps", (0..n).rev().map(|i| i * 64 + u32::from(i % 7 == 0)).collect()),
    ];
    if n > 1 {
        // in another order
        let mut r: Vec<u32> = (0..n).map(|i| u32::MAX - i).collect();
        r.rotate_left(n as usize / 3 + 1);
        v.push(("range", r));
    }
    v
}

/// Contents of the given size for strings.
pub fn str_sized(n: usize) -> Vec<(&'static str, Vec<String>)> {
    let mut v: Vec<(&'static str, Vec<String>)> = vec![
        ("left", (0..n).map(|i| format!("{:02x}{:02x}tail", i % 256, i / 256)).collect()),
        ("right", (0..n).map(|i| format!("h{}{:02x}{:02x}", "ead".repeat(i % 3), i / 256, i % 256)).collect()),
        ("common", (0..n).map(|i| format!("{i}")).collect()),
    ];
    if n <= 1025 {
        v.push(("length", (0..n).map(|i| "x".repeat(i)).collect()));
    }
    v
}

/// The kinds of maps with as many entries.
pub fn u32_maps_sized<V: Val>(n: usize) -> Vec<Zoo<u32, V>> {
    let mut v = Vec::new();
    for (kind, keys) in u32_sized(n) {
        let ab = u32_absent(&keys);
        u32_maps_of(&mut v, kind, keys, ab);
    }
    v
}
pub fn str_maps_sized<V: Val>(n: usize) -> Vec<Zoo<String, V>> {
    let mut v = Vec::new();
    for (kind, keys) in str_sized(n) {
        let ab = str_absent(&keys);
        str_maps_of(&mut v, kind, keys, ab);
    }
    // length maps of many keys of the same length, and subranges with few distinct values, take long
    v.retain(|z| n <= 1025 || !(z.name.contains("LengthMap") || z.name.contains("SliceMap")));
    v
}
pub fn u32_sets_sized(n: usize) -> Vec<SetZoo<u32>> {
    let mut v = Vec::new();
    for (kind, els) in u32_sized(n) {
        u32_sets_of(&mut v, kind, &els, &u32_absent(&els));
    }
    v
}
pub fn str_sets_sized(n: usize) -> Vec<SetZoo<String>> {
    let mut v = Vec::new();
    for (kind, els) in str_sized(n) {
        str_sets_of(&mut v, kind, &els, &str_absent(&els));
    }
    v.retain(|z| n <= 1025 || !(z.name.contains("LengthSet") || z.name.contains("SliceSet")));
    v
}
