//! All set kinds with the same elements, to be combined in pairs.
use crate::hashers::*;
use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::{
    CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet, Set,
};
use frozen_collections_core::traits::len::Len;
use std::collections::{BTreeSet, HashSet};
use std::hash::Hash;

/// A set implemented outside of the library.
#[derive(Clone, Debug)]
pub struct VecSet<T>(pub Vec<T>);
impl<T> Len for VecSet<T> {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl<T: PartialEq> Set<T> for VecSet<T> {
    type Iterator<'a>
        = std::slice::Iter<'a, T>
    where
        T: 'a;
    fn iter(&self) -> Self::Iterator<'_> {
        self.0.iter()
    }
    fn contains(&self, v: &T) -> bool {
        self.0.contains(v)
    }
}

pub struct U32Kinds {
    pub els: Vec<u32>,
    pub frozen: Option<FrozenSet<u32, PH>>,
    pub common: Option<CommonSet<u32, u16, PH>>,
    pub integer: Option<IntegerSet<u32, u16>>,
    pub range: Option<IntegerRangeSet<u32>>,
    pub scanning: Option<ScanningSet<u32>>,
    pub hash: Option<HashSet<u32, PH>>,
    pub btree: Option<BTreeSet<u32>>,
    pub vec: Option<VecSet<u32>>,
}

pub fn contiguous(els: &[u32]) -> bool {
    els.is_empty() || (*els.iter().max().unwrap() - *els.iter().min().unwrap()) as usize == els.len() - 1
}

impl U32Kinds {
    pub fn new(els: &[u32]) -> Self {
        let small = els.len() <= 40;
        Self {
            els: els.to_vec(),
            frozen: Some(FrozenSet::from_vec_with_hasher(els.to_vec(), MIX)),
            common: Some(CommonSet::from_vec_with_hasher(els.to_vec(), if small { LOW2 } else { LOWBYTE })),
            integer: Some(IntegerSet::from_vec(els.to_vec())),
            range: contiguous(els).then(|| IntegerRangeSet::from_vec(els.to_vec())),
            scanning: small.then(|| ScanningSet::from_vec(els.to_vec())),
            hash: Some(els.iter().copied().collect()),
            btree: Some(els.iter().copied().collect()),
            vec: small.then(|| VecSet(els.to_vec())),
        }
    }
}

pub struct StrKinds {
    pub els: Vec<String>,
    pub frozen: Option<FrozenSet<String, PH>>,
    pub common: Option<CommonSet<String, u16, PH>>,
    pub left: Option<LeftSliceSet<String, u16, PH>>,
    pub right: Option<RightSliceSet<String, u16, PH>>,
    pub length: Option<LengthSet<String, u16>>,
    pub scanning: Option<ScanningSet<String>>,
    pub hash: Option<HashSet<String, PH>>,
    pub btree: Option<BTreeSet<String>>,
    pub vec: Option<VecSet<String>>,
}

impl StrKinds {
    pub fn new(els: &[String]) -> Self {
        let small = els.len() <= 40;
        Self {
            els: els.to_vec(),
            frozen: Some(FrozenSet::from_vec_with_hasher(els.to_vec(), MIX)),
            common: Some(CommonSet::from_vec_with_hasher(els.to_vec(), if small { LOW2 } else { LOWBYTE })),
            left: Some(LeftSliceSet::from_vec_with_hasher(els.to_vec(), 0..1, MIX)),
            right: Some(RightSliceSet::from_vec_with_hasher(els.to_vec(), 0..1, SUM)),
            length: Some(LengthSet::from_vec(els.to_vec())),
            scanning: small.then(|| ScanningSet::from_vec(els.to_vec())),
            hash: Some(els.iter().cloned().collect()),
            btree: Some(els.iter().cloned().collect()),
            vec: small.then(|| VecSet(els.to_vec())),
        }
    }
}

pub struct GenKinds<K> {
    pub els: Vec<K>,
    pub frozen: Option<FrozenSet<K, PH>>,
    pub zero: Option<FrozenSet<K, PH>>,
    pub common: Option<CommonSet<K, u16, PH>>,
    pub scanning: Option<ScanningSet<K>>,
    pub hash: Option<HashSet<K, PH>>,
}

impl<K: Clone + Eq + Hash> GenKinds<K> {
    pub fn new(els: &[K]) -> Self {
        Self {
            els: els.to_vec(),
            frozen: Some(FrozenSet::from_vec_with_hasher(els.to_vec(), MIX)),
            zero: Some(FrozenSet::from_vec_with_hasher(els.to_vec(), ZERO)),
            common: Some(CommonSet::from_vec_with_hasher(els.to_vec(), LOW2)),
            scanning: Some(ScanningSet::from_vec(els.to_vec())),
            hash: Some(els.iter().cloned().collect()),
        }
    }
}

/// Runs a block for every kind which exists.
#[macro_export]
macro_rules! each_kind {
    (@one $k:expr, $f:ident, $label:literal, $a:ident, $n:ident, $b:block) => {
        if let Some($a) = &$k.$f {
            #[allow(unused)]
            let $n = $label;
            $b
        }
    };
    (u32, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(u32 own, $k, |$a, $n| $b);
        $crate::each_kind!(@one $k, hash, "HashSet", $a, $n, $b);
        $crate::each_kind!(@one $k, btree, "BTreeSet", $a, $n, $b);
        $crate::each_kind!(@one $k, vec, "VecSet", $a, $n, $b);
    }};
    (u32 own, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(@one $k, frozen, "FrozenSet", $a, $n, $b);
        $crate::each_kind!(u32 special, $k, |$a, $n| $b);
    }};
    (u32 special, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(@one $k, common, "CommonSet", $a, $n, $b);
        $crate::each_kind!(@one $k, integer, "IntegerSet", $a, $n, $b);
        $crate::each_kind!(@one $k, range, "IntegerRangeSet", $a, $n, $b);
        $crate::each_kind!(@one $k, scanning, "ScanningSet", $a, $n, $b);
    }};
    (str, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(str own, $k, |$a, $n| $b);
        $crate::each_kind!(@one $k, hash, "HashSet", $a, $n, $b);
        $crate::each_kind!(@one $k, btree, "BTreeSet", $a, $n, $b);
        $crate::each_kind!(@one $k, vec, "VecSet", $a, $n, $b);
    }};
    (str own, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(@one $k, frozen, "FrozenSet", $a, $n, $b);
        $crate::each_kind!(str special, $k, |$a, $n| $b);
    }};
    (str special, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(@one $k, common, "CommonSet", $a, $n, $b);
        $crate::each_kind!(@one $k, left, "LeftSliceSet", $a, $n, $b);
        $crate::each_kind!(@one $k, right, "RightSliceSet", $a, $n, $b);
        $crate::each_kind!(@one $k, length, "LengthSet", $a, $n, $b);
        $crate::each_kind!(@one $k, scanning, "ScanningSet", $a, $n, $b);
    }};
    (gen, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(gen own, $k, |$a, $n| $b);
        $crate::each_kind!(@one $k, hash, "HashSet", $a, $n, $b);
    }};
    (gen own, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(@one $k, frozen, "FrozenSet", $a, $n, $b);
        $crate::each_kind!(@one $k, zero, "FrozenSet (all hash codes 0)", $a, $n, $b);
        $crate::each_kind!(gen special, $k, |$a, $n| $b);
    }};
    (gen special, $k:expr, |$a:ident, $n:ident| $b:block) => {{
        $crate::each_kind!(@one $k, common, "CommonSet", $a, $n, $b);
        $crate::each_kind!(@one $k, scanning, "ScanningSet", $a, $n, $b);
    }};
}

/// The domains of which all pairs of subsets are combined.
pub fn u32_domains(quick: bool) -> Vec<Vec<u32>> {
    let mut v = vec![vec![10, 11, 12, 13, 14, 15], vec![0, 1, 256, 77, u32::MAX, 0x8000_0000]];
    if !quick {
        v.push(vec![u32::MAX - 6, u32::MAX - 5, u32::MAX - 4, u32::MAX - 3, u32::MAX - 2, u32::MAX - 1, u32::MAX]);
        v.push(vec![0, 4, 8, 12, 16, 20, 24]);
    }
    v
}

pub fn str_domains(quick: bool) -> Vec<Vec<String>> {
    let l = |v: &[&str]| v.iter().map(|s| (*s).to_string()).collect::<Vec<_>>();
    let mut v = vec![l(&["", "a", "ab", "ba", "bb", "abc"])];
    if !quick {
        v.push(l(&["ax", "bx", "cx", "dx", "ex", "fx"]));
        v.push(l(&["xa", "xb", "xc", "xd", "xe", "xf"]));
        v.push(l(&["", "1", "22", "333", "4444", "55555"]));
    } else {
        v.push(l(&["ax", "bx", "cx", "dx", "yxa"]));
    }
    v
}

pub fn pick<T: Clone>(d: &[T], mask: usize) -> Vec<T> {
    d.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| x.clone()).collect()
}

/// Pairs of larger lists of integers: sizes, overlaps and shapes.
pub fn u32_big_pairs(quick: bool) -> Vec<(String, Vec<u32>, Vec<u32>)> {
    let mut v = Vec::new();
    let sizes: &[u32] = if quick { &[0, 1, 5, 18, 40, 70, 100, 255, 256, 1000] } else { &[0, 1, 2, 5, 9, 18, 34, 40, 41, 66, 100, 130, 254, 255, 256, 257, 1000, 4096, 30_000] };
    for &a in sizes {
        for &b in sizes {
            for (shape, step) in [("contiguous", 1u32), ("stride 3", 3), ("stride 257", 257)] {
                let mut offs = vec![0, 1, a / 2, a.saturating_sub(1), a, b];
                offs.sort_unstable();
                offs.dedup();
                for o in offs {
                    let x: Vec<u32> = (0..a).map(|i| i.wrapping_mul(step)).collect();
                    let y: Vec<u32> = (0..b).map(|i| (i + o).wrapping_mul(step)).collect();
                    v.push((format!("{shape}: {a} elements from 0, {b} elements from {o}"), x, y));
                }
            }
        }
    }
    // of the elements of one set, those at some positions of every four are in the other
    let (xs, ys): (&[u32], &[u32]) = if quick { (&[12, 24, 48, 100], &[6, 12, 20, 41]) } else { (&[6, 12, 24, 48, 100, 200, 400], &[6, 9, 12, 20, 41, 70, 140]) };
    for &a in xs {
        for &b in ys {
            for mask in 1..16u32 {
                for step in [1, 3] {
                    let x: Vec<u32> = (0..a).map(|i| i * step).collect();
                    let y: Vec<u32> = (0..b).map(|j| if mask >> (j % 4) & 1 == 1 && j < a { j * step } else { 1_000_000 + j * step }).collect();
                    v.push((format!("{a} multiples of {step}, and {b} elements of which those at {mask:04b} of four are among them"), x.clone(), y.clone()));
                    v.push((format!("{b} elements of which those at {mask:04b} of four are among {a} multiples of {step}, and these"), y, x));
                }
            }
        }
    }
    v
}
