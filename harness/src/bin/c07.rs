//! All ways of building the same collection give equal collections.
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::{
    CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet,
};
use mc::hashers::*;
use mc::keys::*;
use mc::maps::{content, lookups, val, MapLike};
use mc::sets::{elements, membership, SetLike};
use mc::spaces::*;
use mc::zoo::{str_absent, str_contents, u32_absent, u32_contents};
use mc::*;
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, RandomState};

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

/// An iterator with a chosen size hint, true or false, which starts over after its end.
struct Hinted<T> {
    v: std::vec::IntoIter<T>,
    slack: (usize, Option<usize>),
    /// A hint which does not depend on what is there.
    fixed: Option<(usize, Option<usize>)>,
    again: Option<T>,
    ended: bool,
}
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended {
            return self.again.take();
        }
        let x = self.v.next();
        self.ended = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        if let Some(h) = self.fixed {
            return h;
        }
        (n.saturating_sub(self.slack.0), self.slack.1.map(|s| n.saturating_add(s)))
    }
}
const TRUE_HINTS: usize = 5;
const HINTS: usize = 10;
fn hinted<T>(v: Vec<T>, kind: usize, again: Option<T>) -> Hinted<T> {
    let slack = [(0, Some(0)), (usize::MAX, None), (usize::MAX, Some(usize::MAX)), (1, Some(3)), (0, None)].get(kind).copied().unwrap_or((0, None));
    // the last ones are false (except for some lengths)
    let fixed = [(0, Some(0)), (1, Some(2)), (7, Some(7)), (40, None), (9, Some(3))].get(kind.wrapping_sub(TRUE_HINTS)).copied();
    Hinted { v: v.into_iter(), slack, fixed, again, ended: false }
}

macro_rules! with_array {
    ($v:expr, |$a:ident| $e:expr, [$($n:literal)*]) => {
        match $v.len() {
            $($n => { let $a: [_; $n] = $v.try_into().ok().unwrap(); Some($e) })*
            _ => None,
        }
    };
}
macro_rules! arr {
    ($v:expr, |$a:ident| $e:expr) => {{
        let v = $v;
        with_array!(v, |$a| $e, [0 1 2 3 4 5 6 7 8 13 255 256 257 300])
    }};
}

fn judge<K, V, M>(cx: &mut Cx, ms: &mut Vec<(String, M)>, model: &[(K, V)], absent: &[K]) -> R
where
    K: Clone + Eq + Hash + Debug + 'static,
    V: Clone + PartialEq + Debug + 'static,
    M: MapLike<K, V> + PartialEq,
{
    for (w, m) in ms.iter_mut() {
        lookups(cx, m, model, absent).map_err(|e| format!("built by {w}: {e}"))?;
        content(cx, m, model).map_err(|e| format!("built by {w}: {e}"))?;
    }
    let full = ms.len() <= 24;
    for (i, a) in ms.iter().enumerate() {
        for (j, b) in ms.iter().enumerate() {
            if full || i == 0 || j == 0 || i.abs_diff(j) <= 1 {
                ck!(a.1 == b.1, "the map built by {} is not equal to the one built by {}", a.0, b.0);
                ck!(!(a.1 != b.1), "the map built by {} differs from the one built by {}", a.0, b.0);
                cx.tr(2);
            }
        }
    }
    cx.out(ms.len() as u64);
    Ok(())
}

fn judge_set<K, M>(cx: &mut Cx, ms: &[(String, M)], model: &[K], absent: &[K]) -> R
where
    K: Clone + Eq + Hash + Debug + 'static,
    M: SetLike<K> + PartialEq,
{
    for (w, m) in ms.iter() {
        membership(cx, m, model, absent).map_err(|e| format!("built by {w}: {e}"))?;
        elements(cx, m, model).map_err(|e| format!("built by {w}: {e}"))?;
    }
    let full = ms.len() <= 24;
    for (i, a) in ms.iter().enumerate() {
        for (j, b) in ms.iter().enumerate() {
            if full || i == 0 || j == 0 || i.abs_diff(j) <= 1 {
                ck!(a.1 == b.1, "the set built by {} is not equal to the one built by {}", a.0, b.0);
                ck!(!(a.1 != b.1), "the set built by {} differs from the one built by {}", a.0, b.0);
                cx.tr(2);
            }
        }
    }
    Ok(())
}

fn orders<T: Clone>(v: &[T], quick: bool) -> Vec<Vec<T>> {
    let n = v.len();
    let mut r = Vec::new();
    if n <= if quick { 4 } else { 5 } {
        permutations(n, &mut |p| r.push(p.iter().map(|i| v[*i].clone()).collect()));
    } else {
        r.push(v.to_vec());
        let mut x = v.to_vec();
        x.reverse();
        r.push(x.clone());
        x.rotate_left(n / 3);
        r.push(x);
    }
    r
}

/// Frozen maps and sets, built in every way.
fn frozen<K: Clone + Eq + Hash + Debug + 'static>(cx: &mut Cx, keys: &[K], absent: &[K], quick: bool) -> R {
    let model: Vec<(K, u32)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), val(i))).collect();
    let spare = || absent.first().map(|k| (k.clone(), 77));
    let mut chosen: Vec<(String, FrozenMap<K, u32, PH>)> = Vec::new();
    let mut random: Vec<(String, FrozenMap<K, u32, RandomState>)> = Vec::new();
    let mut chosen_s: Vec<(String, FrozenSet<K, PH>)> = Vec::new();
    let mut random_s: Vec<(String, FrozenSet<K, RandomState>)> = Vec::new();
    for (o, l) in orders(&model, quick).into_iter().enumerate() {
        let lk: Vec<K> = l.iter().map(|e| e.0.clone()).collect();
        for h in [MIX, ZERO, LOW2, SLICE_SUM] {
            if o > 1 && h != MIX {
                continue;
            }
            chosen.push((format!("from_vec_with_hasher {h:?} order {o}"), FrozenMap::from_vec_with_hasher(l.clone(), h)));
            chosen_s.push((format!("from_vec_with_hasher {h:?} order {o}"), FrozenSet::from_vec_with_hasher(lk.clone(), h)));
        }
        for kind in 0..HINTS {
            if o > 2 && kind != o % HINTS || o > 0 && kind >= TRUE_HINTS {
                continue;
            }
            chosen.push((format!("from_iter_with_hasher, hint {kind}, order {o}"), FrozenMap::from_iter_with_hasher(hinted(l.clone(), kind, spare()), IDENT)));
            random.push((format!("collect, hint {kind}, order {o}"), hinted(l.clone(), kind, spare()).collect()));
            chosen_s.push((
                format!("from_iter_with_hasher, hint {kind}, order {o}"),
                FrozenSet::from_iter_with_hasher(hinted(lk.clone(), kind, absent.first().cloned()), IDENT),
            ));
            random_s.push((format!("collect, hint {kind}, order {o}"), hinted(lk.clone(), kind, absent.first().cloned()).collect()));
        }
        if let Some(m) = arr!(l.clone(), |a| FrozenMap::with_hasher(a, SUM)) {
            chosen.push((format!("with_hasher order {o}"), m));
        }
        if let Some(m) = arr!(l.clone(), |a| FrozenMap::from(a)) {
            random.push((format!("from order {o}"), m));
        }
        if let Some(m) = arr!(lk.clone(), |a| FrozenSet::with_hasher(a, SUM)) {
            chosen_s.push((format!("with_hasher order {o}"), m));
        }
        if let Some(m) = arr!(lk.clone(), |a| FrozenSet::from(a)) {
            random_s.push((format!("from order {o}"), m));
        }
        random.push((format!("from_vec order {o}"), FrozenMap::from_vec(l.clone())));
        random_s.push((format!("from_vec order {o}"), FrozenSet::from_vec(lk)));
    }
    if model.is_empty() {
        chosen.push(("default".into(), FrozenMap::default()));
        random.push(("default".into(), FrozenMap::default()));
        chosen_s.push(("default".into(), FrozenSet::default()));
        random_s.push(("default".into(), FrozenSet::default()));
        let mut d: FrozenMap<K, u32, BuildHasherDefault<std::collections::hash_map::DefaultHasher>> = FrozenMap::default();
        lookups(cx, &mut d, &model, absent)?;
        content(cx, &d, &model)?;
    }
    judge(cx, &mut chosen, &model, absent)?;
    judge(cx, &mut random, &model, absent)?;
    judge_set(cx, &chosen_s, keys, absent)?;
    judge_set(cx, &random_s, keys, absent)?;
    cx.st();
    Ok(())
}

fn typ<K: Gen>(c: &mut Ctx) {
    c.scenario(&format!("type {}", K::NAME), |c| {
        let quick = c.quick();
        for n in (0..=c.pick(6, 20)).chain([13, 255, 256, 257, 300]) {
            if n > K::CARD {
                continue;
            }
            c.case(
                || format!("frozen collections of the first {n} keys of {}", K::NAME),
                |cx| {
                    let keys: Vec<K> = (0..n).map(K::gen).collect();
                    let absent: Vec<K> = (n..(n + 5).min(K::CARD)).map(K::gen).collect();
                    frozen(cx, &keys, &absent, quick)
                },
            );
        }
    });
}

macro_rules! special_map {
    ($cx:expr, $l:expr, $model:expr, $absent:expr, $quick:expr, $t:ty, vec: $fv:expr, iter: $fi:expr, array: $fa:expr, random: $rv:expr) => {{
        let mut ms: Vec<(String, $t)> = Vec::new();
        for (o, l) in orders($l, $quick).into_iter().enumerate() {
            let fv: fn(Vec<_>) -> $t = $fv;
            ms.push((format!("{} from vec order {o}", stringify!($t)), fv(l.clone())));
            for kind in 0..HINTS {
                if o == 0 || o < 2 && kind < TRUE_HINTS || kind == o % TRUE_HINTS {
                    let fi: fn(Hinted<_>) -> $t = $fi;
                    ms.push((format!("{} from iterator with hint {kind} order {o}", stringify!($t)), fi(hinted(l.clone(), kind, None))));
                }
            }
            if let Some(m) = arr!(l.clone(), |a| $fa(a)) {
                ms.push((format!("{} from array order {o}", stringify!($t)), m));
            }
            let rv: Option<fn(Vec<_>) -> $t> = $rv;
            if let Some(rv) = rv {
                ms.push((format!("{} other order {o}", stringify!($t)), rv(l)));
            }
        }
        judge($cx, &mut ms, $model, $absent)?;
    }};
}

macro_rules! special_set {
    ($cx:expr, $l:expr, $absent:expr, $quick:expr, $t:ty, vec: $fv:expr, iter: $fi:expr, array: $fa:expr) => {{
        let mut ms: Vec<(String, $t)> = Vec::new();
        for (o, l) in orders($l, $quick).into_iter().enumerate() {
            let fv: fn(Vec<_>) -> $t = $fv;
            ms.push((format!("{} from vec order {o}", stringify!($t)), fv(l.clone())));
            for kind in 0..HINTS {
                if o == 0 || o < 2 && kind < TRUE_HINTS || kind == o % TRUE_HINTS {
                    let fi: fn(Hinted<_>) -> $t = $fi;
                    ms.push((format!("{} from iterator with hint {kind} order {o}", stringify!($t)), fi(hinted(l.clone(), kind, None))));
                }
            }
            if let Some(m) = arr!(l.clone(), |a| $fa(a)) {
                ms.push((format!("{} from array order {o}", stringify!($t)), m));
            }
        }
        judge_set($cx, &ms, $l, $absent)?;
    }};
}

type RS = RandomState;

fn u32_special(cx: &mut Cx, kind: &str, keys: &[u32], absent: &[u32], q: bool) -> R {
    let model: Vec<(u32, u32)> = keys.iter().enumerate().map(|(i, k)| (*k, val(i))).collect();
    let n = keys.len();
    let (m, k, ab) = (&model[..], keys, absent);
    if n <= 255 {
        special_map!(cx, m, m, ab, q, IntegerMap<u32, u32, u8>, vec: |l| IntegerMap::from_vec(l), iter: |l| l.collect(), array: |a| IntegerMap::from(a), random: None);
        special_map!(cx, m, m, ab, q, CommonMap<u32, u32, u8, RS>, vec: |l| CommonMap::from_vec(l), iter: |l| l.collect(), array: |a| CommonMap::from(a), random: Some(|l| CommonMap::from_vec_with_hasher(l, RS::new())));
        special_set!(cx, k, ab, q, IntegerSet<u32, u8>, vec: |l| IntegerSet::from_vec(l), iter: |l| l.collect(), array: |a| IntegerSet::from(a));
        special_set!(cx, k, ab, q, CommonSet<u32, u8, RS>, vec: |l| CommonSet::from_vec(l), iter: |l| l.collect(), array: |a| CommonSet::from(a));
    }
    special_map!(cx, m, m, ab, q, IntegerMap<u32, u32, u64>, vec: |l| IntegerMap::from_vec(l), iter: |l| l.collect(), array: |a| IntegerMap::from(a), random: None);
    special_map!(cx, m, m, ab, q, CommonMap<u32, u32, usize, PH>, vec: |l| CommonMap::from_vec_with_hasher(l, MIX), iter: |l| CommonMap::from_iter_with_hasher(l, IDENT), array: |a| CommonMap::with_hasher(a, LOW2), random: None);
    special_set!(cx, k, ab, q, CommonSet<u32, u16, PH>, vec: |l| CommonSet::from_vec_with_hasher(l, MIX), iter: |l| CommonSet::from_iter_with_hasher(l, IDENT), array: |a| CommonSet::with_hasher(a, LOW2));
    if n <= 40 {
        special_map!(cx, m, m, ab, q, ScanningMap<u32, u32>, vec: |l| ScanningMap::from_vec(l), iter: |l| l.collect(), array: |a| ScanningMap::from(a), random: None);
        special_set!(cx, k, ab, q, ScanningSet<u32>, vec: |l| ScanningSet::from_vec(l), iter: |l| l.collect(), array: |a| ScanningSet::from(a));
    }
    if kind == "range" || n == 0 {
        special_map!(cx, m, m, ab, q, IntegerRangeMap<u32, u32>, vec: |l| IntegerRangeMap::from_vec(l), iter: |l| l.collect(), array: |a| IntegerRangeMap::from(a), random: None);
        special_set!(cx, k, ab, q, IntegerRangeSet<u32>, vec: |l| IntegerRangeSet::from_vec(l), iter: |l| l.collect(), array: |a| IntegerRangeSet::from(a));
    }
    Ok(())
}

fn str_special(cx: &mut Cx, keys: &[String], absent: &[String], q: bool) -> R {
    let model: Vec<(String, u32)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), val(i))).collect();
    let n = keys.len();
    let (m, k, ab) = (&model[..], keys, absent);
    special_map!(cx, m, m, ab, q, LeftSliceMap<String, u32, usize, PH>, vec: |l| LeftSliceMap::from_vec_with_hasher(l, 0..1, MIX), iter: |l| LeftSliceMap::from_iter_with_hasher(l, 0..1, SUM), array: |a| LeftSliceMap::with_hasher(a, 1..2, MIX), random: None);
    special_map!(cx, m, m, ab, q, RightSliceMap<String, u32, usize, PH>, vec: |l| RightSliceMap::from_vec_with_hasher(l, 0..1, MIX), iter: |l| RightSliceMap::from_iter_with_hasher(l, 0..1, SUM), array: |a| RightSliceMap::with_hasher(a, 1..2, MIX), random: None);
    special_set!(cx, k, ab, q, LeftSliceSet<String, u16, PH>, vec: |l| LeftSliceSet::from_vec_with_hasher(l, 0..1, MIX), iter: |l| LeftSliceSet::from_iter_with_hasher(l, 0..1, SUM), array: |a| LeftSliceSet::with_hasher(a, 1..2, MIX));
    special_set!(cx, k, ab, q, RightSliceSet<String, u16, PH>, vec: |l| RightSliceSet::from_vec_with_hasher(l, 0..1, MIX), iter: |l| RightSliceSet::from_iter_with_hasher(l, 0..1, SUM), array: |a| RightSliceSet::with_hasher(a, 1..2, MIX));
    if n <= 255 {
        special_map!(cx, m, m, ab, q, LeftSliceMap<String, u32, u8, RS>, vec: |l| LeftSliceMap::from_vec(l, 0..1), iter: |l| LeftSliceMap::from_iter(l, 0..2), array: |a| LeftSliceMap::from(a, 1..2), random: None);
        special_map!(cx, m, m, ab, q, RightSliceMap<String, u32, u8, RS>, vec: |l| RightSliceMap::from_vec(l, 0..1), iter: |l| RightSliceMap::from_iter(l, 0..2), array: |a| RightSliceMap::from(a, 1..2), random: None);
        special_set!(cx, k, ab, q, LeftSliceSet<String, u8, RS>, vec: |l| LeftSliceSet::from_vec(l, 0..1), iter: |l| LeftSliceSet::from_iter(l, 0..2), array: |a| LeftSliceSet::from(a, 1..2));
        special_set!(cx, k, ab, q, RightSliceSet<String, u8, RS>, vec: |l| RightSliceSet::from_vec(l, 0..1), iter: |l| RightSliceSet::from_iter(l, 0..2), array: |a| RightSliceSet::from(a, 1..2));
        special_map!(cx, m, m, ab, q, LengthMap<String, u32>, vec: |l| LengthMap::from_vec(l), iter: |l| l.collect(), array: |a| LengthMap::from(a), random: None);
        special_set!(cx, k, ab, q, LengthSet<String, u8>, vec: |l| LengthSet::from_vec(l), iter: |l| l.collect(), array: |a| LengthSet::from(a));
    }
    if n <= 40 {
        special_map!(cx, m, m, ab, q, ScanningMap<String, u32>, vec: |l| ScanningMap::from_vec(l), iter: |l| l.collect(), array: |a| ScanningMap::from(a), random: None);
        special_set!(cx, k, ab, q, ScanningSet<String>, vec: |l| ScanningSet::from_vec(l), iter: |l| l.collect(), array: |a| ScanningSet::from(a));
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::from_args();
    mc::all_key_types!(typ, &mut c);
    let quick = c.quick();
    c.scenario("u32", |c| {
        for (kind, keys) in u32_contents(true) {
            c.case(
                || format!("u32 {kind} {keys:?}"),
                |cx| {
                    let ab = u32_absent(&keys);
                    frozen(cx, &keys, &ab, quick)?;
                    u32_special(cx, kind, &keys, &ab, quick)
                },
            );
        }
        windows(c.pick(6, 8), 1, |s| {
            c.case(
                || format!("u32 {s:?}"),
                |cx| {
                    let keys = s.keys();
                    let ab: Vec<u32> = uprobes(&keys).into_iter().take(20).collect();
                    let contiguous = !keys.is_empty() && keys[keys.len() - 1].wrapping_sub(keys[0]) as usize == keys.len() - 1 && keys[0] < keys[keys.len() - 1];
                    frozen(cx, &keys, &ab, quick)?;
                    u32_special(cx, if contiguous { "range" } else { "" }, &keys, &ab, quick)
                },
            )
        });
    });
    c.scenario("str", |c| {
        for (kind, keys) in str_contents(true) {
            c.case(
                || format!("String {kind} {keys:?}"),
                |cx| {
                    let ab = str_absent(&keys);
                    frozen(cx, &keys, &ab, quick)?;
                    str_special(cx, &keys, &ab, quick)
                },
            );
        }
        for uni in 1..UNIVERSES {
            for k in 4..=c.pick(5, 6) {
                subsets(universe(uni).len(), k, &mut |s| {
                    let mask = s.iter().fold(0u64, |m, i| m | 1 << i);
                    if c.quick() && mask % 5 != 0 {
                        return;
                    }
                    let s = SS::Mask { uni, mask, order: 0 };
                    c.case(
                        || format!("String {s:?}"),
                        |cx| {
                            let keys = s.keys();
                            let ab: Vec<String> = sprobes(&keys).into_iter().take(30).collect();
                            frozen(cx, &keys, &ab, quick)?;
                            str_special(cx, &keys, &ab, quick)
                        },
                    );
                });
            }
        }
        let ns: &[usize] = c.pick(&[0, 1, 3, 4, 7, 255, 256, 300], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 128, 255, 256, 257, 300, 1000]);
        for &n in ns {
            for fam in 0..SFAMS {
                if c.quick() && n > 100 && fam % 3 != 0 {
                    continue;
                }
                let s = SS::Fam { fam, n, p: 1, s: 1, order: 0 };
                c.case(
                    || format!("String {s:?}"),
                    |cx| {
                        let keys = s.keys();
                        let ab: Vec<String> = sprobes(&keys).into_iter().take(30).collect();
                        frozen(cx, &keys, &ab, quick)?;
                        str_special(cx, &keys, &ab, quick)
                    },
                );
            }
        }
    });
    c.finish();
}
