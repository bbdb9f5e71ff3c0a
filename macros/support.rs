//! What every generated macro invocation is checked with.
use mc::*;
use std::cell::RefCell;
use std::fmt::Debug;

thread_local!(static LOG: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) });

/// The value expression of the entry at a position: notes that it was evaluated.
#[inline(never)]
pub fn v(i: u32) -> u32 {
    LOG.with(|l| l.borrow_mut().push(i));
    i.wrapping_mul(2_654_435_761) ^ 0x55
}

fn value(i: usize) -> u32 {
    (i as u32).wrapping_mul(2_654_435_761) ^ 0x55
}

/// To be called ahead of the macro invocation.
#[inline(never)]
pub fn start() {
    LOG.with(|l| l.borrow_mut().clear());
}

/// All keys a slip in the handling of integers could confuse with the listed ones.
pub trait Near: Sized {
    fn near(keys: &[Self]) -> Vec<Self>;
}

macro_rules! near_ints {
    ($($t:ty)*) => {$(
        impl Near for $t {
            fn near(keys: &[$t]) -> Vec<$t> {
                let mut p = vec![0, 1, <$t>::MAX, <$t>::MIN, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MIN + 1];
                let some = keys.len() > 40;
                for (i, &k) in keys.iter().enumerate() {
                    if some && i > 3 && i + 3 < keys.len() {
                        continue;
                    }
                    p.extend([k.wrapping_add(1), k.wrapping_sub(1), !k]);
                    for b in 0..<$t>::BITS {
                        p.push(k ^ ((1 as $t) << b));
                        p.push(k.wrapping_add((1 as $t) << b));
                    }
                }
                p
            }
        }
    )*};
}
near_ints!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);

impl Near for &'static str {
    fn near(keys: &[Self]) -> Vec<Self> {
        let mut p: Vec<String> = Vec::new();
        for k in keys.iter().take(40) {
            p.extend([format!("{k}a"), format!("a{k}"), format!("{k}\0"), format!("{k}{k}"), k.to_uppercase(), k.chars().rev().collect()]);
            let cs: Vec<char> = k.chars().collect();
            for i in 0..cs.len() {
                let mut c = cs.clone();
                c.remove(i);
                p.push(c.iter().collect());
                for x in ['a', 'b', 'z', 'é'] {
                    let mut c = cs.clone();
                    c[i] = x;
                    p.push(c.iter().collect());
                }
            }
        }
        p.extend(["", "a", "b", "\u{e9}", "no such key, and a rather long one at that"].map(String::from));
        p.sort();
        p.dedup();
        p.into_iter().map(|s| &*s.leak()).collect()
    }
}

impl Near for char {
    fn near(keys: &[Self]) -> Vec<Self> {
        let mut p = vec!['\0', 'a', 'b', '\u{e9}', char::MAX];
        p.extend(keys.iter().flat_map(|k| [char::from_u32(*k as u32 + 1), char::from_u32((*k as u32).wrapping_sub(1)), char::from_u32(*k as u32 ^ 256)]).flatten());
        p
    }
}

impl Near for bool {
    fn near(_: &[Self]) -> Vec<Self> {
        vec![false, true]
    }
}

impl Near for (u8, u8) {
    fn near(_: &[Self]) -> Vec<Self> {
        (0..5).flat_map(|a| (0..5).map(move |b| (a, b))).collect()
    }
}

impl Near for Option<u8> {
    fn near(_: &[Self]) -> Vec<Self> {
        (0..9).map(Some).chain([None]).collect()
    }
}

impl Near for [u8; 2] {
    fn near(_: &[Self]) -> Vec<Self> {
        (0..5).flat_map(|a| (0..5).map(move |b| [a, b])).collect()
    }
}

/// What the map has to say, through its public interface.
pub struct Seen<'a, K> {
    pub len: usize,
    pub empty: bool,
    pub get: &'a dyn Fn(&K) -> Option<u32>,
    pub has: &'a dyn Fn(&K) -> bool,
    pub items: Vec<(K, u32)>,
}

#[inline(never)]
pub fn check<K: PartialEq + Debug + Near>(cx: &mut Cx, keys: &[K], m: Seen<'_, K>) -> R {
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    ck!(
        log.iter().map(|x| *x as usize).eq(0..keys.len()),
        "the value expressions were evaluated in the order {log:?} instead of once each, as listed"
    );
    ck!(m.len == keys.len(), "len is {} instead of {}", m.len, keys.len());
    ck!(m.empty == keys.is_empty(), "is_empty is {}", m.empty);
    for (i, k) in keys.iter().enumerate() {
        cx.tr(2);
        let g = (m.get)(k);
        ck!(g == Some(value(i)), "get({k:?}) is {g:?} instead of the value listed at {i}, {}", value(i));
        ck!((m.has)(k), "contains_key({k:?}) is false");
    }
    for k in K::near(keys) {
        if !keys.contains(&k) {
            cx.tr(2);
            let g = (m.get)(&k);
            ck!(g.is_none(), "get({k:?}) is {g:?}, but there is no such key");
            ck!(!(m.has)(&k), "contains_key({k:?}) is true, but there is no such key");
        }
    }
    ck!(m.items.len() == keys.len(), "iterates over {} entries instead of {}", m.items.len(), keys.len());
    let mut seen = vec![false; keys.len()];
    for (k, x) in &m.items {
        let at = keys.iter().position(|l| l == k);
        ck!(at.is_some_and(|i| !seen[i] && *x == value(i)), "iterates over ({k:?}, {x})");
        seen[at.unwrap()] = true;
    }
    cx.out(m.items.len() as u64);
    Ok(())
}

/// A map which is looked up with keys of the listed type.
#[macro_export]
macro_rules! by_key {
    ($t:ty, [$($k:expr),*], $m:expr) => {
        |cx: &mut mc::Cx| -> mc::R {
            $crate::support::start();
            let m = $m;
            $crate::support::check::<$t>(cx, &[$($k),*], $crate::support::Seen {
                len: m.len(),
                empty: m.is_empty(),
                get: &|k| m.get(k).copied(),
                has: &|k| m.contains_key(k),
                items: m.iter().map(|(k, v)| (k.clone(), *v)).collect(),
            })
        }
    };
}

/// A map of string literals, which is looked up with owned strings.
#[macro_export]
macro_rules! by_string {
    ([$($k:expr),*], $m:expr) => {
        |cx: &mut mc::Cx| -> mc::R {
            $crate::support::start();
            let m = $m;
            $crate::support::check::<&'static str>(cx, &[$($k),*], $crate::support::Seen {
                len: m.len(),
                empty: m.is_empty(),
                get: &|k| m.get(&k.to_string()).copied(),
                has: &|k| m.contains_key(&k.to_string()),
                items: m.iter().map(|(k, v)| (&*k.to_string().leak(), *v)).collect(),
            })
        }
    };
}

/// What was found in a map with boxed values.
pub struct Unbox<K>(pub Vec<(K, u32)>);

impl<K: PartialEq> Unbox<K> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn get(&self, k: &K) -> Option<&u32> {
        self.iter().find(|e| e.0 == k).map(|e| e.1)
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.get(k).is_some()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &u32)> {
        self.0.iter().map(|e| (&e.0, &e.1))
    }
}
