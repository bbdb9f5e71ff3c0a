//! A collection uses, returns and disposes of the hasher it was given.
//!
//! State: two collections of one type, each with a hasher of its own (a seed nobody else has, and a ledger of the
//! instances alive). Every sequence of operations up to a depth; after each of them only hashers descending from
//! those of the collections concerned may have been asked for hash codes, all answers must be right, and only
//! descendants of the hashers of existing collections may be alive.
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::{CommonMap, LeftSliceMap, RightSliceMap};
use frozen_collections_core::specialized_sets::{CommonSet, LeftSliceSet, RightSliceSet, Set};
use frozen_collections_core::traits::len::Len;
use mc::*;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

// ---- hashers with an identity

#[derive(Default)]
struct Ledger {
    next: u64,
    /// Instance -> the construction it descends from.
    live: BTreeMap<u64, u64>,
    used: BTreeSet<u64>,
    wrong: Option<String>,
}

thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
}

const DEFAULTED: u64 = 1 << 40;

struct BH {
    id: u64,
    root: u64,
    seed: u64,
    mode: u8,
    // owns memory, so that a lost or twice dropped instance is seen by the allocator, too
    text: Box<u64>,
}

fn register(root: Option<u64>) -> (u64, u64) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.next += 1;
        let id = l.next;
        let root = match root {
            None => id,
            Some(DEFAULTED) => DEFAULTED + id,
            Some(r) => r,
        };
        l.live.insert(id, root);
        (id, root)
    })
}

impl BH {
    fn new(mode: u8) -> Self {
        let (id, root) = register(None);
        Self { id, root, seed: hashers::mix(root), mode, text: Box::new(root) }
    }
}
impl Default for BH {
    fn default() -> Self {
        let (id, root) = register(Some(DEFAULTED));
        Self { id, root, seed: hashers::mix(root), mode: 0, text: Box::new(root) }
    }
}
impl Clone for BH {
    fn clone(&self) -> Self {
        let (id, root) = register(Some(self.root));
        Self { id, root, seed: self.seed, mode: self.mode, text: Box::new(root) }
    }
}
impl Drop for BH {
    fn drop(&mut self) {
        L.with(|l| {
            let mut l = l.borrow_mut();
            if l.live.remove(&self.id).is_none() {
                l.wrong = Some(format!("hasher {} is dropped twice", self.id));
            }
        });
    }
}

struct H(DefaultHasher, u64, u8);
impl Hasher for H {
    fn write(&mut self, b: &[u8]) {
        self.0.write(b);
    }
    fn finish(&self) -> u64 {
        match self.2 {
            // all bits depend on the seed
            0 => hashers::mix(self.0.finish() ^ self.1),
            // few codes
            1 => hashers::mix(self.0.finish() ^ self.1) & 3,
            // no information
            _ => self.1,
        }
    }
}
impl BuildHasher for BH {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        L.with(|l| {
            let mut l = l.borrow_mut();
            if !l.live.contains_key(&self.id) || *self.text != self.root {
                l.wrong = Some(format!("hasher {} is used after it was dropped", self.id));
            }
            l.used.insert(self.root);
        });
        H(DefaultHasher::new(), self.seed, self.mode)
    }
}

// ---- the collections

trait Coll<K>: Clone {
    fn build(how: usize, keys: &[K], h: BH) -> Self;
    /// Asks for a key in every way there is; the answers must agree.
    fn find(&mut self, k: &K) -> Result<bool, String>;
    fn pair(&mut self, a: &K, b: &K) -> Option<bool>;
    fn list(&self) -> Vec<K>;
    fn hasher_root(&self) -> Option<u64>;
    fn same(&self, o: &Self) -> (bool, bool);
    fn shown(&self) -> String;
    fn eat(self, n: usize) -> Vec<K>;
    /// The four operators: what they give, and which hashers the results hold.
    fn operators(&self, o: &Self) -> Option<Vec<BTreeSet<K>>>;
    fn relations(&self, o: &Self) -> Option<[bool; 3]>;
    /// A default collection, where there is one, has no elements.
    fn defaulted() -> Option<Self>;
}

macro_rules! build {
    ($t:ty, $how:expr, $items:expr, $h:expr $(, $r:expr)?) => {{
        let v = $items;
        match $how % 3 {
            0 => <$t>::from_vec_with_hasher(v, $($r,)? $h),
            1 => <$t>::from_iter_with_hasher(v.into_iter().filter(|_| true), $($r,)? $h),
            _ => match <[_; 4]>::try_from(v) {
                Ok(a) => <$t>::with_hasher(a, $($r,)? $h),
                Err(v) => <$t>::from_vec_with_hasher(v, $($r,)? $h),
            },
        }
    }};
}

macro_rules! map {
    ([$($g:tt)*], $t:ty, $k:ty, $hasher:expr, $def:expr $(, $r:expr)?) => {
        impl<$($g)*> Coll<$k> for $t {
            fn build(how: usize, keys: &[$k], h: BH) -> Self {
                build!($t, how, keys.iter().enumerate().map(|(i, k)| (k.clone(), i as u32)).collect::<Vec<_>>(), h $(, $r)?)
            }
            fn find(&mut self, k: &$k) -> Result<bool, String> {
                let a = [
                    self.get(k).is_some(),
                    self.contains_key(k),
                    self.get_key_value(k).is_some_and(|e| e.0 == k),
                    self.get_mut(k).is_some(),
                    self.get_many_mut([k]).is_some(),
                ];
                ck!(a.iter().all(|x| *x == a[0]), "get, contains_key, get_key_value, get_mut, get_many_mut of {k:?}: {a:?}");
                Ok(a[0])
            }
            fn pair(&mut self, a: &$k, b: &$k) -> Option<bool> {
                Some(self.get_many_mut([a, b]).is_some())
            }
            fn list(&self) -> Vec<$k> {
                self.keys().cloned().collect()
            }
            fn hasher_root(&self) -> Option<u64> {
                let f: fn(&Self) -> Option<u64> = $hasher;
                f(self)
            }
            fn same(&self, o: &Self) -> (bool, bool) {
                (self == o, self != o)
            }
            fn shown(&self) -> String {
                format!("{self:?}")
            }
            fn eat(self, n: usize) -> Vec<$k> {
                self.keys().take(n).cloned().collect()
            }
            fn operators(&self, _: &Self) -> Option<Vec<BTreeSet<$k>>> {
                None
            }
            fn relations(&self, _: &Self) -> Option<[bool; 3]> {
                None
            }
            fn defaulted() -> Option<Self> {
                let f: fn() -> Option<Self> = $def;
                f()
            }
        }
    };
}

macro_rules! set {
    ([$($g:tt)*], $t:ty, $k:ty, $hasher:expr, $def:expr $(, $r:expr)?) => {
        impl<$($g)*> Coll<$k> for $t {
            fn build(how: usize, keys: &[$k], h: BH) -> Self {
                build!($t, how, keys.to_vec(), h $(, $r)?)
            }
            fn find(&mut self, k: &$k) -> Result<bool, String> {
                let a = [self.get(k).is_some_and(|e| e == k), <$t>::contains(self, k), Set::contains(self, k)];
                ck!(a.iter().all(|x| *x == a[0]), "get, contains, Set::contains of {k:?}: {a:?}");
                Ok(a[0])
            }
            fn pair(&mut self, _: &$k, _: &$k) -> Option<bool> {
                None
            }
            fn list(&self) -> Vec<$k> {
                <$t>::iter(self).cloned().collect()
            }
            fn hasher_root(&self) -> Option<u64> {
                let f: fn(&Self) -> Option<u64> = $hasher;
                f(self)
            }
            fn same(&self, o: &Self) -> (bool, bool) {
                (self == o, self != o)
            }
            fn shown(&self) -> String {
                format!("{}", Len::len(self))
            }
            fn eat(self, n: usize) -> Vec<$k> {
                self.into_iter().take(n).map(|e| std::borrow::Borrow::<$k>::borrow(&e).clone()).collect()
            }
            fn operators(&self, o: &Self) -> Option<Vec<BTreeSet<$k>>> {
                let r: [HashSet<$k, BH>; 4] = [self | o, self & o, self - o, self ^ o];
                Some(r.into_iter().map(|s| s.into_iter().collect()).collect())
            }
            fn relations(&self, o: &Self) -> Option<[bool; 3]> {
                Some([self.is_subset(o), self.is_superset(o), self.is_disjoint(o)])
            }
            fn defaulted() -> Option<Self> {
                let f: fn() -> Option<Self> = $def;
                f()
            }
        }
    };
}

trait Key: Hash + Eq + Ord + Clone + Debug + 'static {}
impl<T: Hash + Eq + Ord + Clone + Debug + 'static> Key for T {}

map!([K: Key], CommonMap<K, u32, u8, BH>, K, |m| Some(m.hasher().root), || None);
map!([], LeftSliceMap<String, u32, u8, BH>, String, |m| Some(m.hasher().root), || None, 0..2);
map!([], RightSliceMap<String, u32, u16, BH>, String, |m| Some(m.hasher().root), || None, 0..1);
map!([K: Key], FrozenMap<K, u32, BH>, K, |_| None, || Some(Self::default()));
set!([K: Key], CommonSet<K, u8, BH>, K, |m| Some(m.hasher().root), || None);
set!([], LeftSliceSet<String, u8, BH>, String, |m| Some(m.hasher().root), || None, 0..2);
set!([], RightSliceSet<String, u16, BH>, String, |m| Some(m.hasher().root), || None, 0..1);
set!([K: Key], FrozenSet<K, BH>, K, |_| None, || Some(Self::default()));

const OPS: usize = 13;

/// Runs `f`, during which only the hashers in `allowed` may be used.
fn with<T>(allowed: &[u64], what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    L.with(|l| l.borrow_mut().used.clear());
    let r = f();
    L.with(|l| {
        let l = l.borrow();
        for u in &l.used {
            ck!(allowed.contains(u) || (*u > DEFAULTED && what == "a comparison"), "{what} uses hasher {u}, while the collections have {allowed:?}");
        }
        if let Some(w) = &l.wrong {
            return Err(format!("{what}: {w}"));
        }
        Ok(r)
    })
}

fn alive(roots: &[u64], what: &str) -> R {
    L.with(|l| {
        for (i, r) in &l.borrow().live {
            ck!(roots.contains(r), "{what}: hasher {i}, descending from {r}, is still alive; the collections have {roots:?}");
        }
        Ok(())
    })
}

fn words<K: Key, T: Coll<K>>(c: &mut Ctx, name: &str, lists: &[Vec<K>], absent: &[K], depth: usize) {
    for (xi, x) in lists.iter().enumerate() {
        for (yi, y) in lists.iter().enumerate() {
            for modes in [[0u8, 0], [0, 1], [1, 1], [2, 0]] {
                for op0 in 0..OPS {
                    c.case(
                        || format!("{name} of {x:?} and of {y:?}, hashers {modes:?}: all sequences of {depth} operations starting with {op0}"),
                        |cx| {
                            for code in 0..OPS.pow(depth as u32 - 1) {
                                L.with(|l| *l.borrow_mut() = Ledger::default());
                                one::<K, T>(cx, x, y, absent, modes, op0, code, depth, xi + yi)?;
                                L.with(|l| {
                                    let l = l.borrow();
                                    ck!(l.live.is_empty(), "operations {op0}, {code}: hashers {:?} leak", l.live);
                                    ck!(l.wrong.is_none(), "operations {op0}, {code}: {:?}", l.wrong);
                                    Ok(())
                                })?;
                                cx.st();
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn one<K: Key, T: Coll<K>>(cx: &mut Cx, x: &[K], y: &[K], absent: &[K], modes: [u8; 2], op0: usize, code: usize, depth: usize, how: usize) -> R {
    let fresh = |keys: &[K], mode: u8, how: usize| -> Result<(T, u64), String> {
        let h = BH::new(mode);
        let r = h.root;
        let t = with(&[r], "construction", || T::build(how, keys, h))?;
        Ok((t, r))
    };
    let (mut a, mut ra) = fresh(x, modes[0], how)?;
    let (mut b, mut rb) = fresh(y, modes[1], how + 1)?;
    let (mut ma, mut mb) = (x.to_vec(), y.to_vec());
    let mut rest = code;
    let mut w = vec![];
    for i in 0..depth {
        let op = if i == 0 { op0 } else { rest % OPS };
        if i > 0 {
            rest /= OPS;
        }
        w.push(op);
        cx.tr(1);
        match op {
            0 => {
                for k in &ma {
                    ck!(with(&[ra], "a lookup", || a.find(k))??, "{w:?}: {k:?} is not found");
                }
            }
            1 => {
                for k in mb.iter().chain(absent).filter(|k| !ma.contains(k)) {
                    ck!(!with(&[ra], "a lookup", || a.find(k))??, "{w:?}: {k:?} is found");
                }
            }
            2 => {
                let s = with(&[ra, rb], "a comparison", || a.same(&b))?;
                // values are numbered in the order of the keys, so lists which differ in order differ as maps
                let (sa, sb): (BTreeSet<&K>, BTreeSet<&K>) = (ma.iter().collect(), mb.iter().collect());
                ck!(s.0 != s.1, "{w:?}: == is {} and != is {}", s.0, s.1);
                ck!(!s.0 || sa == sb, "{w:?}: {ma:?} equals {mb:?}");
                ck!(s.0 || ma != mb, "{w:?}: {ma:?} does not equal {mb:?}");
            }
            3 => {
                b = with(&[ra], "a clone", || a.clone())?;
                mb.clone_from(&ma);
                rb = ra;
            }
            4 => {
                with(&[ra, rb], "clone_from", || b.clone_from(&a))?;
                mb.clone_from(&ma);
                rb = ra;
            }
            5 => {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ma, &mut mb);
                std::mem::swap(&mut ra, &mut rb);
            }
            6 => (a, ra) = fresh(&ma, modes[i % 2], i)?,
            7 => {
                (b, rb) = fresh(x, modes[1], i)?;
                mb = x.to_vec();
            }
            8 => {
                let l = with(&[ra], "iteration", || (a.shown(), a.list()))?.1;
                ck!(l.len() == ma.len() && ma.iter().all(|k| l.contains(k)), "{w:?}: {l:?} instead of {ma:?}");
            }
            9 => {
                let n = ma.len() / 2;
                let (keep, r) = fresh(&ma, modes[0], i)?;
                let old = std::mem::replace(&mut a, keep);
                let l = with(&[ra], "iteration by value", || old.eat(n))?;
                ck!(l.len() == n && l.iter().all(|k| ma.contains(k)), "{w:?}: {l:?} out of {ma:?}");
                ra = r;
            }
            10 => {
                let (sa, sb): (BTreeSet<K>, BTreeSet<K>) = (ma.iter().cloned().collect(), mb.iter().cloned().collect());
                L.with(|l| l.borrow_mut().used.clear());
                let r = a.operators(&b);
                if let Some(r) = r {
                    let want = [&sa | &sb, &sa & &sb, &sa - &sb, &sa ^ &sb];
                    ck!(r == want, "{w:?}: |, &, -, ^ give {r:?} instead of {want:?}");
                    L.with(|l| {
                        let l = l.borrow();
                        ck!(l.used.iter().all(|u| *u == ra || *u == rb || *u > DEFAULTED), "{w:?}: the operators use {:?}, the collections have {ra} and {rb}", l.used);
                        Ok(())
                    })?;
                    let r = with(&[ra, rb], "a relation", || a.relations(&b))?;
                    ck!(r == Some([sa.is_subset(&sb), sa.is_superset(&sb), sa.is_disjoint(&sb)]), "{w:?}: relations {r:?}");
                }
            }
            11 => {
                if let (Some(k), Some(l)) = (ma.first(), ma.last()) {
                    if k != l {
                        let r = with(&[ra], "get_many_mut", || a.pair(k, l))?;
                        ck!(r != Some(false), "{w:?}: get_many_mut of {k:?} and {l:?} fails");
                    }
                }
            }
            _ => {
                if let Some(mut d) = T::defaulted() {
                    L.with(|l| l.borrow_mut().used.clear());
                    for k in absent.iter().chain(&ma) {
                        ck!(!d.find(k)?, "{w:?}: a default collection has {k:?}");
                    }
                    L.with(|l| {
                        ck!(l.borrow().used.iter().all(|u| *u > DEFAULTED), "{w:?}: a default collection uses {:?}", l.borrow().used);
                        Ok(())
                    })?;
                }
            }
        }
        alive(&[ra, rb], &format!("after {w:?}"))?;
        for (t, r) in [(&a, ra), (&b, rb)] {
            if let Some(h) = t.hasher_root() {
                ck!(h == r, "after {w:?}: hasher() is {h} instead of {r}");
            }
        }
    }
    for (t, m, r) in [(&mut a, &ma, ra), (&mut b, &mb, rb)] {
        for k in m {
            ck!(with(&[r], "a lookup", || t.find(k))??, "after {w:?}: {k:?} is not found");
        }
        for k in absent.iter().chain(x).chain(y).filter(|k| !m.contains(k)) {
            ck!(!with(&[r], "a lookup", || t.find(k))??, "after {w:?}: {k:?} is found");
        }
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::from_args();
    let d = c.pick(4, 5);
    c.scenario("u32", |c| {
        let l: [Vec<u32>; 5] = [vec![], vec![7], vec![3, 4, 5, 6], vec![1, 5, 9, 300, 6], vec![300, 2, 5, 77, 1000, 8]];
        words::<u32, CommonMap<u32, u32, u8, BH>>(c, "CommonMap", &l, &[11, 0], d);
        words::<u32, FrozenMap<u32, u32, BH>>(c, "FrozenMap", &l, &[11, 0], d);
        words::<u32, CommonSet<u32, u8, BH>>(c, "CommonSet", &l, &[11, 0], d);
        words::<u32, FrozenSet<u32, BH>>(c, "FrozenSet", &l, &[11, 0], d);
    });
    c.scenario("pairs", |c| {
        let l: [Vec<(u8, u8)>; 3] = [vec![(0, 0)], vec![(1, 1), (1, 2), (2, 1), (2, 2)], vec![(1, 1), (3, 2), (5, 1), (2, 2), (9, 9), (7, 7)]];
        words::<(u8, u8), FrozenMap<(u8, u8), u32, BH>>(c, "FrozenMap", &l, &[(8, 8), (1, 9)], d);
        words::<(u8, u8), FrozenSet<(u8, u8), BH>>(c, "FrozenSet", &l, &[(8, 8), (1, 9)], d);
    });
    c.scenario("String", |c| {
        let s = |l: &[&str]| l.iter().map(|x| (*x).to_string()).collect::<Vec<_>>();
        let l = [
            s(&["ab", "b", "cde", "zzzz"]),
            // same lengths; distinguished by the ends
            s(&["axx", "bxx", "cxx", "dxx", "exx"]),
            s(&["xxa", "xxb", "xxc", "xxd", "b"]),
            // by nothing short
            s(&["Hello a World", "Hello b World", "Hello c World", "Hallo d Welten", "ab", "xy"]),
        ];
        let ab = s(&["", "abs", "Hello z World"]);
        words::<String, FrozenMap<String, u32, BH>>(c, "FrozenMap", &l, &ab, d);
        words::<String, LeftSliceMap<String, u32, u8, BH>>(c, "LeftSliceMap", &l, &ab, d);
        words::<String, RightSliceMap<String, u32, u16, BH>>(c, "RightSliceMap", &l, &ab, d);
        words::<String, FrozenSet<String, BH>>(c, "FrozenSet", &l, &ab, d);
        words::<String, LeftSliceSet<String, u8, BH>>(c, "LeftSliceSet", &l, &ab, d);
        words::<String, RightSliceSet<String, u16, BH>>(c, "RightSliceSet", &l, &ab, d);
    });
    c.finish();
}
