//! The length trait agrees with the length of what it measures.
use frozen_collections_core::traits::len::Len;
use mc::keys::*;
use mc::zoo::*;
use mc::*;
use std::collections::hash_map::RandomState;
use std::collections::*;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::hash::{BuildHasherDefault, Hash};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::rc::Rc;
use std::sync::Arc;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

#[inline(never)]
fn is<T: Len + ?Sized>(cx: &mut Cx, what: &str, x: &T, n: usize) -> R {
    for _ in 0..2 {
        let l = Len::len(x);
        ck!(l == n, "{what}: length {l} instead of {n}");
        ck!(Len::is_empty(x) == (n == 0), "{what} of {n}: is_empty is {}", Len::is_empty(x));
    }
    cx.tr(2);
    Ok(())
}

/// The value itself, and behind pointers.
fn sized<T: Len + Clone + 'static>(cx: &mut Cx, what: &str, x: &T, n: usize) -> R {
    is(cx, what, x, n)?;
    let (b, r, a) = (Box::new(x.clone()), Rc::new(x.clone()), Arc::new(x.clone()));
    is(cx, &format!("Box<{what}>"), &b, n)?;
    is(cx, &format!("Rc<{what}>"), &r, n)?;
    is(cx, &format!("Arc<{what}>"), &a, n)?;
    // shared, with weak references as well
    let (r2, w1, w2) = (r.clone(), Rc::downgrade(&r), Rc::downgrade(&r));
    let (a2, a3, w3) = (a.clone(), a.clone(), Arc::downgrade(&a));
    is(cx, &format!("shared Rc<{what}>"), &r2, n)?;
    is(cx, &format!("shared Arc<{what}>"), &a3, n)?;
    is(cx, &format!("Box<Rc<{what}>>"), &Box::new(r2), n)?;
    is(cx, &format!("Rc<Arc<{what}>>"), &Rc::new(a2), n)?;
    is(cx, &format!("Arc<Box<{what}>>"), &Arc::new(b.clone()), n)?;
    is(cx, &format!("Rc<Box<Box<{what}>>>"), &Rc::new(Box::new(b)), n)?;
    drop((w1, w2, w3));
    let d: Box<dyn Len> = Box::new(x.clone());
    is(cx, &format!("Box<dyn Len> ({what})"), &d, n)?;
    is(cx, &format!("dyn Len ({what})"), &*d, n)?;
    let d: Rc<dyn Len> = Rc::new(x.clone());
    is(cx, &format!("Rc<dyn Len> ({what})"), &d, n)?;
    let d: Arc<dyn Len> = Arc::new(x.clone());
    is(cx, &format!("Arc<dyn Len> ({what})"), &d, n)
}

macro_rules! pointed {
    ($cx:ident, $what:expr, $t:ty, $x:expr, $n:expr) => {{
        let n = $n;
        let x: &$t = $x;
        is($cx, $what, x, n)?;
        let b: Box<$t> = x.into();
        let r: Rc<$t> = x.into();
        let a: Arc<$t> = x.into();
        is($cx, concat!("Box<", stringify!($t), ">"), &b, n)?;
        is($cx, concat!("Rc<", stringify!($t), ">"), &r, n)?;
        is($cx, concat!("Arc<", stringify!($t), ">"), &a, n)?;
        let (r2, a2) = (r.clone(), a.clone());
        is($cx, concat!("Box<Rc<", stringify!($t), ">>"), &Box::new(r), n)?;
        is($cx, concat!("Rc<Arc<", stringify!($t), ">>"), &Rc::new(a), n)?;
        is($cx, concat!("Arc<Box<", stringify!($t), ">>"), &Arc::new(b), n)?;
        is($cx, concat!("Rc<Rc<", stringify!($t), ">>"), &Rc::new(r2), n)?;
        is($cx, concat!("Arc<Rc<", stringify!($t), ">>"), &Box::new(a2), n)?;
    }};
}

fn words<T: Clone>(alphabet: &[T], max: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        last = last
            .into_iter()
            .flat_map(|w: Vec<T>| {
                alphabet.iter().map(move |x| {
                    let mut w = w.clone();
                    w.push(x.clone());
                    w
                })
            })
            .collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn text(c: &mut Ctx) {
    let max = c.pick(5, 7);
    c.scenario("strings", |c| {
        for w in words(&["a", "\0", "é", "日", "😀", " "], max) {
            c.case(
                || format!("{w:?}"),
                |cx| {
                    let s = w.concat();
                    // counted here
                    let n = s.bytes().fold(0, |n, _| n + 1);
                    let mut roomy = s.clone();
                    roomy.reserve(100);
                    sized(cx, "String", &s, n)?;
                    is(cx, "String with room", &roomy, n)?;
                    pointed!(cx, "str", str, s.as_str(), n);
                    let o = OsString::from(s.clone());
                    sized(cx, "OsString", &o, n)?;
                    pointed!(cx, "OsStr", OsStr, o.as_os_str(), n);
                    cx.st();
                    cx.out(n as u64);
                    Ok(())
                },
            );
        }
    });
    c.scenario("C strings, OS strings, byte slices", |c| {
        for w in words(&[1u8, b'a', 0x7f, 0x80, 0xc3, 0xff], max) {
            c.case(
                || format!("{w:?}"),
                |cx| {
                    let n = w.iter().fold(0, |n, _| n + 1);
                    let s = CString::new(w.clone()).unwrap();
                    sized(cx, "CString", &s, n)?;
                    pointed!(cx, "CStr", CStr, s.as_c_str(), n);
                    let mut more = w.clone();
                    more.extend([0, 5, 6, 0]);
                    pointed!(cx, "CStr in longer data", CStr, CStr::from_bytes_until_nul(&more).unwrap(), n);
                    let o = OsString::from_vec(w.clone());
                    sized(cx, "OsString", &o, n)?;
                    pointed!(cx, "OsStr", OsStr, OsStr::from_bytes(&w), n);
                    pointed!(cx, "[u8]", [u8], &w, n);
                    cx.st();
                    Ok(())
                },
            );
        }
        for n in [0usize, 1, 7, 8, 15, 16, 17, 127, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 20] {
            c.case(
                || format!("{n} bytes"),
                |cx| {
                    let s = CString::new(vec![b'x'; n]).unwrap();
                    sized(cx, "CString", &s, n)?;
                    pointed!(cx, "CStr", CStr, s.as_c_str(), n);
                    sized(cx, "String", &"x".repeat(n), n)?;
                    let long = "é".repeat(n);
                    pointed!(cx, "str", str, long.as_str(), 2 * n);
                    sized(cx, "OsString", &OsString::from("x".repeat(n)), n)
                },
            );
        }
    });
}

// ---- containers: all sequences of pushes and pops ----

fn seqs<T: Gen + Ord>(c: &mut Ctx) {
    let max = c.pick(8, 11);
    c.scenario(&format!("containers of {}", T::NAME), |c| {
        for w in words(&[0u8, 1, 2], max) {
            c.case(
                || format!("{w:?}"),
                |cx| {
                    let mut vec: Vec<T> = Vec::new();
                    let mut deque: VecDeque<T> = VecDeque::new();
                    let mut list: LinkedList<T> = LinkedList::new();
                    let mut heap: BinaryHeap<T> = BinaryHeap::new();
                    let mut hs: HashSet<T> = HashSet::new();
                    let mut hs2: HashSet<T, BuildHasherDefault<std::collections::hash_map::DefaultHasher>> = HashSet::default();
                    let mut hm: HashMap<T, u8, RandomState> = HashMap::new();
                    let mut bs: BTreeSet<T> = BTreeSet::new();
                    let mut bm: BTreeMap<T, Box<u8>> = BTreeMap::new();
                    let mut n = 0;
                    for (i, op) in w.iter().enumerate() {
                        let x = T::gen(i.min(T::CARD - 1));
                        match op {
                            0 | 1 => {
                                vec.push(x.clone());
                                if *op == 0 {
                                    deque.push_back(x.clone());
                                    list.push_back(x.clone());
                                } else {
                                    deque.push_front(x.clone());
                                    list.push_front(x.clone());
                                }
                                heap.push(x.clone());
                                hs.insert(x.clone());
                                hs2.insert(x.clone());
                                hm.insert(x.clone(), 0);
                                bs.insert(x.clone());
                                bm.insert(x, Box::new(1));
                                n += 1;
                            }
                            _ => {
                                let gone = vec.pop();
                                deque.pop_front();
                                list.pop_back();
                                heap.pop();
                                if let Some(g) = gone {
                                    n -= 1;
                                    if !vec.contains(&g) {
                                        hs.remove(&g);
                                        hs2.remove(&g);
                                        hm.remove(&g);
                                        bs.remove(&g);
                                        bm.remove(&g);
                                    }
                                }
                            }
                        }
                    }
                    let mut d = vec.clone();
                    d.sort();
                    d.dedup();
                    let u = d.iter().fold(0, |n, _| n + 1);
                    sized(cx, "Vec", &vec, n)?;
                    sized(cx, "VecDeque", &deque, n)?;
                    sized(cx, "LinkedList", &list, n)?;
                    sized(cx, "BinaryHeap", &heap, n)?;
                    sized(cx, "HashSet", &hs, u)?;
                    sized(cx, "HashSet, other hasher", &hs2, u)?;
                    sized(cx, "HashMap", &hm, u)?;
                    sized(cx, "BTreeSet", &bs, u)?;
                    sized(cx, "BTreeMap", &bm, u)?;
                    pointed!(cx, "[T]", [T], &vec, n);
                    for a in 0..=n {
                        is(cx, "[T], a part", &vec[a..], n - a)?;
                    }
                    cx.st();
                    cx.out((n * 100 + u) as u64);
                    Ok(())
                },
            );
        }
    });
}

fn huge(c: &mut Ctx) {
    c.scenario("as long as can be", |c| {
        for b in 0..=64u32 {
            c.case(
                || format!("2^{b} of nothing"),
                |cx| {
                    let n = 1u128 << b;
                    for n in [n - 1, n, n + 1] {
                        let Ok(n) = usize::try_from(n) else { continue };
                        let mut v: Vec<()> = Vec::new();
                        // SAFETY: nothing is there
                        unsafe { v.set_len(n) };
                        is(cx, "Vec<()>", &v, n)?;
                        is(cx, "[()]", v.as_slice(), n)?;
                        let d: VecDeque<()> = VecDeque::from(v.clone());
                        is(cx, "VecDeque<()>", &d, n)?;
                        let b: Box<[()]> = v.into_boxed_slice();
                        is(cx, "Box<[()]>", &b, n)?;
                    }
                    Ok(())
                },
            );
        }
    });
}

// ---- the collections of this library: all short histories ----

fn step_map<K: Clone + 'static>(m: &mut dyn MapPlus<K, u32>, z: &Zoo<K, u32>, op: u8, i: usize) {
    let present = |j: usize| (!z.keys.is_empty()).then(|| z.keys[j % z.keys.len()].clone());
    match op {
        0 => {
            if let Some(k) = present(i) {
                let _ = m.get(&k);
                let _ = m.get_kv(&k);
                let _ = m.has(&k);
            }
        }
        1 => {
            for k in &z.absent {
                let _ = m.get(k).is_some() || m.has(k);
                let _ = m.get_mut(k);
            }
        }
        2 => {
            if let Some(k) = present(i) {
                if let Some(v) = m.get_mut(&k) {
                    *v = 0;
                }
                *m.at_mut(k) ^= 77;
            }
        }
        3 => {
            if let (Some(a), Some(b)) = (present(i), present(i + 1)) {
                if let Some([x, y]) = m.many2([&a, &b]) {
                    std::mem::swap(x, y);
                }
                if let Some(q) = z.absent.first() {
                    let _ = m.many2([&a, q]);
                }
                let _ = m.many2([&a, &a]);
            }
        }
        4 => {
            let mut it = m.entries();
            it.step();
            it.step();
            drop(it);
            let mut it = m.value_iter();
            while it.step().is_some() {}
        }
        5 => {
            let d = m.dup();
            let _ = m.same(&*d);
            drop(d);
        }
        _ => {
            let d = m.dup();
            m.assign(&*d);
        }
    }
}

fn hist_map<K: Clone + 'static>(c: &mut Ctx, name: &str, zoo: Vec<Zoo<K, u32>>) {
    let max = c.pick(3, 5);
    c.scenario(&format!("histories of maps of {name}"), |c| {
        for z in &zoo {
            for w in words(&[0u8, 1, 2, 3, 4, 5, 6], if z.keys.len() > 50 { 1 } else { max }) {
                if w.len() < max && z.keys.len() <= 50 && !w.is_empty() {
                    continue; // a prefix of others
                }
                c.case(
                    || format!("{} {w:?}", z.name),
                    |cx| {
                        let n = z.keys.len();
                        let mut m = z.build(&mut |i| i as u32 * 3);
                        for (i, op) in std::iter::once(None).chain(w.iter().map(Some)).enumerate() {
                            if let Some(op) = op {
                                step_map(&mut *m, z, *op, i);
                            }
                            let (l, e) = m.trait_size();
                            ck!(l == n && m.size() == n, "length {l} / {} instead of {n} after {i} of {w:?}", m.size());
                            ck!(e == (n == 0) && m.empty() == e, "is_empty {e} / {} after {i} of {w:?}", m.empty());
                            // while an iterator is under way
                            let mut it = m.ref_iter();
                            it.step();
                            ck!(m.trait_size() == (n, n == 0), "length {:?} during an iteration", m.trait_size());
                            cx.tr(1);
                            cx.st();
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

fn hist_set<T: Clone + 'static>(c: &mut Ctx, name: &str, zoo: Vec<SetZoo<T>>) {
    c.scenario(&format!("sets of {name}"), |c| {
        for z in &zoo {
            c.case(
                || z.name.clone(),
                |cx| {
                    let n = z.els.len();
                    let s = z.build();
                    let ok = |s: &dyn SetPlus<T>| -> R {
                        let (l, e) = s.trait_size();
                        ck!(l == n && s.size() == n, "length {l} / {} instead of {n}", s.size());
                        ck!(e == (n == 0) && s.empty() == e, "is_empty {e} / {}", s.empty());
                        Ok(())
                    };
                    ok(&*s)?;
                    for x in z.els.iter().chain(&z.absent) {
                        let _ = s.has(x);
                        let _ = s.get(x);
                        ok(&*s)?;
                        cx.tr(1);
                    }
                    let mut it = s.elems();
                    while it.step().is_some() {
                        ok(&*s)?;
                        cx.tr(1);
                    }
                    drop(it);
                    let mut d = s.dup();
                    ok(&*d)?;
                    let _ = s.same(&*d);
                    d.assign(&*s);
                    ok(&*d)?;
                    drop(d);
                    ok(&*s)?;
                    cx.out(n as u64);
                    Ok(())
                },
            );
        }
    });
}

fn gens<K: Gen + Hash>(c: &mut Ctx) {
    hist_map(c, K::NAME, gen_maps::<K, u32>(false));
    hist_set(c, K::NAME, gen_sets::<K>(false));
}

fn pointed_collections(c: &mut Ctx) {
    use frozen_collections_core::facades::*;
    use frozen_collections_core::specialized_maps::*;
    use frozen_collections_core::specialized_sets::{CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet};
    use mc::hashers::*;
    c.scenario("collections behind pointers", |c| {
        for n in (0..c.pick(600u32, 1500)).chain([65533, 65534, 65535]) {
            c.case(
                || format!("{n} entries"),
                |cx| {
                    let n0 = n as usize;
                    let ints: Vec<u32> = (0..n).map(|i| i * 3 + (i & 1)).collect();
                    let dense: Vec<u32> = (0..n).map(|i| i + 9).collect();
                    let strs: Vec<String> = (0..n).map(|i| format!("{i}")).collect();
                    fn p<K>(v: &[K]) -> Vec<(K, u8)>
                    where
                        K: Clone,
                    {
                        v.iter().map(|k| (k.clone(), 0)).collect()
                    }
                    for m in [FrozenMap::from_vec_with_hasher(p(&ints), MIX), FrozenMap::from_vec_with_hasher(p(&dense), MIX)] {
                        ck!(m.len() == n0 && m.is_empty() == (n == 0), "FrozenMap: length {}", m.len());
                    }
                    let m = Arc::new(FrozenMap::from_vec_with_hasher(p(&strs), MIX));
                    ck!(m.clone().len() == n0 && m.is_empty() == (n == 0), "FrozenMap: length {}", m.len());
                    sized(cx, "FrozenSet", &FrozenSet::from_vec_with_hasher(ints.clone(), MIX), n0)?;
                    sized(cx, "FrozenSet", &FrozenSet::from_vec_with_hasher(dense.clone(), MIX), n0)?;
                    sized(cx, "FrozenSet", &FrozenSet::from_vec_with_hasher(strs.clone(), MIX), n0)?;
                    sized(cx, "CommonMap", &CommonMap::<_, _, u16, PH>::from_vec_with_hasher(p(&ints), MIX), n0)?;
                    sized(cx, "CommonSet", &CommonSet::<_, u16, PH>::from_vec_with_hasher(strs.clone(), MIX), n0)?;
                    sized(cx, "IntegerMap", &IntegerMap::<_, _, u16>::from_vec(p(&ints)), n0)?;
                    sized(cx, "IntegerSet", &IntegerSet::<_, u16>::from_vec(ints.clone()), n0)?;
                    sized(cx, "IntegerRangeMap", &IntegerRangeMap::from_vec(p(&dense)), n0)?;
                    sized(cx, "IntegerRangeSet", &IntegerRangeSet::from_vec(dense.clone()), n0)?;
                    sized(cx, "LengthMap", &LengthMap::<_, _, u16>::from_vec(p(&strs)), n0)?;
                    sized(cx, "LengthSet", &LengthSet::<_, u16>::from_vec(strs.clone()), n0)?;
                    sized(cx, "LeftSliceMap", &LeftSliceMap::<_, _, u16, PH>::from_vec_with_hasher(p(&strs), 0..2, MIX), n0)?;
                    sized(cx, "LeftSliceSet", &LeftSliceSet::<_, u16, PH>::from_vec_with_hasher(strs.clone(), 0..1, MIX), n0)?;
                    sized(cx, "RightSliceMap", &RightSliceMap::<_, _, u16, PH>::from_vec_with_hasher(p(&strs), 0..2, MIX), n0)?;
                    sized(cx, "RightSliceSet", &RightSliceSet::<_, u16, PH>::from_vec_with_hasher(strs.clone(), 1..2, MIX), n0)?;
                    if n < 60 {
                        sized(cx, "ScanningMap", &ScanningMap::from_vec(p(&strs)), n0)?;
                        sized(cx, "ScanningSet", &ScanningSet::from_vec(strs), n0)?;
                    }
                    cx.out(n.into());
                    Ok(())
                },
            );
        }
    });
}

fn main() {
    let mut c = Ctx::from_args();
    text(&mut c);
    seqs::<u8>(&mut c);
    seqs::<()>(&mut c);
    seqs::<String>(&mut c);
    seqs::<(u32, u32)>(&mut c);
    seqs::<Box<u32>>(&mut c);
    huge(&mut c);
    pointed_collections(&mut c);
    hist_map(&mut c, "u32", u32_maps(true));
    hist_map(&mut c, "String", str_maps(true));
    hist_set(&mut c, "u32", u32_sets(true));
    hist_set(&mut c, "String", str_sets(true));
    some_key_types!(gens, &mut c);
    c.finish();
}
