//! Collections can be shared and read from many threads.
use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::{self as sets, *};
use frozen_collections_core::traits::len::Len;
use mc::hashers::*;
use mc::sched::{Plan, Sched};
use mc::*;
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::BuildHasher;
use std::marker::PhantomData;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::MutexGuard;

// ---- which types can be sent and shared

struct Probe<T>(PhantomData<T>);
trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NotSend for &Probe<T> {}
impl<T> NotSync for &Probe<T> {}
impl<T: Send> Probe<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}
macro_rules! marks {
    ($t:ty) => {{
        #[allow(unused_imports)]
        let p = &Probe::<$t>(PhantomData);
        (p.send(), p.sync())
    }};
}

/// Sendable and shareable, only sendable, only shareable, neither.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Both;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct SendOnly(PhantomData<Cell<()>>);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct SyncOnly(PhantomData<MutexGuard<'static, ()>>);
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Neither(PhantomData<*const ()>);

macro_rules! hasher {
    ($($t:ty),*) => {$(
        impl BuildHasher for $t {
            type Hasher = std::collections::hash_map::DefaultHasher;
            fn build_hasher(&self) -> Self::Hasher {
                Default::default()
            }
        }
    )*};
}
hasher!(Both, SendOnly, SyncOnly, Neither);

fn mark(cx: &mut Cx, what: &str, (send, sync): (bool, bool), needs_send: bool, needs_sync: bool) -> R {
    cx.tr(2);
    ck!(send == needs_send, "{what} is {}sendable, though what it holds is {}", if send { "" } else { "not " }, if needs_send { "sendable" } else { "not sendable (or shareable)" });
    ck!(sync == needs_sync, "{what} is {}shareable, though what it holds is {}", if sync { "" } else { "not " }, if needs_sync { "shareable" } else { "not shareable" });
    Ok(())
}

/// All types over one combination of key, value and hasher.
macro_rules! types {
    ($cx:expr, $k:ty, $v:ty, $h:ty) => {{
        let cx: &mut Cx = $cx;
        let (ks, ky) = marks!($k);
        let (vs, vy) = marks!($v);
        let (hs, hy) = marks!($h);
        macro_rules! m {
            ($t:ty, $s:expr, $y:expr) => {
                mark(cx, stringify!($t with key $k, value $v, hasher $h), marks!($t), $s, $y)?
            };
        }
        m!(FrozenMap<$k, $v, $h>, ks && vs && hs, ky && vy && hy);
        m!(CommonMap<$k, $v, u8, $h>, ks && vs && hs, ky && vy && hy);
        m!(CommonMap<$k, $v, usize, $h>, ks && vs && hs, ky && vy && hy);
        m!(LeftSliceMap<$k, $v, u16, $h>, ks && vs && hs, ky && vy && hy);
        m!(RightSliceMap<$k, $v, u16, $h>, ks && vs && hs, ky && vy && hy);
        m!(LengthMap<$k, $v, u8>, ks && vs, ky && vy);
        m!(IntegerMap<$k, $v, u8>, ks && vs, ky && vy);
        m!(IntegerRangeMap<$k, $v>, ks && vs, ky && vy);
        m!(ScanningMap<$k, $v>, ks && vs, ky && vy);
        // an iterator borrows what it goes over
        m!(frozen_collections_core::specialized_maps::Iter<'static, $k, $v>, ky && vy, ky && vy);
        m!(Keys<'static, $k, $v>, ky && vy, ky && vy);
        m!(Values<'static, $k, $v>, ky && vy, ky && vy);
    }};
}

macro_rules! set_types {
    ($cx:expr, $k:ty, $h:ty) => {{
        let cx: &mut Cx = $cx;
        let (ks, ky) = marks!($k);
        let (hs, hy) = marks!($h);
        macro_rules! m {
            ($t:ty, $s:expr, $y:expr) => {
                mark(cx, stringify!($t with element $k, hasher $h), marks!($t), $s, $y)?
            };
        }
        m!(FrozenSet<$k, $h>, ks && hs, ky && hy);
        m!(CommonSet<$k, u8, $h>, ks && hs, ky && hy);
        m!(LeftSliceSet<$k, u16, $h>, ks && hs, ky && hy);
        m!(RightSliceSet<$k, usize, $h>, ks && hs, ky && hy);
        m!(LengthSet<$k, u8>, ks, ky);
        m!(IntegerSet<$k, u8>, ks, ky);
        m!(IntegerRangeSet<$k>, ks, ky);
        m!(ScanningSet<$k>, ks, ky);
        m!(sets::Iter<'static, $k>, ky, ky);
        m!(sets::IntoIter<$k>, ks, ky);
        macro_rules! algebra {
            ($s:ty, $y:expr) => {
                m!(Union<'static, $s, $s, $k>, $y, $y);
                m!(Intersection<'static, $s, $s, $k>, $y, $y);
                m!(Difference<'static, $s, $s, $k>, $y, $y);
                m!(SymmetricDifference<'static, $s, $s, $k>, $y, $y);
            };
        }
        algebra!(FrozenSet<$k, $h>, ky && hy);
        algebra!(CommonSet<$k, u8, $h>, ky && hy);
        algebra!(ScanningSet<$k>, ky);
        algebra!(std::collections::HashSet<$k, $h>, ky && hy);
    }};
}

fn matrix(c: &mut Ctx) {
    macro_rules! all {
        ($($k:ident $v:ident $h:ident;)*) => {$(
            c.case(|| stringify!(key $k, value $v, hasher $h).to_string(), |cx| {
                types!(cx, $k, $v, $h);
                set_types!(cx, $k, $h);
                Ok(())
            });
        )*};
    }
    macro_rules! each_h {
        ($($k:ident $v:ident;)*) => { all! {$(
            $k $v Both; $k $v SendOnly; $k $v SyncOnly; $k $v Neither;
        )*} };
    }
    macro_rules! each_v {
        ($($k:ident)*) => { each_h! {$( $k Both; $k SendOnly; $k SyncOnly; $k Neither; )*} };
    }
    each_v!(Both SendOnly SyncOnly Neither);
}

// ---- memory whose pages can be write protected

struct Paged;
static FENCED: AtomicUsize = AtomicUsize::new(0);
static AT: AtomicUsize = AtomicUsize::new(0);
static WRITES: AtomicUsize = AtomicUsize::new(0);
const PAGES: usize = 1 << 22;
thread_local!(static INTO: Cell<bool> = const { Cell::new(false) });

unsafe impl std::alloc::GlobalAlloc for Paged {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if INTO.with(Cell::get) {
            let at = (AT.load(Ordering::Relaxed) + l.align() - 1) & !(l.align() - 1);
            if at + l.size() <= FENCED.load(Ordering::Relaxed) + PAGES {
                AT.store(at + l.size(), Ordering::Relaxed);
                return at as *mut u8;
            }
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let f = FENCED.load(Ordering::Relaxed);
        if f == 0 || !(f..f + PAGES).contains(&(p as usize)) {
            std::alloc::System.dealloc(p, l);
        }
    }
}

#[global_allocator]
static A: Paged = Paged;

fn fence(writable: bool) {
    let prot = if writable { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_READ };
    unsafe { assert_eq!(libc::mprotect(FENCED.load(Ordering::Relaxed) as *mut _, PAGES, prot), 0) };
}

extern "C" fn on_fault(_: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let at = unsafe { (*info).si_addr() } as usize;
    let f = FENCED.load(Ordering::Relaxed);
    if (f..f + PAGES).contains(&at) && WRITES.fetch_add(1, Ordering::Relaxed) == 0 {
        fence(true);
    } else {
        unsafe { libc::signal(libc::SIGSEGV, libc::SIG_DFL) };
    }
}

fn set_up_fence() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), PAGES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        FENCED.store(p as usize, Ordering::Relaxed);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fault as extern "C" fn(_, _, _) as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
    }
}

// ---- reads

/// A read, boiled down to a number.
struct Read<M> {
    name: String,
    f: Box<dyn Fn(&M) -> u64>,
}

fn h<T: Debug>(x: T) -> u64 {
    format!("{x:?}").bytes().fold(7, |a, b| mix(a ^ u64::from(b)))
}

fn o(v: Option<&u32>) -> u64 {
    v.map_or(1, |v| u64::from(*v) << 8)
}

macro_rules! map_reads {
    ($ty:ty, $keys:expr, $absent:expr, long $long:expr) => {{
        let mut r: Vec<Read<$ty>> = Vec::new();
        let keys = $keys;
        let absent = $absent;
        let mut probes: Vec<_> = keys.iter().take(2).chain(keys.last()).chain(absent.first()).cloned().collect();
        probes.dedup();
        for k in &probes {
            let k1 = k.clone();
            r.push(Read { name: format!("get({k:?})"), f: Box::new(move |m| o(m.get(&k1))) });
        }
        for k in probes.iter().take(1).chain(absent.first()) {
            let k1 = k.clone();
            r.push(Read { name: format!("contains_key({k:?})"), f: Box::new(move |m| u64::from(m.contains_key(&k1))) });
            let k1 = k.clone();
            r.push(Read { name: format!("get_key_value({k:?})"), f: Box::new(move |m| o(m.get_key_value(&k1).map(|e| e.1))) });
        }
        if let Some(k) = keys.last() {
            let k1 = k.clone();
            r.push(Read { name: format!("[{k:?}]"), f: Box::new(move |m| u64::from(m[k1.clone()])) });
        }
        r.push(Read { name: "len()".into(), f: Box::new(|m| m.len() as u64 * 2 + u64::from(m.is_empty())) });
        r.push(Read { name: "iter()".into(), f: Box::new(|m| m.iter().map(|e| mix(u64::from(*e.1))).fold(0, u64::wrapping_add)) });
        r.push(Read { name: "keys()".into(), f: Box::new(|m| m.keys().len() as u64 + m.keys().count() as u64) });
        r.push(Read { name: "values()".into(), f: Box::new(|m| m.values().map(|v| mix(u64::from(*v))).fold(0, u64::wrapping_add)) });
        r.push(Read { name: "iter().clone()".into(), f: Box::new(|m| { let mut i = m.iter(); let _ = i.next(); i.clone().map(|e| u64::from(*e.1)).sum::<u64>() + i.len() as u64 }) });
        r.push(Read { name: "for in".into(), f: Box::new(|m| { let mut s = 0; for (_, v) in m { s += mix(u64::from(*v)) & 0xffff; } s }) });
        if $long {
            r.push(Read { name: "debug".into(), f: Box::new(|m| h(m)) });
            r.push(Read { name: "==".into(), f: Box::new(|m| u64::from(m == m)) });
            r.push(Read { name: "clone".into(), f: Box::new(|m| { let c = m.clone(); c.values().map(|v| mix(u64::from(*v))).fold(0, u64::wrapping_add) }) });
        }
        r
    }};
}

macro_rules! set_reads {
    ($ty:ty, $els:expr, $absent:expr, $other:expr, long $long:expr, dbg |$d:ident| $dbg:expr) => {{
        let mut r: Vec<Read<$ty>> = Vec::new();
        let els = $els;
        let absent = $absent;
        let mut probes: Vec<_> = els.iter().take(1).chain(els.last()).chain(absent.first()).cloned().collect();
        probes.dedup();
        for k in &probes {
            let k1 = k.clone();
            r.push(Read { name: format!("contains({k:?})"), f: Box::new(move |s| u64::from(s.contains(&k1))) });
            let k1 = k.clone();
            r.push(Read { name: format!("get({k:?})"), f: Box::new(move |s| u64::from(s.get(&k1) == Some(&k1))) });
        }
        r.push(Read { name: "len()".into(), f: Box::new(|s| Len::len(s) as u64 * 2 + u64::from(Len::is_empty(s))) });
        r.push(Read { name: "iter()".into(), f: Box::new(|s| s.iter().count() as u64) });
        r.push(Read { name: "for in".into(), f: Box::new(|s| { let mut n = 0u64; for x in s { n += u64::from(s.contains(x)); } n }) });
        if $long {
            let other: &'static $ty = Box::leak(Box::new($other));
            r.push(Read { name: "union".into(), f: Box::new(move |s| s.union(other).count() as u64) });
            r.push(Read { name: "intersection".into(), f: Box::new(move |s| s.intersection(other).count() as u64) });
            r.push(Read { name: "difference".into(), f: Box::new(move |s| other.difference(s).count() as u64) });
            r.push(Read { name: "symmetric_difference".into(), f: Box::new(move |s| s.symmetric_difference(other).count() as u64) });
            r.push(Read { name: "relations".into(), f: Box::new(move |s| u64::from(s.is_subset(other)) + 2 * u64::from(s.is_superset(other)) + 4 * u64::from(s.is_disjoint(other))) });
            r.push(Read { name: "==".into(), f: Box::new(move |s| u64::from(s == s) + 2 * u64::from(s == other)) });
            r.push(Read { name: "|".into(), f: Box::new(move |s| (s | other).len() as u64) });
            r.push(Read { name: "debug".into(), f: Box::new(|$d| $dbg) });
            r.push(Read { name: "clone".into(), f: Box::new(|s| s.clone().iter().count() as u64) });
        }
        r
    }};
}

/// How long an operation may be (in instructions) for the plans of each kind.
#[derive(Clone, Copy)]
struct Bound {
    each: u64,
    one: u64,
    two: u64,
    budget: u64,
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch(f)
}

/// All pairs of reads of a collection, with all their interleavings within the bounds.
fn pairs<M: 'static>(c: &mut Ctx, name: &str, make: &dyn Fn() -> M, reads: &[Read<M>], b: Bound) {
    // what each answers alone, on a collection of its own
    let alone: Vec<u64> = reads.iter().map(|r| (r.f)(&make())).collect();
    // no read writes to the collection
    for (i, r) in reads.iter().enumerate() {
        let mut wrote = 0;
        c.case(
            || format!("{name}: {} on write-protected memory", r.name),
            |cx| {
                AT.store(FENCED.load(Ordering::Relaxed), Ordering::Relaxed);
                INTO.with(|x| x.set(true));
                let m = Box::new(make());
                INTO.with(|x| x.set(false));
                WRITES.store(0, Ordering::Relaxed);
                fence(false);
                let a = guarded(AssertUnwindSafe(|| (r.f)(&m)));
                fence(true);
                drop(m);
                wrote = WRITES.load(Ordering::Relaxed) as u64;
                cx.tr(1);
                ck!(a? == alone[i], "the answer of {} changes from run to run", r.name);
                Ok(())
            },
        );
        c.note("reads which write to the collection", wrote);
    }
    for (i, r1) in reads.iter().enumerate() {
        for (j, r2) in reads.iter().enumerate() {
            let mut done = (0, 0, 0, 0);
            c.case(
                || format!("{name}: {} interrupted by {}", r1.name, r2.name),
                |cx| {
                    let s = Sched::new();
                    let fail = |plan: String, what: &str| Err(format!("{plan}: {what}"));
                    let mut steps = 0;
                    for warm in 0..3 {
                        // nothing read before; the first, or the second read before
                        let prepare = || {
                            let m = make();
                            if warm == 1 {
                                (r1.f)(&m);
                            } else if warm == 2 {
                                (r2.f)(&m);
                            }
                            m
                        };
                        let before = ["on a fresh collection", "after the first had been run before", "after the second had been run before"][warm];
                        let go = |m: &M, plan: Plan| s.run(plan, &|| (r1.f)(m), &|| (r2.f)(m), alone[j]);
                        let judge = |m: &M, ran: mc::sched::Ran, plan: Plan| -> R {
                            if ran.first != alone[i] {
                                return fail(format!("{plan:?} {before}"), "the interrupted read gave a wrong answer");
                            }
                            if ran.wrong || ran.switched && ran.second != alone[j] {
                                return fail(format!("{plan:?} {before}"), "the interrupting read gave a wrong answer");
                            }
                            for (x, r) in [(i, r1), (j, r2)] {
                                if (r.f)(m) != alone[x] {
                                    return fail(format!("{plan:?} {before}"), &format!("{} gives a wrong answer afterwards", r.name));
                                }
                            }
                            Ok(())
                        };
                        if warm == 0 || steps <= b.each {
                            let m = prepare();
                            // counts the instructions as well
                            let n0 = if warm == 0 { go(&m, Plan::At(u64::MAX)).steps } else { steps };
                            steps = n0;
                            if steps <= b.each {
                                let ran = go(&m, Plan::Each);
                                cx.tr(ran.steps);
                                done.0 += 1;
                                judge(&m, ran, Plan::Each)?;
                            }
                        }
                        if steps > b.one {
                            continue;
                        }
                        let mut n = 1;
                        loop {
                            let m = prepare();
                            let ran = go(&m, Plan::At(n));
                            if !ran.switched {
                                break;
                            }
                            cx.st();
                            cx.tr(1);
                            done.1 += 1;
                            judge(&m, ran, Plan::At(n))?;
                            n += 1;
                        }
                        if steps > b.two || warm == 2 {
                            continue;
                        }
                        // how many instructions the second one takes
                        let steps2 = {
                            let m = prepare();
                            go(&m, Plan::AtFor(1, u64::MAX)).steps2
                        };
                        if steps2 > b.two || steps * steps2 * (steps + steps2) > b.budget {
                            continue;
                        }
                        done.3 += 1;
                        for n in 1..=steps {
                            for k in 1..=steps2 {
                                let m = prepare();
                                let ran = go(&m, Plan::AtFor(n, k));
                                if ran.switched {
                                    cx.st();
                                    cx.tr(1);
                                    done.2 += 1;
                                    judge(&m, ran, Plan::AtFor(n, k))?;
                                }
                            }
                        }
                    }
                    cx.out(steps);
                    Ok(())
                },
            );
            c.note("schedules with a switch after every instruction", done.0);
            c.note("schedules with one switch", done.1);
            c.note("schedules with two switches", done.2);
        }
    }
}

fn p<K: Clone>(keys: &[K]) -> Vec<(K, u32)> {
    keys.iter().enumerate().map(|(i, k)| (k.clone(), 3 + 5 * i as u32)).collect()
}

fn main() {
    let mut c = Ctx::from_args();
    set_up_fence();
    c.scenario("sendable and shareable types", matrix);
    let b = if c.quick() {
        Bound { each: 20_000, one: 160, two: 40, budget: 60_000 }
    } else {
        Bound { each: 200_000, one: 600, two: 120, budget: 2_000_000 }
    };
    let th = !c.quick();
    macro_rules! map {
        ($name:expr, $ty:ty, $keys:expr, $absent:expr, |$p:ident| $make:expr) => {
            c.scenario($name, |c| {
                let keys = $keys;
                let reads = map_reads!($ty, keys.clone(), $absent, long true);
                pairs(c, $name, &|| -> $ty { let $p = p(&keys); $make }, &reads, b);
            });
        };
    }
    let ints = vec![16u32, 0, 4, 9];
    let far = vec![5u32, 77];
    macro_rules! int_maps {
        ($($name:literal, $ty:ty, $keys:expr, |$p:ident| $make:expr;)*) => {$( map!($name, $ty, $keys, far.clone(), |$p| $make); )*};
    }
    int_maps! {
        "FrozenMap u32 empty", FrozenMap<u32, u32, PH>, Vec::<u32>::new(), |p| FrozenMap::from_vec_with_hasher(p, MIX);
        "FrozenMap u32 few", FrozenMap<u32, u32, PH>, vec![3u32, 1], |p| FrozenMap::from_vec_with_hasher(p, MIX);
        "FrozenMap u32 range", FrozenMap<u32, u32, PH>, vec![12u32, 10, 11, 13], |p| FrozenMap::from_vec_with_hasher(p, MIX);
        "FrozenMap u32 sparse", FrozenMap<u32, u32, PH>, ints.clone(), |p| FrozenMap::from_vec_with_hasher(p, MIX);
        "CommonMap", CommonMap<u32, u32, u8, PH>, ints.clone(), |p| CommonMap::<_, _, u8, PH>::from_vec_with_hasher(p, LOW2);
        "CommonMap of one code", CommonMap<u32, u32, u16, PH>, ints.clone(), |p| CommonMap::<_, _, u16, PH>::from_vec_with_hasher(p, ZERO);
        "IntegerMap", IntegerMap<u32, u32, u8>, ints.clone(), |p| IntegerMap::<_, _, u8>::from_vec(p);
        "IntegerRangeMap", IntegerRangeMap<u32, u32>, vec![12u32, 10, 11, 13], |p| IntegerRangeMap::from_vec(p);
        "ScanningMap", ScanningMap<u32, u32>, ints.clone(), |p| ScanningMap::from_vec(p);
    }
    let wide = vec![1u64 << 40, 7, 3, 9];
    map!("FrozenMap u64", FrozenMap<u64, u32, PH>, wide.clone(), vec![8u64, 0], |p| FrozenMap::from_vec_with_hasher(p, MIX));
    map!("FrozenMap u64 of one code", FrozenMap<u64, u32, PH>, wide.clone(), vec![8u64, 0], |p| FrozenMap::from_vec_with_hasher(p, ZERO));
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<String>>();
    let no = s(&["q", "zzz"]);
    let (lens, left, right, common) = (s(&["a", "bb", "ccc", "dddd"]), s(&["a-xx", "b-xx", "c-xx", "d-xx"]), s(&["xx-a", "xx-b", "xx-c", "xx-d"]), s(&["ab", "ba", "aa", "bb"]));
    map!("FrozenMap String length", FrozenMap<String, u32, PH>, lens.clone(), no.clone(), |p| FrozenMap::from_vec_with_hasher(p, MIX));
    map!("FrozenMap String left", FrozenMap<String, u32, PH>, left.clone(), no.clone(), |p| FrozenMap::from_vec_with_hasher(p, MIX));
    map!("FrozenMap String right", FrozenMap<String, u32, PH>, right.clone(), no.clone(), |p| FrozenMap::from_vec_with_hasher(p, MIX));
    map!("FrozenMap String common", FrozenMap<String, u32, PH>, common.clone(), no.clone(), |p| FrozenMap::from_vec_with_hasher(p, ZERO));
    map!("LengthMap", LengthMap<String, u32, u8>, lens.clone(), no.clone(), |p| LengthMap::<_, _, u8>::from_vec(p));
    map!("LeftSliceMap", LeftSliceMap<String, u32, u8, PH>, left.clone(), no.clone(), |p| LeftSliceMap::<_, _, u8, PH>::from_vec_with_hasher(p, 0..1, SUM));
    map!("RightSliceMap", RightSliceMap<String, u32, u8, PH>, right.clone(), no.clone(), |p| RightSliceMap::<_, _, u8, PH>::from_vec_with_hasher(p, 0..1, SUM));

    macro_rules! set {
        ($name:expr, $ty:ty, $els:expr, $absent:expr, |$p:ident| $make:expr, dbg |$d:ident| $dbg:expr) => {
            c.scenario($name, |c| {
                let els = $els;
                let make = |$p: Vec<_>| -> $ty { $make };
                let mut second = els.clone();
                second.pop();
                let reads = set_reads!($ty, els.clone(), $absent, make(second), long true, dbg |$d| $dbg);
                pairs(c, $name, &|| make(els.clone()), &reads, b);
            });
        };
    }
    set!("FrozenSet u32", FrozenSet<u32, PH>, ints.clone(), far.clone(), |p| FrozenSet::from_vec_with_hasher(p, MIX), dbg |s| s.iter().count() as u64);
    set!("FrozenSet u32 range", FrozenSet<u32, PH>, vec![4u32, 3, 5, 6], far.clone(), |p| FrozenSet::from_vec_with_hasher(p, MIX), dbg |s| s.iter().count() as u64);
    set!("FrozenSet String", FrozenSet<String, PH>, left.clone(), no.clone(), |p| FrozenSet::from_vec_with_hasher(p, MIX), dbg |s| s.iter().count() as u64);
    set!("FrozenSet u64", FrozenSet<u64, PH>, wide.clone(), vec![8u64], |p| FrozenSet::from_vec_with_hasher(p, LOW2), dbg |s| s.iter().count() as u64);
    set!("CommonSet", CommonSet<u32, u8, PH>, ints.clone(), far.clone(), |p| CommonSet::from_vec_with_hasher(p, LOW2), dbg |s| h(s));
    set!("IntegerSet", IntegerSet<u32, u8>, ints.clone(), far.clone(), |p| IntegerSet::from_vec(p), dbg |s| h(s));
    set!("IntegerRangeSet", IntegerRangeSet<u32>, vec![4u32, 3, 5, 6], far.clone(), |p| IntegerRangeSet::from_vec(p), dbg |s| h(s));
    set!("ScanningSet", ScanningSet<u32>, ints.clone(), far.clone(), |p| ScanningSet::from_vec(p), dbg |s| h(s));
    set!("LengthSet", LengthSet<String, u8>, lens.clone(), no.clone(), |p| LengthSet::from_vec(p), dbg |s| h(s));
    set!("LeftSliceSet", LeftSliceSet<String, u8, PH>, left.clone(), no.clone(), |p| LeftSliceSet::from_vec_with_hasher(p, 0..1, SUM), dbg |s| h(s));
    set!("RightSliceSet", RightSliceSet<String, u8, PH>, right.clone(), no.clone(), |p| RightSliceSet::from_vec_with_hasher(p, 0..1, SUM), dbg |s| h(s));
    let _ = th;
    c.finish();
}
