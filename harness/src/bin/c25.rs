//! Subrange hashing depends on exactly the designated bytes.
use frozen_collections_core::traits::slice_hash::SliceHash;
use mc::hashers::*;
use mc::*;
use std::cell::RefCell;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::HashMap;
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use std::mem::ManuallyDrop;
use std::ops::Range;

#[global_allocator]
static A: mc::alloc::Checking = mc::alloc::Checking;

// ---- hashers ----

thread_local! {
    static SEEN: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

/// Keeps everything it is given. The code tells apart any two sequences of calls.
#[derive(Clone, Copy)]
struct Keep(u64);
struct Keeping {
    fed: Vec<u8>,
    key: u64,
}
impl BuildHasher for Keep {
    type Hasher = Keeping;
    fn build_hasher(&self) -> Keeping {
        Keeping { fed: Vec::new(), key: self.0 }
    }
}
impl Hasher for Keeping {
    fn write(&mut self, bytes: &[u8]) {
        self.fed.push(0xB0);
        self.fed.extend((bytes.len() as u32).to_le_bytes());
        self.fed.extend(bytes);
    }
    fn write_u8(&mut self, i: u8) {
        self.fed.extend([0xB1, i]);
    }
    fn write_u32(&mut self, i: u32) {
        self.fed.push(0xB4);
        self.fed.extend(i.to_le_bytes());
    }
    fn write_u64(&mut self, i: u64) {
        self.fed.push(0xB8);
        self.fed.extend(i.to_le_bytes());
    }
    fn write_usize(&mut self, i: usize) {
        self.fed.push(0xB9);
        self.fed.extend(i.to_le_bytes());
    }
    fn finish(&self) -> u64 {
        SEEN.with(|s| s.borrow_mut().clone_from(&self.fed));
        let mut x = 0xcbf2_9ce4_8422_2325 ^ self.key;
        for b in &self.fed {
            x = (x ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
        }
        x
    }
}

/// Both kinds of data with the given bytes; strings are read as bytes, so any content will do.
fn both<R>(bytes: &[u8], f: impl Fn(&dyn Fn(&dyn Call, Range<usize>) -> u64) -> R) -> (R, Option<R>) {
    let slice = f(&|c, r| c.slice(bytes, r));
    let string = std::str::from_utf8(bytes).ok().map(|s| {
        let s = s.to_string();
        f(&|c, r| c.string(&s, r))
    });
    (slice, string)
}

trait Call {
    fn slice(&self, b: &[u8], r: Range<usize>) -> u64;
    fn string(&self, s: &String, r: Range<usize>) -> u64;
}
impl<BH: BuildHasher> Call for BH {
    fn slice(&self, b: &[u8], r: Range<usize>) -> u64 {
        SliceHash::hash(b, self, r)
    }
    fn string(&self, s: &String, r: Range<usize>) -> u64 {
        SliceHash::hash(s, self, r)
    }
}

fn words(alphabet: &[u8], max: usize, f: &mut dyn FnMut(&[u8])) {
    for n in 0..=max {
        let mut idx = vec![0usize; n];
        loop {
            let w: Vec<u8> = idx.iter().map(|i| alphabet[*i]).collect();
            f(&w);
            let mut p = 0;
            while p < n && idx[p] + 1 == alphabet.len() {
                idx[p] = 0;
                p += 1;
            }
            if p == n {
                break;
            }
            idx[p] += 1;
        }
    }
}

/// What each of the hash functions gives for a subrange, remembered per content of the subrange.
fn subrange(cx: &mut Cx, bytes: &[u8], r: Range<usize>, fixed: &[Box<dyn Call>]) -> R {
    let part = bytes[r.clone()].to_vec();
    let (a, b) = both(bytes, |call| {
        let mut v: Vec<u64> = fixed.iter().map(|h| call(&**h, r.clone())).collect();
        let k = call(&Keep(1), r.clone());
        let fed = SEEN.with(|s| s.borrow().clone());
        v.push(k);
        (v, fed)
    });
    if let Some(b) = b {
        ck!(a == b, "subrange {r:?} of {bytes:?} hashes differently in a string ({b:?}) and a slice ({a:?})");
    }
    // the same bytes with nothing around them
    let mut alone: Vec<u64> = fixed.iter().map(|h| h.slice(&part, 0..part.len())).collect();
    alone.push(Keep(1).slice(&part, 0..part.len()));
    ck!(alone == a.0, "subrange {r:?} of {bytes:?} gives {:?}, the same bytes alone give {alone:?}", a.0);
    ck!(SEEN.with(|s| *s.borrow() == a.1), "the hasher is fed differently for the same bytes");
    cx.tr(fixed.len() as u64 + 1);
    Ok(())
}

fn fixed() -> Vec<Box<dyn Call>> {
        vec![
        Box::new(MIX),
        Box::new(SUM),
        Box::new(ZERO),
        Box::new(LOW2),
        Box::new(IDENT),
        Box::new(BuildHasherDefault::<DefaultHasher>::default()),
        Box::new(RandomState::new()),
    ]
}

fn small(c: &mut Ctx) {
    for (name, alphabet, max) in [
        ("zeros and ones", &[0u8, 1][..], c.pick(9, 12)),
        ("text", &b"ab\xc3\xa9"[..], c.pick(5, 7)),
        ("bytes", &[0u8, 0x7f, 0x80, 0xff, b'A', b'a'][..], c.pick(4, 5)),
    ] {
        c.scenario(&format!("all short data of {name}, all subranges"), |c| {
            let fixed = fixed();
            words(alphabet, max, &mut |w| {
                let w = w.to_vec();
                c.case(
                    || format!("{w:?}"),
                    |cx| {
                        for a in 0..=w.len() {
                            for b in a..=w.len() {
                                subrange(cx, &w, a..b, &fixed)?;
                                cx.st();
                            }
                        }
                        cx.out(w.len() as u64);
                        Ok(())
                    },
                );
            });
        });
    }
}

fn distinct(c: &mut Ctx) {
    c.scenario("different bytes are fed differently", |c| {
        for (alphabet, max) in [(&[0u8, 1][..], c.pick(14, 18)), (&b"abc"[..], c.pick(9, 11)), (&[0, 1, 0x7f, 0x80, 0xff, b'z'][..], c.pick(5, 7))] {
            for n in 0..=max {
                for pad in [0usize, 1, 5] {
                    c.case(
                        || format!("all data of {n} bytes of {alphabet:?}, {pad} around"),
                        |cx| {
                            let mut all: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
                            let mut bad = None;
                            words(alphabet, n, &mut |w| {
                                if w.len() < n || bad.is_some() {
                                    return;
                                }
                                let mut d = vec![b'a'; pad];
                                d.extend(w);
                                d.extend(vec![0; pad]);
                                let _ = Keep(0).slice(&d, pad..pad + n);
                                let fed = SEEN.with(|s| s.borrow().clone());
                                if let Some(o) = all.insert(fed, w.to_vec()) {
                                    bad = Some((o, w.to_vec()));
                                }
                                cx.tr(1);
                                cx.st();
                            });
                            ck!(bad.is_none(), "the hasher is fed the same for {bad:?}");
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn long(c: &mut Ctx) {
    let max = c.pick(40, 72);
    c.scenario("longer subranges, each byte changed to anything, inside and outside", |c| {
        for n in 0..=max {
            for at in [0usize, 1, 7, 8, 13] {
                for behind in [0usize, 1, 3, 8] {
                    c.case(
                        || format!("{n} bytes at {at}, {behind} after them"),
                        |cx| {
                            let mut data: Vec<u8> = (0..at + n + behind).map(|i| (i * 37 + 11) as u8 & 0x7f).collect();
                            let r = at..at + n;
                            let hs: [&dyn Call; 3] = [&Keep(1), &MIX, &BuildHasherDefault::<DefaultHasher>::default()];
                            let code = |d: &[u8], h: &dyn Call| {
                                let (a, b) = both(d, |call| call(h, r.clone()));
                                (a, b.unwrap_or(a))
                            };
                            let base: Vec<u64> = hs.iter().map(|h| code(&data, *h).0).collect();
                            for i in 0..data.len() {
                                let old = data[i];
                                for x in 0..=255u8 {
                                    if x == old || (c_skip(x, i, n)) {
                                        continue;
                                    }
                                    data[i] = x;
                                    for (h, b) in hs.iter().zip(&base) {
                                        let (p, q) = code(&data, *h);
                                        ck!(p == q, "byte {i} set to {x}: slice and string differ");
                                        if r.contains(&i) {
                                            ck!(p != *b, "byte {i} of {r:?} changed from {old} to {x}: the code stays {b:#x}");
                                        } else {
                                            ck!(p == *b, "byte {i} outside of {r:?} changed from {old} to {x}: the code changes");
                                        }
                                        cx.tr(1);
                                    }
                                }
                                data[i] = old;
                            }
                            cx.out(n as u64);
                            Ok(())
                        },
                    );
                }
            }
        }
    });
    c.scenario("every length", |c| {
        let mut ns: Vec<usize> = (0..c.pick(600, 3000)).collect();
        ns.extend([4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]);
        for n in ns {
            c.case(
                || format!("{n} bytes"),
                |cx| {
                    let mut data: Vec<u8> = (0..n + 5).map(|i| (i % 127) as u8).collect();
                    let s = String::from_utf8(data.clone()).unwrap();
                    let base = (MIX.slice(&data, 2..2 + n), Keep(3).slice(&data, 2..2 + n));
                    ck!(base == (MIX.string(&s, 2..2 + n), Keep(3).string(&s, 2..2 + n)), "slice and string differ");
                    let step = (n / 600).max(1);
                    for i in (0..n).step_by(step).chain(n.saturating_sub(17)..n) {
                        data[2 + i] ^= 1 << (i % 8);
                        ck!(Keep(3).slice(&data, 2..2 + n) != base.1, "a change of byte {i} of {n} is not seen");
                        data[2 + i] ^= 1 << (i % 8);
                        cx.tr(1);
                    }
                    for i in [0, 1, n + 2, n + 3, n + 4] {
                        data[i] ^= 0x40;
                    }
                    ck!((MIX.slice(&data, 2..2 + n), Keep(3).slice(&data, 2..2 + n)) == base, "bytes outside of the subrange matter");
                    cx.out(n as u64);
                    Ok(())
                },
            );
        }
    });
}

/// Leaves out most of the values where there are many bytes.
fn c_skip(x: u8, i: usize, n: usize) -> bool {
    n > 20 && !x.is_power_of_two() && x != 0 && x != 255 && (x as usize + i) % 16 != 0
}

fn outside(c: &mut Ctx) {
    c.scenario("subranges not within the data", |c| {
        let bounds = |n: usize| {
            let mut v: Vec<usize> = (0..=n + 4).collect();
            v.extend([n * 2, 4096, u32::MAX as usize, u32::MAX as usize + 1, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX - n, usize::MAX - 1, usize::MAX]);
            v.sort_unstable();
            v.dedup();
            v
        };
        for n in 0..c.pick(20usize, 40) {
            for a in bounds(n) {
                c.case(
                    || format!("{n} bytes, from {a}"),
                    |cx| {
                        // in the middle of something longer
                        let big: Vec<u8> = (0..n as u8 + 20).collect();
                        let slice = &big[10..10 + n];
                        let mut s = String::from_utf8(slice.to_vec()).unwrap();
                        s.reserve(64);
                        for b in bounds(n) {
                            let ok = a <= b && b <= n;
                            for h in [&MIX as &dyn Call, &Keep(1), &ZERO] {
                                let x = catch(|| h.slice(slice, a..b));
                                let y = catch(|| h.string(&s, a..b));
                                ck!(x.is_ok() == ok, "{a}..{b} of a slice of {n} bytes gives {x:?}");
                                ck!(y.is_ok() == ok, "{a}..{b} of a string of {n} bytes gives {y:?}");
                                ck!(!ok || x == y, "{a}..{b}: {x:?} / {y:?}");
                            }
                            cx.tr(6);
                            cx.st();
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

// ---- no byte outside of the data is touched ----

struct Fence {
    base: *mut u8,
    page: usize,
}
impl Fence {
    fn new() -> Self {
        let page = 4096;
        // SAFETY: a new mapping
        let base = unsafe { libc::mmap(std::ptr::null_mut(), page * 3, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(base != libc::MAP_FAILED);
        let base = base.cast::<u8>();
        // SAFETY: our mapping
        let r = unsafe { libc::mprotect(base.add(page).cast(), page, libc::PROT_READ | libc::PROT_WRITE) };
        assert!(r == 0);
        Self { base, page }
    }
    /// Room of `n` bytes whose last is just before, or whose first is just after, inaccessible memory.
    fn room(&self, n: usize, end: bool) -> *mut u8 {
        // SAFETY: within the mapping
        unsafe { self.base.add(self.page + if end { self.page - n } else { 0 }) }
    }
}

fn fences(c: &mut Ctx) {
    c.scenario("data next to inaccessible memory", |c| {
        let fence = Fence::new();
        for n in 0..=c.pick(70usize, 200) {
            for end in [true, false] {
                c.case(
                    || format!("{n} bytes, end {end}"),
                    |cx| {
                        let p = fence.room(n, end);
                        for i in 0..n {
                            // SAFETY: our memory
                            unsafe { p.add(i).write((i * 13) as u8 & 0x7f) };
                        }
                        // SAFETY: our memory, valid text
                        let slice = unsafe { std::slice::from_raw_parts(p, n) };
                        let s = ManuallyDrop::new(unsafe { String::from_raw_parts(p, n, n) });
                        for a in 0..=n {
                            for b in [a, (a + n) / 2, n, n + 1, n + 8] {
                                for h in [&MIX as &dyn Call, &SUM, &Keep(9)] {
                                    let x = catch(|| h.slice(slice, a..b));
                                    let y = catch(|| h.string(&s, a..b));
                                    ck!(x.is_ok() == (b <= n) && y.is_ok() == (b <= n), "{a}..{b} gives {x:?} / {y:?}");
                                    if b <= n {
                                        ck!(x == y && x == Ok(h.slice(&slice[a..b].to_vec(), 0..b - a)), "{a}..{b} differs from a copy");
                                    }
                                }
                                cx.tr(6);
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

// ---- hashers which fail, or which depend on how they are made ----

fn builders(c: &mut Ctx) {
    c.scenario("different hash functions", |c| {
        for n in 0..c.pick(60usize, 200) {
            c.case(
                || format!("{n} bytes"),
                |cx| {
                    let data: Vec<u8> = (0..n).map(|i| (i * 7) as u8 & 0x7f).collect();
                    let s = String::from_utf8(data.clone()).unwrap();
                    for a in 0..=n {
                        let r = a..n;
                        // each hasher decides for itself
                        let keys: std::collections::HashSet<u64> = (0..20).map(|k| Keep(k).slice(&data, r.clone())).collect();
                        ck!(keys.len() == 20, "the key of the hasher has no influence");
                        for k in 0..20 {
                            ck!(Keep(k).slice(&data, r.clone()) == Keep(k).string(&s, r.clone()), "slice and string differ");
                            ck!(Keep(k).slice(&data, r.clone()) == Keep(k).slice(&data, r.clone()), "not repeatable");
                        }
                        ck!(ZERO.slice(&data, r.clone()) == 0 && ZERO.string(&s, r.clone()) == 0, "a hasher that gives zero");
                        // exactly what the hasher finishes with
                        for x in [0, 1, u64::MAX, 1 << 63, 0xffff_ffff, 0x1_0000_0000] {
                            let f = Answer(x);
                            ck!(f.slice(&data, r.clone()) == x && f.string(&s, r.clone()) == x, "a hasher that gives {x:#x}");
                        }
                        cx.tr(80);
                    }
                    Ok(())
                },
            );
        }
    });
}

struct Answer(u64);
impl BuildHasher for Answer {
    type Hasher = Answer;
    fn build_hasher(&self) -> Answer {
        Answer(self.0)
    }
}
impl Hasher for Answer {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 {
        self.0
    }
}

fn main() {
    let mut c = Ctx::from_args();
    small(&mut c);
    distinct(&mut c);
    long(&mut c);
    outside(&mut c);
    fences(&mut c);
    builders(&mut c);
    c.finish();
}
