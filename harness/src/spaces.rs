//! The spaces of keys which are explored.
use std::collections::HashSet;

/// A lazily computed list of distinct `u32` keys.
#[derive(Clone, Debug)]
pub enum US {
    List(Vec<u32>),
    /// The members of the window at `base` selected by `mask`, in one of three orders.
    Mask { base: u32, mask: u32, order: u8 },
    /// `n` keys of a family, in one of three orders.
    Fam { fam: u8, n: usize, order: u8 },
}

pub const UFAMS: u8 = 26;

fn reorder<T>(v: Vec<T>, order: u8) -> Vec<T> {
    match order {
        0 => v,
        1 => v.into_iter().rev().collect(),
        _ => {
            // odd positions from the back, then even positions
            let n = v.len();
            let mut o: Vec<Option<T>> = v.into_iter().map(Some).collect();
            let mut r = Vec::with_capacity(n);
            for i in (0..n).rev() {
                if i % 2 == 1 {
                    r.push(o[i].take().unwrap());
                }
            }
            for x in o.into_iter().flatten() {
                r.push(x);
            }
            r
        }
    }
}

fn ufam(fam: u8, n: usize, i: usize) -> u32 {
    let (n32, x) = (n as u32, i as u32);
    match fam {
        0 => x,
        1 => x.wrapping_add(1000),
        2 => u32::MAX - x,
        3 => x + u32::from(i >= n / 2),
        4 => x + u32::from(i >= 1),
        5 => x + u32::from(i + 1 >= n),
        6 => x.wrapping_mul(2),
        7 => x.wrapping_mul(3).wrapping_add(1),
        8 => x.wrapping_mul(n32.max(1)),
        9 => x.wrapping_mul(n32.max(1) * 16 % 65521),
        10 => x.wrapping_mul(128),
        11 => x.wrapping_mul(256),
        12 => x.wrapping_mul(65536).wrapping_add(x >> 16),
        13 => x.wrapping_mul(x),
        14 => {
            if i < 32 {
                1 << i
            } else {
                (x << 5) | 0x11
            }
        }
        15 => x.reverse_bits(),
        16 => x.wrapping_mul(0x9E37_79B1),
        17 => x.wrapping_mul(131).wrapping_add(7),
        18 => u32::MAX - x.wrapping_mul(2),
        19 => {
            if i < n / 2 {
                x
            } else {
                0x8000_0000 + x
            }
        }
        20 => x / 2 * 5 + x % 2,
        21 => {
            if i + 1 == n {
                u32::MAX
            } else {
                x
            }
        }
        22 => (x % 4) << 30 | (x / 4),
        23 => x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223) >> 1,
        24 => x.wrapping_mul(7919 * 16),
        25 => 0x7fff_ffff - n32 / 2 + x,
        _ => unreachable!(),
    }
}

impl US {
    pub fn keys(&self) -> Vec<u32> {
        match self {
            US::List(v) => v.clone(),
            US::Mask { base, mask, order } => {
                let v = (0..32).filter(|i| mask >> i & 1 == 1).map(|i| base.wrapping_add(i)).collect();
                reorder(v, *order)
            }
            US::Fam { fam, n, order } => {
                let mut v: Vec<u32> = (0..*n).map(|i| ufam(*fam, *n, i)).collect();
                let mut seen = HashSet::with_capacity(*n);
                if !v.iter().all(|x| seen.insert(*x)) {
                    // make up for repetitions
                    seen.clear();
                    let mut next = 0x1357_0001u32;
                    for x in &mut v {
                        while !seen.insert(*x) {
                            *x = next;
                            next = next.wrapping_add(3);
                        }
                    }
                }
                reorder(v, *order)
            }
        }
    }
}

/// Bases of windows of `w` consecutive integers, at the places of interest of the `u32` domain.
pub fn bases(w: u32) -> Vec<u32> {
    vec![0, 1, 97, 251, 65_530, 0x7fff_fffb, u32::MAX - (w - 1)]
}

/// All subsets of windows of `w` integers, in `orders` orders, as `f(base, mask, order)`.
pub fn windows(w: u32, orders: u8, mut f: impl FnMut(US)) {
    for base in bases(w) {
        for mask in 0..1u32 << w {
            for order in 0..orders {
                if order > 0 && mask.count_ones() < 2 {
                    continue;
                }
                f(US::Mask { base, mask, order });
            }
        }
    }
}

pub const SPECIALS: [u32; 26] = [
    0,
    1,
    2,
    3,
    4,
    5,
    7,
    15,
    16,
    64,
    127,
    255,
    256,
    1000,
    65_535,
    65_536,
    0x7fff_fffe,
    0x7fff_ffff,
    0x8000_0000,
    0x8000_0001,
    0xaaaa_aaaa,
    0xffff_0000,
    0xffff_fffc,
    0xffff_fffd,
    0xffff_fffe,
    0xffff_ffff,
];

/// All `k`-element subsets of `0..n`.
pub fn subsets(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v: Vec<usize> = (0..k).collect();
    if k > n {
        return;
    }
    loop {
        f(&v);
        let mut i = k;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            if v[i] != i + n - k {
                break;
            }
            if i == 0 {
                return;
            }
        }
        v[i] += 1;
        for j in i + 1..k {
            v[j] = v[j - 1] + 1;
        }
    }
}

/// All permutations of `0..n`.
pub fn permutations(n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
        if k == v.len() {
            f(v);
            return;
        }
        for i in k..v.len() {
            v.swap(k, i);
            go(v, k + 1, f);
            v.swap(k, i);
        }
    }
    go(&mut (0..n).collect(), 0, f);
}

/// All words of length `len` over `0..k`.
pub fn words(k: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0; len];
    if k == 0 && len > 0 {
        return;
    }
    loop {
        f(&v);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

/// The sizes at which something changes inside of the library, and those around them.
pub fn sizes(quick: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if quick { (0..=300).collect() } else { (0..=700).collect() };
    v.extend([510, 511, 512, 513, 516, 998, 999, 1000, 1001, 1002, 1023, 1024, 1025, 2048, 4095, 4096, 4097]);
    v.sort_unstable();
    v.dedup();
    v
}

pub const LARGE: [usize; 7] = [16_384, 32_769, 65_533, 65_534, 65_535, 65_536, 65_537];

/// Keys to probe a set of `u32` keys with, none of which is a key.
pub fn uprobes(keys: &[u32]) -> Vec<u32> {
    let n = keys.len();
    let set: HashSet<u32> = keys.iter().copied().collect();
    let mut p = vec![0, 1, 2, u32::MAX, u32::MAX - 1, 0x7fff_ffff, 0x8000_0000, n as u32, (n as u32).wrapping_mul(16)];
    let full = n <= 16;
    for &k in keys {
        p.push(k.wrapping_add(1));
        p.push(k.wrapping_sub(1));
        if n <= 300 {
            p.push(k.wrapping_add(n as u32));
            p.push(k.wrapping_sub(n as u32));
            p.push(k.wrapping_add(256));
            p.push(k ^ 0x8000_0000);
            p.push(k.wrapping_add(65536));
        }
        if full {
            for b in 0..32 {
                p.push(k ^ (1 << b));
            }
            for m in [n as u32 + 1, 2 * n as u32, 7, 16 * n as u32] {
                p.push(k.wrapping_add(m));
            }
        }
    }
    p.retain(|x| !set.contains(x));
    p.sort_unstable();
    p.dedup();
    p
}

/// A lazily computed list of distinct strings.
#[derive(Clone, Debug)]
pub enum SS {
    List(Vec<String>),
    /// The members of the universe selected by `mask`.
    Mask { uni: u8, mask: u64, order: u8 },
    Fam { fam: u8, n: usize, p: usize, s: usize, order: u8 },
}

/// Small universes of strings of which all subsets are explored.
pub fn universe(u: u8) -> Vec<String> {
    let l: Vec<&str> = match u {
        // every string over {a, b} up to length 3
        0 => return words_upto(&["a", "b"], 3),
        // every string over {a} up to length 9, and some others
        1 => return (0..12).map(|i| "a".repeat(i)).collect(),
        // lengths 4 and 5 with common prefixes and suffixes
        2 => vec![
            "xaay", "xaby", "xbay", "xbby", "xaaay", "xabay", "xbaay", "xbbay", "yaax", "ybbx", "x", "xy", "",
        ],
        // multi-byte
        3 => vec![
            "é", "è", "a", "日", "日本", "日木", "本日", "😀", "😁", "e\u{301}", "", "éa",
        ],
        // equal bytes at different alignments
        4 => vec![
            "abcd", "bcda", "cdab", "dabc", "abc", "bcd", "cda", "dab", "ab", "bc", "cd", "da",
        ],
        // long common parts and one distinguishing place
        5 => {
            let mut v = Vec::new();
            for pos in [0usize, 1, 15, 16, 17, 18] {
                for c in ["A", "B"] {
                    let mut s = "q".repeat(19);
                    s.replace_range(pos..pos + 1, c);
                    v.push(s);
                }
            }
            return v;
        }
        // NUL and 0xff-like bytes, whitespace
        6 => vec![
            "\0", "\0\0", "\0\0\0", "a\0", "\0a", " ", "  ", "\u{7f}", "\u{80}", "\u{7ff}", "\u{ffff}", "\u{10ffff}",
        ],
        // same length (3) over {a, b, c}, part of them
        7 => vec![
            "aaa", "aab", "aba", "abb", "baa", "bab", "bba", "bbb", "cab", "cba", "acb", "bca", "abc",
        ],
        _ => unreachable!(),
    };
    l.into_iter().map(String::from).collect()
}
pub const UNIVERSES: u8 = 8;

pub fn words_upto(alpha: &[&str], len: usize) -> Vec<String> {
    let mut v = Vec::new();
    for l in 0..=len {
        words(alpha.len(), l, &mut |w| v.push(w.iter().map(|i| alpha[*i]).collect()));
    }
    v
}

pub const SFAMS: u8 = 22;

fn num(i: usize, w: usize) -> String {
    // fixed-width numbers in a base which keeps single characters distinct for as long as possible
    const D: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!#$%&()*+,-./:;<=>?@[]^_{|}~";
    let b = D.len();
    let mut s = vec![b'0'; w];
    let mut x = i;
    for c in s.iter_mut().rev() {
        *c = D[x % b];
        x /= b;
    }
    assert!(x == 0);
    String::from_utf8(s).unwrap()
}

fn sfam(fam: u8, n: usize, p: usize, s: usize, i: usize) -> String {
    let w = if n <= 90 { 1 } else if n <= 8100 { 2 } else { 3 };
    let pre = "p".repeat(p);
    let suf = "s".repeat(s);
    match fam {
        // fixed width
        0 => format!("{pre}{}{suf}", num(i, w)),
        // decimal numbers
        1 => format!("{pre}{i}{suf}"),
        // one longer key
        2 => format!("{pre}{}{suf}{}", num(i, w), if i == 0 { "L" } else { "" }),
        // one key longer on the left
        3 => format!("{}{pre}{}{suf}", if i == 0 { "L" } else { "" }, num(i, w)),
        // variable suffix lengths, at most 4 distinct lengths
        4 => format!("{pre}{}{}", num(i, w), "s".repeat(s + i % 4)),
        // variable prefix lengths: only the right side is aligned
        5 => format!("{}{}{suf}", "p".repeat(p + i % 4), num(i, w)),
        // distinct lengths
        6 => "x".repeat(p + i),
        // every length twice
        7 => format!("{}{}", "x".repeat(p + i / 2), i % 2),
        // every length three times
        8 => format!("{}{}", "x".repeat(p + i / 3), i % 3),
        // every length four times
        9 => format!("{}{}", "x".repeat(p + i / 4), i % 4),
        // distinct lengths, some very long
        10 => "y".repeat(if i % 5 == 4 { 255 + i } else { i }),
        // two independent positions, neither sufficient
        11 => format!("{pre}{}-{}{suf}", num(i / 16, w), num(i % 16, 1)),
        // about 5 % duplicates in the significant place
        12 => format!("{pre}{}{suf}{}", num(if i % 20 == 19 { i - 1 } else { i }, w), num(i, w)),
        // a little above 5 % duplicates
        13 => format!("{pre}{}{suf}{}", num(if i % 16 == 15 { i - 1 } else { i }, w), num(i, w)),
        // multi-byte, distinct in one character
        14 => format!("{pre}{}{suf}", char::from_u32(0x4e00 + i as u32 % 20000).unwrap().to_string() + &num(i / 20000, 1)),
        // two-byte characters
        15 => format!("é{pre}{}{suf}ß", num(i, w)),
        // right side distinct, left differing lengths, with one empty key
        16 => {
            if i == 0 {
                String::new()
            } else {
                format!("{}{}", "p".repeat(p + i % 3), num(i, w))
            }
        }
        // very long
        17 => format!("{}{}{}", "l".repeat(250 + p), num(i, w), "m".repeat(250 + s)),
        // distinct at both ends only together
        18 => format!("{}{pre}{}", num(i % 13, 1), num(i / 13, w)),
        // paths
        19 => format!("/usr/share/{pre}{}/{}{suf}", i / 7, i % 7),
        // one short key among long ones
        20 => {
            if i == n / 2 {
                "z".to_string()
            } else {
                format!("{pre}--{}--{suf}", num(i, w))
            }
        }
        // hex of a mixed number: 8 digits
        21 => format!("{pre}{:08x}{suf}", (i as u32).wrapping_mul(0x9E37_79B1)),
        _ => unreachable!(),
    }
}

impl SS {
    pub fn keys(&self) -> Vec<String> {
        match self {
            SS::List(v) => v.clone(),
            SS::Mask { uni, mask, order } => {
                let v = universe(*uni).into_iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, s)| s).collect();
                reorder(v, *order)
            }
            SS::Fam { fam, n, p, s, order } => {
                let v: Vec<String> = (0..*n).map(|i| sfam(*fam, *n, *p, *s, i)).collect();
                let mut seen = HashSet::with_capacity(*n);
                let v: Vec<String> = v
                    .into_iter()
                    .enumerate()
                    .map(|(i, mut k)| {
                        while !seen.insert(k.clone()) {
                            k.push_str(&format!("~{i}"));
                        }
                        k
                    })
                    .collect();
                reorder(v, *order)
            }
        }
    }
}

/// Strings to probe with, none of which is a key.
pub fn sprobes(keys: &[String]) -> Vec<String> {
    let n = keys.len();
    let set: HashSet<&str> = keys.iter().map(String::as_str).collect();
    let mut p: Vec<String> = vec![String::new(), "a".into(), "zzzz".into(), "\0".into()];
    let step = (n / 40).max(1);
    for (i, k) in keys.iter().enumerate() {
        let first = k.chars().next().map_or(0, char::len_utf8);
        let last = k.chars().last().map_or(0, char::len_utf8);
        p.push(k[first..].to_string());
        p.push(k[..k.len() - last].to_string());
        p.push(format!("{k}s"));
        p.push(format!("p{k}"));
        p.push(format!("{k}\0"));
        if i % step != 0 && i + 1 != n {
            continue;
        }
        p.push(format!("{k}{k}"));
        p.push(format!("p{k}s"));
        p.push(k.chars().rev().collect());
        let nc = k.chars().count();
        for (ci, (bi, c)) in k.char_indices().enumerate() {
            if nc > 40 && ci % (nc / 20) != 0 && ci + 1 != nc {
                continue;
            }
            // one byte (or character) off
            let r = if c == 'a' { 'b' } else { 'a' };
            let mut s = k.clone();
            s.replace_range(bi..bi + c.len_utf8(), &r.to_string());
            p.push(s);
            if c.is_ascii() {
                let mut s = k.clone();
                s.replace_range(bi..=bi, &((c as u8 ^ 1) as char).to_string());
                p.push(s);
            }
            // shortened in the middle, and cut
            if nc <= 40 {
                let mut s = k.clone();
                s.remove(bi);
                p.push(s);
                p.push(k[..bi].to_string());
                p.push(k[bi..].to_string());
            }
        }
    }
    // the parts of one key with those of another
    for w in keys.windows(2).take(40) {
        let (a, b) = (&w[0], &w[1]);
        if a.is_char_boundary(a.len() / 2) && b.is_char_boundary(b.len() / 2) {
            p.push(format!("{}{}", &a[..a.len() / 2], &b[b.len() / 2..]));
        }
    }
    p.retain(|x| !set.contains(x.as_str()));
    p.sort_unstable();
    p.dedup();
    p
}
