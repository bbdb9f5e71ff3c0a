//! Key types and their generators.
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::num::{NonZeroU32, Wrapping};
use std::rc::Rc;
use std::sync::Arc;

/// An injective enumeration of (some of) the values of a type.
pub trait Gen: Hash + Eq + Clone + Debug + 'static {
    const NAME: &'static str;
    const CARD: usize;
    fn gen(i: usize) -> Self;
    /// A value equal to `gen(i)`, distinguishable from it where the type allows for that.
    fn alt(i: usize) -> Self {
        Self::gen(i)
    }
}

macro_rules! gen {
    ($t:ty, $n:expr, $c:expr, |$i:ident| $e:expr, |$j:ident| $a:expr) => {
        impl Gen for $t {
            const NAME: &'static str = $n;
            const CARD: usize = $c;
            fn gen($i: usize) -> Self {
                debug_assert!($i < Self::CARD);
                $e
            }
            fn alt($j: usize) -> Self {
                $a
            }
        }
    };
    ($t:ty, $n:expr, $c:expr, |$i:ident| $e:expr) => {
        impl Gen for $t {
            const NAME: &'static str = $n;
            const CARD: usize = $c;
            fn gen($i: usize) -> Self {
                debug_assert!($i < Self::CARD);
                $e
            }
        }
    };
}

const M: usize = usize::MAX;

fn leak(s: String) -> &'static str {
    // generators are called with small numbers: keep one leaked copy of each
    thread_local!(static POOL: std::cell::RefCell<BTreeSet<&'static str>> = const { std::cell::RefCell::new(BTreeSet::new()) });
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(x) = p.get(s.as_str()) {
            return *x;
        }
        let l: &'static str = Box::leak(s.into_boxed_str());
        p.insert(l);
        l
    })
}

gen!(u8, "u8", 256, |i| (i as u8).wrapping_mul(7).wrapping_add(250));
gen!(i8, "i8", 256, |i| (i as u8).wrapping_mul(3).wrapping_add(120) as i8);
gen!(u16, "u16", 65536, |i| (i as u16).wrapping_mul(3).wrapping_sub(5));
gen!(i16, "i16", 65536, |i| (i as u16).wrapping_mul(5) as i16);
gen!(u32, "u32", M, |i| (i as u32).wrapping_mul(3).wrapping_sub(7));
gen!(i32, "i32", M, |i| i as i32 - 3);
gen!(u64, "u64", M, |i| (i as u64).wrapping_mul(0x1_0000_0001).wrapping_sub(4));
gen!(i64, "i64", M, |i| i64::MIN + i as i64);
gen!(u128, "u128", M, |i| u128::MAX - (i as u128) * (1 << 64));
gen!(i128, "i128", M, |i| i as i128 - 2);
gen!(usize, "usize", M, |i| i * 5);
gen!(isize, "isize", M, |i| -(i as isize));
gen!(char, "char", 50000, |i| char::from_u32(0x20 + i as u32 % 50000).unwrap());
gen!(bool, "bool", 2, |i| i == 1);
gen!((), "()", 1, |_i| ());
gen!(&'static str, "&str", M, |i| leak(format!("k{i}")));
gen!(String, "String", M, |i| format!("key{}", i * 7));
gen!(Box<str>, "Box<str>", M, |i| format!("b{i}").into_boxed_str());
gen!(Vec<u8>, "Vec<u8>", M, |i| i.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect());
gen!([u8; 3], "[u8; 3]", 1 << 24, |i| [i as u8, (i >> 8) as u8, (i >> 16) as u8]);
gen!((u32,), "(u32,)", M, |i| (i as u32,));
gen!((u32, u32), "(u32, u32)", M, |i| (i as u32 / 3, i as u32 % 3));
gen!((String, u32), "(String, u32)", M, |i| (format!("{}", i / 2), i as u32 % 2));
gen!(Option<u32>, "Option<u32>", M, |i| if i == 0 { None } else { Some(i as u32 - 1) });
gen!(Option<String>, "Option<String>", M, |i| if i == 0 { None } else { Some(format!("{}", i - 1)) });
gen!(Rc<str>, "Rc<str>", M, |i| Rc::from(format!("r{i}")));
gen!(Arc<String>, "Arc<String>", M, |i| Arc::new(format!("a{i}")));
gen!(Box<u32>, "Box<u32>", M, |i| Box::new(i as u32));
gen!(Box<String>, "Box<String>", M, |i| Box::new(format!("{i}")));
gen!(Cow<'static, str>, "Cow<str>", M, |i| if i % 2 == 0 { Cow::Owned(format!("{i}")) } else { Cow::Borrowed(leak(format!("{i}"))) });
gen!(std::path::PathBuf, "PathBuf", M, |i| std::path::PathBuf::from(format!("/p/{i}")));
gen!(std::ffi::OsString, "OsString", M, |i| std::ffi::OsString::from(format!("o{i}")));
gen!(NonZeroU32, "NonZeroU32", M, |i| NonZeroU32::new(i as u32 + 1).unwrap());
gen!(Wrapping<u32>, "Wrapping<u32>", M, |i| Wrapping(i as u32));
gen!(std::cmp::Reverse<u32>, "Reverse<u32>", M, |i| std::cmp::Reverse(i as u32));
gen!(std::time::Duration, "Duration", M, |i| std::time::Duration::from_millis(i as u64 * 500));
gen!(std::cmp::Ordering, "Ordering", 3, |i| [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][i]);

/// Same layout as `u32`, own equality (equal modulo 1000).
#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Mod1000(pub u32);
impl PartialEq for Mod1000 {
    fn eq(&self, o: &Self) -> bool {
        self.0 % 1000 == o.0 % 1000
    }
}
impl Eq for Mod1000 {}
impl Hash for Mod1000 {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0 % 1000).hash(h);
    }
}
gen!(Mod1000, "Mod1000", 1000, |i| Mod1000((i + (i % 7) * 1000) as u32), |i| Mod1000((i + 9000) as u32));

/// A transparent wrapper around `String` which ignores ASCII case.
#[derive(Clone, Debug)]
#[repr(transparent)]
pub struct CiString(pub String);
impl PartialEq for CiString {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq_ignore_ascii_case(&o.0)
    }
}
impl Eq for CiString {}
impl Hash for CiString {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.to_ascii_lowercase().hash(h);
    }
}
gen!(CiString, "CiString", M, |i| CiString(if i % 2 == 0 { format!("Key{i}") } else { format!("kEY{i}") }), |i| CiString(format!("KEY{i}")));

/// Types which share their names with the ones the library recognises.
pub mod mimic {
    use std::hash::{Hash, Hasher};
    #[allow(non_camel_case_types)]
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct u32(pub super::Arc<std::string::String>);
    #[derive(Clone, Copy, Debug)]
    pub struct String(pub u8, pub u64);
    impl PartialEq for String {
        fn eq(&self, o: &Self) -> bool {
            self.1 == o.1
        }
    }
    impl Eq for String {}
    impl Hash for String {
        fn hash<H: Hasher>(&self, h: &mut H) {
            self.1.hash(h);
        }
    }
    pub mod string {
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct String(pub i8);
    }
}
gen!(mimic::u32, "mimic::u32", M, |i| mimic::u32(Arc::new(format!("{i}"))));
gen!(mimic::String, "mimic::String", M, |i| mimic::String(i as u8, i as u64 / 2 * 10 + i as u64 % 2), |i| mimic::String(!(i as u8), i as u64 / 2 * 10 + i as u64 % 2));
gen!(mimic::string::String, "mimic::string::String", 256, |i| mimic::string::String(i as u8 as i8));

/// Types which also share the layout of the ones the library recognises, but are equal more often.
pub mod sized {
    use std::hash::{Hash, Hasher};
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, Debug)]
    pub struct u32(pub std::primitive::u32);
    impl PartialEq for u32 {
        fn eq(&self, o: &Self) -> bool {
            self.0 % 1000 == o.0 % 1000
        }
    }
    impl Eq for u32 {}
    impl Hash for u32 {
        fn hash<H: Hasher>(&self, h: &mut H) {
            (self.0 % 1000).hash(h);
        }
    }
    pub mod string {
        use std::hash::{Hash, Hasher};
        #[derive(Clone, Debug)]
        pub struct String(pub std::string::String);
        impl PartialEq for String {
            fn eq(&self, o: &Self) -> bool {
                self.0.eq_ignore_ascii_case(&o.0)
            }
        }
        impl Eq for String {}
        impl Hash for String {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.0.to_ascii_lowercase().hash(h);
            }
        }
    }
}
fn mixed_case(i: usize) -> String {
    if i % 2 == 0 { format!("Key{i}") } else { format!("kEY{i}") }
}
gen!(sized::u32, "sized::u32", 1000, |i| sized::u32((i + (i % 7) * 1000) as u32), |i| sized::u32((i + 9000) as u32));
gen!(sized::string::String, "sized::string::String", M, |i| sized::string::String(mixed_case(i)), |i| sized::string::String(format!("KEY{i}")));
gen!(lookalike::string::String, "lookalike alloc::string::String", M, |i| lookalike::string::String(mixed_case(i)), |i| lookalike::string::String(format!("KEY{i}")));

/// A large key.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big(pub [u64; 16]);
gen!(Big, "Big", M, |i| {
    let mut a = [7; 16];
    a[i % 16] = i as u64;
    a[15] = i as u64;
    Big(a)
});

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum En {
    A,
    B(u32),
    C { s: String },
}
gen!(En, "En", M, |i| match i % 3 {
    0 if i == 0 => En::A,
    1 => En::B(i as u32),
    _ => En::C { s: format!("{i}") },
});

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(align(64))]
pub struct Aligned(pub u8);
gen!(Aligned, "Aligned", 256, |i| Aligned(i as u8));

thread_local! {
    static CODES: Cell<[u64; 16]> = const { Cell::new([0; 16]) };
    pub static EQS: Cell<u64> = const { Cell::new(0) };
    pub static HASHES: Cell<u64> = const { Cell::new(0) };
}

/// A key whose hash code is looked up in a table set by the explorer (for ids below 16).
#[derive(Clone, Debug)]
pub struct CK(pub u8);
pub fn set_codes(c: [u64; 16]) {
    CODES.with(|t| t.set(c));
}
impl PartialEq for CK {
    fn eq(&self, o: &Self) -> bool {
        EQS.with(|e| e.set(e.get() + 1));
        self.0 == o.0
    }
}
impl Eq for CK {}
impl Hash for CK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(CODES.with(|t| t.get())[self.0 as usize & 15]);
    }
}
gen!(CK, "CK", 16, |i| CK(i as u8));

/// A key with an explicit hash code (to be used with the identity hasher).
#[derive(Clone, Debug)]
pub struct HK {
    pub id: u32,
    pub code: u64,
}
impl PartialEq for HK {
    fn eq(&self, o: &Self) -> bool {
        EQS.with(|e| e.set(e.get() + 1));
        self.id == o.id
    }
}
impl Eq for HK {}
impl Hash for HK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.code);
    }
}

/// Calls a generic function for every key type.
#[macro_export]
macro_rules! all_key_types {
    ($f:ident, $c:expr) => {{
        use $crate::keys::*;
        $f::<u8>($c);
        $f::<i8>($c);
        $f::<u16>($c);
        $f::<i16>($c);
        $f::<u32>($c);
        $f::<i32>($c);
        $f::<u64>($c);
        $f::<i64>($c);
        $f::<u128>($c);
        $f::<i128>($c);
        $f::<usize>($c);
        $f::<isize>($c);
        $f::<char>($c);
        $f::<bool>($c);
        $f::<()>($c);
        $f::<&'static str>($c);
        $f::<String>($c);
        $f::<Box<str>>($c);
        $f::<Vec<u8>>($c);
        $f::<[u8; 3]>($c);
        $f::<(u32,)>($c);
        $f::<(u32, u32)>($c);
        $f::<(String, u32)>($c);
        $f::<Option<u32>>($c);
        $f::<Option<String>>($c);
        $f::<std::rc::Rc<str>>($c);
        $f::<std::sync::Arc<String>>($c);
        $f::<Box<u32>>($c);
        $f::<Box<String>>($c);
        $f::<std::borrow::Cow<'static, str>>($c);
        $f::<std::path::PathBuf>($c);
        $f::<std::ffi::OsString>($c);
        $f::<std::num::NonZeroU32>($c);
        $f::<std::num::Wrapping<u32>>($c);
        $f::<std::cmp::Reverse<u32>>($c);
        $f::<std::time::Duration>($c);
        $f::<std::cmp::Ordering>($c);
        $f::<Mod1000>($c);
        $f::<CiString>($c);
        $f::<mimic::u32>($c);
        $f::<mimic::String>($c);
        $f::<mimic::string::String>($c);
        $f::<sized::u32>($c);
        $f::<sized::string::String>($c);
        $f::<$crate::lookalike::string::String>($c);
        $f::<Big>($c);
        $f::<En>($c);
        $f::<Aligned>($c);
        $f::<&'static u32>($c);
        $f::<&'static String>($c);
        $f::<Vec<u32>>($c);
    }};
}
/// Calls a generic function for some key types.
#[macro_export]
macro_rules! some_key_types {
    ($f:ident, $c:expr) => {{
        use $crate::keys::*;
        $f::<u8>($c);
        $f::<i64>($c);
        $f::<()>($c);
        $f::<&'static str>($c);
        $f::<String>($c);
        $f::<(u32, u32)>($c);
        $f::<Option<String>>($c);
        $f::<Mod1000>($c);
        $f::<CiString>($c);
        $f::<mimic::String>($c);
        $f::<sized::u32>($c);
        $f::<sized::string::String>($c);
        $f::<$crate::lookalike::string::String>($c);
        $f::<Big>($c);
    }};
}
gen!(&'static u32, "&u32", M, |i| Box::leak(Box::new(i as u32)));
gen!(&'static String, "&String", M, |i| Box::leak(Box::new(format!("{i}"))));
gen!(Vec<u32>, "Vec<u32>", M, |i| vec![i as u32 / 4; 1 + i % 4]);
