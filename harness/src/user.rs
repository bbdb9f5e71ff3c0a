//! User code under the control of the explorer: keys, values and hashers which account for every instance
//! in a ledger and which ask the explorer, at every call the library makes into them, how to behave.
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use std::cell::{Cell, RefCell};
use std::fmt::{Debug, Formatter};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Range;

pub const PANIC: u8 = 255;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Call {
    Hash,
    Finish,
    Build,
    Eq,
    Clone,
    Drop,
    Len,
    SliceHash,
    Fmt,
    Next,
    Own,
}

thread_local! {
    static STATE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static BASE: Cell<u32> = const { Cell::new(0) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static PLAN: Cell<[(u64, u8); 3]> = const { Cell::new([(0, 0); 3]) };
    static KINDS: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
    static RECORD: Cell<bool> = const { Cell::new(false) };
    static PERSIST: Cell<Option<(u64, Call, u8)>> = const { Cell::new(None) };
    static TAPE: Cell<Option<(Call, u64, u32, u32)>> = const { Cell::new(None) };
    static DEVIATED: Cell<bool> = const { Cell::new(false) };
    static ZMADE: Cell<i64> = const { Cell::new(0) };
    static ZDROPPED: Cell<i64> = const { Cell::new(0) };
}

fn bad(msg: String) {
    BAD.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            *b = Some(msg);
        }
    });
}

/// Starts a run with the given plan: at call number `.0` (from 1) behave in way `.1`.
pub fn begin(plan: &[(u64, u8)], record: bool) {
    let mut p = [(0, 0); 3];
    p[..plan.len()].copy_from_slice(plan);
    PLAN.with(|x| x.set(p));
    CALLS.with(|c| c.set(0));
    PERSIST.with(|x| x.set(None));
    TAPE.with(|x| x.set(None));
    DEVIATED.with(|x| x.set(false));
    RECORD.with(|r| r.set(record));
    KINDS.with(|k| {
        let mut k = k.borrow_mut();
        k.clear();
        k.reserve(1 << 16);
    });
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        // ids are never reused, so that instances leaked by an earlier run cannot be confused
        BASE.with(|b| b.set(b.get() + s.len() as u32));
        s.clear();
        s.reserve(1 << 16);
    });
    BAD.with(|b| *b.borrow_mut() = None);
    ZMADE.with(|c| c.set(0));
    ZDROPPED.with(|c| c.set(0));
}
/// From call number `from` on, all calls of this kind deviate in the given way.
pub fn persist(from: u64, kind: Call, how: u8) {
    PERSIST.with(|x| x.set(Some((from, kind, how))));
}
/// The next calls of this kind deviate as the tape says (`bits` bits for each call, lowest first).
pub fn tape(kind: Call, tape: u64, bits: u32, len: u32) {
    TAPE.with(|x| x.set(Some((kind, tape, bits, len))));
}
/// No deviations from here on.
pub fn behave() {
    PERSIST.with(|x| x.set(None));
    TAPE.with(|x| x.set(None));
    PLAN.with(|x| x.set([(0, 0); 3]));
}
/// A further deviation, counted from the beginning of the run.
pub fn calls() -> u64 {
    CALLS.with(Cell::get)
}
pub fn kinds() -> Vec<Call> {
    KINDS.with(|k| k.borrow().clone())
}
/// What went wrong so far.
pub fn verdict() -> Result<(), String> {
    match BAD.with(|b| b.borrow().clone()) {
        Some(m) => Err(m),
        None => Ok(()),
    }
}
pub fn live_instances() -> usize {
    STATE.with(|s| s.borrow().iter().filter(|x| **x == 1).count())
}
pub fn zst_balance() -> (i64, i64) {
    (ZMADE.with(Cell::get), ZDROPPED.with(Cell::get))
}

/// Whether any call deviated since the beginning of the run.
pub fn deviated() -> bool {
    DEVIATED.with(Cell::get)
}

/// The library calls into user code: how shall it behave?
pub fn tick(kind: Call) -> u8 {
    let d = decide(kind);
    if d != 0 {
        DEVIATED.with(|x| x.set(true));
        if d == PANIC {
            if std::thread::panicking() {
                return 0;
            }
            panic!("user code panics in {kind:?}");
        }
    }
    d
}

fn decide(kind: Call) -> u8 {
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if RECORD.with(Cell::get) {
        KINDS.with(|k| k.borrow_mut().push(kind));
    }
    if let Some((from, k, how)) = PERSIST.with(Cell::get) {
        if n >= from && k == kind {
            return how;
        }
    }
    if let Some((k, t, bits, len)) = TAPE.with(Cell::get) {
        if k == kind && len > 0 {
            TAPE.with(|x| x.set(Some((k, t >> bits, bits, len - 1))));
            return (t & ((1 << bits) - 1)) as u8;
        }
    }
    let p = PLAN.with(Cell::get);
    for (at, how) in p {
        if at == n {
            return how;
        }
    }
    0
}

const LIVE: u64 = 0x11FE_11FE_11FE_11FE;
const DEAD: u64 = 0xDEAD_0BAD_DEAD_0BAD;

/// An instance in the ledger.
pub struct Token {
    magic: u64,
    id: u32,
    heap: Box<u32>,
}
impl Token {
    fn new() -> Self {
        let id = STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.push(1);
            BASE.with(Cell::get) + s.len() as u32 - 1
        });
        Self { magic: LIVE, id, heap: Box::new(id) }
    }
    fn check(&self, what: &str) {
        if self.magic != LIVE || *self.heap != self.id {
            bad(format!("{what} on something which is not a live instance"));
            return;
        }
        if let Some(i) = self.id.checked_sub(BASE.with(Cell::get)) {
            if STATE.with(|s| s.borrow().get(i as usize) != Some(&1)) {
                bad(format!("{what} on an instance which was dropped"));
            }
        }
    }
    pub fn ok(&self) -> bool {
        self.magic == LIVE
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        if self.magic != LIVE {
            bad(if self.magic == DEAD { "an instance is dropped twice".to_string() } else { "something is dropped which is not an instance".to_string() });
            return;
        }
        self.magic = DEAD;
        if let Some(i) = self.id.checked_sub(BASE.with(Cell::get)) {
            let was = STATE.with(|s| {
                let mut s = s.borrow_mut();
                match s.get_mut(i as usize) {
                    Some(x) => std::mem::replace(x, 2),
                    None => 0,
                }
            });
            if was != 1 {
                bad("an instance is dropped twice".to_string());
                // do not free it twice
                unsafe {
                    std::ptr::write(&mut self.heap, Box::new(0));
                }
            }
        }
    }
}

/// A key.
pub struct TK {
    pub key: u32,
    pub tok: Token,
}
impl TK {
    pub fn new(key: u32) -> Self {
        Self { key, tok: Token::new() }
    }
}
impl Drop for TK {
    fn drop(&mut self) {
        self.tok.check("drop");
        tick(Call::Drop);
    }
}
impl Clone for TK {
    fn clone(&self) -> Self {
        self.tok.check("clone");
        tick(Call::Clone);
        Self::new(self.key)
    }
}
impl PartialEq for TK {
    fn eq(&self, o: &Self) -> bool {
        self.tok.check("==");
        o.tok.check("==");
        (self.key == o.key) ^ (tick(Call::Eq) != 0)
    }
}
impl Eq for TK {}
impl Hash for TK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.tok.check("hash");
        match tick(Call::Hash) {
            0 => h.write_u32(self.key),
            1 => h.write_u32(self.key.wrapping_add(1)),
            _ => {}
        }
    }
}
impl Len for TK {
    fn len(&self) -> usize {
        self.tok.check("len");
        let l = self.key as usize;
        match tick(Call::Len) {
            0 => l,
            1 => 0,
            2 => l + 1,
            3 => usize::MAX,
            _ => 1 << 40,
        }
    }
}
impl SliceHash for TK {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        self.tok.check("hash of a subrange");
        let lawful = bh.hash_one(u64::from(self.key) * 1000 + range.start as u64);
        match tick(Call::SliceHash) {
            0 => lawful,
            1 => lawful.wrapping_add(1),
            2 => 0,
            _ => u64::MAX,
        }
    }
}
impl Debug for TK {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.tok.check("fmt");
        tick(Call::Fmt);
        write!(f, "K{}", self.key)
    }
}

/// A value.
pub struct TV {
    pub v: u32,
    pub tok: Token,
}
impl TV {
    pub fn new(v: u32) -> Self {
        Self { v, tok: Token::new() }
    }
}
impl Drop for TV {
    fn drop(&mut self) {
        self.tok.check("drop");
        tick(Call::Drop);
    }
}
impl Clone for TV {
    fn clone(&self) -> Self {
        self.tok.check("clone");
        tick(Call::Clone);
        Self::new(self.v)
    }
}
impl PartialEq for TV {
    fn eq(&self, o: &Self) -> bool {
        self.tok.check("==");
        o.tok.check("==");
        (self.v == o.v) ^ (tick(Call::Eq) != 0)
    }
}
impl Debug for TV {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.tok.check("fmt");
        tick(Call::Fmt);
        write!(f, "V{}", self.v)
    }
}

/// A value without a size.
#[derive(PartialEq, Debug)]
pub struct ZV(());
impl ZV {
    pub fn new() -> Self {
        ZMADE.with(|c| c.set(c.get() + 1));
        Self(())
    }
}
impl Default for ZV {
    fn default() -> Self {
        Self::new()
    }
}
impl Clone for ZV {
    fn clone(&self) -> Self {
        tick(Call::Clone);
        Self::new()
    }
}
impl Drop for ZV {
    fn drop(&mut self) {
        ZDROPPED.with(|c| c.set(c.get() + 1));
        if ZDROPPED.with(Cell::get) > ZMADE.with(Cell::get) {
            bad("more values are dropped than there were".to_string());
        }
        tick(Call::Drop);
    }
}

/// A hasher.
pub struct UH(pub u64);
impl Default for UH {
    fn default() -> Self {
        UH(1)
    }
}
impl Clone for UH {
    fn clone(&self) -> Self {
        tick(Call::Build);
        UH(self.0)
    }
}
pub struct UHasher(u64, u64);
impl BuildHasher for UH {
    type Hasher = UHasher;
    fn build_hasher(&self) -> UHasher {
        tick(Call::Build);
        UHasher(0, self.0)
    }
}
impl Hasher for UHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
    fn finish(&self) -> u64 {
        let lawful = match self.1 {
            0 => 0,
            1 => crate::hashers::mix(self.0),
            _ => self.0 >> 2,
        };
        match tick(Call::Finish) {
            0 => lawful,
            1 => lawful.wrapping_add(1),
            2 => 0,
            _ => u64::MAX,
        }
    }
}

/// The ways in which a call can deviate, other than to panic.
pub fn alternatives(k: Call) -> u8 {
    match k {
        Call::Eq => 1,
        Call::Hash => 2,
        Call::Finish | Call::SliceHash => 3,
        Call::Len => 4,
        Call::Build | Call::Clone | Call::Drop | Call::Fmt | Call::Next | Call::Own => 0,
    }
}

/// An iterator which is user code too.
pub struct UIter<T>(pub std::vec::IntoIter<T>);
impl<T> Iterator for UIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick(Call::Next);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        tick(Call::Next);
        self.0.size_hint()
    }
}
