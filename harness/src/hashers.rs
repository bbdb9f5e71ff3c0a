//! Hash functions under the control of the explorer.
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hasher};

/// A build hasher whose behaviour is chosen by a number.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct PH(pub u8);

pub const MIX: PH = PH(0);
pub const ZERO: PH = PH(1);
pub const MAXC: PH = PH(2);
pub const SUM: PH = PH(3);
pub const LEN: PH = PH(4);
pub const LOW2: PH = PH(5);
pub const HIGH: PH = PH(6);
pub const LAST: PH = PH(7);
pub const IDENT: PH = PH(8);
pub const XOR: PH = PH(9);
pub const TOPBIT: PH = PH(10);
pub const FIRST: PH = PH(11);
pub const SIP: PH = PH(12);
pub const MOD1000: PH = PH(13);
/// Distinguishes everything when a length prefix is written (slices), nothing otherwise.
pub const SLICE_ZERO: PH = PH(14);
/// Mixes when a length prefix is written (slices), sums bytes otherwise.
pub const SLICE_SUM: PH = PH(15);
pub const LOWBYTE: PH = PH(16);

pub const ALL: [PH; 17] = [
    MIX, ZERO, MAXC, SUM, LEN, LOW2, HIGH, LAST, IDENT, XOR, TOPBIT, FIRST, SIP, MOD1000, SLICE_ZERO, SLICE_SUM, LOWBYTE,
];

#[derive(Clone)]
pub struct PHasher {
    mode: u8,
    fnv: u64,
    sum: u64,
    count: u64,
    last: u64,
    first: Option<u8>,
    ident: u64,
    xor: u64,
    prefixed: bool,
    sip: DefaultHasher,
}

impl BuildHasher for PH {
    type Hasher = PHasher;
    fn build_hasher(&self) -> PHasher {
        PHasher {
            mode: self.0,
            fnv: 0xcbf2_9ce4_8422_2325,
            sum: 0,
            count: 0,
            last: 0,
            first: None,
            ident: 0,
            xor: 0,
            prefixed: false,
            sip: DefaultHasher::new(),
        }
    }
}

pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51_afd7_ed55_8ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    x ^ (x >> 33)
}

impl Hasher for PHasher {
    fn write(&mut self, b: &[u8]) {
        if self.mode == 12 {
            self.sip.write(b);
            return;
        }
        for &x in b {
            self.fnv = (self.fnv ^ u64::from(x)).wrapping_mul(0x0100_0000_01b3);
            self.sum += u64::from(x);
            self.last = u64::from(x);
            self.first.get_or_insert(x);
            self.xor ^= u64::from(x);
            if self.count < 8 {
                self.ident |= u64::from(x) << (8 * self.count);
            }
            self.count += 1;
        }
    }
    fn write_usize(&mut self, i: usize) {
        self.prefixed = true;
        self.write(&i.to_ne_bytes());
    }
    fn finish(&self) -> u64 {
        let m = mix(self.fnv);
        match self.mode {
            0 => m,
            1 => 0,
            2 => u64::MAX,
            3 => self.sum,
            4 => self.count,
            5 => m & 3,
            6 => m << 56,
            7 => self.last,
            8 => self.ident,
            9 => self.xor,
            10 => m | (1 << 63),
            11 => self.first.map_or(0, u64::from),
            12 => self.sip.finish(),
            13 => m % 1000,
            14 => {
                if self.prefixed {
                    m
                } else {
                    0
                }
            }
            15 => {
                if self.prefixed {
                    m
                } else {
                    self.sum
                }
            }
            16 => m & 0xff,
            _ => unreachable!(),
        }
    }
}

/// Makes `RandomState` deterministic: the standard library asks the system for its keys with this function.
#[cfg(all(target_os = "linux", not(miri)))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

/// A code which shows whether `RandomState` is deterministic.
pub fn random_state_probe() -> u64 {
    std::collections::hash_map::RandomState::new().hash_one(1)
}
