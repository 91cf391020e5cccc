//! Properties of the real encoders as functions over a source of values:
//! Kani's arbitrary values when proved, recorded bytes when a counterexample is replayed.
use c_to_wasm_compiler::vp_hooks::{back_end as be, middle_end as me};

pub trait Src {
    fn bytes<const N: usize>(&mut self) -> [u8; N];
    fn assume(&mut self, c: bool);
    fn u8(&mut self) -> u8 {
        self.bytes::<1>()[0]
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.bytes::<4>())
    }
    fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.bytes::<8>())
    }
    fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
}

/// Decodes a LEB128 number of at most `max` bytes at `b[at..]`, as the wasm specification does:
/// (value bits, number of bytes); None if it is malformed. Written without the code under test.
fn leb(b: &[u8], at: usize, max: usize) -> Option<(u128, usize)> {
    let mut v: u128 = 0;
    let mut i = 0;
    while i < max {
        if at + i >= b.len() {
            return None;
        }
        let x = b[at + i];
        v |= ((x & 0x7f) as u128) << (7 * i);
        i += 1;
        if x & 0x80 == 0 {
            return Some((v, i));
        }
    }
    None
}

fn is_unsigned(b: &[u8], at: usize, max: usize, v: u64) -> Option<usize> {
    match leb(b, at, max) {
        Some((d, n)) if d == v as u128 && (n == 1 || b[at + n - 1] != 0) => Some(n),
        _ => None,
    }
}

fn is_signed(b: &[u8], at: usize, max: usize, v: i64) -> Option<usize> {
    match leb(b, at, max) {
        Some((d, n)) => {
            let sh = 128 - 7 * n as u32;
            let s = ((d << sh) as i128) >> sh;
            let last = b[at + n - 1];
            let minimal = n == 1
                || !((last == 0 && b[at + n - 2] & 0x40 == 0) || (last == 0x7f && b[at + n - 2] & 0x40 != 0));
            if s == v as i128 && minimal {
                Some(n)
            } else {
                None
            }
        }
        None => None,
    }
}

fn whole(n: Option<usize>, start: usize, b: &[u8]) -> bool {
    n.map_or(false, |n| start + n == b.len())
}

// --- C21 --------------------------------------------------------------------------------

pub fn leb_unsigned<S: Src>(s: &mut S) -> bool {
    let v = s.u64();
    let b = be::unsigned(v as u128);
    whole(is_unsigned(&b, 0, 10, v), 0, &b)
}

pub fn leb_signed<S: Src>(s: &mut S) -> bool {
    let v = s.i64();
    let b = be::signed(v as i128);
    whole(is_signed(&b, 0, 10, v), 0, &b)
}

/// the complete range of the encoders' parameter type (thorough tier)
pub fn leb_unsigned128<S: Src>(s: &mut S) -> bool {
    let v = (s.u64() as u128) << 64 | s.u64() as u128;
    let b = be::unsigned(v);
    let n = b.len();
    if n == 0 || n > 19 || (n > 1 && b[n - 1] == 0) || b[n - 1] & 0x80 != 0 {
        return false;
    }
    let mut r: u128 = 0;
    let mut i = 0;
    while i < n {
        if i + 1 < n && b[i] & 0x80 == 0 {
            return false;
        }
        r |= ((b[i] & 0x7f) as u128) << (7 * i);
        i += 1;
    }
    r == v
}

pub fn leb_signed128<S: Src>(s: &mut S) -> bool {
    let v = ((s.u64() as u128) << 64 | s.u64() as u128) as i128;
    let b = be::signed(v);
    let n = b.len();
    if n == 0 || n > 19 || b[n - 1] & 0x80 != 0 {
        return false;
    }
    let mut r: u128 = 0;
    let mut i = 0;
    while i < n {
        if i + 1 < n && b[i] & 0x80 == 0 {
            return false;
        }
        r |= ((b[i] & 0x7f) as u128) << (7 * i);
        i += 1;
    }
    let bits = 7 * n as u32;
    let sx = if bits >= 128 { r as i128 } else { ((r << (128 - bits)) as i128) >> (128 - bits) };
    let minimal = n == 1
        || !((b[n - 1] == 0 && b[n - 2] & 0x40 == 0) || (b[n - 1] == 0x7f && b[n - 2] & 0x40 != 0));
    sx == v && minimal
}

pub fn i32_const<S: Src>(s: &mut S) -> bool {
    let v = s.i32();
    let b = be::i32_const(v);
    b[0] == 0x41 && whole(is_signed(&b, 1, 5, v as i64), 1, &b)
}

pub fn i64_const<S: Src>(s: &mut S) -> bool {
    let v = s.i64();
    let b = be::i64_const(v);
    b[0] == 0x42 && whole(is_signed(&b, 1, 10, v), 1, &b)
}

fn is_bits(b: &[u8], at: usize, bits: u64, n: usize) -> bool {
    let mut ok = b.len() == at + n;
    let mut i = 0;
    while ok && i < n {
        ok = b[at + i] == (bits >> (8 * i)) as u8;
        i += 1;
    }
    ok
}

pub fn float64<S: Src>(s: &mut S) -> bool {
    let bits = s.u64();
    let b = be::float64(f64::from_bits(bits));
    let c = be::f64_const(f64::from_bits(bits));
    is_bits(&b, 0, bits, 8) && c[0] == 0x44 && is_bits(&c, 1, bits, 8)
}

pub fn float32<S: Src>(s: &mut S) -> bool {
    let bits = s.u32();
    let b = be::float32(f32::from_bits(bits));
    let c = be::f32_const(f32::from_bits(bits));
    is_bits(&b, 0, bits as u64, 4) && c[0] == 0x43 && is_bits(&c, 1, bits as u64, 4)
}

pub fn mem_arg<S: Src>(s: &mut S) -> bool {
    let (a, o) = (s.u32(), s.u32());
    let b = be::mem_arg(a, o);
    match is_unsigned(&b, 0, 5, a as u64) {
        Some(n) => whole(is_unsigned(&b, n, 5, o as u64), n, &b),
        None => false,
    }
}

pub fn limits<S: Src>(s: &mut S) -> bool {
    let (a, o, k) = (s.u32(), s.u32(), s.u8() & 1);
    let b = be::limits(a, if k == 1 { Some(o) } else { None });
    if b[0] != k {
        return false;
    }
    match is_unsigned(&b, 1, 5, a as u64) {
        Some(n) if k == 1 => whole(is_unsigned(&b, 1 + n, 5, o as u64), 1 + n, &b),
        n => whole(n, 1, &b),
    }
}

const SIZES: [usize; 12] = [1, 2, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256];

fn size<S: Src>(s: &mut S) -> usize {
    let k = s.u8() as usize;
    s.assume(k < SIZES.len());
    SIZES[k]
}

pub fn section<S: Src>(s: &mut S) -> bool {
    let (code, x) = (s.u8(), s.u8());
    let n = size(s);
    let mut body = vec![0u8; n];
    body[n - 1] = x;
    body[0] = x ^ 1;
    if n == 1 {
        body[0] = x;
    }
    let first = body[0];
    let b = be::section(code, body);
    match is_unsigned(&b, 1, 5, n as u64) {
        Some(k) => b[0] == code && b.len() == 1 + k + n && b[1 + k] == first && b[b.len() - 1] == x,
        None => false,
    }
}

pub fn data_segment<S: Src>(s: &mut S) -> bool {
    let x = s.u8();
    let n = size(s);
    let mut data = vec![0u8; n];
    data[n - 1] = x;
    let b = be::data_segment(data);
    match is_unsigned(&b, 2, 5, n as u64) {
        Some(k) => b[0] == 0 && b[1] == 0x0b && b.len() == 2 + k + n && b[b.len() - 1] == x,
        None => false,
    }
}

pub fn vector<S: Src>(s: &mut S) -> bool {
    let n = (s.u8() & 3) as usize;
    let (x, y, z) = (s.u8(), s.u8(), s.u8());
    let all = [x, y, z];
    let mut els = Vec::new();
    let mut total = 0;
    let mut i = 0;
    while i < n {
        // element i takes i + 1 bytes
        els.push(vec![all[i]; i + 1]);
        total += i + 1;
        i += 1;
    }
    let b = be::vector(els);
    if b.len() != 1 + total || b[0] as usize != n {
        return false;
    }
    (n < 1 || b[1] == x) && (n < 2 || (b[2] == y && b[3] == y)) && (n < 3 || (b[4] == z && b[6] == z))
}

/// every integer constant gets a type that holds its value, int or unsigned int if one does
pub fn constant_type<S: Src>(s: &mut S) -> bool {
    let neg = s.u8() & 1 == 1;
    let raw = s.u64();
    let n: i128 = if neg { raw as i64 as i128 } else { raw as i128 };
    let (bits, signed) = me::constant_type(n);
    let holds = |b: u32, sg: bool| {
        if sg {
            n >= -(1i128 << (b - 1)) && n < (1i128 << (b - 1))
        } else {
            n >= 0 && n < (1i128 << b)
        }
    };
    let small = holds(32, true) || holds(32, false);
    let int = holds(32, true);
    let long = holds(64, true);
    (bits == 32 || bits == 64) && holds(bits, signed) && (bits == 32) == small && (!int || signed) && (!(long && bits == 64) || signed)
}

macro_rules! properties {
    ($($name:ident $unwind:literal;)*) => {
        pub fn run_by_name<S: Src>(name: &str, s: &mut S) -> Option<bool> {
            match name {
                $(stringify!($name) => Some($name(s)),)*
                _ => None,
            }
        }

        #[cfg(kani)]
        mod proofs {
            use super::Src;
            struct K;
            impl Src for K {
                fn bytes<const N: usize>(&mut self) -> [u8; N] {
                    let mut b = [0u8; N];
                    let mut i = 0;
                    while i < N {
                        b[i] = kani::any();
                        i += 1;
                    }
                    b
                }
                fn assume(&mut self, c: bool) {
                    kani::assume(c);
                }
                fn u32(&mut self) -> u32 {
                    kani::any()
                }
                fn u64(&mut self) -> u64 {
                    kani::any()
                }
            }
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                fn $name() {
                    let mut k = K;
                    assert!(super::$name(&mut k), "property");
                }
            )*
        }
    };
}

properties! {
    leb_unsigned 12;
    leb_signed 12;
    i32_const 12;
    i64_const 12;
    float64 12;
    float32 12;
    mem_arg 12;
    limits 12;
    section 12;
    data_segment 12;
    vector 6;
    leb_unsigned128 22;
    leb_signed128 22;
    constant_type 3;
}
