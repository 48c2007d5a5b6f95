//! Seeded generation of types, values, headers, bodies and byte strings.
use crate::ty::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: &str) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// n of something: of no order, all the same, the same but one, in turns,
/// runs of each
fn pattern<T: Clone>(r: &mut Rng, n: usize, mut one: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    match r.below(10) {
        0 | 1 => vec![one(r); n],
        2 => {
            let mut v = vec![one(r); n];
            if n > 0 {
                let i = *r.pick(&[0, n / 2, n - 1]);
                v[i] = one(r);
            }
            v
        }
        3 => {
            let p = 1 + r.below(5);
            let some: Vec<T> = (0..p).map(|_| one(r)).collect();
            (0..n).map(|i| some[i % p].clone()).collect()
        }
        4 => {
            let mut v = vec![];
            while v.len() < n {
                let x = one(r);
                let m = (1 + r.below(40)).min(n - v.len());
                v.extend(std::iter::repeat_n(x, m));
            }
            v
        }
        5 => {
            // one half is the other again
            let mut v: Vec<T> = (0..n - n / 2).map(|_| one(r)).collect();
            v.extend_from_within(..n / 2);
            v
        }
        _ => (0..n).map(|_| one(r)).collect(),
    }
}

pub fn contents(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 => (0..n).map(|i| (i + n) as u8).collect(),
        1 => string(r, n).into_bytes().into_iter().take(n).collect(),
        2 => pattern(r, n, |r| *r.pick(&[0u8, 1, 127, 128, 255])),
        _ => pattern(r, n, |r| r.next() as u8),
    }
}

/// an integer of `w` bits with every magnitude equally likely, biased to the
/// edges of the varint forms
pub fn int_bits(r: &mut Rng, w: u32) -> u64 {
    let mask = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let v = match r.below(8) {
        0 => {
            // 2^k + {-1,0,1}
            let k = r.below(w as usize + 1) as u32;
            let p = if k == 64 { 0 } else { 1u64 << k };
            p.wrapping_add(r.below(3) as u64).wrapping_sub(1)
        }
        1 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, mask >> 1, (mask >> 1) + 1]),
        _ => {
            let k = 1 + r.below(w as usize) as u32;
            let m = if k == 64 { u64::MAX } else { (1u64 << k) - 1 };
            (r.next() & m) | if r.one_in(2) { 1u64 << (k - 1) } else { 0 }
        }
    };
    v & mask
}

pub fn string(r: &mut Rng, chars: usize) -> String {
    match r.below(8) {
        0 => pattern(r, chars, |r| (b'0' + r.below(10) as u8) as char).into_iter().collect(),
        1 => pattern(r, chars, |r| *r.pick(&[' ', '\0', 'a', 'Z', '_', '\u{e9}', '\u{10ffff}'])).into_iter().collect(),
        2 => (0..chars).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
        _ => pattern(r, chars, character).into_iter().collect(),
    }
}

/// characters that programs treat in a way of their own
pub const SPECIAL: &[char] = &['\u{feff}', '\u{fffe}', '\u{fffd}', '\u{0}', '\n', '\r', '\t', ' ', '"', '\'', '\\', '/', '%', '\u{7f}', '\u{85}',
    '\u{a0}', '\u{ad}', '\u{300}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{e9}', '\u{1f600}', '\u{d7ff}', '\u{e000}', '\u{10ffff}'];

pub fn character(r: &mut Rng) -> char {
    match r.below(9) {
        8 => *r.pick(SPECIAL),
        0 => *r.pick(&['\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}',
            '\u{ffff}', '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{10ffff}']),
        1 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
        2 => char::from_u32(0x800 + r.below(0xd000) as u32).unwrap(),
        3 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
        _ => (0x20 + r.below(0x5f) as u8) as char,
    }
}

pub fn length(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 24 } else { 16 }) {
        0..=5 => r.below(4),
        6..=11 => r.below(12),
        12..=13 => 12 + r.below(40),
        14..=15 => r.below(8),
        16..=19 => *r.pick(&[126, 127, 128, 129, 130, 131, 255, 256, 257]),
        20..=22 => 60 + r.below(140),
        _ => *r.pick(&[511, 512, 513, 600, 1000]),
    }
}

pub const INTS: &[K] = &[K::U8, K::U16, K::U32, K::U64, K::I8, K::I16, K::I32, K::I64];
pub const BASIC: &[K] = &[
    K::Unit, K::Bool, K::U8, K::U16, K::U32, K::U64, K::I8, K::I16, K::I32, K::I64, K::F32, K::F64,
    K::Char, K::Str, K::Bytes, K::Us,
];
#[allow(dead_code)]
pub const WRAPPED: &[K] = &[K::Buint, K::Bint, K::Bdec, K::Date, K::Dt];
#[allow(dead_code)]
pub const NATIVE: &[K] = &[K::Nbuint, K::Nbint, K::Nbdec, K::Ndate, K::Ndt];

/// the leaf kinds this build can construct values of
pub fn leaves() -> Vec<K> {
    #[allow(unused_mut)]
    let mut v = BASIC.to_vec();
    #[cfg(all(feature = "num-traits", feature = "num-bigint"))]
    v.extend([K::Buint, K::Bint, K::Nbuint, K::Nbint]);
    #[cfg(all(feature = "num-traits", feature = "num-bigint", feature = "bigdecimal"))]
    v.extend([K::Bdec, K::Nbdec]);
    #[cfg(feature = "time")]
    v.extend([K::Date, K::Dt, K::Ndate, K::Ndt]);
    v
}

pub fn ty(r: &mut Rng, depth: usize) -> Ty {
    if depth == 0 || r.one_in(4) {
        let l = leaves();
        return leaf(*r.pick(&l));
    }
    let d = depth - 1;
    match r.below(12) {
        0 | 1 => node(K::Opt, vec![ty(r, d)]),
        2 | 3 => node(K::Seq, vec![ty(r, d)]),
        4 => node(K::Map, vec![ty(r, d)]),
        5 => node(K::Nt, vec![ty(r, d)]),
        6 | 7 | 8 => {
            let k = *r.pick(&[K::Tup, K::St, K::Ts]);
            let n = *r.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 8]);
            node(k, (0..n).map(|_| ty(r, d)).collect())
        }
        _ => enum_ty(r, d),
    }
}

pub fn enum_ty(r: &mut Rng, d: usize) -> Ty {
    let n = *r.pick(&[1, 2, 3, 4, 5, 7]);
    let s = (0..n)
        .map(|_| match r.below(4) {
            0 => leaf(K::Unit),
            1 => match ty(r, d) {
                // a payload of type () is a newtype variant: same bytes as Unit
                t if t.k == K::Unit => leaf(K::Unit),
                t => t,
            },
            2 => {
                let m = *r.pick(&[0, 2, 2, 3, 4]);
                node(K::Tv, (0..m).map(|_| ty(r, d)).collect())
            }
            _ => {
                let m = *r.pick(&[0, 1, 2, 2, 3]);
                node(K::Sv, (0..m).map(|_| ty(r, d)).collect())
            }
        })
        .collect();
    Ty {
        k: K::Enum,
        s,
        n: *r.pick(&[0, 0, 0, 200, 20_000, 100_000, 4_000_000]),
    }
}

pub fn big_digits(r: &mut Rng, signed: bool) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1 + r.below(4),
        5 | 6 => 1 + r.below(20),
        _ => *r.pick(&[126, 127, 128, 129, 200]),
    };
    let mut b = r.bytes(n);
    if n > 0 {
        match r.below(6) {
            0 => b.iter_mut().for_each(|x| *x = 0xff),
            1 => b.iter_mut().for_each(|x| *x = 0),
            2 => b[n - 1] = 0x7f,
            3 => b[n - 1] = 0x80,
            4 if n > 1 => b[n - 2] = *r.pick(&[0x7f, 0x80, 0xff, 0]),
            _ => {}
        }
    }
    // canonical form
    if signed {
        if n > 0 && b[n - 1] >= 0x80 && r.one_in(3) {
            b.push(0);
        }
        while b.len() >= 2
            && ((b[b.len() - 1] == 0 && b[b.len() - 2] < 0x80)
                || (b[b.len() - 1] == 0xff && b[b.len() - 2] >= 0x80))
        {
            b.pop();
        }
        if b == [0] {
            b.clear();
        }
    } else {
        while b.last() == Some(&0) {
            b.pop();
        }
    }
    b
}

/// digits times a small power of ten, so that trailing zeros are common
pub fn dec_digits(r: &mut Rng) -> Vec<u8> {
    let mut b = big_digits(r, true);
    if b.len() > 24 {
        b.truncate(9);
        *b.last_mut().unwrap() |= 1;
        while b.len() >= 2
            && ((b[b.len() - 1] == 0 && b[b.len() - 2] < 0x80)
                || (b[b.len() - 1] == 0xff && b[b.len() - 2] >= 0x80))
        {
            b.pop();
        }
    }
    let tens = *r.pick(&[0, 0, 0, 1, 2, 3, 10, 25]);
    // two's complement multiplication by ten, one byte of headroom each time
    for _ in 0..tens {
        if b.is_empty() {
            break;
        }
        let neg = b[b.len() - 1] >= 0x80;
        b.push(if neg { 0xff } else { 0 });
        let mut c = 0u32;
        for x in b.iter_mut() {
            let y = *x as u32 * 10 + c;
            *x = y as u8;
            c = y >> 8;
        }
        while b.len() >= 2
            && ((b[b.len() - 1] == 0 && b[b.len() - 2] < 0x80)
                || (b[b.len() - 1] == 0xff && b[b.len() - 2] >= 0x80))
        {
            b.pop();
        }
    }
    b
}

pub fn scale(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0,
        1 | 2 => r.below(30) as i64 - 10,
        3 => *r.pick(&[i64::MIN, i64::MIN + 1, i64::MIN + 2, i64::MAX, i64::MAX - 1, -1, 1]),
        _ => int_bits(r, 64) as i64,
    }
}

pub fn date(r: &mut Rng) -> (i32, u16) {
    let y = match r.below(6) {
        0 => *r.pick(&[-9999, -9998, -1, 0, 1, 4, 1582, 1600, 1700, 1899, 1900, 1904, 1936, 1937,
            1969, 1970, 1972, 1999, 2000, 2001, 2004, 2063, 2064, 2100, 2400, 9996, 9998, 9999]),
        1 => 1900 + r.below(200) as i32,
        _ => r.below(19999) as i32 - 9999,
    };
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let n = if leap { 366 } else { 365 };
    let o = match r.below(4) {
        0 => *r.pick(&[1, 2, 31, 32, 59, 60, 61, 127, 128, 129, 256, 364, 365, n]),
        _ => 1 + r.below(n as usize) as u16,
    };
    (y, o)
}

pub const MIN_SECS: i64 = -377705116800;
pub const MAX_SECS: i64 = 253402300799;

pub fn instant(r: &mut Rng) -> (i64, u32) {
    let s = match r.below(6) {
        0 => *r.pick(&[MIN_SECS, MIN_SECS + 1, MAX_SECS, MAX_SECS - 1, 0, -1, 1, 63, 64, -64, -65]),
        1 => {
            let k = r.below(38) as u32;
            let v = (1i64 << k) + r.below(3) as i64 - 1;
            if r.one_in(2) { -v } else { v }
        }
        _ => MIN_SECS + (r.next() % (MAX_SECS - MIN_SECS + 1) as u64) as i64,
    }
    .clamp(MIN_SECS, MAX_SECS);
    let n = match r.below(4) {
        0 => *r.pick(&[0, 1, 127, 128, 999_999_999, 999_999_998, 500_000_000]),
        1 => (int_bits(r, 29) as u32).min(999_999_999),
        _ => r.below(1_000_000_000) as u32,
    };
    (s, n)
}

pub fn float32(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001,
            0xffff_ffff, 1, 0x007f_ffff, 0x3f80_0000]),
        _ => r.next() as u32,
    }
}

/// sorted: map entries distinct and in increasing key order
pub fn val(r: &mut Rng, t: &Ty, sorted: bool, big: bool) -> Val {
    match t.k {
        K::Unit | K::Us => Val::Unit,
        K::Bool => Val::Bool(r.one_in(2)),
        K::U8 | K::I8 => Val::raw((int_bits(r, 8) as u8).to_le_bytes()),
        K::U16 | K::I16 => Val::raw((int_bits(r, 16) as u16).to_le_bytes()),
        K::U32 | K::I32 => Val::raw((int_bits(r, 32) as u32).to_le_bytes()),
        K::U64 | K::I64 => Val::raw(int_bits(r, 64).to_le_bytes()),
        K::F32 => Val::raw(float32(r).to_le_bytes()),
        K::F64 => Val::raw(
            match r.below(4) {
                0 => *r.pick(&[0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, (0x7ff0 << 48) | 1,
                    u64::MAX, 1, 0x000f_ffff_ffff_ffff]),
                _ => r.next(),
            }
            .to_le_bytes(),
        ),
        K::Char => Val::Char(character(r)),
        K::Str => {
            let n = length(r, big);
            Val::Str(string(r, n))
        }
        K::Bytes => {
            let n = length(r, big);
            Val::Bytes(contents(r, n))
        }
        K::Opt => Val::Opt(if r.one_in(3) { None } else { Some(Box::new(val(r, &t.s[0], sorted, big))) }),
        K::Seq | K::SeqX => {
            let cheap = t.s[0].size() == 1 && !matches!(t.s[0].k, K::Str | K::Bytes);
            let n = if cheap { length(r, big) } else { r.below(5) };
            Val::List(pattern(r, n, |r| val(r, &t.s[0], sorted, big && cheap)))
        }
        K::Map | K::MapX => {
            let n = if t.s[0].size() == 1 && r.one_in(6) { 60 + r.below(80) } else { r.below(4) };
            let mut e: Vec<(Val, Val)> = (0..n)
                .map(|_| {
                    let m = if r.one_in(12) { 120 + r.below(20) } else { r.below(5) };
                    (Val::Str(string(r, m)), val(r, &t.s[0], sorted, false))
                })
                .collect();
            if sorted {
                e.sort_by(|a, b| match (&a.0, &b.0) {
                    (Val::Str(x), Val::Str(y)) => x.cmp(y),
                    _ => unreachable!(),
                });
                e.dedup_by(|a, b| a.0 == b.0);
            }
            Val::Map(e)
        }
        K::MapK => {
            let n = r.below(3);
            Val::Map((0..n).map(|_| (val(r, &t.s[1], sorted, false), val(r, &t.s[0], sorted, false))).collect())
        }
        K::Nt => val(r, &t.s[0], sorted, big),
        K::Tup | K::St | K::Ts | K::Tv | K::Sv => {
            Val::List(t.s.iter().map(|x| val(r, x, sorted, false)).collect())
        }
        K::Enum => {
            let n = t.variants();
            let i = if t.n > t.s.len() && r.one_in(3) {
                match r.below(3) {
                    0 => *r.pick(&[127, 128, 16383, 16384, 16385, 65535, 65536, 2_097_151, 2_097_152, 2_097_153]),
                    1 => n - 1,
                    _ => r.below(n),
                }
                .min(n - 1)
            } else {
                r.below(t.s.len())
            };
            Val::Enum(i as u32, Box::new(val(r, &t.variant(i), sorted, false)))
        }
        K::Buint | K::Nbuint => Val::Big(big_digits(r, false)),
        K::Bint | K::Nbint => Val::Big(big_digits(r, true)),
        K::Bdec | K::Nbdec => {
            let d = dec_digits(r);
            let s = scale(r);
            Val::Dec(d, s)
        }
        K::Date | K::Ndate => Val::Date(Some(date(r))),
        K::Dt | K::Ndt => Val::Dt(Some(instant(r))),
        K::U128 | K::I128 => {
            let mut b = int_bits(r, 64).to_le_bytes().to_vec();
            b.extend(if r.one_in(2) { [0; 8] } else { r.next().to_le_bytes() });
            Val::Raw(b)
        }
    }
}

/// a header: a type of header kinds only
pub const HLEAVES: &[K] = &[
    K::Unit, K::Bool, K::U8, K::U16, K::U32, K::U64, K::I8, K::I16, K::I32, K::I64, K::F32, K::F64,
    K::Buint, K::Bint, K::Bdec, K::Str, K::Bytes, K::Date, K::Dt,
];

pub fn header(r: &mut Rng, depth: usize) -> Ty {
    if depth == 0 || r.one_in(4) {
        return leaf(*r.pick(HLEAVES));
    }
    let d = depth - 1;
    match r.below(8) {
        0 | 1 => node(K::Opt, vec![header(r, d)]),
        2 => node(K::Seq, vec![header(r, d)]),
        3 => node(K::Map, vec![header(r, d)]),
        k => {
            let n = *r.pick(&[0, 1, 2, 2, 3, 4, 6]);
            node(if k < 6 { K::Tup } else { K::Enum }, (0..n).map(|_| header(r, d)).collect())
        }
    }
}

/// does a value of the header exist? (an enum without variants has none)
pub fn inhabited(h: &Ty) -> bool {
    match h.k {
        K::Enum => h.s.iter().any(inhabited),
        K::Tup => h.s.iter().all(inhabited),
        _ => true, // opt, seq and map have their empty value
    }
}

/// a value of an inhabited header, and None where a part has none
pub fn hval(r: &mut Rng, h: &Ty) -> Option<Val> {
    match h.k {
        K::Opt => Some(Val::Opt(if r.one_in(3) { None } else { hval(r, &h.s[0]).map(Box::new) })),
        K::Seq => {
            if !inhabited(&h.s[0]) {
                return Some(Val::List(vec![]));
            }
            let n = if h.s[0].size() == 1 && r.one_in(8) { length(r, true) } else { r.below(4) };
            (0..n).map(|_| hval(r, &h.s[0])).collect::<Option<Vec<_>>>().map(Val::List)
        }
        K::Map => {
            if !inhabited(&h.s[0]) {
                return Some(Val::Map(vec![]));
            }
            let t = node(K::Map, vec![leaf(K::Unit)]);
            let keys = match val(r, &t, true, false) {
                Val::Map(e) => e,
                _ => unreachable!(),
            };
            keys.into_iter()
                .map(|(k, _)| hval(r, &h.s[0]).map(|v| (k, v)))
                .collect::<Option<Vec<_>>>()
                .map(Val::Map)
        }
        K::Tup => h.s.iter().map(|x| hval(r, x)).collect::<Option<Vec<_>>>().map(Val::List),
        K::Enum => {
            let ok: Vec<usize> = (0..h.s.len()).filter(|i| inhabited(&h.s[*i])).collect();
            if ok.is_empty() {
                return None;
            }
            let i = *r.pick(&ok);
            hval(r, &h.s[i]).map(|v| Val::Enum(i as u32, Box::new(v)))
        }
        _ => Some(val(r, h, true, true)),
    }
}

/// a damaged encoding, or bytes that look like one
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..1 + r.below(3) {
        let edge = [0u8, 1, 2, 3, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4,
            0xf8, 0xfc, 0xfe, 0xff];
        match r.below(6) {
            0 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            1 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = *r.pick(&edge);
            }
            2 => {
                let i = r.below(b.len() + 1);
                b.insert(i, *r.pick(&edge));
            }
            3 if !b.is_empty() => {
                let i = r.below(b.len());
                b.remove(i);
            }
            4 if !b.is_empty() => {
                // an overlong or different length/integer in place of one byte
                let i = r.below(b.len());
                let v = b[i] as u64;
                let f: Vec<u8> = match r.below(5) {
                    0 => vec![0x80 | (v & 0x3f) as u8, (v >> 6) as u8],
                    1 => vec![0xc0 | (v & 0x1f) as u8, (v >> 5) as u8, 0],
                    2 => [&[0xf0][..], &(v as u32).to_le_bytes()].concat(),
                    3 => [&[0xff][..], &v.to_le_bytes()].concat(),
                    _ => [&[0xff][..], &(v << r.below(60)).to_le_bytes()].concat(),
                };
                b.splice(i..i + 1, f);
            }
            _ => {
                let i = r.below(b.len() + 1);
                b.truncate(i);
            }
        }
    }
    b
}

/// bytes over a small alphabet of tags, small counts and varint prefixes
pub fn soup(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| match r.below(4) {
            0 => r.below(4) as u8,
            1 => r.below(32) as u8,
            2 => *r.pick(&[0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xe0, 0xe2, 0xed, 0xf0, 0xf4, 0xf8, 0xfe, 0xff, b'a']),
            _ => r.next() as u8,
        })
        .collect()
}
