//! Stand-in for `ethnum`: 256-bit integers as two native endian u128 halves (low half first).
use std::{
    cmp::Ordering,
    fmt,
    ops::{BitAnd, BitOr, BitOrAssign, BitXor, Div, DivAssign, Not, Shl, Shr},
};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct U256(pub [u128; 2]);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct I256(pub [i128; 2]);

impl U256 {
    pub const ZERO: Self = U256([0, 0]);
    pub const ONE: Self = U256([1, 0]);
    pub const MAX: Self = U256([u128::MAX, u128::MAX]);

    fn limbs(self) -> [u64; 4] {
        [self.0[0] as u64, (self.0[0] >> 64) as u64, self.0[1] as u64, (self.0[1] >> 64) as u64]
    }
    fn from_limbs(l: [u64; 4]) -> Self {
        U256([l[0] as u128 | (l[1] as u128) << 64, l[2] as u128 | (l[3] as u128) << 64])
    }
    pub fn wrapping_add(self, r: Self) -> Self {
        let (lo, c) = self.0[0].overflowing_add(r.0[0]);
        U256([lo, self.0[1].wrapping_add(r.0[1]).wrapping_add(c as u128)])
    }
    pub fn wrapping_sub(self, r: Self) -> Self {
        let (lo, c) = self.0[0].overflowing_sub(r.0[0]);
        U256([lo, self.0[1].wrapping_sub(r.0[1]).wrapping_sub(c as u128)])
    }
    pub fn overflowing_add(self, r: Self) -> (Self, bool) {
        let v = self.wrapping_add(r);
        (v, v < self)
    }
    pub fn overflowing_sub(self, r: Self) -> (Self, bool) {
        (self.wrapping_sub(r), self < r)
    }
    pub fn wrapping_mul(self, r: Self) -> Self {
        let (a, b) = (self.limbs(), r.limbs());
        let mut o = [0u64; 4];
        for i in 0..4 {
            let mut carry = 0u128;
            for j in 0..4 - i {
                let t = a[i] as u128 * b[j] as u128 + o[i + j] as u128 + carry;
                o[i + j] = t as u64;
                carry = t >> 64;
            }
        }
        Self::from_limbs(o)
    }
    fn div_rem(self, d: Self) -> (Self, Self) {
        assert!(d != Self::ZERO, "attempt to divide by zero");
        if self < d {
            return (Self::ZERO, self);
        }
        if d.0[1] == 0 && d.0[0] <= u64::MAX as u128 {
            let mut l = self.limbs();
            let mut rem = 0u128;
            for i in (0..4).rev() {
                let cur = rem << 64 | l[i] as u128;
                l[i] = (cur / d.0[0]) as u64;
                rem = cur % d.0[0];
            }
            return (Self::from_limbs(l), U256([rem, 0]));
        }
        let mut shift = d.leading_zeros() - self.leading_zeros();
        let (mut q, mut r, mut d) = (Self::ZERO, self, d.wrapping_shl(shift));
        loop {
            if r >= d {
                r = r.wrapping_sub(d);
                q = q | Self::ONE.wrapping_shl(shift);
            }
            if shift == 0 {
                return (q, r);
            }
            shift -= 1;
            d = d.wrapping_shr(1);
        }
    }
    pub fn wrapping_div(self, r: Self) -> Self {
        self.div_rem(r).0
    }
    pub fn wrapping_rem(self, r: Self) -> Self {
        self.div_rem(r).1
    }
    pub fn wrapping_shl(self, n: u32) -> Self {
        let n = n & 255;
        let [lo, hi] = self.0;
        if n == 0 {
            self
        } else if n < 128 {
            U256([lo << n, hi << n | lo >> (128 - n)])
        } else {
            U256([0, lo << (n - 128)])
        }
    }
    pub fn wrapping_shr(self, n: u32) -> Self {
        let n = n & 255;
        let [lo, hi] = self.0;
        if n == 0 {
            self
        } else if n < 128 {
            U256([lo >> n | hi << (128 - n), hi >> n])
        } else {
            U256([hi >> (n - 128), 0])
        }
    }
    pub fn leading_zeros(self) -> u32 {
        if self.0[1] != 0 {
            self.0[1].leading_zeros()
        } else {
            128 + self.0[0].leading_zeros()
        }
    }
    pub fn trailing_zeros(self) -> u32 {
        if self.0[0] != 0 {
            self.0[0].trailing_zeros()
        } else {
            128 + self.0[1].trailing_zeros()
        }
    }
    pub fn as_i256(self) -> I256 {
        I256([self.0[0] as i128, self.0[1] as i128])
    }
    pub fn swap_bytes(self) -> Self {
        U256([self.0[1].swap_bytes(), self.0[0].swap_bytes()])
    }
    pub fn to_be(self) -> Self {
        self.swap_bytes() // little endian targets only
    }
    pub fn from_le_bytes(b: [u8; 32]) -> Self {
        let (mut lo, mut hi) = ([0; 16], [0; 16]);
        lo.copy_from_slice(&b[..16]);
        hi.copy_from_slice(&b[16..]);
        U256([u128::from_le_bytes(lo), u128::from_le_bytes(hi)])
    }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self {
        b.reverse();
        Self::from_le_bytes(b)
    }
    pub fn to_le_bytes(self) -> [u8; 32] {
        let mut b = [0; 32];
        b[..16].copy_from_slice(&self.0[0].to_le_bytes());
        b[16..].copy_from_slice(&self.0[1].to_le_bytes());
        b
    }
    pub fn to_be_bytes(self) -> [u8; 32] {
        let mut b = self.to_le_bytes();
        b.reverse();
        b
    }
}

impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0[1].cmp(&o.0[1]).then(self.0[0].cmp(&o.0[0]))
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl BitAnd for U256 {
    type Output = Self;
    fn bitand(self, r: Self) -> Self {
        U256([self.0[0] & r.0[0], self.0[1] & r.0[1]])
    }
}
impl BitOr for U256 {
    type Output = Self;
    fn bitor(self, r: Self) -> Self {
        U256([self.0[0] | r.0[0], self.0[1] | r.0[1]])
    }
}
impl BitOrAssign for U256 {
    fn bitor_assign(&mut self, r: Self) {
        *self = *self | r;
    }
}
impl BitXor for U256 {
    type Output = Self;
    fn bitxor(self, r: Self) -> Self {
        U256([self.0[0] ^ r.0[0], self.0[1] ^ r.0[1]])
    }
}
impl Not for U256 {
    type Output = Self;
    fn not(self) -> Self {
        U256([!self.0[0], !self.0[1]])
    }
}
impl Div for U256 {
    type Output = Self;
    fn div(self, r: Self) -> Self {
        self.div_rem(r).0
    }
}
impl DivAssign for U256 {
    fn div_assign(&mut self, r: Self) {
        *self = *self / r;
    }
}
// as for the built-in types, shifting by 256 or more is an error
impl Shl<usize> for U256 {
    type Output = Self;
    fn shl(self, n: usize) -> Self {
        debug_assert!(n < 256, "attempt to shift left with overflow");
        self.wrapping_shl(n as u32)
    }
}
impl Shr<usize> for U256 {
    type Output = Self;
    fn shr(self, n: usize) -> Self {
        debug_assert!(n < 256, "attempt to shift right with overflow");
        self.wrapping_shr(n as u32)
    }
}
impl Shl<u32> for U256 {
    type Output = Self;
    fn shl(self, n: u32) -> Self {
        self << n as usize
    }
}
impl Shr<u32> for U256 {
    type Output = Self;
    fn shr(self, n: u32) -> Self {
        self >> n as usize
    }
}
macro_rules! from_int {
    ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { U256([v as u128, 0]) } })* };
}
from_int!(bool, u8, u16, u32, u64, u128);
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut v = *self;
        let ten = U256::from(10u8);
        let mut s = Vec::new();
        loop {
            let (q, r) = v.div_rem(ten);
            s.push(b'0' + r.0[0] as u8);
            v = q;
            if v == U256::ZERO {
                break;
            }
        }
        s.reverse();
        f.pad_integral(true, "", std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

impl I256 {
    pub fn is_negative(self) -> bool {
        self.0[1] < 0
    }
    pub fn as_u256(self) -> U256 {
        U256([self.0[0] as u128, self.0[1] as u128])
    }
    fn abs(self) -> U256 {
        if self.is_negative() {
            U256::ZERO.wrapping_sub(self.as_u256())
        } else {
            self.as_u256()
        }
    }
    pub fn wrapping_div(self, r: Self) -> Self {
        let q = self.abs().wrapping_div(r.abs());
        if self.is_negative() != r.is_negative() {
            U256::ZERO.wrapping_sub(q).as_i256()
        } else {
            q.as_i256()
        }
    }
    pub fn wrapping_rem(self, r: Self) -> Self {
        let m = self.abs().wrapping_rem(r.abs());
        if self.is_negative() {
            U256::ZERO.wrapping_sub(m).as_i256()
        } else {
            m.as_i256()
        }
    }
}
impl Ord for I256 {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0[1].cmp(&o.0[1]).then((self.0[0] as u128).cmp(&(o.0[0] as u128)))
    }
}
impl PartialOrd for I256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
