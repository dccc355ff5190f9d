//! Stand-in for `bnum`: just the 256 and 512-bit unsigned integers.
use std::{
    cmp::Ordering,
    ops::{Add, Mul, Rem},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BUint<const N: usize> {
    digits: [u64; N],
}
pub mod types {
    pub type U256 = crate::BUint<4>;
    pub type U512 = crate::BUint<8>;
}
pub mod cast {
    pub trait CastFrom<T> {
        fn cast_from(from: T) -> Self;
    }
}
impl<const N: usize> BUint<N> {
    pub const fn from_digits(digits: [u64; N]) -> Self {
        BUint { digits }
    }
    pub const fn digits(&self) -> &[u64; N] {
        &self.digits
    }
    fn bit(&self, i: usize) -> u64 {
        self.digits[i / 64] >> (i % 64) & 1
    }
    fn bits(&self) -> usize {
        for i in (0..N).rev() {
            if self.digits[i] != 0 {
                return i * 64 + 64 - self.digits[i].leading_zeros() as usize;
            }
        }
        0
    }
}
impl<const M: usize, const N: usize> cast::CastFrom<BUint<M>> for BUint<N> {
    fn cast_from(from: BUint<M>) -> Self {
        let mut digits = [0; N];
        for (d, s) in digits.iter_mut().zip(from.digits.iter()) {
            *d = *s;
        }
        BUint { digits }
    }
}
impl<const N: usize> Ord for BUint<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.digits.iter().rev().cmp(o.digits.iter().rev())
    }
}
impl<const N: usize> PartialOrd for BUint<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Add for BUint<N> {
    type Output = Self;
    fn add(self, r: Self) -> Self {
        let mut digits = [0; N];
        let mut carry = 0u128;
        for i in 0..N {
            let t = self.digits[i] as u128 + r.digits[i] as u128 + carry;
            digits[i] = t as u64;
            carry = t >> 64;
        }
        debug_assert!(carry == 0, "attempt to add with overflow");
        BUint { digits }
    }
}
impl<const N: usize> Mul for BUint<N> {
    type Output = Self;
    fn mul(self, r: Self) -> Self {
        let mut digits = [0u64; N];
        for i in 0..N {
            let mut carry = 0u128;
            for j in 0..N - i {
                let t = self.digits[i] as u128 * r.digits[j] as u128 + digits[i + j] as u128 + carry;
                digits[i + j] = t as u64;
                carry = t >> 64;
            }
        }
        BUint { digits }
    }
}
impl<const N: usize> Rem for BUint<N> {
    type Output = Self;
    fn rem(self, m: Self) -> Self {
        assert!(m.bits() != 0, "attempt to calculate remainder with a divisor of zero");
        let mut r = BUint { digits: [0; N] };
        for i in (0..self.bits()).rev() {
            let top = r.digits[N - 1] >> 63;
            for k in (1..N).rev() {
                r.digits[k] = r.digits[k] << 1 | r.digits[k - 1] >> 63;
            }
            r.digits[0] = r.digits[0] << 1 | self.bit(i);
            if top != 0 || r >= m {
                let mut borrow = false;
                for k in 0..N {
                    let (d, b1) = r.digits[k].overflowing_sub(m.digits[k]);
                    let (d, b2) = d.overflowing_sub(borrow as u64);
                    r.digits[k] = d;
                    borrow = b1 || b2;
                }
            }
        }
        r
    }
}
