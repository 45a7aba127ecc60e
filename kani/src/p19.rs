use crate::elem::*;
use crate::nd::*;
use rowcol::prelude::*;
use std::cmp::Ordering;

/// Membership and order are checked by value: the maximum is >= every element and is one of them.
fn is_max(x: u8, a: &[u8]) -> bool { let (mut any, mut all) = (false, true); for &y in a { any |= x == y; all &= x >= y; } any && all }
fn is_min(x: u8, a: &[u8]) -> bool { let (mut any, mut all) = (false, true); for &y in a { any |= x == y; all &= x <= y; } any && all }
/// A total order that is not the natural one (a bijection of the values, reversed).
fn key(x: u8) -> u8 { (x ^ 0x5a).rotate_left(3) }
fn cmp_key(a: &u8, b: &u8) -> Ordering { key(*b).cmp(&key(*a)) }
fn keys<const N: usize>(a: [u8; N]) -> [u8; N] { let mut b = a; for k in 0..N { b[k] = !key(a[k]); } b }
fn inside(x: &u8, base: *const u8, n: usize) -> bool { let p = x as *const u8 as usize; p >= base as usize && p < base as usize + n }

macro_rules! sums {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn sum [$unw] {
                let a: [u8; $n] = arr();
                let mut e = Z(0);
                for k in 0..$n { e = e + Z(a[k] & 15); }
                assert!(Vector::<Z, $U>::generate(|k| Z(a[k] & 15)).sum() == e);
            }
        }
    };
}
macro_rules! minmax {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn natural [$unw] {
                let a: [u8; $n] = arr();
                let v = Vector::<u8, $U>::new(a);
                assert!(is_max(v.max(), &a) && is_min(v.min(), &a));
            }
            fn comparator [$unw] {
                let a: [u8; $n] = arr();
                let v = Vector::<u8, $U>::new(a);
                let base = v.as_slice().as_ptr();
                let x = v.max_by(|p, q| { assert!(inside(p, base, $n) && inside(q, base, $n)); cmp_key(p, q) });
                let y = v.min_by(|p, q| { assert!(inside(p, base, $n) && inside(q, base, $n)); cmp_key(p, q) });
                let b = keys(a);
                assert!(is_max(!key(x), &b) && is_min(!key(y), &b));
            }
        }
    };
}
macro_rules! msum {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn sum [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let mut e = Z(0);
                for i in 0..$r { for j in 0..$c { e = e + Z(a[i][j] & 15); } }
                assert!(Matrix::<Z, $R, $C>::generate(|(i, j)| Z(a[i][j] & 15)).sum() == e);
            }
        }
    };
}
macro_rules! mminmax {
    ($N:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn natural [$unw] {
                let a: [[u8; $n]; $n] = arr2();
                let mut f = [0u8; $n * $n];
                for i in 0..$n { for j in 0..$n { f[i * $n + j] = a[i][j]; } }
                let m = Matrix::<u8, $N, $N>::new(a);
                assert!(is_max(m.max(), &f) && is_min(m.min(), &f));
            }
            fn comparator [$unw] {
                let a: [[u8; $n]; $n] = arr2();
                let mut f = [0u8; $n * $n];
                for i in 0..$n { for j in 0..$n { f[i * $n + j] = a[i][j]; } }
                let m = Matrix::<u8, $N, $N>::new(a);
                let b = keys(f);
                let base = &m as *const _ as *const u8;
                let x = m.max_by(|p, q| { assert!(inside(p, base, $n * $n) && inside(q, base, $n * $n)); cmp_key(p, q) });
                let y = m.min_by(|p, q| { assert!(inside(p, base, $n * $n) && inside(q, base, $n * $n)); cmp_key(p, q) });
                assert!(is_max(!key(x), &b) && is_min(!key(y), &b));
            }
        }
    };
}
pub mod vsum {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { sums; l0(U0, 0, 5) l1(U1, 1, 6) l2(U2, 2, 7) l3(U3, 3, 8) l5(U5, 5, 10) l17(U17, 17, 22) }
    #[cfg(feature = "thorough")]
    all_lens! { sums }
}
pub mod vminmax {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { minmax; l1(U1, 1, 6) l2(U2, 2, 7) l3(U3, 3, 8) l5(U5, 5, 10) }
    #[cfg(feature = "thorough")]
    shapes! { minmax; l1(U1, 1, 6) l2(U2, 2, 7) l3(U3, 3, 8) l4(U4, 4, 9) l5(U5, 5, 10) l6(U6, 6, 11) l7(U7, 7, 12) l8(U8, 8, 13) l12(U12, 12, 17) }
}
pub mod matsum {
    use super::*;
    shapes! { msum; m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m4_3(U4, U3, 4, 3, 16) }
}
pub mod matminmax {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { mminmax; m1(U1, 1, 6) m2(U2, 2, 8) }
    #[cfg(feature = "thorough")]
    shapes! { mminmax; m1(U1, 1, 6) m2(U2, 2, 8) m3(U3, 3, 13) }
}
pub fn table() -> crate::Table { let mut t = vsum::table(); t.extend(vminmax::table()); t.extend(matsum::table()); t.extend(matminmax::table()); t }
wide! { vsum: wide_lens sums; vminmax: wide_pos minmax; matsum: wide_mats msum; matminmax: wide_pos_squares mminmax; }
