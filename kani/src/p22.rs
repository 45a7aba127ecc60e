use crate::nd::*;
use approx::ApproxEq;
use rowcol::prelude::*;

/// Arbitrary comparison predicates, depending on both operands in order and on every tolerance.
#[derive(Clone, Copy, PartialEq, Debug)]
struct X(u8);
fn rel(a: u8, b: u8, e: u8, r: u8) -> bool { (a ^ b.rotate_left(1)).wrapping_add(e.rotate_left(2)) ^ r.rotate_left(5) > 24 }
fn ulp(a: u8, b: u8, e: u8, u: u32) -> bool { (a.rotate_left(3) ^ b).wrapping_sub(e.rotate_left(1)) ^ (u as u8) > 31 }
impl ApproxEq for X {
    type Epsilon = u8;
    fn default_epsilon() -> u8 { 11 }
    fn default_max_relative() -> u8 { 22 }
    fn default_max_ulps() -> u32 { 33 }
    fn relative_eq(&self, o: &X, e: u8, r: u8) -> bool { rel(self.0, o.0, e, r) }
    fn ulps_eq(&self, o: &X, e: u8, u: u32) -> bool { ulp(self.0, o.0, e, u) }
}
macro_rules! matrix {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn relative [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2(); let (e, r): (u8, u8) = (any(), any());
                let (v, w) = (Matrix::<X, $R, $C>::generate(|(i, j)| X(a[i][j])), Matrix::<X, $R, $C>::generate(|(i, j)| X(b[i][j])));
                let mut t = true;
                for i in 0..$r { for j in 0..$c { t &= rel(a[i][j], b[i][j], e, r); } }
                assert!(v.relative_eq(&w, e, r) == t && v.relative_ne(&w, e, r) == !t);
            }
            fn ulps [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2(); let e: u8 = any(); let u: u32 = any();
                let (v, w) = (Matrix::<X, $R, $C>::generate(|(i, j)| X(a[i][j])), Matrix::<X, $R, $C>::generate(|(i, j)| X(b[i][j])));
                let mut t = true;
                for i in 0..$r { for j in 0..$c { t &= ulp(a[i][j], b[i][j], e, u); } }
                assert!(v.ulps_eq(&w, e, u) == t && v.ulps_ne(&w, e, u) == !t);
            }
            fn defaults [$unw] {
                assert!(<Matrix<X, $R, $C> as ApproxEq>::default_epsilon() == 11);
                assert!(<Matrix<X, $R, $C> as ApproxEq>::default_max_relative() == 22);
                assert!(<Matrix<X, $R, $C> as ApproxEq>::default_max_ulps() == 33);
            }
        }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { matrix; m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) }
#[cfg(feature = "thorough")]
shapes! { matrix; m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m4_3(U4, U3, 4, 3, 16) m3_3(U3, U3, 3, 3, 13) m4_4(U4, U4, 4, 4, 20) }
wide! { matrix: wide_mats matrix; }
