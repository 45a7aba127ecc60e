use crate::nd::*;
use rowcol::prelude::*;

fn limit(x: u8, lo: u8, hi: u8) -> u8 { if x < lo { lo } else if x > hi { hi } else { x } }
macro_rules! vector {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn clamp [$unw] {
                let a: [u8; $n] = arr(); let (lo, hi): (u8, u8) = (any(), any()); assume(lo <= hi);
                let mut v = Vector::<u8, $U>::new(a);
                let w = v.clamped(lo, hi);
                for k in 0..$n { assert!(v.as_slice()[k] == a[k]); }
                v.clamp(lo, hi);
                for k in 0..$n { let e = limit(a[k], lo, hi); assert!(v.as_slice()[k] == e && w.as_slice()[k] == e); }
            }
        }
    };
}
macro_rules! matrix {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn clamp [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let (lo, hi): (u8, u8) = (any(), any()); assume(lo <= hi);
                let mut v = Matrix::<u8, $R, $C>::new(a);
                let w = v.clamped(lo, hi);
                for i in 0..$r { for j in 0..$c { assert!(v[(i, j)] == a[i][j]); } }
                v.clamp(lo, hi);
                for i in 0..$r { for j in 0..$c { let e = limit(a[i][j], lo, hi); assert!(v[(i, j)] == e && w[(i, j)] == e); } }
            }
        }
    };
}
pub mod vector {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { vector; l0(U0, 0, 5) l1(U1, 1, 6) l2(U2, 2, 7) l3(U3, 3, 8) l5(U5, 5, 10) l8(U8, 8, 13) l17(U17, 17, 22) }
    #[cfg(feature = "thorough")]
    all_lens! { vector }
}
pub mod matrix {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { matrix; m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) }
    #[cfg(feature = "thorough")]
    shapes! { matrix; m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m4_3(U4, U3, 4, 3, 16) m3_3(U3, U3, 3, 3, 13) m5_5(U5, U5, 5, 5, 30) }
}
pub fn table() -> crate::Table { let mut t = vector::table(); t.extend(matrix::table()); t }
wide! { vector: wide_lens vector; matrix: wide_mats matrix; }
