use crate::elem::*;
use crate::nd::*;
use rowcol::prelude::*;

macro_rules! body {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn transposed [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let m = Matrix::<u8, $R, $C>::new(a);
                let t: Matrix<u8, $C, $R> = m.transposed();
                assert!(t.dim() == ($c, $r));
                for i in 0..$r { for j in 0..$c { assert!(t[(j, i)] == a[i][j] && m[(i, j)] == a[i][j]); } }
            }
            fn twice [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let t = Matrix::<u8, $R, $C>::new(a).transposed().transposed();
                for i in 0..$r { for j in 0..$c { assert!(t[(i, j)] == a[i][j]); } }
            }
        }
    };
}
macro_rules! square {
    ($R:ident, $r:literal, $unw:literal) => {
        harnesses! {
            fn in_place [$unw] {
                let a: [[u8; $r]; $r] = arr2();
                let mut m = Matrix::<u8, $R, $R>::new(a);
                m.transpose();
                for i in 0..$r { for j in 0..$r { assert!(m[(j, i)] == a[i][j]); } }
            }
        }
    };
}
macro_rules! product {
    ($L:ident, $N:ident, $R:ident, $l:literal, $n:literal, $r:literal, $unw:literal) => {
        harnesses! {
            fn of_product [$unw] {
                let a = Matrix::<Z, $L, $N>::generate(|_| Z::any());
                let b = Matrix::<Z, $N, $R>::generate(|_| Z::any());
                assert!((a * b).transposed() == b.transposed() * a.transposed());
            }
        }
    };
}
pub mod any_shape {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { body;
        m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6)
        m1_3(U1, U3, 1, 3, 7) m3_1(U3, U1, 3, 1, 7) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m5_4(U5, U4, 5, 4, 24)
    }
    #[cfg(feature = "thorough")]
    shapes! { body;
        m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_2(U2, U2, 2, 2, 8)
        m1_3(U1, U3, 1, 3, 7) m3_1(U3, U1, 3, 1, 7) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m5_4(U5, U4, 5, 4, 24)
        m3_3(U3, U3, 3, 3, 13) m4_4(U4, U4, 4, 4, 20) m5_2(U5, U2, 5, 2, 14) m2_7(U2, U7, 2, 7, 18) m6_5(U6, U5, 6, 5, 34) m1_32(U1, U32, 1, 32, 36) m32_1(U32, U1, 32, 1, 36)
    }
}
pub mod square {
    use super::*;
    shapes! { square; m0(U0, 0, 5) m1(U1, 1, 6) m2(U2, 2, 8) m3(U3, 3, 13) m4(U4, 4, 20) m5(U5, 5, 29) }
}
pub mod product {
    use super::*;
    shapes! { product; p122(U1, U2, U2, 1, 2, 2, 8) p221(U2, U2, U1, 2, 2, 1, 8) p212(U2, U1, U2, 2, 1, 2, 8) p222(U2, U2, U2, 2, 2, 2, 8) p202(U2, U0, U2, 2, 0, 2, 8) }
}
pub fn table() -> crate::Table { let mut t = any_shape::table(); t.extend(square::table()); t.extend(product::table()); t }
wide! { any_shape: wide_mats body; square: wide_squares square; product: wide_products product; }
