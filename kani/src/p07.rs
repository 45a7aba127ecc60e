use crate::nd::*;
use rowcol::prelude::*;

macro_rules! body {
    ($R:ident, $C:ident, $r:literal, $c:literal, $P:ident, $unw:literal) => {
        harnesses! {
            fn new_is_row_major [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let m = Matrix::<u8, $R, $C>::new(a);
                assert!(m.rows() == $r && m.cols() == $c && m.dim() == ($r, $c));
                for i in 0..$r { for j in 0..$c { assert!(m[(i, j)] == a[i][j]); } }
            }
            fn generate_row_major_once [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let mut k = 0usize;
                let m = Matrix::<u8, $R, $C>::generate(|(i, j)| {
                    assert!(i < $r && j < $c && i * $c + j == k); k += 1; a[i][j] });
                assert!(k == $r * $c);
                for i in 0..$r { for j in 0..$c { assert!(m[(i, j)] == a[i][j]); } }
            }
        }
    };
}
macro_rules! conv {
    ($R:ident, $C:ident, $r:literal, $c:literal, $P:ident, $unw:literal) => {
        harnesses! {
            fn from_vector [$unw] {
                let a: [u8; $r * $c] = arr();
                let m: Matrix<u8, $R, $C> = Matrix::from(Vector::<u8, $P>::new(a));
                for i in 0..$r { for j in 0..$c { assert!(m[(i, j)] == a[i * $c + j]); } }
            }
        }
    };
}
pub mod any_shape {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { body;
        m0_0(U0, U0, 0, 0, U0, 5) m0_2(U0, U2, 0, 2, U0, 6) m2_0(U2, U0, 2, 0, U0, 6) m1_1(U1, U1, 1, 1, U1, 6)
        m1_3(U1, U3, 1, 3, U3, 7) m3_1(U3, U1, 3, 1, U3, 7) m2_3(U2, U3, 2, 3, U6, 10) m3_2(U3, U2, 3, 2, U6, 10) m4_3(U4, U3, 4, 3, U12, 16)
    }
    #[cfg(feature = "thorough")]
    shapes! { body;
        m0_0(U0, U0, 0, 0, U0, 5) m0_2(U0, U2, 0, 2, U0, 6) m2_0(U2, U0, 2, 0, U0, 6) m1_1(U1, U1, 1, 1, U1, 6)
        m1_3(U1, U3, 1, 3, U3, 7) m3_1(U3, U1, 3, 1, U3, 7) m2_2(U2, U2, 2, 2, U4, 8) m2_3(U2, U3, 2, 3, U6, 10) m3_2(U3, U2, 3, 2, U6, 10)
        m4_3(U4, U3, 4, 3, U12, 16) m3_3(U3, U3, 3, 3, U9, 13) m4_4(U4, U4, 4, 4, U16, 20) m5_2(U5, U2, 5, 2, U10, 14)
        m2_7(U2, U7, 2, 7, U14, 18) m1_32(U1, U32, 1, 32, U32, 36) m32_1(U32, U1, 32, 1, U32, 36) m6_5(U6, U5, 6, 5, U30, 34)
    }
}
pub mod from_vector {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { conv;
        m0_2(U0, U2, 0, 2, U0, 6) m1_1(U1, U1, 1, 1, U1, 6)
        m1_3(U1, U3, 1, 3, U3, 7) m3_1(U3, U1, 3, 1, U3, 7) m2_3(U2, U3, 2, 3, U6, 10) m3_2(U3, U2, 3, 2, U6, 10) m4_3(U4, U3, 4, 3, U12, 16)
    }
    #[cfg(feature = "thorough")]
    shapes! { conv;
        m0_2(U0, U2, 0, 2, U0, 6) m1_1(U1, U1, 1, 1, U1, 6)
        m1_3(U1, U3, 1, 3, U3, 7) m3_1(U3, U1, 3, 1, U3, 7) m2_2(U2, U2, 2, 2, U4, 8) m2_3(U2, U3, 2, 3, U6, 10) m3_2(U3, U2, 3, 2, U6, 10)
        m4_3(U4, U3, 4, 3, U12, 16) m3_3(U3, U3, 3, 3, U9, 13) m4_4(U4, U4, 4, 4, U16, 20) m5_2(U5, U2, 5, 2, U10, 14)
        m2_7(U2, U7, 2, 7, U14, 18) m1_32(U1, U32, 1, 32, U32, 36) m32_1(U32, U1, 32, 1, U32, 36) m6_5(U6, U5, 6, 5, U30, 34)
    }
}
pub fn table() -> crate::Table { let mut t = any_shape::table(); t.extend(from_vector::table()); t }
wide! { any_shape: wide_mats_new body; from_vector: wide_mats_prod conv; }
