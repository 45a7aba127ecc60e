use crate::nd::*;
use rowcol::prelude::*;

macro_rules! body {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn map_row_major_once [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let b: [[u16; $c]; $r] = core::array::from_fn(|_| core::array::from_fn(|_| any::<u16>()));
                let m = Matrix::<u8, $R, $C>::new(a);
                let mut k = 0usize;
                let w: Matrix<u16, $R, $C> = m.map(|(i, j), x| {
                    assert!(i < $r && j < $c && i * $c + j == k && x == a[i][j]); k += 1; b[i][j] });
                assert!(k == $r * $c);
                for i in 0..$r { for j in 0..$c { assert!(w[(i, j)] == b[i][j]); } }
            }
            fn all_short_circuits [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let m = Matrix::<u8, $R, $C>::new(a);
                let stop: usize = any();
                let mut k = 0usize;
                let t = m.all(|(i, j), x| {
                    assert!(i < $r && j < $c && i * $c + j == k && *x == a[i][j] && k <= stop); k += 1; k - 1 != stop });
                assert!(t == (stop >= $r * $c) && k == if t { $r * $c } else { stop + 1 });
            }
            fn any_short_circuits [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let m = Matrix::<u8, $R, $C>::new(a);
                let stop: usize = any();
                let mut k = 0usize;
                let t = m.any(|(i, j), x| {
                    assert!(i < $r && j < $c && i * $c + j == k && *x == a[i][j] && k <= stop); k += 1; k - 1 == stop });
                assert!(t == (stop < $r * $c) && k == if t { stop + 1 } else { $r * $c });
            }
        }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { body;
    m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6)
    m1_3(U1, U3, 1, 3, 7) m3_1(U3, U1, 3, 1, 7) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m4_3(U4, U3, 4, 3, 16)
}
#[cfg(feature = "thorough")]
shapes! { body;
    m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_2(U2, U2, 2, 2, 8)
    m1_3(U1, U3, 1, 3, 7) m3_1(U3, U1, 3, 1, 7) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m4_3(U4, U3, 4, 3, 16)
    m3_3(U3, U3, 3, 3, 13) m4_4(U4, U4, 4, 4, 20) m5_2(U5, U2, 5, 2, 14) m2_7(U2, U7, 2, 7, 18) m6_5(U6, U5, 6, 5, 34) m1_32(U1, U32, 1, 32, 36) m32_1(U32, U1, 32, 1, 36)
}
wide! { body: wide_mats body; }
