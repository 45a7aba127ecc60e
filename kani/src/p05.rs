use crate::nd::*;
use rowcol::prelude::*;

macro_rules! body {
    ($U:ident, $n:literal, $I:ident, $i:literal, $ops:literal, $unw:literal) => {
        deque_harnesses! { [$unw, $ops] { arr::<$n>() }; $n / $i;
            |a| Vector::<u8, $U>::new(*a).into_chunks::<$I>();
            |x, c, a| { let x = x.into_inner(); let mut ok = true; for k in 0..$i { ok = ok && x[k] == a[c * $i + k]; } ok } }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { body;
    c0_1(U0, 0, U1, 1, 1, 9) c3_1(U3, 3, U1, 1, 1, 9) c4_2(U4, 4, U2, 2, 1, 9) c6_3(U6, 6, U3, 3, 1, 10)
    c4_4(U4, 4, U4, 4, 1, 9)
}
#[cfg(feature = "thorough")]
shapes! { body;
    c0_1(U0, 0, U1, 1, 1, 9) c0_5(U0, 0, U5, 5, 1, 9) c1_1(U1, 1, U1, 1, 2, 9) c3_1(U3, 3, U1, 1, 2, 9) c4_2(U4, 4, U2, 2, 2, 9) c6_2(U6, 6, U2, 2, 2, 10) c6_3(U6, 6, U3, 3, 2, 10)
    c4_4(U4, 4, U4, 4, 2, 9) c8_2(U8, 8, U2, 2, 1, 12) c9_3(U9, 9, U3, 3, 2, 13) c12_4(U12, 12, U4, 4, 1, 16) c32_8(U32, 32, U8, 8, 1, 36) c30_15(U30, 30, U15, 15, 1, 34)
}
#[cfg(feature = "wide")]
macro_rules! wide_here { ($m:ident) => { shapes! { $m; c0_1(U0, 0, U1, 1, 7, 40) c0_4(U0, 0, U4, 4, 7, 40) c1_1(U1, 1, U1, 1, 7, 40) c3_1(U3, 3, U1, 1, 7, 40) c4_2(U4, 4, U2, 2, 7, 40) c6_2(U6, 6, U2, 2, 7, 40) c6_3(U6, 6, U3, 3, 7, 40) c6_1(U6, 6, U1, 1, 7, 40) c8_4(U8, 8, U4, 4, 7, 40) c9_3(U9, 9, U3, 3, 7, 40) c10_5(U10, 10, U5, 5, 7, 40) c10_2(U10, 10, U2, 2, 7, 40) c12_3(U12, 12, U3, 3, 7, 40) c12_4(U12, 12, U4, 4, 7, 40) c12_6(U12, 12, U6, 6, 7, 40) c15_5(U15, 15, U5, 5, 7, 40) c16_8(U16, 16, U8, 8, 7, 40) c20_4(U20, 20, U4, 4, 7, 40) c24_8(U24, 24, U8, 8, 7, 40) c28_7(U28, 28, U7, 7, 7, 40) c30_15(U30, 30, U15, 15, 7, 40) c30_10(U30, 30, U10, 10, 7, 40) c32_16(U32, 32, U16, 16, 7, 40) c32_8(U32, 32, U8, 8, 7, 40) c32_2(U32, 32, U2, 2, 7, 40) } } }
wide! { body: wide_here body; }
