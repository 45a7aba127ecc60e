use crate::nd::*;
use rowcol::prelude::*;

macro_rules! body {
    ($U:ident, $n:literal, $ops:literal, $unw:literal) => {
        deque_harnesses! { [$unw, $ops] { arr::<$n>() }; $n;
            |a| Vector::<u8, $U>::new(*a).into_iter(); |x, k, a| k < $n && x == a[k] }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { body;
    l0(U0, 0, 2, 10) l1(U1, 1, 3, 10) l2(U2, 2, 3, 10) l3(U3, 3, 2, 10) l4(U4, 4, 1, 10) l9(U9, 9, 1, 13) l32(U32, 32, 1, 36)
}
#[cfg(feature = "thorough")]
shapes! { body;
    l0(U0, 0, 3, 10) l1(U1, 1, 4, 10) l2(U2, 2, 4, 10) l3(U3, 3, 4, 10) l4(U4, 4, 3, 10) l5(U5, 5, 3, 10)
    l6(U6, 6, 2, 10) l7(U7, 7, 2, 11) l8(U8, 8, 2, 12) l9(U9, 9, 2, 13) l16(U16, 16, 1, 20) l31(U31, 31, 1, 35) l32(U32, 32, 1, 36)
}
#[cfg(feature = "wide")]
macro_rules! wide_here { ($m:ident) => { shapes! { $m; l0(U0, 0, 7, 40) l1(U1, 1, 7, 40) l2(U2, 2, 7, 40) l3(U3, 3, 7, 40) l4(U4, 4, 7, 40) l5(U5, 5, 7, 40) l6(U6, 6, 7, 40) l7(U7, 7, 7, 40) l8(U8, 8, 7, 40) l9(U9, 9, 7, 40) l10(U10, 10, 7, 40) l12(U12, 12, 7, 40) l13(U13, 13, 7, 40) l15(U15, 15, 7, 40) l16(U16, 16, 7, 40) l17(U17, 17, 7, 40) l21(U21, 21, 7, 40) l25(U25, 25, 7, 40) l31(U31, 31, 7, 40) l32(U32, 32, 7, 40) } } }
wide! { body: wide_here body; }
