use crate::nd::*;
use rowcol::prelude::*;
use std::marker::PhantomData;
use crate::probe::*;

macro_rules! body {
    ($U:ident, $n:literal, $unw:literal, [$($I:ident $i:literal)*], [$($O:ident)*]) => {
        harnesses! {
            fn in_range [$unw] {
                let a: [u8; $n] = arr();
                let mut v = Vector::<u8, $U>::new(a);
                let mut b = a;
                if $n > 0 {
                    let i = below($n);
                    assert!(v[i] == a[i] && unsafe { *v.get_unchecked(i) } == a[i]);
                    let x: u8 = any();
                    if any() { v[i] = x } else { unsafe { *v.get_unchecked_mut(i) = x } }
                    b[i] = x;
                }
                assert!(v.into_inner() == b);
            }
            #[cfg_attr(kani, kani::should_panic)]
            fn panics_read [$unw] {
                let v = Vector::<u8, $U>::new(arr());
                let i: usize = any(); assume(i >= $n);
                let _x = v[i];
                escaped()
            }
            #[cfg_attr(kani, kani::should_panic)]
            fn panics_write [$unw] {
                let mut v = Vector::<u8, $U>::new(arr());
                let i: usize = any(); assume(i >= $n);
                v[i] = 1;
                escaped()
            }
            fn type_level [$unw] {
                let a: [u8; $n] = arr();
                let mut v = Vector::<u8, $U>::new(a);
                let mut b = a;
                $( assert!(v[$I::new()] == a[$i]); v[$I::new()] = 100 + $i; b[$i] = 100 + $i; )*
                assert!(v.into_inner() == b);
            }
            fn type_level_out_of_range_rejected [$unw] {
                $( assert!(!(&Probe::<Vector<u8, $U>, $O>(PhantomData)).reads(), "out-of-range index type-checks");
                   assert!(!(&Probe::<Vector<u8, $U>, $O>(PhantomData)).writes(), "out-of-range index type-checks"); )*
                $( assert!((&Probe::<Vector<u8, $U>, $I>(PhantomData)).reads()); )*
            }
        }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { body;
    l0(U0, 0, 4, [], [U0 U1 U2 U32]) l1(U1, 1, 5, [U0 0], [U1 U2 U33]) l2(U2, 2, 6, [U0 0 U1 1], [U2 U3 U4])
    l3(U3, 3, 7, [U0 0 U1 1 U2 2], [U3 U4 U8]) l5(U5, 5, 9, [U0 0 U1 1 U2 2 U3 3 U4 4], [U5 U6 U7 U8])
    l8(U8, 8, 12, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7], [U8 U9 U16])
    l32(U32, 32, 36, [U0 0 U1 1 U2 2 U7 7 U15 15 U16 16 U30 30 U31 31], [U32 U33 U63 U64])
}
#[cfg(feature = "thorough")]
shapes! { body;
    l0(U0, 0, 4, [], [U0 U1 U2 U40 U64])
    l1(U1, 1, 5, [U0 0], [U1 U2 U3 U40 U64])
    l2(U2, 2, 6, [U0 0 U1 1], [U2 U3 U4 U40 U64])
    l3(U3, 3, 7, [U0 0 U1 1 U2 2], [U3 U4 U5 U6 U40 U64])
    l4(U4, 4, 8, [U0 0 U1 1 U2 2 U3 3], [U4 U5 U6 U8 U40 U64])
    l5(U5, 5, 9, [U0 0 U1 1 U2 2 U3 3 U4 4], [U5 U6 U7 U10 U40 U64])
    l6(U6, 6, 10, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5], [U6 U7 U8 U12 U40 U64])
    l7(U7, 7, 11, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6], [U7 U8 U9 U14 U40 U64])
    l8(U8, 8, 12, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7], [U8 U9 U10 U16 U40 U64])
    l9(U9, 9, 13, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8], [U9 U10 U11 U18 U40 U64])
    l10(U10, 10, 14, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9], [U10 U11 U12 U20 U40 U64])
    l11(U11, 11, 15, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10], [U11 U12 U13 U22 U40 U64])
    l12(U12, 12, 16, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11], [U12 U13 U14 U24 U40 U64])
    l13(U13, 13, 17, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12], [U13 U14 U15 U26 U40 U64])
    l14(U14, 14, 18, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13], [U14 U15 U16 U28 U40 U64])
    l15(U15, 15, 19, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14], [U15 U16 U17 U30 U40 U64])
    l16(U16, 16, 20, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15], [U16 U17 U18 U32 U40 U64])
    l17(U17, 17, 21, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16], [U17 U18 U19 U34 U40 U64])
    l18(U18, 18, 22, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17], [U18 U19 U20 U36 U40 U64])
    l19(U19, 19, 23, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18], [U19 U20 U21 U38 U40 U64])
    l20(U20, 20, 24, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19], [U20 U21 U22 U40 U64])
    l21(U21, 21, 25, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20], [U21 U22 U23 U40 U42 U64])
    l22(U22, 22, 26, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21], [U22 U23 U24 U40 U44 U64])
    l23(U23, 23, 27, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22], [U23 U24 U25 U40 U46 U64])
    l24(U24, 24, 28, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23], [U24 U25 U26 U40 U48 U64])
    l25(U25, 25, 29, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24], [U25 U26 U27 U40 U50 U64])
    l26(U26, 26, 30, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25], [U26 U27 U28 U40 U52 U64])
    l27(U27, 27, 31, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26], [U27 U28 U29 U40 U54 U64])
    l28(U28, 28, 32, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27], [U28 U29 U30 U40 U56 U64])
    l29(U29, 29, 33, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27 U28 28], [U29 U30 U31 U40 U58 U64])
    l30(U30, 30, 34, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27 U28 28 U29 29], [U30 U31 U32 U40 U60 U64])
    l31(U31, 31, 35, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27 U28 28 U29 29 U30 30], [U31 U32 U33 U40 U62 U64])
    l32(U32, 32, 36, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27 U28 28 U29 29 U30 30 U31 31], [U32 U33 U34 U40 U64])
 }
#[cfg(feature = "wide")]
macro_rules! wide_here { ($m:ident) => { shapes! { $m; l0(U0, 0, 40, [], [U0 U1 U2]) l1(U1, 1, 40, [U0 0], [U1 U2 U3]) l2(U2, 2, 40, [U0 0 U1 1], [U2 U3 U4]) l3(U3, 3, 40, [U0 0 U1 1 U2 2], [U3 U4 U5]) l4(U4, 4, 40, [U0 0 U1 1 U2 2 U3 3], [U4 U5 U6]) l5(U5, 5, 40, [U0 0 U1 1 U2 2 U3 3 U4 4], [U5 U6 U7]) l6(U6, 6, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5], [U6 U7 U8]) l7(U7, 7, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6], [U7 U8 U9]) l8(U8, 8, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7], [U8 U9 U10]) l9(U9, 9, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8], [U9 U10 U11]) l10(U10, 10, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9], [U10 U11 U12]) l12(U12, 12, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11], [U12 U13 U14]) l13(U13, 13, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12], [U13 U14 U15]) l15(U15, 15, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14], [U15 U16 U17]) l16(U16, 16, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15], [U16 U17 U18]) l17(U17, 17, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16], [U17 U18 U19]) l21(U21, 21, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20], [U21 U22 U23]) l25(U25, 25, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24], [U25 U26 U27]) l31(U31, 31, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27 U28 28 U29 29 U30 30], [U31 U32 U33]) l32(U32, 32, 40, [U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27 U28 28 U29 29 U30 30 U31 31], [U32 U33 U34]) } } }
wide! { body: wide_here body; }
