use crate::nd::*;
use crate::probe::*;
use rowcol::prelude::*;
use std::marker::PhantomData;

macro_rules! body {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal, [$(($I:ident $i:literal $J:ident $j:literal))*], [$(($O:ident $Q:ident))*]) => {
        harnesses! {
            fn in_range [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let mut m = Matrix::<u8, $R, $C>::new(a);
                if $r * $c > 0 {
                    let (i, j) = (below($r), below($c));
                    assert!(m[(i, j)] == a[i][j] && unsafe { *m.get_unchecked((i, j)) } == a[i][j]);
                    let x: u8 = any();
                    if any() { m[(i, j)] = x } else { unsafe { *m.get_unchecked_mut((i, j)) = x } }
                    for p in 0..$r { for q in 0..$c { assert!(m[(p, q)] == if p == i && q == j { x } else { a[p][q] }); } }
                }
            }
            #[cfg_attr(kani, kani::should_panic)]
            fn panics_read [$unw] {
                let m = Matrix::<u8, $R, $C>::new(arr2());
                let (i, j): (usize, usize) = (any(), any()); assume(i >= $r || j >= $c);
                let _x = m[(i, j)];
                escaped()
            }
            #[cfg_attr(kani, kani::should_panic)]
            fn panics_write [$unw] {
                let mut m = Matrix::<u8, $R, $C>::new(arr2());
                let (i, j): (usize, usize) = (any(), any()); assume(i >= $r || j >= $c);
                m[(i, j)] = 1;
                escaped()
            }
            fn type_level [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let mut m = Matrix::<u8, $R, $C>::new(a);
                let mut b = a;
                $( assert!(m[($I::new(), $J::new())] == a[$i][$j]);
                   m[($I::new(), $J::new())] = (100u32 + 10 * $i + $j) as u8; b[$i][$j] = (100u32 + 10 * $i + $j) as u8; )*
                for p in 0..$r { for q in 0..$c { assert!(m[(p, q)] == b[p][q]); } }
            }
            fn type_level_out_of_range_rejected [$unw] {
                $( assert!(!(&Probe::<Matrix<u8, $R, $C>, ($O, $Q)>(PhantomData)).reads(), "out-of-range index type-checks");
                   assert!(!(&Probe::<Matrix<u8, $R, $C>, ($O, $Q)>(PhantomData)).writes(), "out-of-range index type-checks"); )*
                $( assert!((&Probe::<Matrix<u8, $R, $C>, ($I, $J)>(PhantomData)).reads()); )*
            }
        }
    };
}
shapes! { body;
    m0_0(U0, U0, 0, 0, 5, [], [(U0 U0) (U1 U1) (U0 U1) (U1 U0)])
    m0_2(U0, U2, 0, 2, 6, [], [(U0 U0) (U0 U1) (U1 U1) (U1 U0)])
    m2_0(U2, U0, 2, 0, 6, [], [(U0 U0) (U0 U1) (U1 U1) (U1 U0)])
    m1_1(U1, U1, 1, 1, 6, [(U0 0 U0 0)], [(U0 U1) (U1 U0) (U1 U1)])
    m2_3(U2, U3, 2, 3, 10, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2)], [(U2 U0) (U0 U3) (U2 U2) (U1 U3) (U2 U1) (U2 U3)])
    m3_2(U3, U2, 3, 2, 10, [(U0 0 U0 0) (U0 0 U1 1) (U1 1 U0 0) (U1 1 U1 1) (U2 2 U0 0) (U2 2 U1 1)], [(U3 U0) (U0 U2) (U3 U1) (U2 U2) (U1 U2)])
    m1_4(U1, U4, 1, 4, 9, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U0 0 U3 3)], [(U1 U0) (U0 U4) (U1 U3)])
    m4_1(U4, U1, 4, 1, 9, [(U0 0 U0 0) (U1 1 U0 0) (U2 2 U0 0) (U3 3 U0 0)], [(U0 U1) (U4 U0) (U3 U1)])
    m5_4(U5, U4, 5, 4, 24, [(U0 0 U0 0) (U4 4 U3 3) (U3 3 U2 2) (U0 0 U3 3) (U4 4 U0 0)], [(U5 U0) (U5 U3) (U4 U4) (U0 U4)])
}
#[cfg(feature = "wide")]
macro_rules! wide_here { ($m:ident) => { shapes! { $m; m0_0(U0, U0, 0, 0, 40, [], [(U0 U0) (U0 U0) (U0 U0) (U0 U0)]) m0_3(U0, U3, 0, 3, 40, [], [(U0 U0) (U0 U3) (U0 U3) (U3 U0)]) m3_0(U3, U0, 3, 0, 40, [], [(U3 U0) (U0 U0) (U3 U0) (U0 U3)]) m1_1(U1, U1, 1, 1, 40, [(U0 0 U0 0)], [(U1 U0) (U0 U1) (U1 U1) (U1 U1)]) m1_2(U1, U2, 1, 2, 40, [(U0 0 U0 0) (U0 0 U1 1)], [(U1 U0) (U0 U2) (U1 U2) (U2 U1)]) m2_1(U2, U1, 2, 1, 40, [(U0 0 U0 0) (U1 1 U0 0)], [(U2 U0) (U0 U1) (U2 U1) (U1 U2)]) m1_6(U1, U6, 1, 6, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U0 0 U3 3) (U0 0 U4 4) (U0 0 U5 5)], [(U1 U0) (U0 U6) (U1 U6) (U6 U1)]) m6_1(U6, U1, 6, 1, 40, [(U0 0 U0 0) (U1 1 U0 0) (U2 2 U0 0) (U3 3 U0 0) (U4 4 U0 0) (U5 5 U0 0)], [(U6 U0) (U0 U1) (U6 U1) (U1 U6)]) m2_2(U2, U2, 2, 2, 40, [(U0 0 U0 0) (U0 0 U1 1) (U1 1 U0 0) (U1 1 U1 1)], [(U2 U0) (U0 U2) (U2 U2) (U2 U2)]) m2_3(U2, U3, 2, 3, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2)], [(U2 U0) (U0 U3) (U2 U3) (U3 U2)]) m3_2(U3, U2, 3, 2, 40, [(U0 0 U0 0) (U0 0 U1 1) (U1 1 U0 0) (U1 1 U1 1) (U2 2 U0 0) (U2 2 U1 1)], [(U3 U0) (U0 U2) (U3 U2) (U2 U3)]) m4_3(U4, U3, 4, 3, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2) (U2 2 U0 0) (U2 2 U1 1) (U2 2 U2 2) (U3 3 U0 0) (U3 3 U1 1) (U3 3 U2 2)], [(U4 U0) (U0 U3) (U4 U3) (U3 U4)]) m3_4(U3, U4, 3, 4, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U0 0 U3 3) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2) (U1 1 U3 3) (U2 2 U0 0) (U2 2 U1 1) (U2 2 U2 2) (U2 2 U3 3)], [(U3 U0) (U0 U4) (U3 U4) (U4 U3)]) m5_5(U5, U5, 5, 5, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U0 0 U3 3) (U0 0 U4 4) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2) (U1 1 U3 3) (U1 1 U4 4) (U2 2 U0 0) (U2 2 U1 1) (U2 2 U2 2) (U2 2 U3 3) (U2 2 U4 4) (U3 3 U0 0) (U3 3 U1 1) (U3 3 U2 2) (U3 3 U3 3) (U3 3 U4 4) (U4 4 U0 0) (U4 4 U1 1) (U4 4 U2 2) (U4 4 U3 3) (U4 4 U4 4)], [(U5 U0) (U0 U5) (U5 U5) (U5 U5)]) m7_2(U7, U2, 7, 2, 40, [(U0 0 U0 0) (U0 0 U1 1) (U1 1 U0 0) (U1 1 U1 1) (U2 2 U0 0) (U2 2 U1 1) (U3 3 U0 0) (U3 3 U1 1) (U4 4 U0 0) (U4 4 U1 1) (U5 5 U0 0) (U5 5 U1 1) (U6 6 U0 0) (U6 6 U1 1)], [(U7 U0) (U0 U2) (U7 U2) (U2 U7)]) m2_7(U2, U7, 2, 7, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U0 0 U3 3) (U0 0 U4 4) (U0 0 U5 5) (U0 0 U6 6) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2) (U1 1 U3 3) (U1 1 U4 4) (U1 1 U5 5) (U1 1 U6 6)], [(U2 U0) (U0 U7) (U2 U7) (U7 U2)]) m3_9(U3, U9, 3, 9, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U0 0 U3 3) (U0 0 U4 4) (U0 0 U5 5) (U0 0 U6 6) (U0 0 U7 7) (U0 0 U8 8) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2) (U1 1 U3 3) (U1 1 U4 4) (U1 1 U5 5) (U1 1 U6 6) (U1 1 U7 7) (U1 1 U8 8) (U2 2 U0 0) (U2 2 U1 1) (U2 2 U2 2) (U2 2 U3 3) (U2 2 U4 4) (U2 2 U5 5) (U2 2 U6 6) (U2 2 U7 7) (U2 2 U8 8)], [(U3 U0) (U0 U9) (U3 U9) (U9 U3)]) m9_4(U9, U4, 9, 4, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U0 0 U3 3) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2) (U1 1 U3 3) (U2 2 U0 0) (U2 2 U1 1) (U2 2 U2 2) (U2 2 U3 3) (U3 3 U0 0) (U3 3 U1 1) (U3 3 U2 2) (U3 3 U3 3) (U4 4 U0 0) (U4 4 U1 1) (U4 4 U2 2) (U4 4 U3 3) (U5 5 U0 0) (U5 5 U1 1) (U5 5 U2 2) (U5 5 U3 3) (U6 6 U0 0) (U6 6 U1 1) (U6 6 U2 2) (U6 6 U3 3) (U7 7 U0 0) (U7 7 U1 1) (U7 7 U2 2) (U7 7 U3 3) (U8 8 U0 0) (U8 8 U1 1) (U8 8 U2 2) (U8 8 U3 3)], [(U9 U0) (U0 U4) (U9 U4) (U4 U9)]) m12_3(U12, U3, 12, 3, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U1 1 U0 0) (U1 1 U1 1) (U1 1 U2 2) (U2 2 U0 0) (U2 2 U1 1) (U2 2 U2 2) (U3 3 U0 0) (U3 3 U1 1) (U3 3 U2 2) (U4 4 U0 0) (U4 4 U1 1) (U4 4 U2 2) (U5 5 U0 0) (U5 5 U1 1) (U5 5 U2 2) (U6 6 U0 0) (U6 6 U1 1) (U6 6 U2 2) (U7 7 U0 0) (U7 7 U1 1) (U7 7 U2 2) (U8 8 U0 0) (U8 8 U1 1) (U8 8 U2 2) (U9 9 U0 0) (U9 9 U1 1) (U9 9 U2 2) (U10 10 U0 0) (U10 10 U1 1) (U10 10 U2 2) (U11 11 U0 0) (U11 11 U1 1) (U11 11 U2 2)], [(U12 U0) (U0 U3) (U12 U3) (U3 U12)]) m16_2(U16, U2, 16, 2, 40, [(U0 0 U0 0) (U0 0 U1 1) (U1 1 U0 0) (U1 1 U1 1) (U2 2 U0 0) (U2 2 U1 1) (U3 3 U0 0) (U3 3 U1 1) (U4 4 U0 0) (U4 4 U1 1) (U5 5 U0 0) (U5 5 U1 1) (U6 6 U0 0) (U6 6 U1 1) (U7 7 U0 0) (U7 7 U1 1) (U8 8 U0 0) (U8 8 U1 1) (U9 9 U0 0) (U9 9 U1 1) (U10 10 U0 0) (U10 10 U1 1) (U11 11 U0 0) (U11 11 U1 1) (U12 12 U0 0) (U12 12 U1 1) (U13 13 U0 0) (U13 13 U1 1) (U14 14 U0 0) (U14 14 U1 1) (U15 15 U0 0) (U15 15 U1 1)], [(U16 U0) (U0 U2) (U16 U2) (U2 U16)]) m1_32(U1, U32, 1, 32, 40, [(U0 0 U0 0) (U0 0 U1 1) (U0 0 U2 2) (U0 0 U3 3) (U0 0 U4 4) (U0 0 U5 5) (U0 0 U6 6) (U0 0 U7 7) (U0 0 U8 8) (U0 0 U9 9) (U0 0 U10 10) (U0 0 U11 11) (U0 0 U12 12) (U0 0 U13 13) (U0 0 U14 14) (U0 0 U15 15) (U0 0 U16 16) (U0 0 U17 17) (U0 0 U18 18) (U0 0 U19 19) (U0 0 U20 20) (U0 0 U21 21) (U0 0 U22 22) (U0 0 U23 23) (U0 0 U24 24) (U0 0 U25 25) (U0 0 U26 26) (U0 0 U27 27) (U0 0 U28 28) (U0 0 U29 29) (U0 0 U30 30) (U0 0 U31 31)], [(U1 U0) (U0 U32) (U1 U32) (U32 U1)]) m32_1(U32, U1, 32, 1, 40, [(U0 0 U0 0) (U1 1 U0 0) (U2 2 U0 0) (U3 3 U0 0) (U4 4 U0 0) (U5 5 U0 0) (U6 6 U0 0) (U7 7 U0 0) (U8 8 U0 0) (U9 9 U0 0) (U10 10 U0 0) (U11 11 U0 0) (U12 12 U0 0) (U13 13 U0 0) (U14 14 U0 0) (U15 15 U0 0) (U16 16 U0 0) (U17 17 U0 0) (U18 18 U0 0) (U19 19 U0 0) (U20 20 U0 0) (U21 21 U0 0) (U22 22 U0 0) (U23 23 U0 0) (U24 24 U0 0) (U25 25 U0 0) (U26 26 U0 0) (U27 27 U0 0) (U28 28 U0 0) (U29 29 U0 0) (U30 30 U0 0) (U31 31 U0 0)], [(U32 U0) (U0 U1) (U32 U1) (U1 U32)]) } } }
wide! { body: wide_here body; }
