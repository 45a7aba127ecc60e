use crate::alg::*;
use crate::elem::*;
use crate::nd::*;
use rowcol::prelude::*;

macro_rules! any_of { ($T:ident, $n:literal) => { { let a: [[$T; $n]; $n] = core::array::from_fn(|_| core::array::from_fn(|_| $T::any())); a } } }

macro_rules! det {
    ($T:ident, $N:ident, $n:literal, $det:ident, $unw:literal) => {
        harnesses! {
            fn determinant [$unw] {
                let a = any_of!($T, $n);
                assert!(Matrix::<$T, $N, $N>::new(a).determinant() == $det(&a));
            }
        }
    };
}
macro_rules! cof {
    ($T:ident, $N:ident, $n:literal, $cof:ident, $unw:literal, $at:expr) => {
        harnesses! {
            fn cofactor [$unw] {
                let a = any_of!($T, $n);
                let m = Matrix::<$T, $N, $N>::new(a);
                for (i, j) in $at { assert!(m.cofactor((i, j)) == $cof(&a, i, j)); }
            }
            #[cfg_attr(kani, kani::should_panic)]
            fn panics_cofactor_out_of_range [$unw] {
                let m = Matrix::<$T, $N, $N>::new([[$T(1); $n]; $n]);
                for x in [($n, 0), (0, $n), ($n, $n), ($n + 1, 1), (1, $n + 1), (usize::MAX, 0), (0, usize::MAX)] {
                    if any() { let _x = m.cofactor(x); escaped() }
                }
                assume(false)
            }
        }
    };
}
pub mod det {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { det; z1(Z, U1, 1, det1, 6) z2(Z, U2, 2, det2, 8) z3(Z4, U3, 3, det3, 12) f1(G5, U1, 1, det1, 6) f2(G5, U2, 2, det2, 8) f3(G5, U3, 3, det3, 12) }
    #[cfg(feature = "thorough")]
    shapes! { det; z1(Z, U1, 1, det1, 6) z2(Z, U2, 2, det2, 8) z3(Z, U3, 3, det3, 12) f1(G5, U1, 1, det1, 6) f2(G5, U2, 2, det2, 8) f3(G5, U3, 3, det3, 12) g2_4(G2, U4, 4, det4, 18) }
}
fn square(n: usize) -> impl Iterator<Item = (usize, usize)> { (0..n).flat_map(move |i| (0..n).map(move |j| (i, j))) }
pub mod cof {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { cof; z2(Z, U2, 2, cof2, 8, square(2)) z3(Z4, U3, 3, cof3, 12, square(3)) g4(G2, U4, 4, cof4, 18, [(1, 2), (3, 0)]) }
    #[cfg(feature = "thorough")]
    shapes! { cof; z2(Z, U2, 2, cof2, 8, square(2)) z3(Z, U3, 3, cof3, 12, square(3)) g2_4(G2, U4, 4, cof4, 18, square(4)) g3_4(G3, U4, 4, cof4, 18, square(4)) }
}
pub fn table() -> crate::Table { let mut t = det::table(); t.extend(cof::table()); t }

/// Bounded stand-in, executed: sizes where the general-N path runs.
#[cfg(not(kani))]
pub fn native() -> crate::Table {
    let mut t: crate::Table = vec![];
    macro_rules! run { ($($T:ident $p:literal $N:ident $n:literal $count:literal)*) => { $( {
        fn f() { samples::<$n>($p, $count, |a| {
            let a: [[$T; $n]; $n] = core::array::from_fn(|i| core::array::from_fn(|j| $T(a[i][j])));
            let v: Vec<Vec<$T>> = a.iter().map(|r| r.to_vec()).collect();
            let m = Matrix::<$T, $N, $N>::new(a);
            assert!(m.determinant() == det_n(&v), "determinant of {:?}: {:?}, not {:?}", a, m.determinant(), det_n(&v));
            for (i, j) in if $n < 5 { vec![(0, 0), (0, 1), (1, 0), ($n - 1, 1), (2, $n - 1), ($n - 1, $n - 1)] } else { vec![(1, 2), ($n - 1, 0)] } {
                assert!(m.cofactor((i, j)) == cof_n(&v, i, j), "cofactor {:?} of {:?}: {:?}, not {:?}", (i, j), a, m.cofactor((i, j)), cof_n(&v, i, j));
            }
        }) }
        t.push((concat!("p17::native::", stringify!($T), "_", $n).to_string(), f as fn()));
    } )* } }
    run! { G2 2 U3 3 0 G2 2 U4 4 0 G3 3 U4 4 40000 G5 5 U4 4 40000 G5 5 U5 5 10000 G5 5 U6 6 1000 }
    t
}
wide! {  }
