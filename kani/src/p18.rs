use crate::alg::*;
use crate::elem::*;
use crate::nd::*;
use num::Zero;
use rowcol::prelude::*;

macro_rules! inv {
    ($T:ident, $N:ident, $n:literal, $det:ident, $unw:literal) => {
        harnesses! {
            fn inverse [$unw] {
                let a: [[$T; $n]; $n] = core::array::from_fn(|_| core::array::from_fn(|_| $T::any()));
                match Matrix::<$T, $N, $N>::new(a).inverse() {
                    Some(b) => assert!(is_identity_product(&a, |i, j| b[(i, j)])),
                    None => assert!($det(&a).is_zero()),
                }
            }
        }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { inv; f1(G5, U1, 1, det1, 6) f2(G5, U2, 2, det2, 8) g3(G3, U3, 3, det3, 12) }
#[cfg(feature = "thorough")]
shapes! { inv; f1(G5, U1, 1, det1, 6) f2(G5, U2, 2, det2, 8) g3(G3, U3, 3, det3, 12) f3(G5, U3, 3, det3, 12) g4(G2, U4, 4, det4, 18) }

/// Bounded stand-in, executed: sizes where the general-N path runs.
#[cfg(not(kani))]
pub fn native() -> crate::Table {
    let mut t: crate::Table = vec![];
    macro_rules! run { ($($T:ident $p:literal $N:ident $n:literal $count:literal)*) => { $( {
        fn f() { samples::<$n>($p, $count, |a| {
            let a: [[$T; $n]; $n] = core::array::from_fn(|i| core::array::from_fn(|j| $T(a[i][j])));
            match Matrix::<$T, $N, $N>::new(a).inverse() {
                Some(b) => assert!(is_identity_product(&a, |i, j| b[(i, j)]), "not the inverse of {:?}: {:?}", a, b),
                None => assert!(det_n(&a.iter().map(|r| r.to_vec()).collect::<Vec<_>>()).is_zero(), "no inverse for {:?}", a),
            }
        }) }
        t.push((concat!("p18::native::", stringify!($T), "_", $n).to_string(), f as fn()));
    } )* } }
    run! { G2 2 U3 3 0 G2 2 U4 4 0 G3 3 U4 4 100000 G5 5 U4 4 100000 G5 5 U5 5 50000 G5 5 U6 6 20000 G5 5 U8 8 2000 }
    t
}
wide! {  }
