use crate::elem::*;
use crate::nd::*;
use num::{Bounded, One, Zero};
use rowcol::prelude::*;

macro_rules! vector {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn constants [$unw] {
                let (z, d) = (<Vector<Z, $U> as Zero>::zero(), <Vector<Z, $U> as Default>::default());
                let (lo, hi) = (<Vector<Z, $U> as Bounded>::min_value(), <Vector<Z, $U> as Bounded>::max_value());
                for k in 0..$n { assert!(z.as_slice()[k].0 == 0 && d.as_slice()[k].0 == 5 && lo.as_slice()[k].0 == 2 && hi.as_slice()[k].0 == 13); }
                assert!(z.is_zero());
            }
            fn is_zero [$unw] {
                let a: [u8; $n] = arr();
                let v = Vector::<Z, $U>::generate(|k| Z(a[k]));
                let mut e = true;
                for k in 0..$n { e &= a[k] == 0; }
                assert!(v.is_zero() == e);
            }
        }
    };
}
macro_rules! matrix {
    ($R:ident, $C:ident, $r:literal, $c:literal, $M:ident, $m:literal, $unw:literal) => {
        harnesses! {
            fn constants [$unw] {
                let (z, d) = (<Matrix<Z, $R, $C> as Zero>::zero(), <Matrix<Z, $R, $C> as Default>::default());
                let (lo, hi) = (<Matrix<Z, $R, $C> as Bounded>::min_value(), <Matrix<Z, $R, $C> as Bounded>::max_value());
                for i in 0..$r { for j in 0..$c { let x = (i, j);
                    assert!(z[x].0 == 0 && d[x].0 == 5 && lo[x].0 == 2 && hi[x].0 == 13); } }
                assert!(z.is_zero());
            }
            fn is_zero [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let m = Matrix::<Z, $R, $C>::generate(|(i, j)| Z(a[i][j]));
                let mut e = true;
                for i in 0..$r { for j in 0..$c { e &= a[i][j] == 0; } }
                assert!(m.is_zero() == e);
            }
        }
    };
}
macro_rules! diag {
    ($R:ident, $C:ident, $r:literal, $c:literal, $M:ident, $m:literal, $unw:literal) => {
        harnesses! {
            fn diag [$unw] {
                let a: [u8; $m] = arr();
                let mut e = [Z(0); $m];
                for k in 0..$m { e[k] = Z(a[k]); }
                let m = Matrix::<Z, $R, $C>::diag(e);
                for i in 0..$r { for j in 0..$c { assert!(m[(i, j)].0 == if i == j { a[i] } else { 0 }); } }
            }
        }
    };
}
macro_rules! square {
    ($N:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn identity_is_neutral [$unw] {
                let (i1, i2) = (Matrix::<Nc, $N, $N>::identity(), <Matrix<Nc, $N, $N> as One>::one());
                for i in 0..$n { for j in 0..$n { let e = if i == j { Nc::one() } else { Nc(0) }; assert!(i1[(i, j)] == e && i2[(i, j)] == e); } }
                let a = Matrix::<Nc, $N, $N>::generate(|_| Nc::any());
                let (p, q) = (a * i1, i1 * a);
                for i in 0..$n { for j in 0..$n { assert!(p[(i, j)] == a[(i, j)] && q[(i, j)] == a[(i, j)]); } }
            }
        }
    };
}
fn mm<const N: usize>(a: [[Z; N]; N], b: [[Z; N]; N]) -> [[Z; N]; N] {
    let mut c = [[Z(0); N]; N];
    for i in 0..N { for j in 0..N { for k in 0..N { c[i][j] = c[i][j] + a[i][k] * b[k][j]; } } }
    c
}
macro_rules! pow {
    ($N:ident, $n:literal, $k:literal, $unw:literal) => {
        harnesses! {
            fn k_fold_product [$unw] {
                let a: [[Z; $n]; $n] = core::array::from_fn(|_| core::array::from_fn(|_| Z::any()));
                let m = Matrix::<Z, $N, $N>::new(a);
                let p = m.pow($k);
                let mut e = [[Z(0); $n]; $n];
                for i in 0..$n { e[i][i] = Z(1); }
                for _ in 0..$k { e = mm(e, a); }
                for i in 0..$n { for j in 0..$n { assert!(p[(i, j)] == e[i][j]); } }
            }
        }
    };
}
/// Large exponents, against repeated squaring over a field (its matrix orders are not powers of two). Executed only.
#[cfg(feature = "wide")]
macro_rules! bigpow {
    ($N:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn large_exponents [$unw] {
                let a: [[G5; $n]; $n] = core::array::from_fn(|_| core::array::from_fn(|_| G5::any()));
                let hi: usize = any(); let lo: usize = any();
                let k = hi.wrapping_shl(below(64) as u32).wrapping_add(lo);
                let p = Matrix::<G5, $N, $N>::new(a).pow(k);
                let mm = |a: [[G5; $n]; $n], b: [[G5; $n]; $n]| { let mut c = [[<G5 as num::Zero>::zero(); $n]; $n];
                    for i in 0..$n { for j in 0..$n { for k in 0..$n { c[i][j] = c[i][j] + a[i][k] * b[k][j]; } } } c };
                let mut e = [[<G5 as num::Zero>::zero(); $n]; $n];
                for i in 0..$n { e[i][i] = num::One::one(); }
                for b in (0..64).rev() { e = mm(e, e); if k >> b & 1 == 1 { e = mm(e, a); } }
                for i in 0..$n { for j in 0..$n { assert!(p[(i, j)] == e[i][j]); } }
            }
        }
    };
}
pub mod vector {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { vector; l0(U0, 0, 5) l1(U1, 1, 6) l2(U2, 2, 7) l3(U3, 3, 8) l5(U5, 5, 10) l17(U17, 17, 22) }
    #[cfg(feature = "thorough")]
    all_lens! { vector }
}
pub mod matrix {
    use super::*;
    shapes! { matrix; m0_0(U0, U0, 0, 0, U0, 0, 5) m0_2(U0, U2, 0, 2, U0, 0, 6) m2_0(U2, U0, 2, 0, U0, 0, 6) m1_1(U1, U1, 1, 1, U1, 1, 6) m2_3(U2, U3, 2, 3, U2, 2, 10) m3_2(U3, U2, 3, 2, U2, 2, 10) }
}
pub mod diag {
    use super::*;
    shapes! { diag; m0_0(U0, U0, 0, 0, U0, 0, 5) m0_2(U0, U2, 0, 2, U0, 0, 6) m2_0(U2, U0, 2, 0, U0, 0, 6) m1_1(U1, U1, 1, 1, U1, 1, 6) m2_3(U2, U3, 2, 3, U2, 2, 10) m3_2(U3, U2, 3, 2, U2, 2, 10) m3_3(U3, U3, 3, 3, U3, 3, 13) m1_4(U1, U4, 1, 4, U1, 1, 9) m4_1(U4, U1, 4, 1, U1, 1, 9) }
}
pub mod square {
    use super::*;
    shapes! { square; s0(U0, 0, 5) s1(U1, 1, 6) s2(U2, 2, 8) }
}
pub mod pow {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { pow; n0k3(U0, 0, 3, 6) n1k0(U1, 1, 0, 6) n1k5(U1, 1, 5, 8) n2k0(U2, 2, 0, 8) n2k1(U2, 2, 1, 8) n2k2(U2, 2, 2, 8) n2k3(U2, 2, 3, 8) n1k7(U1, 1, 7, 10) n1k8(U1, 1, 8, 11) }
    #[cfg(feature = "thorough")]
    shapes! { pow; n0k3(U0, 0, 3, 6) n1k0(U1, 1, 0, 6) n1k5(U1, 1, 5, 8) n2k0(U2, 2, 0, 8) n2k1(U2, 2, 1, 8) n2k2(U2, 2, 2, 8) n2k3(U2, 2, 3, 8) n1k7(U1, 1, 7, 10) n1k8(U1, 1, 8, 11)
        n2k4(U2, 2, 4, 8) n2k5(U2, 2, 5, 9) n3k2(U3, 3, 2, 13) n3k3(U3, 3, 3, 13) }
}
pub fn table() -> crate::Table { let mut t = vector::table(); t.extend(matrix::table()); t.extend(diag::table()); t.extend(square::table()); t.extend(pow::table()); t }
#[cfg(feature = "wide")]
macro_rules! wide_big { ($m:ident) => { shapes! { $m; n0(U0, 0, 40) n1(U1, 1, 40) n2(U2, 2, 40) n3(U3, 3, 40) } } }
#[cfg(feature = "wide")]
macro_rules! wide_pow { ($m:ident) => { shapes! { $m; n0k5(U0, 0, 5, 40) n1k12(U1, 1, 12, 40) n2k6(U2, 2, 6, 40) n2k13(U2, 2, 13, 40) n3k0(U3, 3, 0, 40) n3k1(U3, 3, 1, 40) n3k2(U3, 3, 2, 40) n3k5(U3, 3, 5, 40) n3k8(U3, 3, 8, 40) n4k3(U4, 4, 3, 40) n4k7(U4, 4, 7, 40) n5k4(U5, 5, 4, 40) } } }
wide! { vector: wide_lens vector; matrix: wide_mats_min matrix; diag: wide_mats_min diag; square: wide_squares square; pow: wide_pow pow; bigpow: wide_big bigpow; }
