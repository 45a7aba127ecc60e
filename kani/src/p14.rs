use crate::elem::*;
use crate::nd::*;
use rowcol::prelude::*;

fn nc<const R: usize, const C: usize>() -> [[Nc; C]; R] { core::array::from_fn(|_| core::array::from_fn(|_| Nc::any())) }

macro_rules! body {
    ($L:ident, $N:ident, $R:ident, $l:literal, $n:literal, $r:literal, $unw:literal) => {
        harnesses! {
            fn by_value [$unw] {
                let (a, b) = (nc::<$l, $n>(), nc::<$n, $r>());
                let (ma, mb) = (Matrix::<Nc, $L, $N>::new(a), Matrix::<Nc, $N, $R>::new(b));
                let (p, q): (Matrix<Nc, $L, $R>, Matrix<Nc, $L, $R>) = (ma * mb, &ma * mb);
                check::<$l, $n, $r>(&a, &b, |i, j| (p[(i, j)], q[(i, j)]));
            }
            fn by_ref [$unw] {
                let (a, b) = (nc::<$l, $n>(), nc::<$n, $r>());
                let (ma, mb) = (Matrix::<Nc, $L, $N>::new(a), Matrix::<Nc, $N, $R>::new(b));
                let (p, q): (Matrix<Nc, $L, $R>, Matrix<Nc, $L, $R>) = (ma * &mb, &ma * &mb);
                check::<$l, $n, $r>(&a, &b, |i, j| (p[(i, j)], q[(i, j)]));
            }
        }
    };
}
fn check<const L: usize, const N: usize, const R: usize>(a: &[[Nc; N]; L], b: &[[Nc; R]; N], f: impl Fn(usize, usize) -> (Nc, Nc)) {
    for i in 0..L { for j in 0..R {
        let mut e = 0;
        for k in 0..N { e ^= Nc::m(a[i][k].0, b[k][j].0); }
        let (x, y) = f(i, j);
        assert!(x.0 == e && y.0 == e, "product entry");
    } }
}
macro_rules! square {
    ($N:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn assign [$unw] {
                let (a, b) = (nc::<$n, $n>(), nc::<$n, $n>());
                let mut m = Matrix::<Nc, $N, $N>::new(a);
                m *= Matrix::<Nc, $N, $N>::new(b);
                check::<$n, $n, $n>(&a, &b, |i, j| (m[(i, j)], m[(i, j)]));
            }
        }
    };
}
macro_rules! vector {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn times_vector [$unw] {
                let a = nc::<$r, $c>();
                let [b] = nc::<1, $c>();
                let m = Matrix::<Nc, $R, $C>::new(a); let v = Vector::<Nc, $C>::new(b);
                let (p, q): (Vector<Nc, $R>, Vector<Nc, $R>) = (m * v, m * &v);
                for i in 0..$r {
                    let mut e = 0;
                    for k in 0..$c { e ^= Nc::m(a[i][k].0, b[k].0); }
                    assert!(p.as_slice()[i].0 == e && q.as_slice()[i].0 == e);
                }
            }
        }
    };
}
pub mod product {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { body; p022(U0, U2, U2, 0, 2, 2, 7) p202(U2, U0, U2, 2, 0, 2, 7) p220(U2, U2, U0, 2, 2, 0, 7) p111(U1, U1, U1, 1, 1, 1, 6)
        p222(U2, U2, U2, 2, 2, 2, 8) p132(U1, U3, U2, 1, 3, 2, 9) p231(U2, U3, U1, 2, 3, 1, 9) p213(U2, U1, U3, 2, 1, 3, 9) }
    #[cfg(feature = "thorough")]
    shapes! { body; p022(U0, U2, U2, 0, 2, 2, 7) p202(U2, U0, U2, 2, 0, 2, 7) p220(U2, U2, U0, 2, 2, 0, 7) p111(U1, U1, U1, 1, 1, 1, 6)
        p222(U2, U2, U2, 2, 2, 2, 8) p132(U1, U3, U2, 1, 3, 2, 9) p231(U2, U3, U1, 2, 3, 1, 9) p213(U2, U1, U3, 2, 1, 3, 9)
        p233(U2, U3, U3, 2, 3, 3, 12) p333(U3, U3, U3, 3, 3, 3, 13) p324(U3, U2, U4, 3, 2, 4, 12) p242(U2, U4, U2, 2, 4, 2, 12) p151(U1, U5, U1, 1, 5, 1, 9) }
}
pub mod assign {
    use super::*;
    shapes! { square; s0(U0, 0, 5) s1(U1, 1, 6) s2(U2, 2, 8) s3(U3, 3, 13) }
}
pub mod vector {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { vector; v0_2(U0, U2, 0, 2, 6) v2_0(U2, U0, 2, 0, 6) v1_1(U1, U1, 1, 1, 6) v2_3(U2, U3, 2, 3, 9) v3_2(U3, U2, 3, 2, 9) }
    #[cfg(feature = "thorough")]
    shapes! { vector; v0_2(U0, U2, 0, 2, 6) v2_0(U2, U0, 2, 0, 6) v1_1(U1, U1, 1, 1, 6) v2_3(U2, U3, 2, 3, 9) v3_2(U3, U2, 3, 2, 9) v3_3(U3, U3, 3, 3, 13) v4_4(U4, U4, 4, 4, 20) v2_7(U2, U7, 2, 7, 18) v7_2(U7, U2, 7, 2, 18) }
}
pub fn table() -> crate::Table { let mut t = product::table(); t.extend(assign::table()); t.extend(vector::table()); t }
wide! { product: wide_products body; assign: wide_squares square; vector: wide_mats vector; }
