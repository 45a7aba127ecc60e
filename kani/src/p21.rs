use crate::elem::*;
use crate::nd::*;
use rowcol::prelude::*;

/// Clones into a visibly different value, so an operation that is not a clone per element shows.
#[derive(PartialEq, Debug)]
struct Cl(u8, u8);
impl Clone for Cl { fn clone(&self) -> Cl { Cl(self.0, self.1.wrapping_add(1)) } }

macro_rules! vector {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn eq [$unw] {
                let a: [u8; $n] = arr(); let b: [u8; $n] = arr();
                let (v, w) = (Vector::<Q, $U>::generate(|k| Q(a[k])), Vector::<Q, $U>::generate(|k| Q(b[k])));
                let mut e = true;
                for k in 0..$n { e &= a[k] == b[k] && a[k] < 128; }
                assert!((v == w) == e && (v != w) == !e);
                // a value need not equal itself (NaN), not even when compared in place
                let mut s = true;
                for k in 0..$n { s &= a[k] < 128; }
                assert!((v == v) == s);
            }
            fn eq_across_types [$unw] {
                let a: [u8; $n] = arr(); let b: [u8; $n] = arr();
                let (v, w) = (Vector::<Q, $U>::generate(|k| Q(a[k])), Vector::<Q2, $U>::generate(|k| Q2(b[k])));
                let mut e = true;
                for k in 0..$n { e &= a[k].wrapping_add(1) == b[k]; }
                assert!((v == w) == e && (v != w) == !e);
            }
            fn clone [$unw] {
                let a: [u8; $n] = arr();
                let mut v = Vector::<Cl, $U>::generate(|k| Cl(a[k], 0));
                let mut w = v.clone();
                for k in 0..$n { assert!(w.as_slice()[k] == Cl(a[k], 1) && v.as_slice()[k] == Cl(a[k], 0)); }
                if $n > 0 {
                    let i = below($n);
                    v.as_slice_mut()[i].0 = 7;
                    assert!(w.as_slice()[i].0 == a[i]);
                    w.as_slice_mut()[i].0 = 9;
                    assert!(v.as_slice()[i].0 == 7);
                }
            }
            fn copy_and_clone_agree [$unw] {
                let a: [u8; $n] = arr();
                let v = Vector::<u8, $U>::new(a);
                let w = v.clone();
                assert!(w == v && !(w != v) && w.into_inner() == a);
            }
        }
    };
}
macro_rules! matrix {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn eq [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let (v, w) = (Matrix::<Q, $R, $C>::generate(|(i, j)| Q(a[i][j])), Matrix::<Q, $R, $C>::generate(|(i, j)| Q(b[i][j])));
                let mut e = true;
                for i in 0..$r { for j in 0..$c { e &= a[i][j] == b[i][j] && a[i][j] < 128; } }
                assert!((v == w) == e && (v != w) == !e);
                let mut s = true;
                for i in 0..$r { for j in 0..$c { s &= a[i][j] < 128; } }
                assert!((v == v) == s);
            }
            fn clone [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let mut v = Matrix::<Cl, $R, $C>::generate(|(i, j)| Cl(a[i][j], 0));
                let mut w = v.clone();
                for i in 0..$r { for j in 0..$c { assert!(w[(i, j)] == Cl(a[i][j], 1) && v[(i, j)] == Cl(a[i][j], 0)); } }
                if $r * $c > 0 {
                    let x = (below($r), below($c));
                    v[x].0 = 7;
                    assert!(w[x].0 == a[x.0][x.1]);
                    w[x].0 = 9;
                    assert!(v[x].0 == 7);
                }
            }
            fn copy_and_clone_agree [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let v = Matrix::<u8, $R, $C>::new(a);
                let w = v.clone();
                assert!(w == v && !(w != v));
            }
        }
    };
}
pub mod vector {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { vector; l0(U0, 0, 5) l1(U1, 1, 6) l2(U2, 2, 7) l3(U3, 3, 8) l5(U5, 5, 10) l17(U17, 17, 22) }
    #[cfg(feature = "thorough")]
    all_lens! { vector }
}
pub mod matrix {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { matrix; m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) }
    #[cfg(feature = "thorough")]
    shapes! { matrix; m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m4_3(U4, U3, 4, 3, 16) m3_3(U3, U3, 3, 3, 13) m4_4(U4, U4, 4, 4, 20) }
}
pub fn table() -> crate::Table { let mut t = vector::table(); t.extend(matrix::table()); t }
wide! { vector: wide_lens vector; matrix: wide_mats matrix; }
