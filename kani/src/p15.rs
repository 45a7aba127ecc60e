use crate::elem::*;
use crate::nd::*;
use rowcol::prelude::*;

macro_rules! body {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn dot [$unw] {
                let a: [Nc; $n] = core::array::from_fn(|_| Nc::any()); let b: [Nc; $n] = core::array::from_fn(|_| Nc::any());
                let d = Vector::<Nc, $U>::new(a).dot(&Vector::<Nc, $U>::new(b));
                let mut e = 0;
                for k in 0..$n { e ^= Nc::m(a[k].0, b[k].0); }
                assert!(d.0 == e);
            }
            fn norm [$unw] {
                let a: [u8; $n] = arr();
                let v = Vector::<Mf, $U>::generate(|k| Mf(a[k]));
                let mut e = 0u8;
                for k in 0..$n { e = e.wrapping_add(a[k].wrapping_mul(a[k])); }
                assert!(v.norm().0 == Mf::sq(e));
            }
            fn normalized [$unw] {
                let a: [u8; $n] = arr();
                let v = Vector::<Mf, $U>::generate(|k| Mf(a[k]));
                let mut e = 0u8;
                for k in 0..$n { e = e.wrapping_add(a[k].wrapping_mul(a[k])); }
                let w = v.normalized();
                for k in 0..$n { assert!(w.as_slice()[k].0 == Mf::dv(a[k], Mf::sq(e)) && v.as_slice()[k].0 == a[k]); }
            }
        }
    };
}
pub mod sums {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { body; l0(U0, 0, 5) l1(U1, 1, 6) l2(U2, 2, 7) l3(U3, 3, 8) l5(U5, 5, 10) l8(U8, 8, 13) }
    #[cfg(feature = "thorough")]
    all_lens! { body }
}
pub mod cross {
    use super::*;
    harnesses! {
        fn product [8] {
            let a: [Z; 3] = core::array::from_fn(|_| Z::any()); let b: [Z; 3] = core::array::from_fn(|_| Z::any());
            let c = Vector::<Z, U3>::new(a).cross(&Vector::<Z, U3>::new(b)).into_inner();
            assert!(c[0] == a[1] * b[2] - a[2] * b[1]);
            assert!(c[1] == a[2] * b[0] - a[0] * b[2]);
            assert!(c[2] == a[0] * b[1] - a[1] * b[0]);
        }
    }
}
pub fn table() -> crate::Table { let mut t = sums::table(); t.extend(cross::table()); t }
wide! { sums: wide_lens body; }
