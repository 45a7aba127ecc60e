use crate::elem::*;
use crate::nd::*;
use num::Complex;
use rowcol::prelude::*;

macro_rules! body {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn add_vv [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let p = ma + mb;
                for i in 0..$r { for j in 0..$c { assert!(p[(i, j)].0 == Op::add_(a[i][j], b[i][j])); } }
            }
            fn add_rv [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let p = &ma + mb;
                for i in 0..$r { for j in 0..$c { assert!(p[(i, j)].0 == Op::add_(a[i][j], b[i][j])); } }
            }
            fn add_vr [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let p = ma + &mb;
                for i in 0..$r { for j in 0..$c { assert!(p[(i, j)].0 == Op::add_(a[i][j], b[i][j])); } }
            }
            fn add_rr [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let p = &ma + &mb;
                for i in 0..$r { for j in 0..$c { assert!(p[(i, j)].0 == Op::add_(a[i][j], b[i][j])); } }
            }
            fn sub_vv [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let p = ma - mb;
                for i in 0..$r { for j in 0..$c { assert!(p[(i, j)].0 == Op::sub_(a[i][j], b[i][j])); } }
            }
            fn sub_rv [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let p = &ma - mb;
                for i in 0..$r { for j in 0..$c { assert!(p[(i, j)].0 == Op::sub_(a[i][j], b[i][j])); } }
            }
            fn sub_vr [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let p = ma - &mb;
                for i in 0..$r { for j in 0..$c { assert!(p[(i, j)].0 == Op::sub_(a[i][j], b[i][j])); } }
            }
            fn sub_rr [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let p = &ma - &mb;
                for i in 0..$r { for j in 0..$c { assert!(p[(i, j)].0 == Op::sub_(a[i][j], b[i][j])); } }
            }
            fn compound [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2(); let s: u8 = any();
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j])); let mb = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(b[i][j]));
                let (mut p, mut q, mut t, mut u) = (ma, ma, ma, ma);
                p += mb; q -= mb; t *= Op(s); u /= Op(s);
                for i in 0..$r { for j in 0..$c { let x = (i, j);
                    assert!(p[x].0 == Op::adda(a[i][j], b[i][j]) && q[x].0 == Op::suba(a[i][j], b[i][j]));
                    assert!(t[x].0 == Op::mula(a[i][j], s) && u[x].0 == Op::diva(a[i][j], s)); } }
            }
            fn scalar [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let s: u8 = any(); let t = Op(s);
                let ma = Matrix::<Op, $R, $C>::generate(|(i, j)| Op(a[i][j]));
                let (p, q, d, e, n) = (ma * t, ma * &t, ma / t, ma / &t, -ma);
                for i in 0..$r { for j in 0..$c { let x = (i, j);
                    assert!(p[x].0 == Op::mul_(a[i][j], s) && q[x].0 == Op::mul_(a[i][j], s));
                    assert!(d[x].0 == Op::div_(a[i][j], s) && e[x].0 == Op::div_(a[i][j], s) && n[x].0 == Op::neg_(a[i][j])); } }
            }
            fn conjugate [$unw] {
                let a: [[u8; $c]; $r] = arr2(); let b: [[u8; $c]; $r] = arr2();
                let m = Matrix::<Complex<Z>, $R, $C>::generate(|(i, j)| Complex { re: Z(a[i][j] & 15), im: Z(b[i][j] & 15) });
                let w = m.conjugate();
                for i in 0..$r { for j in 0..$c { assert!(w[(i, j)].re.0 == a[i][j] & 15 && w[(i, j)].im == -Z(b[i][j] & 15)); } }
            }
        }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { body; m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 10) }
#[cfg(feature = "thorough")]
shapes! { body;
    m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_2(U2, U2, 2, 2, 8)
    m1_3(U1, U3, 1, 3, 7) m3_1(U3, U1, 3, 1, 7) m2_3(U2, U3, 2, 3, 10) m3_2(U3, U2, 3, 2, 10) m4_3(U4, U3, 4, 3, 16)
    m3_3(U3, U3, 3, 3, 13) m4_4(U4, U4, 4, 4, 20) m5_2(U5, U2, 5, 2, 14) m2_7(U2, U7, 2, 7, 18)
}
wide! { body: wide_mats body; }
