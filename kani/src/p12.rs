use crate::elem::*;
use crate::nd::*;
use rowcol::prelude::*;

macro_rules! body {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn add [$unw] {
                let a: [u8; $n] = arr(); let b: [u8; $n] = arr();
                let va = Vector::<Op, $U>::generate(|k| Op(a[k])); let vb = Vector::<Op, $U>::generate(|k| Op(b[k]));
                let (p, q, r, s) = (va + vb, &va + vb, va + &vb, &va + &vb);
                for k in 0..$n { let e = Op(Op::add_(a[k], b[k]));
                    assert!(p.as_slice()[k] == e && q.as_slice()[k] == e && r.as_slice()[k] == e && s.as_slice()[k] == e); }
            }
            fn sub [$unw] {
                let a: [u8; $n] = arr(); let b: [u8; $n] = arr();
                let va = Vector::<Op, $U>::generate(|k| Op(a[k])); let vb = Vector::<Op, $U>::generate(|k| Op(b[k]));
                let (p, q, r, s) = (va - vb, &va - vb, va - &vb, &va - &vb);
                for k in 0..$n { let e = Op(Op::sub_(a[k], b[k]));
                    assert!(p.as_slice()[k] == e && q.as_slice()[k] == e && r.as_slice()[k] == e && s.as_slice()[k] == e); }
            }
            fn compound [$unw] {
                let a: [u8; $n] = arr(); let b: [u8; $n] = arr();
                let va = Vector::<Op, $U>::generate(|k| Op(a[k])); let vb = Vector::<Op, $U>::generate(|k| Op(b[k]));
                let (mut p, mut q) = (va, va);
                p += vb; q -= vb;
                for k in 0..$n { assert!(p.as_slice()[k].0 == Op::adda(a[k], b[k]) && q.as_slice()[k].0 == Op::suba(a[k], b[k])); }
            }
            fn scalar [$unw] {
                let a: [u8; $n] = arr(); let s: u8 = any();
                let va = Vector::<Op, $U>::generate(|k| Op(a[k]));
                let (p, q, r) = (va * Op(s), va / Op(s), -va);
                let (mut t, mut u) = (va, va);
                t *= Op(s); u /= Op(s);
                for k in 0..$n {
                    assert!(p.as_slice()[k].0 == Op::mul_(a[k], s) && q.as_slice()[k].0 == Op::div_(a[k], s) && r.as_slice()[k].0 == Op::neg_(a[k]));
                    assert!(t.as_slice()[k].0 == Op::mula(a[k], s) && u.as_slice()[k].0 == Op::diva(a[k], s));
                }
            }
        }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { body;
    l0(U0, 0, 4) l1(U1, 1, 5) l2(U2, 2, 6) l3(U3, 3, 7) l5(U5, 5, 9) l9(U9, 9, 13)
}
#[cfg(feature = "thorough")]
all_lens! { body }
wide! { body: wide_lens body; }
