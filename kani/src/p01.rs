use crate::nd::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;

macro_rules! body {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn roundtrip_and_views [$unw] {
                let a: [u8; $n] = arr();
                let v = Vector::<u8, $U>::new(a);
                assert!(v.len() == $n);
                assert!(v.is_empty() == ($n == 0));
                assert!(v.as_slice().len() == $n && AsRef::<[u8]>::as_ref(&v).len() == $n);
                assert!(*v == a);
                let mut k = 0;
                for x in v.iter() { assert!(k < $n && *x == a[k]); k += 1; }
                assert!(k == $n);
                for k in 0..$n {
                    assert!(v.as_slice()[k] == a[k]);
                    assert!(AsRef::<[u8]>::as_ref(&v)[k] == a[k]);
                }
                assert!(v.into_inner() == a);
            }
            fn mutable_views [$unw] {
                let a: [u8; $n] = arr();
                let mut v = Vector::<u8, $U>::new(a);
                let mut b = a;
                if $n > 0 {
                    let i = below($n); let x: u8 = any();
                    match any::<u8>() & 3 {
                        0 => v.as_slice_mut()[i] = x,
                        1 => AsMut::<[u8]>::as_mut(&mut v)[i] = x,
                        2 => (*v)[i] = x,
                        _ => { let mut k = 0; for e in v.iter_mut() { if k == i { *e = x } k += 1; } assert!(k == $n); }
                    }
                    b[i] = x;
                }
                assert!(v.as_slice_mut().len() == $n && AsMut::<[u8]>::as_mut(&mut v).len() == $n);
                assert!(v.into_inner() == b);
            }
            fn generate_ascending_once [$unw] {
                let a: [u8; $n] = arr();
                let mut calls = 0;
                let v = Vector::<u8, $U>::generate(|i| { assert!(i == calls && i < $n); calls += 1; a[i] });
                assert!(calls == $n);
                assert!(v.into_inner() == a);
            }
        }
    };
}
#[cfg(not(feature = "thorough"))]
shapes! { body;
    l0(U0, 0, 4) l1(U1, 1, 5) l2(U2, 2, 6) l3(U3, 3, 7) l5(U5, 5, 9) l8(U8, 8, 12) l17(U17, 17, 21) l32(U32, 32, 36)
}
#[cfg(feature = "thorough")]
all_lens! { body }
wide! { body: wide_lens body; }
