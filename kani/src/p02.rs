use crate::nd::*;
use rowcol::prelude::*;
use std::iter::FromIterator;

/// An arbitrary iterator: yields a[0..n], claims anything about its size; after its end it may start again.
pub struct Src<const M: usize> { a: [u8; M], n: usize, pos: usize, hint: (usize, Option<usize>), again: bool }
impl<const M: usize> Iterator for Src<M> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.pos < self.n { self.pos += 1; Some(self.a[self.pos - 1]) } else { if self.again { self.pos = 0; } None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
macro_rules! body {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn exact [$unw] {
                let a: [u8; $n] = arr();
                let hint = if any() { (0, None) } else { ($n, Some($n)) };
                let again = any();
                let v: Vector<u8, $U> = Src { a, n: $n, pos: 0, hint, again }.collect();
                assert!(v.into_inner() == a);
                let v = Vector::<u8, $U>::from_iter(Src { a, n: $n, pos: 0, hint, again });
                assert!(v.into_inner() == a);
            }
            fn through_adaptors [$unw] {
                let a: [u8; $n] = arr();
                let v: Vector<u8, $U> = Vector::<u8, $U>::new(a).into_iter().rev().collect();
                for k in 0..$n { assert!(v.as_slice()[k] == a[a.len() - 1 - k]); }
                let w: Vector<u8, $U> = a.iter().cloned().map(|x| x ^ 0xa5).collect();
                for k in 0..$n { assert!(w.as_slice()[k] == a[k] ^ 0xa5); }
                // elements wider than a byte, and an element type with a niche
                let w: Vector<(u16, bool), $U> = a.iter().map(|&x| (x as u16 * 257, x > 7)).collect();
                for k in 0..$n { assert!(w.as_slice()[k] == (a[k] as u16 * 257, a[k] > 7)); }
            }
        }
    };
}
macro_rules! short {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            #[cfg_attr(kani, kani::should_panic)]
            fn panics_when_short [$unw] {
                let a: [u8; $n] = arr();
                let n = below($n);
                let hint = if any() { (0, None) } else { ($n, Some($n)) };
                let again = any();
                let v: Vector<u8, $U> = Src { a, n, pos: 0, hint, again }.collect();
                let _ = v.into_inner();
                escaped()
            }
        }
    };
}
pub mod exact {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { body;
        l0(U0, 0, 4) l1(U1, 1, 5) l2(U2, 2, 6) l3(U3, 3, 7) l5(U5, 5, 9) l8(U8, 8, 12) l17(U17, 17, 21) l32(U32, 32, 36) }
    #[cfg(feature = "thorough")]
    all_lens! { body }
}
pub mod short {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { short; l1(U1, 1, 5) l2(U2, 2, 6) l3(U3, 3, 7) l7(U7, 7, 11) l16(U16, 16, 20) l32(U32, 32, 36) }
    #[cfg(feature = "thorough")]
    pos_lens! { short }
}
pub fn table() -> crate::Table { let mut t = exact::table(); t.extend(short::table()); t }
wide! { exact: wide_lens body; short: wide_pos short; }
