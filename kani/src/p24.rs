use crate::nd::*;
use rowcol::prelude::*;
use std::fmt::{Debug, Formatter, Result, Write};

/// An element whose Debug form is one chosen letter.
#[derive(Clone, Copy)]
struct L(u8);
impl Debug for L { fn fmt(&self, f: &mut Formatter) -> Result { f.write_char(self.0 as char) } }
#[cfg(not(feature = "wide"))]
const CAP: usize = 32;
#[cfg(feature = "wide")]
const CAP: usize = 256;
/// A sink that holds what was written.
struct Buf { b: [u8; CAP], n: usize }
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> Result {
        for x in s.as_bytes() { self.b[self.n] = *x; self.n += 1; }
        Ok(())
    }
}
struct Expect { b: [u8; CAP], n: usize }
impl Expect {
    fn new() -> Expect { Expect { b: [0; CAP], n: 0 } }
    fn s(&mut self, s: &str) { for x in s.as_bytes() { self.b[self.n] = *x; self.n += 1; } }
    fn c(&mut self, c: u8) { self.b[self.n] = c; self.n += 1; }
    fn check(&self, w: &Buf) { assert!(w.n == self.n, "length of the output"); for i in 0..CAP / 8 { for j in 0..8 { assert!(w.b[i * 8 + j] == self.b[i * 8 + j], "output") } } }
}
fn letter() -> u8 { b'a' + (any::<u8>() & 15) }
macro_rules! vector {
    ($U:ident, $n:literal, $unw:literal) => {
        harnesses! {
            fn vector [$unw] {
                let a: [L; $n] = core::array::from_fn(|_| L(letter()));
                let mut w = Buf { b: [0; CAP], n: 0 };
                assert!(write!(w, "{:?}", Vector::<L, $U>::new(a)).is_ok());
                let mut e = Expect::new();
                e.s("Vector[");
                for k in 0..$n { if k > 0 { e.s(", "); } e.c(a[k].0); }
                e.s("]");
                e.check(&w);
            }
        }
    };
}
macro_rules! matrix {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn matrix [$unw] {
                let a: [[L; $c]; $r] = core::array::from_fn(|_| core::array::from_fn(|_| L(letter())));
                let mut w = Buf { b: [0; CAP], n: 0 };
                assert!(write!(w, "{:?}", Matrix::<L, $R, $C>::new(a)).is_ok());
                let mut e = Expect::new();
                e.s("Matrix[");
                for i in 0..$r {
                    if i > 0 { e.s(", "); }
                    e.s("[");
                    for j in 0..$c { if j > 0 { e.s(", "); } e.c(a[i][j].0); }
                    e.s("]");
                }
                e.s("]");
                e.check(&w);
            }
        }
    };
}
pub mod vector {
    use super::*;
    shapes! { vector; l0(U0, 0, 9) l1(U1, 1, 9) l2(U2, 2, 9) l3(U3, 3, 9) l5(U5, 5, 9) }
}
pub mod matrix {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { matrix; m1_1(U1, U1, 1, 1, 9) m1_2(U1, U2, 1, 2, 9) m2_1(U2, U1, 2, 1, 9) }
    #[cfg(feature = "thorough")]
    shapes! { matrix; m1_1(U1, U1, 1, 1, 9) m1_2(U1, U2, 1, 2, 9) m2_1(U2, U1, 2, 1, 9) m2_2(U2, U2, 2, 2, 9) m2_3(U2, U3, 2, 3, 9) m3_2(U3, U2, 3, 2, 9) }
}
pub fn table() -> crate::Table { let mut t = vector::table(); t.extend(matrix::table()); t }

/// Matrices without rows or columns have no entries, so one execution per shape is exhaustive; Kani
/// takes minutes to iterate over an array of zero-sized rows.
#[cfg(not(kani))]
pub fn native() -> crate::Table {
    let mut t: crate::Table = vec![];
    macro_rules! empty { ($($R:ident $C:ident $s:literal)*) => { $( {
        fn f() { assert!(format!("{:?}", Matrix::<L, $R, $C>::new([[L(b'a'); <$C as typenum::Unsigned>::USIZE]; <$R as typenum::Unsigned>::USIZE])) == $s); }
        t.push((concat!("p24::native::", stringify!($R), "_", stringify!($C)).to_string(), f as fn()));
    } )* } }
    empty! { U0 U0 "Matrix[]" U0 U1 "Matrix[]" U0 U2 "Matrix[]" U0 U5 "Matrix[]" U1 U0 "Matrix[[]]" U2 U0 "Matrix[[], []]" U3 U0 "Matrix[[], [], []]" U32 U0 "Matrix[[], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], []]" }
    t
}
wide! { vector: wide_lens vector; matrix: wide_mats matrix; }
