use crate::nd::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use rowcol::{matrix, vector};
use std::marker::PhantomData;
use typenum::Unsigned;

/// The array type of a length, compared by type identity (decided while this crate compiles).
pub struct Same<A, B>(pub PhantomData<(A, B)>);
pub trait Eq1 { fn same(&self) -> bool { true } }
impl<A> Eq1 for Same<A, A> {}
pub trait Ne1 { fn same(&self) -> bool { false } }
impl<A, B> Ne1 for &Same<A, B> {}
macro_rules! same { ($A:ty, $B:ty) => { (&Same::<$A, $B>(PhantomData)).same() } }

pub mod lengths {
    use super::*;
    macro_rules! lens { ($($U:ident $n:literal)*) => {
        harnesses! {
            fn arrays [40] {
                $( assert!(<$U as Unsigned>::to_usize() == $n && same!(<$U as ArrayLen<u16>>::Array, [u16; $n]), "array of a length");
                   assert!(core::mem::size_of::<Vector<u16, $U>>() == 2 * $n); )*
            }
        }
    } }
    lens! { U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27 U28 28 U29 29 U30 30 U31 31 U32 32 }
}
pub mod min {
    use super::*;
    // Min<R, C> is not public; it is the length of Matrix::diag's argument.
    macro_rules! mins { ($($R:ident $C:ident $m:literal)*) => {
        harnesses! {
            fn minimum [13] {
                $( { let f: fn([u8; $m]) -> Matrix<u8, $R, $C> = |a| Matrix::<u8, $R, $C>::diag(a); let _ = f; } )*
                $( { let mut k = 0u8; let a: [u8; $m] = core::array::from_fn(|_| { k += 1; k });
                     let m = Matrix::<u8, $R, $C>::diag(a);
                     let mut c = 0; for i in 0..<$R as Unsigned>::to_usize() { for j in 0..<$C as Unsigned>::to_usize() { if m[(i, j)] != 0 { c += 1 } } } assert!(c == $m); } )*
            }
        }
    } }
    mins! { U0 U0 0 U0 U3 0 U3 U0 0 U1 U1 1 U1 U4 1 U4 U1 1 U2 U3 2 U3 U2 2 }
}
pub mod macros {
    use super::*;
    harnesses! {
        fn vectors [40] {
            let a: [u8; 10] = arr();
            let v0: Vector<u8, U0> = vector![]; assert!(v0.len() == 0);
            let v1: Vector<u8, U1> = vector![a[0]]; assert!(v1.into_inner() == [a[0]]);
            let v2: Vector<u8, U2> = vector![a[0], a[1]]; assert!(v2.into_inner() == [a[0], a[1]]);
            let v3: Vector<u8, U3> = vector![a[0], a[1], a[2]]; assert!(v3.into_inner() == [a[0], a[1], a[2]]);
            let v4: Vector<u8, U4> = vector![a[0], a[1], a[2], a[3]]; assert!(v4.into_inner() == [a[0], a[1], a[2], a[3]]);
            let v7: Vector<u8, U7> = vector![a[0], a[1], a[2], a[3], a[4], a[5], a[6]];
            assert!(v7.into_inner() == [a[0], a[1], a[2], a[3], a[4], a[5], a[6]]);
            let v10: Vector<u8, U10> = vector![a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]];
            assert!(v10.into_inner() == a);
            let e = vector![a[0] ^ 1, { a[1] }, (a[2])]; assert!(e.into_inner() == [a[0] ^ 1, a[1], a[2]]);
        }
        fn vector_32 [40] {
            let a: [u8; 32] = arr();
            let v: Vector<u8, U32> = vector![a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15],
                a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31]];
            assert!(v.into_inner() == a);
        }
        fn matrices [12] {
            let a: [u8; 6] = arr();
            let m: Matrix<u8, U0, U0> = matrix![]; assert!(m.dim() == (0, 0));
            let m: Matrix<u8, U2, U0> = matrix![[], []]; assert!(m.dim() == (2, 0));
            let m: Matrix<u8, U1, U1> = matrix![[a[0]]]; assert!(m[(0, 0)] == a[0]);
            let m: Matrix<u8, U1, U3> = matrix![[a[0], a[1], a[2]]];
            for j in 0..3 { assert!(m[(0, j)] == a[j]); }
            let m: Matrix<u8, U3, U1> = matrix![[a[0]], [a[1]], [a[2]]];
            for i in 0..3 { assert!(m[(i, 0)] == a[i]); }
            let m: Matrix<u8, U2, U3> = matrix![[a[0], a[1], a[2]], [a[3], a[4], a[5]]];
            for i in 0..2 { for j in 0..3 { assert!(m[(i, j)] == a[3 * i + j]); } }
            let m: Matrix<u8, U3, U2> = matrix![[a[0], a[1]], [a[2], a[3]], [a[4], a[5]]];
            for i in 0..3 { for j in 0..2 { assert!(m[(i, j)] == a[2 * i + j]); } }
        }
    }
}
pub mod aliases {
    use super::*;
    macro_rules! al { ($($V:ident $U:ident $f:ty;)* ; $($M:ident $N:ident $g:ty;)*) => {
        harnesses! {
            fn prelude [40] {
                $( assert!(same!($V, Vector<$f, $U>), stringify!($V)); )*
                $( assert!(same!($M, Matrix<$g, $N, $N>), stringify!($M)); )*
            }
        }
    } }
    al! { Vector1f32 U1 f32; Vector1f64 U1 f64; Vector2f32 U2 f32; Vector2f64 U2 f64; Vector3f32 U3 f32; Vector3f64 U3 f64; Vector4f32 U4 f32; Vector4f64 U4 f64; Vector5f32 U5 f32; Vector5f64 U5 f64; Vector6f32 U6 f32; Vector6f64 U6 f64; Vector7f32 U7 f32; Vector7f64 U7 f64; Vector8f32 U8 f32; Vector8f64 U8 f64; Vector9f32 U9 f32; Vector9f64 U9 f64; Vector10f32 U10 f32; Vector10f64 U10 f64; ; Matrix2f32 U2 f32; Matrix2f64 U2 f64; Matrix3f32 U3 f32; Matrix3f64 U3 f64; Matrix4f32 U4 f32; Matrix4f64 U4 f64;  }
}
pub fn table() -> crate::Table { let mut t = lengths::table(); t.extend(min::table()); t.extend(macros::table()); t.extend(aliases::table()); t }
wide! {  }
