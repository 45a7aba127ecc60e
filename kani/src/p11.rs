use crate::nd::*;
use rowcol::matrix::iter::*;
use rowcol::prelude::*;

macro_rules! body {
    ($R:ident, $C:ident, $r:literal, $c:literal, $ops:literal, $unw:literal) => {
        pub mod rows {
            use super::*;
            deque_harnesses! { [$unw, $ops] { let b: [[u8; $c]; $r] = arr2(); (b, Matrix::<u8, $R, $C>::new(b)) }; $r;
                |a| a.1.rows_iter();
                |x, k, a| { let x = x.into_inner(); let mut ok = k < $r; for j in 0..$c { ok = ok && x[j] == a.0[k][j]; } ok } }
        }
        pub mod cols {
            use super::*;
            deque_harnesses! { [$unw, $ops] { let b: [[u8; $c]; $r] = arr2(); (b, Matrix::<u8, $R, $C>::new(b)) }; $c;
                |a| a.1.cols_iter();
                |x, k, a| { let x = x.into_inner(); let mut ok = k < $c; for i in 0..$r { ok = ok && x[i] == a.0[i][k]; } ok } }
        }
        pub mod rows_ref {
            use super::*;
            deque_harnesses! { [$unw, $ops] { let b: [[u8; $c]; $r] = arr2(); (b, Matrix::<u8, $R, $C>::new(b)) }; $r;
                |a| a.1.rows_iter_ref();
                |x, k, a| { let mut ok = k < $r && x.len() == $c; for j in 0..$c { ok = ok && x[j] == a.0[k][j]; } ok } }
        }
        pub mod cols_ref {
            use super::*;
            deque_harnesses! { [$unw, $ops] { let b: [[u8; $c]; $r] = arr2(); (b, Matrix::<u8, $R, $C>::new(b)) }; $c;
                |a| a.1.cols_iter_ref();
                |x, k, a| { let mut ok = k < $c && x.len() == $r; let mut i = 0; for e in x { ok = ok && i < $r && *e == a.0[i][k]; i += 1; } ok && i == $r } }
        }
        pub mod column {
            use super::*;
            deque_harnesses! { [$unw, $ops] { let b: [[u8; $c]; $r] = arr2(); (b, Matrix::<u8, $R, $C>::new(b), if $c > 0 { below($c) } else { 0 }) }; if $c > 0 { $r } else { 0 };
                |a| { let mut t = a.1.cols_iter_ref(); Col(if a.2 == 0 { t.next() } else { t.nth(a.2) }) };
                |x, k, a| k < $r && *x == a.0[k][a.2] }
        }
        pub fn table() -> crate::Table {
            let mut t = rows::table(); t.extend(cols::table()); t.extend(rows_ref::table()); t.extend(cols_ref::table()); t.extend(column::table()); t
        }
    };
}
/// The column iterator of a matrix; behaves as empty when the matrix has no column to hand out.
pub struct Col<I>(pub Option<I>);
impl<I: Iterator> Iterator for Col<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.0 { Some(ref mut i) => i.next(), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.0 { Some(ref i) => i.size_hint(), None => (0, Some(0)) } }
    fn nth(&mut self, n: usize) -> Option<I::Item> { match self.0 { Some(ref mut i) => i.nth(n), None => None } }
    fn count(self) -> usize { match self.0 { Some(i) => i.count(), None => 0 } }
    fn last(self) -> Option<I::Item> { match self.0 { Some(i) => i.last(), None => None } }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Col<I> {
    fn next_back(&mut self) -> Option<I::Item> { match self.0 { Some(ref mut i) => i.next_back(), None => None } }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Col<I> {
    fn len(&self) -> usize { match self.0 { Some(ref i) => i.len(), None => 0 } }
}
macro_rules! ctor {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            /// The public constructor: an in-range column gives that column, anything else panics.
            fn constructor [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let v = Vector::<Vector<u8, $C>, $R>::generate(|i| Vector::new(a[i]));
                if $c > 0 {
                    let c = below($c);
                    let mut it = ColsIterRefInner::new(&v, c);
                    assert!(it.len() == $r);
                    for i in 0..$r { let x = it.next(); assert!(x.map(|x| *x) == Some(a[i][c])); }
                    assert!(it.next().is_none());
                }
                assert!(RowsIter::new(&v).len() == $r && RowsIterRef::new(&v).len() == $r);
                assert!(ColsIter::new(&v).len() == $c && ColsIterRef::new(&v).len() == $c);
            }
            #[cfg_attr(kani, kani::should_panic)]
            fn panics_constructor_out_of_range [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let v = Vector::<Vector<u8, $C>, $R>::generate(|i| Vector::new(a[i]));
                let c: usize = any(); assume(c >= $c);
                let mut it = ColsIterRefInner::new(&v, c);
                // a constructor that defers the check must panic on use; with no rows nothing is ever read
                let x = it.next();
                if $r > 0 { let _y = x.map(|x| *x); }
                escaped()
            }
        }
    };
}
pub mod walk {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { body; m2_1(U2, U1, 2, 1, 1, 8) m1_2(U1, U2, 1, 2, 1, 8) }
    #[cfg(feature = "thorough")]
    shapes! { body; m0_0(U0, U0, 0, 0, 2, 7) m0_2(U0, U2, 0, 2, 2, 7) m2_0(U2, U0, 2, 0, 2, 7) m1_1(U1, U1, 1, 1, 2, 8) m2_3(U2, U3, 2, 3, 3, 10)
        m3_2(U3, U2, 3, 2, 3, 10) m1_4(U1, U4, 1, 4, 2, 10) m4_1(U4, U1, 4, 1, 2, 10) m4_3(U4, U3, 4, 3, 2, 10) m5_3(U5, U3, 5, 3, 1, 10) m3_5(U3, U5, 3, 5, 1, 10) }
}
/// Straight traversals from both ends on shapes with rows and columns told apart.
macro_rules! both_ends {
    ($R:ident, $C:ident, $r:literal, $c:literal, $unw:literal) => {
        harnesses! {
            fn rows [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let m = Matrix::<u8, $R, $C>::new(a);
                let mut it = m.rows_iter(); let mut jt = m.rows_iter_ref();
                for n in 0..$r {
                    let i = if n % 2 == 0 { n / 2 } else { $r - 1 - n / 2 };
                    let (x, y) = if n % 2 == 0 { (it.next().unwrap(), jt.next().unwrap()) } else { (it.next_back().unwrap(), jt.next_back().unwrap()) };
                    assert!(it.len() == $r - 1 - n && jt.len() == $r - 1 - n && y.len() == $c);
                    for j in 0..$c { assert!(x.as_slice()[j] == a[i][j] && y[j] == a[i][j]); }
                }
                assert!(it.next().is_none() && jt.next().is_none() && it.next_back().is_none() && jt.next_back().is_none());
            }
            fn cols [$unw] {
                let a: [[u8; $c]; $r] = arr2();
                let m = Matrix::<u8, $R, $C>::new(a);
                let mut it = m.cols_iter(); let mut jt = m.cols_iter_ref();
                for n in 0..$c {
                    let j = if n % 2 == 0 { n / 2 } else { $c - 1 - n / 2 };
                    let (x, mut y) = if n % 2 == 0 { (it.next().unwrap(), jt.next().unwrap()) } else { (it.next_back().unwrap(), jt.next_back().unwrap()) };
                    assert!(it.len() == $c - 1 - n && jt.len() == $c - 1 - n && y.len() == $r);
                    for k in 0..$r {
                        let i = if k % 2 == 0 { k / 2 } else { $r - 1 - k / 2 };
                        let e = if k % 2 == 0 { y.next() } else { y.next_back() };
                        assert!(x.as_slice()[i] == a[i][j] && *e.unwrap() == a[i][j] && y.len() == $r - 1 - k);
                    }
                    assert!(y.next().is_none() && y.next_back().is_none());
                }
                assert!(it.next().is_none() && jt.next().is_none() && it.next_back().is_none() && jt.next_back().is_none());
            }
        }
    };
}
pub mod both_ends {
    use super::*;
    shapes! { both_ends; m0_0(U0, U0, 0, 0, 6) m2_0(U2, U0, 2, 0, 7) m0_2(U0, U2, 0, 2, 7) m2_3(U2, U3, 2, 3, 8) m3_2(U3, U2, 3, 2, 8) m4_3(U4, U3, 4, 3, 9) m1_5(U1, U5, 1, 5, 9) m5_1(U5, U1, 5, 1, 9) }
}
pub mod ctor {
    use super::*;
    shapes! { ctor; m0_0(U0, U0, 0, 0, 5) m0_2(U0, U2, 0, 2, 6) m2_0(U2, U0, 2, 0, 6) m1_1(U1, U1, 1, 1, 6) m2_3(U2, U3, 2, 3, 9) m4_2(U4, U2, 4, 2, 10) }
}
pub fn table() -> crate::Table { let mut t = walk::table(); t.extend(ctor::table()); t.extend(both_ends::table()); t }
wide! { walk: wide_mats_depth body; ctor: wide_mats ctor; both_ends: wide_mats both_ends; }
