//! The ownership ledger: every element D has an identity; dropping one that is not live fails at
//! once, and after each scenario nothing may be live.
use crate::elem::*;
use crate::nd::*;
use rowcol::prelude::*;

fn ds<const N: usize>() -> [D; N] { core::array::from_fn(|i| D::new(i as u8)) }
fn ds2<const R: usize, const C: usize>() -> [[D; C]; R] { core::array::from_fn(|i| core::array::from_fn(|j| D::new((i * 4 + j) as u8))) }
fn done() { assert!(live_count() == 0, "an element leaked"); ledger_reset() }
/// Any interleaving of the queue operations, then the iterator is dropped where it stands.
fn ops<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, left: usize) {
    if left == 0 { return }
    if any() { drop(it.next()); ops(it, left - 1) }
    else if any() { drop(it.next_back()); ops(it, left - 1) }
    else if any() { drop(it.nth(1)); ops(it, left - 1) }
    else if any() { drop(it.nth(usize::MAX)); ops(it, left - 1) }
    else { drop(it.count()) }
}
/// Items held until after the iterator is gone stay live and are then dropped once.
fn hold<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I) {
    let (a, b, c) = (it.next_back(), it.next(), it.nth(1));
    drop(it);
    drop(b); drop(c); drop(a);
}

macro_rules! vector {
    ($U:ident, $n:literal, $ops:literal, $unw:literal) => {
        harnesses! {
            fn iterator [$unw] {
                ledger_reset();
                ops(Vector::<D, $U>::new(ds()).into_iter(), $ops);
                done();
            }
            fn held [$unw] {
                ledger_reset();
                hold(Vector::<D, $U>::new(ds()).into_iter());
                done();
                hold(Vector::<D, $U>::new(ds()).into_iter().rev());
                done();
                assert!(Vector::<D, $U>::new(ds()).into_iter().last().map(|d| d.v as usize + 1).unwrap_or(0) == $n);
                done();
                drop(Vector::<D, $U>::new(ds()).into_iter());
                done();
                for d in Vector::<D, $U>::new(ds()) { assert!(d.live()); }
                done();
            }
            fn moved [$unw] {
                ledger_reset();
                drop(Vector::<D, $U>::new(ds()));
                done();
                for d in Vector::<D, $U>::new(ds()).into_inner().iter() { assert!(d.live()); }
                done();
                {
                    let mut v = Vector::<D, $U>::new(ds());
                    let w = v.clone();
                    assert!(live_count() == 2 * $n);
                    assert!(v == w);
                    for x in v.iter_mut() { *x = D::new(9); }
                    if $n > 0 { v[$n - 1] = D::new(7); }
                    assert!(live_count() == 2 * $n);
                    assert!((v == w) == ($n == 0));
                }
                done();
                drop(Vector::<D, $U>::default());
                drop(Vector::<D, $U>::generate(|i| D::new(i as u8)));
                drop(Vector::<D, $U>::new(ds()).into_iter().rev().collect::<Vector<D, $U>>());
                drop(ds::<$n>().iter().cloned().collect::<Vector<D, $U>>());
                done();
            }
            fn arithmetic [$unw] {
                ledger_reset();
                drop(Vector::<D, $U>::new(ds()) + Vector::<D, $U>::new(ds()));
                done();
                {
                    let v = Vector::<D, $U>::new(ds());
                    drop(&v - &v);
                    drop(&v + Vector::<D, $U>::new(ds()));
                    drop(Vector::<D, $U>::new(ds()) - &v);
                    assert!(live_count() == $n);
                }
                done();
                drop(Vector::<D, $U>::new(ds()) * D::new(2));
                done();
                drop(-Vector::<D, $U>::new(ds()));
                done();
                {
                    let mut v = Vector::<D, $U>::new(ds());
                    v += Vector::<D, $U>::new(ds());
                    v -= Vector::<D, $U>::new(ds());
                    v *= D::new(2);
                    v /= D::new(2);
                    assert!(live_count() == $n);
                    v.clamp(D::new(1), D::new(3));
                    assert!(live_count() == $n);
                }
                done();
            }
            fn reductions [$unw] {
                ledger_reset();
                let v = Vector::<D, $U>::new(ds());
                drop(v.clamped(D::new(1), D::new(3)));
                assert!(live_count() == $n);
                drop(v.sum());
                drop(v.dot(&v));
                assert!(live_count() == $n);
                drop(v);
                done();
            }
        }
    };
}
macro_rules! chunks {
    ($U:ident, $I:ident, $ops:literal, $unw:literal) => {
        harnesses! {
            fn chunks [$unw] {
                ledger_reset();
                chunk_ops(Vector::<D, $U>::new(ds()).into_chunks::<$I>(), $ops);
                done();
            }
        }
    };
}
fn chunk_ops<I: DoubleEndedIterator>(mut it: I, left: usize) {
    if left == 0 { return }
    if any() { drop(it.next()); chunk_ops(it, left - 1) }
    else if any() { drop(it.next_back()); chunk_ops(it, left - 1) }
    else if any() { drop(it.nth(1)); chunk_ops(it, left - 1) }
    else { drop(it.last()) }
}
macro_rules! matrix {
    ($R:ident, $C:ident, $r:literal, $c:literal, $P:ident, $M:ident, $m:literal, $unw:literal) => {
        harnesses! {
            fn moved [$unw] {
                ledger_reset();
                let a = Matrix::<D, $R, $C>::new(ds2());
                let b = a.clone();
                assert!(live_count() == 2 * $r * $c && a == b);
                drop(a.transposed());
                assert!(live_count() == 2 * $r * $c);
                drop(b.map(|_, x| x));
                assert!(live_count() == $r * $c);
                drop(a);
                done();
                drop(Matrix::<D, $R, $C>::from(Vector::<D, $P>::new(ds())));
                drop(Matrix::<D, $R, $C>::diag(ds::<$m>()));
                drop(Matrix::<D, $R, $C>::default());
                drop(Matrix::<D, $R, $C>::generate(|(i, j)| D::new((i + j) as u8)));
                done();
            }
            fn iterators [$unw] {
                ledger_reset();
                let a = Matrix::<D, $R, $C>::new(ds2());
                { let mut it = a.rows_iter(); drop(it.next_back()); drop(it.next()); drop(it.nth(1)); }
                { let mut it = a.cols_iter(); drop(it.next_back()); drop(it.next()); drop(it.nth(1)); }
                { let mut it = a.cols_iter_ref(); it.next_back().map(|mut c| { c.next(); c.next_back(); }); it.next(); }
                assert!(live_count() == $r * $c);
                drop(a);
                done();
            }
            fn arithmetic [$unw] {
                ledger_reset();
                drop(Matrix::<D, $R, $C>::new(ds2()) + Matrix::<D, $R, $C>::new(ds2()));
                done();
                let mut a = Matrix::<D, $R, $C>::new(ds2());
                drop(&a - &a);
                drop(-a.clone());
                a += Matrix::<D, $R, $C>::new(ds2());
                a *= D::new(3);
                a.clamp(D::new(1), D::new(3));
                assert!(live_count() == $r * $c);
                drop(a.clamped(D::new(1), D::new(3)));
                drop(a.sum());
                assert!(live_count() == $r * $c);
                drop(a * D::new(2));
                done();
            }
            fn product [$unw] {
                ledger_reset();
                let a = Matrix::<D, $R, $C>::new(ds2());
                drop(&a * &a.transposed());
                assert!(live_count() == $r * $c);
                drop(a);
                done();
            }
        }
    };
}
pub mod vector {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { vector; l1(U1, 1, 3, 9) l2(U2, 2, 3, 9) l3(U3, 3, 3, 9) l5(U5, 5, 2, 9) }
    #[cfg(feature = "thorough")]
    shapes! { vector; l1(U1, 1, 4, 9) l2(U2, 2, 4, 9) l3(U3, 3, 4, 9) l4(U4, 4, 4, 9) l5(U5, 5, 4, 10) l6(U6, 6, 3, 11) l7(U7, 7, 3, 12) }
}
pub mod chunks {
    use super::*;
    shapes! { chunks; c4_2(U4, U2, 3, 9) c3_1(U3, U1, 3, 9) c6_3(U6, U3, 2, 11) c4_4(U4, U4, 2, 9) }
}
pub mod matrix {
    use super::*;
    #[cfg(not(feature = "thorough"))]
    shapes! { matrix; m1_1(U1, U1, 1, 1, U1, U1, 1, 9) m2_1(U2, U1, 2, 1, U2, U1, 1, 9) m1_2(U1, U2, 1, 2, U2, U1, 1, 9) m2_2(U2, U2, 2, 2, U4, U2, 2, 9) }
    #[cfg(feature = "thorough")]
    shapes! { matrix; m1_1(U1, U1, 1, 1, U1, U1, 1, 9) m2_1(U2, U1, 2, 1, U2, U1, 1, 9) m1_2(U1, U2, 1, 2, U2, U1, 1, 9) m2_2(U2, U2, 2, 2, U4, U2, 2, 9) m2_3(U2, U3, 2, 3, U6, U2, 2, 12) }
}
pub fn table() -> crate::Table { let mut t = vector::table(); t.extend(chunks::table()); t.extend(matrix::table()); t }

/// Bounded stand-in (Kani does not unwind): every length, every way of ending early, executed.
#[cfg(not(kani))]
pub fn native() -> crate::Table {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let mut t: crate::Table = vec![];
    macro_rules! short { ($($U:ident $n:literal)*) => { $( {
        fn f() {
            for k in 0..$n {
                ledger_reset();
                let r = catch_unwind(AssertUnwindSafe(|| (0..k).map(|i| D::new(i as u8)).collect::<Vector<D, $U>>()));
                assert!(r.is_err(), "collecting {} items into length {} must panic", k, $n);
                assert!(live_count() == 0, "{} items leaked by a collect of {} items into length {}", live_count(), k, $n);
            }
            // surplus items: a debug build panics, a release build ignores them; nothing leaks either way
            for k in $n + 1..$n + 3 {
                ledger_reset();
                let _ = catch_unwind(AssertUnwindSafe(|| drop((0..k).map(|i| D::new(i as u8)).collect::<Vector<D, $U>>())));
                assert!(live_count() == 0, "{} items leaked by a collect of {} items into length {}", live_count(), k, $n);
            }
            ledger_reset();
            drop((0..$n).map(|i| D::new(i as u8)).collect::<Vector<D, $U>>());
            assert!(live_count() == 0, "leak by a collect of {} items", $n);
        }
        t.push((format!("p03::native::short_collect_{}", $n), f as fn()));
    } )* } }
    short! { U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 U9 9 U10 10 U11 11 U12 12 U13 13 U14 14 U15 15 U16 16 U17 17 U18 18 U19 19 U20 20 U21 21 U22 22 U23 23 U24 24 U25 25 U26 26 U27 27 U28 28 U29 29 U30 30 U31 31 U32 32 }
    // every order of queue operations on every small length, dropping the iterator after each prefix
    macro_rules! walks { ($($U:ident $n:literal)*) => { $( {
        fn f() {
            for code in 0..4usize.pow(5) { for stop in 0..6 {
                ledger_reset();
                let mut it = Vector::<D, $U>::new(ds()).into_iter();
                let mut c = code;
                for _ in 0..stop {
                    match c % 4 { 0 => drop(it.next()), 1 => drop(it.next_back()), 2 => drop(it.nth(1)), _ => drop(it.nth(2)) }
                    c /= 4;
                }
                drop(it);
                assert!(live_count() == 0, "leak: length {}, operations {} (base 4), first {} run", $n, code, stop);
            } }
        }
        t.push((format!("p03::native::walks_{}", $n), f as fn()));
    } )* } }
    walks! { U0 0 U1 1 U2 2 U3 3 U4 4 U5 5 U6 6 U7 7 U8 8 }
    t
}
wide! {  }
