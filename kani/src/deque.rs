//! The double-ended-queue contract, shared by every iterator of the crate.
use crate::nd::*;

/// The states of a queue of n items (front cursor lo, back cursor hi) a harness starts from: all of
/// them for small n, the corners for large n.
pub fn each_state(n: usize, mut f: impl FnMut(usize, usize)) {
    if n <= ALL {
        for lo in 0..n + 1 { for hi in lo..n + 1 { f(lo, hi) } }
    } else if n <= 16 {
        f(0, n); f(1, n - 1); f(n - 1, n); f(3, 3);
    } else {
        f(1, n - 1);
    }
}
#[cfg(not(feature = "thorough"))]
const ALL: usize = 2;
#[cfg(feature = "thorough")]
const ALL: usize = 4;
/// Drives a fresh iterator to (lo, hi), checking every item and the size on the way.
pub fn drive<I>(it: &mut I, n: usize, lo: usize, hi: usize, back_first: bool, same: &mut impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    size(it, n);
    if back_first { for k in 0..n - hi { got(it.next_back(), Some(n - 1 - k), same); } }
    for k in 0..lo { got(it.next(), Some(k), same); }
    if !back_first { for k in 0..n - hi { got(it.next_back(), Some(n - 1 - k), same); } }
    size(it, hi - lo);
}
pub fn size<I: ExactSizeIterator>(it: &I, n: usize) {
    assert!(it.len() == n, "len");
    assert!(it.size_hint() == (n, Some(n)), "size_hint");
}
pub fn got<T>(x: Option<T>, k: Option<usize>, same: &mut impl FnMut(T, usize) -> bool) {
    match (x, k) {
        (Some(x), Some(k)) => assert!(same(x, k), "wrong item"),
        (None, None) => {}
        (None, _) => assert!(false, "item missing"),
        (_, None) => assert!(false, "item out of nowhere"),
    }
}
/// lo..hi must be all that is left, whichever end it is taken from.
pub fn rest<I>(mut it: I, mut lo: usize, mut hi: usize, same: &mut impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    size(&it, hi - lo);
    if lo < hi { got(it.next_back(), Some(hi - 1), same); hi -= 1; }
    if lo < hi { got(it.next(), Some(lo), same); lo += 1; }
    size(&it, hi - lo);
    while lo < hi { got(it.next(), Some(lo), same); lo += 1; }
    got(it.next(), None, same);
    got(it.next_back(), None, same);
    got(it.next(), None, same);
    size(&it, 0);
}
/// nth(k) from every state, k below, at and beyond what is left, then everything that remains.
pub fn nth<I>(n: usize, mk: impl Fn() -> I, mut same: impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    each_state(n, |lo, hi| {
        let mut k = 0;
        while k < hi - lo {
            let mut it = mk();
            drive(&mut it, n, lo, hi, false, &mut same);
            got(it.nth(k), Some(lo + k), &mut same);
            rest(it, lo + k + 1, hi, &mut same);
            k += if n <= 4 { 1 } else { (n + 1) / 2 };
        }
    });
}
pub fn nth_past<I>(n: usize, mk: impl Fn() -> I, mut same: impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    each_state(n, |lo, hi| {
        // every k beyond what is left behaves alike; the extremes are where arithmetic could go wrong
        #[cfg(not(feature = "thorough"))]
        for k in [hi - lo, hi - lo + 1, usize::MAX] {
            let mut it = mk();
            drive(&mut it, n, lo, hi, true, &mut same);
            got(it.nth(k), None, &mut same);
            rest(it, hi, hi, &mut same);
        }
        #[cfg(feature = "thorough")]
        {
            let k: usize = any();
            assume(k >= hi - lo);
            let mut it = mk();
            drive(&mut it, n, lo, hi, true, &mut same);
            got(it.nth(k), None, &mut same);
            rest(it, hi, hi, &mut same);
        }
    });
}
pub fn nth_back<I>(n: usize, mk: impl Fn() -> I, mut same: impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    each_state(n, |lo, hi| {
        for k in [0, 1, hi - lo + 1] {
            if k == 1 && hi - lo == 0 { continue }
            let mut it = mk();
            drive(&mut it, n, lo, hi, true, &mut same);
            let x = if k & 1 == 0 { it.nth_back(k) } else { it.by_ref().rev().nth(k) };
            if k < hi - lo { got(x, Some(hi - 1 - k), &mut same); rest(it, lo, hi - 1 - k, &mut same) }
            else { got(x, None, &mut same); rest(it, lo, lo, &mut same) }
        }
    });
}
/// The consuming operations from every state.
pub fn consume<I>(n: usize, mk: impl Fn() -> I, mut same: impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    each_state(n, |lo, hi| {
        let mut it = mk();
        drive(&mut it, n, lo, hi, false, &mut same);
        assert!(it.count() == hi - lo, "count");
        let mut it = mk();
        drive(&mut it, n, lo, hi, true, &mut same);
        got(it.last(), if lo < hi { Some(hi - 1) } else { None }, &mut same);
    });
}
pub fn walk<I>(n: usize, mk: impl Fn() -> I, mut same: impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    each_state(n, |lo, hi| {
        let mut it = mk();
        drive(&mut it, n, lo, hi, true, &mut same);
        let mut k = lo;
        for x in it { assert!(k < hi && same(x, k), "for"); k += 1; }
        assert!(k == hi, "for ended early");
        let mut it = mk();
        drive(&mut it, n, lo, hi, false, &mut same);
        let mut k = hi;
        for x in it.rev() { assert!(k > lo && same(x, k - 1), "rev"); k -= 1; }
        assert!(k == lo, "rev ended early");
        let mut it = mk();
        drive(&mut it, n, lo, hi, true, &mut same);
        let e = it.fold(lo, |k, x| { assert!(k < hi && same(x, k), "fold"); k + 1 });
        assert!(e == hi, "fold ended early");
    });
}
/// A genuinely arbitrary interleaving (small n only: the solver explores every order). The choice
/// forks the path, so that the cursors stay concrete on each of them.
pub fn interleave<I>(it: I, n: usize, ops: usize, mut same: impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    fork(it, 0, n, ops, &mut same)
}
fn fork<I>(mut it: I, mut lo: usize, mut hi: usize, ops: usize, same: &mut impl FnMut(I::Item, usize) -> bool)
    where I: DoubleEndedIterator + ExactSizeIterator,
{
    if ops == 0 { return rest(it, lo, hi, same) }
    if any() {
        got(it.next(), if lo < hi { Some(lo) } else { None }, same);
        if lo < hi { lo += 1 }
        size(&it, hi - lo);
        fork(it, lo, hi, ops - 1, same)
    } else if any() {
        got(it.next_back(), if lo < hi { Some(hi - 1) } else { None }, same);
        if lo < hi { hi -= 1 }
        size(&it, hi - lo);
        fork(it, lo, hi, ops - 1, same)
    } else if any() {
        if hi - lo < 2 { return }
        got(it.nth(1), Some(lo + 1), same);
        size(&it, hi - lo - 2);
        fork(it, lo + 2, hi, ops - 1, same)
    } else {
        let k: usize = any();
        assume(k >= hi - lo);
        got(it.nth(k), None, same);
        size(&it, 0);
        fork(it, hi, hi, ops - 1, same)
    }
}
/// The whole contract for one iterator expression.
macro_rules! deque_harnesses {
    ([$unw:literal, $ops:expr] $setup:block; $n:expr; |$b:ident| $mk:expr; |$x:ident, $k:ident, $a:ident| $same:expr) => {
        harnesses! {
            fn nth [$unw] { let $a = $setup; let $a = &$a; crate::deque::nth($n, || { let $b = $a; $mk }, |$x, $k| $same) }
            fn nth_past [$unw] { let $a = $setup; let $a = &$a; crate::deque::nth_past($n, || { let $b = $a; $mk }, |$x, $k| $same) }
            fn nth_back [$unw] { let $a = $setup; let $a = &$a; crate::deque::nth_back($n, || { let $b = $a; $mk }, |$x, $k| $same) }
            fn consume [$unw] { let $a = $setup; let $a = &$a; crate::deque::consume($n, || { let $b = $a; $mk }, |$x, $k| $same) }
            fn walk [$unw] { let $a = $setup; let $a = &$a; crate::deque::walk($n, || { let $b = $a; $mk }, |$x, $k| $same) }
            fn interleave [$unw] { let $a = $setup; let $a = &$a; crate::deque::interleave({ let $b = $a; $mk }, $n, $ops, |$x, $k| $same) }
        }
    };
}
