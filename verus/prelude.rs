// ---------------------------------------------------------------------------------------------
// Dialect prelude: what the extracted text of sinkuu/rowcol may rely on besides itself.
// Everything marked external_body / axiom / uninterp here is an assumption (listed in evidence).
// ---------------------------------------------------------------------------------------------

// --- panics and debug assertions --------------------------------------------------------------
/// Left open. A panic is reached only where this is assumed: a function that panics exactly outside C
/// requires `C || may_panic()` and ensures C, so its callers prove C and its own body proves both
/// that C rules the panic out and that nothing but a panic happens without C.
pub uninterp spec fn may_panic() -> bool;
#[verifier::external_body]
pub fn vpanic() -> ! requires may_panic() { unimplemented!() }
/// `s[i]` of a slice in a function whose contract speaks of the panic (the built-in one has `requires i < s.len()`)
pub trait At {
    type O;
    spec fn at_is(&self, i: int, v: Self::O) -> bool;
    spec fn at_len(&self) -> nat;
    spec fn at_set(&self, i: int, v: Self::O, r: &Self) -> bool;
    fn v_at(&self, i: usize) -> (r: &Self::O) requires i < self.at_len() || may_panic() ensures i < self.at_len(), self.at_is(i as int, *r);
    fn v_at_mut(&mut self, i: usize) -> (r: &mut Self::O) requires i < old(self).at_len() || may_panic()
        ensures i < old(self).at_len(), old(self).at_is(i as int, *r), old(self).at_set(i as int, *final(r), final(self));
}
impl<T> At for [T] {
    type O = T;
    open spec fn at_is(&self, i: int, v: T) -> bool { self@[i] == v }
    open spec fn at_len(&self) -> nat { self@.len() }
    open spec fn at_set(&self, i: int, v: T, r: &Self) -> bool { r@ == self@.update(i, v) }
    #[verifier::external_body]
    fn v_at(&self, i: usize) -> (r: &T) { unimplemented!() }
    #[verifier::external_body]
    fn v_at_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
}

/// usize arithmetic in a function whose contract speaks of the panic: past the end it panics (debug) or wraps (release)
#[verifier::external_body]
pub fn v_add(a: usize, b: usize) -> (r: usize) requires a + b <= usize::MAX || may_panic() ensures r == if a + b <= usize::MAX { a + b } else { a + b - usize::MAX - 1 } { a + b }
#[verifier::external_body]
pub fn v_sub(a: usize, b: usize) -> (r: usize) requires a >= b || may_panic() ensures r == if a >= b { a - b } else { a - b + usize::MAX + 1 } { a - b }

/// stands for the constant `true`/`false` the compiler substitutes for cfg!(debug_assertions):
/// code after a debug assertion may not rely on it
#[verifier::external_body]
pub fn debug_assertions() -> (r: bool) { unimplemented!() }

// --- type-level numbers -----------------------------------------------------------------------
pub trait Bit: Sized { spec fn b() -> nat; proof fn b_ok() ensures Self::b() <= 1; }
pub struct B0;
pub struct B1;
impl Bit for B0 { open spec fn b() -> nat { 0 } proof fn b_ok() {} }
impl Bit for B1 { open spec fn b() -> nat { 1 } proof fn b_ok() {} }

pub trait Unsigned: Sized {
    spec fn n() -> nat;
    fn to_usize() -> (r: usize) ensures r as nat == Self::n();
}
pub struct UTerm;
#[verifier::reject_recursive_types(U)]
#[verifier::reject_recursive_types(B)]
pub struct UInt<U, B> { p: core::marker::PhantomData<(U, B)> }
impl Unsigned for UTerm {
    open spec fn n() -> nat { 0 }
    #[verifier::external_body]
    fn to_usize() -> (r: usize) { unimplemented!() }
}
impl<U: Unsigned, B: Bit> Unsigned for UInt<U, B> {
    open spec fn n() -> nat { 2 * U::n() + B::b() }
    #[verifier::external_body]
    fn to_usize() -> (r: usize) { unimplemented!() }
}
impl UTerm { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } }
impl<U, B> UInt<U, B> { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } }

pub type U0 = UTerm;
pub type U1 = UInt<UTerm, B1>;
pub type U2 = UInt<UInt<UTerm, B1>, B0>;
pub type U3 = UInt<UInt<UTerm, B1>, B1>;
pub type U4 = UInt<UInt<UInt<UTerm, B1>, B0>, B0>;
pub type U5 = UInt<UInt<UInt<UTerm, B1>, B0>, B1>;
pub type U6 = UInt<UInt<UInt<UTerm, B1>, B1>, B0>;
pub type U7 = UInt<UInt<UInt<UTerm, B1>, B1>, B1>;
pub type U8 = UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>;
pub type U9 = UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>;
pub type U10 = UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>;
pub type U11 = UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>;
pub type U12 = UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>;
pub type U13 = UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>;
pub type U14 = UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>;
pub type U15 = UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>;
pub type U16 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>;
pub type U17 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>;
pub type U18 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>;
pub type U19 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>;
pub type U20 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B0>;
pub type U21 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>;
pub type U22 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>;
pub type U23 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B1>;
pub type U24 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>;
pub type U25 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>;
pub type U26 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>;
pub type U27 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>;
pub type U28 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>;
pub type U29 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>;
pub type U30 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>;
pub type U31 = UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>;
pub type U32 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>;
pub type U33 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B1>;
pub type U34 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B0>;
pub type U35 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B1>, B1>;
pub type U36 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B0>;
pub type U37 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B0>, B1>;
pub type U38 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B0>;
pub type U39 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B1>, B1>, B1>;
pub type U40 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B0>, B0>;
pub type U41 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B0>, B1>;
pub type U42 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B0>;
pub type U43 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B0>, B1>, B1>;
pub type U44 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>, B0>;
pub type U45 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B0>, B1>;
pub type U46 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B1>, B0>;
pub type U47 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B1>, B1>, B1>, B1>;
pub type U48 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>, B0>;
pub type U49 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B0>, B1>;
pub type U50 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B0>;
pub type U51 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B0>, B1>, B1>;
pub type U52 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B0>;
pub type U53 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B0>, B1>;
pub type U54 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B0>;
pub type U55 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B0>, B1>, B1>, B1>;
pub type U56 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B0>;
pub type U57 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B0>, B1>;
pub type U58 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B0>;
pub type U59 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B0>, B1>, B1>;
pub type U60 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B0>;
pub type U61 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B0>, B1>;
pub type U62 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B0>;
pub type U63 = UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B1>, B1>, B1>, B1>, B1>;
pub type U64 = UInt<UInt<UInt<UInt<UInt<UInt<UInt<UTerm, B1>, B0>, B0>, B0>, B0>, B0>, B0>;
pub proof fn reveal_nums() {}
impl Mul<U3> for U3 {
    type Output = U9;
    #[verifier::external_body]
    fn mul(self, o: U3) -> U9 { unimplemented!() }
}
pub struct Less;
pub struct Equal;
pub struct Greater;
pub trait Cmp<R> { type Output; }
pub type Compare<A, B> = <A as Cmp<B>>::Output;
pub trait Same<R> { type Output; }
impl<T> Same<T> for T { type Output = T; }
impl Cmp<U0> for U0 { type Output = Equal; }
impl Cmp<U1> for U0 { type Output = Less; }
impl Cmp<U2> for U0 { type Output = Less; }
impl Cmp<U3> for U0 { type Output = Less; }
impl Cmp<U0> for U1 { type Output = Greater; }
impl Cmp<U1> for U1 { type Output = Equal; }
impl Cmp<U2> for U1 { type Output = Less; }
impl Cmp<U3> for U1 { type Output = Less; }
impl Cmp<U0> for U2 { type Output = Greater; }
impl Cmp<U1> for U2 { type Output = Greater; }
impl Cmp<U2> for U2 { type Output = Equal; }
impl Cmp<U3> for U2 { type Output = Less; }
impl Cmp<U0> for U3 { type Output = Greater; }
impl Cmp<U1> for U3 { type Output = Greater; }
impl Cmp<U2> for U3 { type Output = Greater; }
impl Cmp<U3> for U3 { type Output = Equal; }

impl Sub<U1> for U4 { type Output = U3; #[verifier::external_body] fn sub(self, o: U1) -> U3 { unimplemented!() } }
impl Sub<U1> for U5 { type Output = U4; #[verifier::external_body] fn sub(self, o: U1) -> U4 { unimplemented!() } }
impl Sub<U1> for U6 { type Output = U5; #[verifier::external_body] fn sub(self, o: U1) -> U5 { unimplemented!() } }
impl Sub<U1> for U7 { type Output = U6; #[verifier::external_body] fn sub(self, o: U1) -> U6 { unimplemented!() } }
impl Sub<U1> for U8 { type Output = U7; #[verifier::external_body] fn sub(self, o: U1) -> U7 { unimplemented!() } }
impl Sub<U1> for U9 { type Output = U8; #[verifier::external_body] fn sub(self, o: U1) -> U8 { unimplemented!() } }
impl Sub<U1> for U10 { type Output = U9; #[verifier::external_body] fn sub(self, o: U1) -> U9 { unimplemented!() } }
impl Sub<U1> for U11 { type Output = U10; #[verifier::external_body] fn sub(self, o: U1) -> U10 { unimplemented!() } }
impl Sub<U1> for U12 { type Output = U11; #[verifier::external_body] fn sub(self, o: U1) -> U11 { unimplemented!() } }
impl Sub<U1> for U13 { type Output = U12; #[verifier::external_body] fn sub(self, o: U1) -> U12 { unimplemented!() } }
impl Sub<U1> for U14 { type Output = U13; #[verifier::external_body] fn sub(self, o: U1) -> U13 { unimplemented!() } }
impl Sub<U1> for U15 { type Output = U14; #[verifier::external_body] fn sub(self, o: U1) -> U14 { unimplemented!() } }
impl Sub<U1> for U16 { type Output = U15; #[verifier::external_body] fn sub(self, o: U1) -> U15 { unimplemented!() } }
impl Sub<U1> for U17 { type Output = U16; #[verifier::external_body] fn sub(self, o: U1) -> U16 { unimplemented!() } }
impl Sub<U1> for U18 { type Output = U17; #[verifier::external_body] fn sub(self, o: U1) -> U17 { unimplemented!() } }
impl Sub<U1> for U19 { type Output = U18; #[verifier::external_body] fn sub(self, o: U1) -> U18 { unimplemented!() } }
impl Sub<U1> for U20 { type Output = U19; #[verifier::external_body] fn sub(self, o: U1) -> U19 { unimplemented!() } }
impl Sub<U1> for U21 { type Output = U20; #[verifier::external_body] fn sub(self, o: U1) -> U20 { unimplemented!() } }
impl Sub<U1> for U22 { type Output = U21; #[verifier::external_body] fn sub(self, o: U1) -> U21 { unimplemented!() } }
impl Sub<U1> for U23 { type Output = U22; #[verifier::external_body] fn sub(self, o: U1) -> U22 { unimplemented!() } }
impl Sub<U1> for U24 { type Output = U23; #[verifier::external_body] fn sub(self, o: U1) -> U23 { unimplemented!() } }
impl Sub<U1> for U25 { type Output = U24; #[verifier::external_body] fn sub(self, o: U1) -> U24 { unimplemented!() } }
impl Sub<U1> for U26 { type Output = U25; #[verifier::external_body] fn sub(self, o: U1) -> U25 { unimplemented!() } }
impl Sub<U1> for U27 { type Output = U26; #[verifier::external_body] fn sub(self, o: U1) -> U26 { unimplemented!() } }
impl Sub<U1> for U28 { type Output = U27; #[verifier::external_body] fn sub(self, o: U1) -> U27 { unimplemented!() } }
impl Sub<U1> for U29 { type Output = U28; #[verifier::external_body] fn sub(self, o: U1) -> U28 { unimplemented!() } }
impl Sub<U1> for U30 { type Output = U29; #[verifier::external_body] fn sub(self, o: U1) -> U29 { unimplemented!() } }
impl Sub<U1> for U31 { type Output = U30; #[verifier::external_body] fn sub(self, o: U1) -> U30 { unimplemented!() } }
impl Sub<U1> for U32 { type Output = U31; #[verifier::external_body] fn sub(self, o: U1) -> U31 { unimplemented!() } }

// what the typenum bounds say about the numbers (typenum is trusted)
pub axiom fn cmp_less<A: Unsigned + Cmp<B>, B: Unsigned>() where Compare<A, B>: Same<Less>
    ensures A::n() < B::n();
pub type Prod<A, B> = <A as Mul<B>>::Output;
pub type Mod<A, B> = <A as Rem<B>>::Output;
pub type Diff<A, B> = <A as Sub<B>>::Output;
/// typenum numbers have no leading zero bit (no other UInt is an array length)
pub axiom fn uint_pos<T, U: Unsigned, B: Bit>() where UInt<U, B>: ArrayLen<T> ensures <UInt<U, B> as Unsigned>::n() > 0;
pub axiom fn mod_zero<A: Unsigned + Rem<B>, B: Unsigned>() where Mod<A, B>: Same<UTerm>
    ensures B::n() > 0, A::n() % B::n() == 0;
pub axiom fn prod_is<A: Unsigned + Mul<B>, B: Unsigned>() where Prod<A, B>: Unsigned
    ensures <Prod<A, B> as Unsigned>::n() == A::n() * B::n();
pub axiom fn diff_is<A: Unsigned + Sub<B>, B: Unsigned>() where Diff<A, B>: Unsigned
    ensures <Diff<A, B> as Unsigned>::n() == A::n() - B::n();

// --- arrays -----------------------------------------------------------------------------------
pub trait ArrLike<T>: Sized + Slots<A = Self> {
    proof fn all_live(a: Self, r: NoDrop<Self>) ensures a.slots(r) <==> r.0 == a && forall|k: int| 0 <= k < Self::cap() ==> #[trigger] r.live().contains(k);
    spec fn seq(&self) -> Seq<T>;
    spec fn cap() -> nat;
    spec fn arr_of(s: Seq<T>) -> Self;
    fn as_ref(&self) -> (r: &[T]) ensures r@ == self.seq();
    fn as_mut(&mut self) -> (r: &mut [T]) ensures r@ == old(self).seq(), final(self).seq() == final(r)@;
    proof fn arr_len(a: &Self) ensures a.seq().len() == Self::cap();
    proof fn cap_fits() ensures Self::cap() <= usize::MAX;
    proof fn arr_of_seq(a: &Self) ensures Self::arr_of(a.seq()) == *a;
    proof fn seq_arr_of(s: Seq<T>) requires s.len() == Self::cap() ensures Self::arr_of(s).seq() == s;
}
impl<T, const K: usize> ArrLike<T> for [T; K] {
    open spec fn seq(&self) -> Seq<T> { self@ }
    open spec fn cap() -> nat { K as nat }
    uninterp spec fn arr_of(s: Seq<T>) -> Self;
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body]
    fn as_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
    proof fn all_live(a: Self, r: NoDrop<Self>) {}
    proof fn arr_len(a: &Self) {}
    proof fn cap_fits() {}
    // an array is determined by its elements, and every sequence of the right length is one
    #[verifier::external_body]
    proof fn arr_of_seq(a: &Self) {}
    #[verifier::external_body]
    proof fn seq_arr_of(s: Seq<T>) {}
}

pub trait AsRef<S: ?Sized> { fn as_ref(&self) -> &S; }
pub trait AsMut<S: ?Sized> { fn as_mut(&mut self) -> &mut S; }
/// the slice with these elements: a slice is determined by its elements
pub uninterp spec fn slice_of<'a, T>(s: Seq<T>) -> &'a [T];
pub broadcast axiom fn slice_of_view<'a, T>(s: Seq<T>) ensures #[trigger] slice_of::<'a, T>(s)@ == s;
pub axiom fn slice_is<'a, T>(r: &'a [T], s: Seq<T>) requires r@ == s ensures r == slice_of::<'a, T>(s);

// --- slices -----------------------------------------------------------------------------------
pub trait SliceShim<T> {
    spec fn sq(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) ensures r.inv(), r.items() == refs(self.sq());
    fn v_iter_mut<'a>(&'a mut self) -> (r: SliceIterMut<'a, T>)
        ensures r.inv(), r.items().len() == old(self).sq().len(),
            forall|i: int| 0 <= i < old(self).sq().len() ==> *(#[trigger] r.items()[i]) == old(self).sq()[i],
            final(self).sq() == Seq::new(old(self).sq().len(), |i: int| *final(r.items()[i]));
    unsafe fn v_get_unchecked(&self, i: usize) -> (r: &T) requires i < self.sq().len(), ensures *r == self.sq()[i as int];
    unsafe fn v_get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).sq().len(),
        ensures *r == old(self).sq()[i as int], final(self).sq() == old(self).sq().update(i as int, *final(r));
    fn v_swap(&mut self, i: usize, j: usize) requires i < old(self).sq().len(), j < old(self).sq().len(),
        ensures final(self).sq() == old(self).sq().update(i as int, old(self).sq()[j as int]).update(j as int, old(self).sq()[i as int]);
}
impl<T> SliceShim<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_iter_mut<'a>(&'a mut self) -> (r: SliceIterMut<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn v_get_unchecked(&self, i: usize) -> (r: &T) { unimplemented!() }
    #[verifier::external_body]
    unsafe fn v_get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
    #[verifier::external_body]
    fn v_swap(&mut self, i: usize, j: usize) { unimplemented!() }
}
/// slice comparison is std's: same length and equal elements
pub broadcast axiom fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U])
    ensures #[trigger] <[T] as PartialEqSpec<[U]>>::eq_spec(a, b) <==> a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).eq_spec(&b@[i]);
pub broadcast axiom fn slice_eq_obeys<T: PartialEq<U>, U>()
    ensures #[trigger] <[T] as PartialEqSpec<[U]>>::obeys_eq_spec() == <T as PartialEqSpec<U>>::obeys_eq_spec();
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }

// --- iterators --------------------------------------------------------------------------------
/// `items()` is the sequence of items the iterator is still going to produce
pub trait Iterator: Sized {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    /// representation invariant
    spec fn inv(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv()
        ensures final(self).inv(),
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r == Some(old(self).items()[0])
                && final(self).items() == old(self).items().subrange(1, old(self).items().len() as int);
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv()
        ensures r.0 <= self.items().len(), r.1 is Some ==> self.items().len() <= r.1->0
    { unimplemented!() }
    #[verifier::external_body]
    fn count(self) -> (r: usize)
        requires self.inv()
        ensures r == self.items().len()
    { unimplemented!() }
    #[verifier::external_body]
    fn last(self) -> (r: Option<Self::Item>)
        requires self.inv()
        ensures r == if self.items().len() == 0 { None } else { Some(self.items().last()) }
    { unimplemented!() }
    #[verifier::external_body]
    fn nth(&mut self, n: usize) -> (r: Option<Self::Item>)
        requires old(self).inv()
        ensures final(self).inv(),
            n >= old(self).items().len() ==> r is None && final(self).items().len() == 0,
            n < old(self).items().len() ==> r == Some(old(self).items()[n as int])
                && final(self).items() == old(self).items().subrange(n as int + 1, old(self).items().len() as int)
    { unimplemented!() }
}
pub trait DoubleEndedIterator: Iterator {
    fn next_back(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv()
        ensures final(self).inv(),
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r == Some(old(self).items().last())
                && final(self).items() == old(self).items().drop_last();
}
pub trait ExactSizeIterator: Iterator {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) requires self.inv() ensures r == self.items().len() { unimplemented!() }
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn into_items(self) -> Seq<Self::Item>;
    spec fn into_inv(self) -> bool;
    fn v_into_iter(self) -> (r: Self::IntoIter)
        requires self.into_inv()
        ensures r.items() == self.into_items(), r.inv();
}
impl<I: Iterator> IntoIterator for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn into_items(self) -> Seq<I::Item> { self.items() }
    open spec fn into_inv(self) -> bool { self.inv() }
    fn v_into_iter(self) -> (r: I) { self }
}
impl<'a, T> IntoIterator for &'a [T] {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    open spec fn into_items(self) -> Seq<&'a T> { refs(self@) }
    open spec fn into_inv(self) -> bool { true }
    fn v_into_iter(self) -> (r: SliceIter<'a, T>) { self.v_iter() }
}
pub trait FromIterator<A>: Sized {
    spec fn collected(s: Seq<A>, r: Self) -> bool;
    /// collecting s does not panic
    spec fn fits(s: Seq<A>) -> bool;
    /// how many items from_iter pulls before it looks for a surplus
    spec fn want() -> nat;
    fn from_iter<I>(iter: I) -> (r: Self) where I: IntoIterator<Item = A>
        requires iter.into_inv(), Self::fits(iter.into_items()) || may_panic()
        ensures Self::collected(iter.into_items(), r);
}
/// `(&mut it).take(n).collect()` and `(&mut it).rev().take(n).collect()`: take through a reference.
/// Trusted: collecting from a Take of exactly as many items as the collection pulls moves the
/// underlying iterator by exactly that many (B::want() is proved for Vector in from_iter).
pub trait RefIterShim<'a, I: Iterator>: Sized {
    spec fn target(self) -> &'a mut I;
    fn take(self, n: usize) -> (r: TakeRef<'a, I>) ensures *r.it == *self.target(), *final(r.it) == *final(self.target()), r.n == n;
    fn rev(self) -> (r: RevRef<'a, I>) ensures *r.it == *self.target(), *final(r.it) == *final(self.target());
}
pub struct TakeRef<'a, I> { pub it: &'a mut I, pub n: usize }
pub struct RevRef<'a, I> { pub it: &'a mut I }
pub struct TakeRevRef<'a, I> { pub it: &'a mut I, pub n: usize }
impl<'a, I: Iterator> RefIterShim<'a, I> for &'a mut I {
    open spec fn target(self) -> &'a mut I { self }
    fn take(self, n: usize) -> (r: TakeRef<'a, I>) { TakeRef { it: self, n } }
    fn rev(self) -> (r: RevRef<'a, I>) { RevRef { it: self } }
}
impl<'a, I: Iterator> RevRef<'a, I> {
    pub fn take(self, n: usize) -> (r: TakeRevRef<'a, I>) ensures *r.it == *old(self.it), *final(r.it) == *final(self.it), r.n == n { TakeRevRef { it: self.it, n } }
}
impl<'a, I: Iterator> TakeRef<'a, I> {
    #[verifier::external_body]
    pub fn collect<B: FromIterator<I::Item>>(self) -> (r: B)
        requires self.it.inv(), self.n == B::want(), self.n <= self.it.items().len()
        ensures final(self.it).inv(), B::collected(old(self.it).items().subrange(0, self.n as int), r),
            final(self.it).items() == old(self.it).items().subrange(self.n as int, old(self.it).items().len() as int)
    { unimplemented!() }
}
impl<'a, I: DoubleEndedIterator> TakeRevRef<'a, I> {
    #[verifier::external_body]
    pub fn collect<B: FromIterator<I::Item>>(self) -> (r: B)
        requires self.it.inv(), self.n == B::want(), self.n <= self.it.items().len()
        ensures final(self.it).inv(), B::collected(old(self.it).items().reverse().subrange(0, self.n as int), r),
            final(self.it).items() == old(self.it).items().subrange(0, old(self.it).items().len() - self.n)
    { unimplemented!() }
}
pub open spec fn min_len(a: nat, b: nat) -> nat { if a < b { a } else { b } }

/// std's adapters, by their documented meaning (trusted)
pub trait IterShim: Iterator {
    fn map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: Map<Self, B, F>)
        requires self.inv(), forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures r.inv(), r.items().len() == self.items().len(),
            forall|i: int| #![trigger self.items()[i]] #![trigger r.items()[i]] 0 <= i < self.items().len() ==> call_ensures(f, (self.items()[i],), r.items()[i]),
            forall|g: spec_fn(Self::Item) -> B| (forall|a: Self::Item, b: B| call_ensures(f, (a,), b) ==> b == g(a))
                ==> #[trigger] self.items().map_values(g) == r.items();
    fn zip<J: IntoIterator>(self, other: J) -> (r: Zip<Self, J::IntoIter>)
        requires self.inv(), other.into_inv()
        ensures r.inv(), r.items() == zip_seq(self.items(), other.into_items());
    fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: Filter<Self, F>)
        requires self.inv(), forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (&#[trigger] self.items()[i],))
        ensures r.inv(), exists|keep: Seq<bool>| filter_trace(f, self.items(), keep) && #[trigger] kept(self.items(), keep) == r.items(),
            forall|g: spec_fn(Self::Item) -> bool| (forall|a: Self::Item, b: bool| call_ensures(f, (&a,), b) ==> b == g(a))
                ==> #[trigger] self.items().filter(g) == r.items();
    fn enumerate(self) -> (r: Enumerate<Self>)
        requires self.inv()
        ensures r.inv(), r.items() == enum_seq(self.items());
    fn take(self, n: usize) -> (r: Take<Self>)
        requires self.inv()
        ensures r.inv(), r.items() == self.items().subrange(0, min_len(n as nat, self.items().len()) as int);
    fn rev(self) -> (r: Rev<Self>) where Self: DoubleEndedIterator
        requires self.inv()
        ensures r.inv(), r.items() == self.items().reverse();
    fn fold<B, F: Fn(B, Self::Item) -> B>(self, init: B, f: F) -> (r: B)
        requires self.inv(), forall|b: B, i: int| 0 <= i < self.items().len() ==> #[trigger] call_requires(f, (b, self.items()[i]))
        ensures exists|acc: Seq<B>| fold_trace(f, init, self.items(), acc) && #[trigger] acc.last() == r,
            forall|g: spec_fn(B, Self::Item) -> B| (forall|b: B, a: Self::Item, c: B| call_ensures(f, (b, a), c) ==> c == g(b, a))
                ==> #[trigger] self.items().fold_left(init, g) == r;
    fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> (r: bool)
        requires self.inv(), forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures r ==> forall|i: int| 0 <= i < self.items().len() ==> call_ensures(f, (#[trigger] self.items()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.items().len() && call_ensures(f, (#[trigger] self.items()[i],), false);
    fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> (r: bool)
        requires self.inv(), forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures !r ==> forall|i: int| 0 <= i < self.items().len() ==> call_ensures(f, (#[trigger] self.items()[i],), false),
            r ==> exists|i: int| 0 <= i < self.items().len() && call_ensures(f, (#[trigger] self.items()[i],), true);
    fn collect<B: FromIterator<Self::Item>>(self) -> (r: B)
        requires self.inv(), B::fits(self.items())
        ensures B::collected(self.items(), r);
    fn max(self) -> (r: Option<Self::Item>) where Self::Item: Ord
        requires self.inv()
        ensures r is None <==> self.items().len() == 0,
            r is Some ==> self.items().contains(r->0)
                && forall|i: int| 0 <= i < self.items().len() ==> (#[trigger] self.items()[i]).ord_le(&r->0);
    fn min(self) -> (r: Option<Self::Item>) where Self::Item: Ord
        requires self.inv()
        ensures r is None <==> self.items().len() == 0,
            r is Some ==> self.items().contains(r->0)
                && forall|i: int| 0 <= i < self.items().len() ==> r->0.ord_le(#[trigger] &self.items()[i]);
}
pub open spec fn fold_trace<A, B, F: Fn(B, A) -> B>(f: F, init: B, s: Seq<A>, acc: Seq<B>) -> bool {
    acc.len() == s.len() + 1 && acc[0] == init
        && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (acc[i], #[trigger] s[i]), acc[i + 1])
}
pub open spec fn filter_trace<A, F: Fn(&A) -> bool>(f: F, s: Seq<A>, keep: Seq<bool>) -> bool {
    keep.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (&#[trigger] s[i],), keep[i])
}
pub open spec fn kept<A>(s: Seq<A>, keep: Seq<bool>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 || keep.len() != s.len() { seq![] }
    else { let r = kept(s.drop_last(), keep.drop_last()); if keep.last() { r.push(s.last()) } else { r } }
}
pub open spec fn zip_seq<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(min_len(a.len(), b.len()), |i: int| (a[i], b[i]))
}
pub open spec fn enum_seq<A>(a: Seq<A>) -> Seq<(usize, A)> {
    Seq::new(a.len(), |i: int| (i as usize, a[i]))
}
pub trait ClonedShim<'a, T: 'a>: Iterator<Item = &'a T> {
    fn v_cloned(self) -> (r: Cloned<'a, T, Self>) where T: Clone
        requires self.inv()
        ensures r.inv(), r.items() == self.items().map_values(|x: &'a T| *x);
}
impl<'a, T: 'a, I: Iterator<Item = &'a T>> ClonedShim<'a, T> for I {
    #[verifier::external_body]
    fn v_cloned(self) -> (r: Cloned<'a, T, Self>) where T: Clone { unimplemented!() }
}
impl<I: Iterator> IterShim for I {
    #[verifier::external_body]
    fn map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: Map<Self, B, F>) { unimplemented!() }
    #[verifier::external_body]
    fn zip<J: IntoIterator>(self, other: J) -> (r: Zip<Self, J::IntoIter>) { unimplemented!() }
    #[verifier::external_body]
    fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: Filter<Self, F>) { unimplemented!() }
    #[verifier::external_body]
    fn enumerate(self) -> (r: Enumerate<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn take(self, n: usize) -> (r: Take<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn rev(self) -> (r: Rev<Self>) where Self: DoubleEndedIterator { unimplemented!() }
    #[verifier::external_body]
    fn fold<B, F: Fn(B, Self::Item) -> B>(self, init: B, f: F) -> (r: B) { unimplemented!() }
    #[verifier::external_body]
    fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn collect<B: FromIterator<Self::Item>>(self) -> (r: B) { unimplemented!() }
    #[verifier::external_body]
    fn max(self) -> (r: Option<Self::Item>) where Self::Item: Ord { unimplemented!() }
    #[verifier::external_body]
    fn min(self) -> (r: Option<Self::Item>) where Self::Item: Ord { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { s: &'a [T] }
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    uninterp spec fn items(&self) -> Seq<&'a T>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIterMut<'a, T> { s: &'a mut [T] }
impl<'a, T> Iterator for SliceIterMut<'a, T> {
    type Item = &'a mut T;
    uninterp spec fn items(&self) -> Seq<&'a mut T>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a mut T>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(F)]
pub struct Map<I, B, F> { i: I, f: F, b: core::marker::PhantomData<B> }
impl<I: Iterator, B, F> Iterator for Map<I, B, F> {
    type Item = B;
    uninterp spec fn items(&self) -> Seq<B>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<B>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(J)]
pub struct Zip<I, J> { i: I, j: J }
impl<I: Iterator, J: Iterator> Iterator for Zip<I, J> {
    type Item = (I::Item, J::Item);
    uninterp spec fn items(&self) -> Seq<Self::Item>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Self::Item>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Enumerate<I> { i: I }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    uninterp spec fn items(&self) -> Seq<Self::Item>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Self::Item>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(F)]
pub struct Filter<I, F> { i: I, f: F }
impl<I: Iterator, F> Iterator for Filter<I, F> {
    type Item = I::Item;
    uninterp spec fn items(&self) -> Seq<Self::Item>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Self::Item>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Take<I> { i: I }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    uninterp spec fn items(&self) -> Seq<Self::Item>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Self::Item>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Rev<I> { i: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> {
    type Item = I::Item;
    uninterp spec fn items(&self) -> Seq<Self::Item>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Self::Item>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(I)]
pub struct Cloned<'a, T, I> { i: I, t: core::marker::PhantomData<&'a T> }
impl<'a, T: Clone, I: Iterator<Item = &'a T>> Iterator for Cloned<'a, T, I> {
    type Item = T;
    uninterp spec fn items(&self) -> Seq<T>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
/// an integer range used as an iterator: `(a..b).map(..)` is read as `range(a..b).map(..)`
#[verifier::external_body]
pub struct URange { r: core::ops::Range<usize> }
pub open spec fn range_seq(a: int, b: int) -> Seq<usize> { Seq::new((if a < b { b - a } else { 0 }) as nat, |i: int| (a + i) as usize) }
#[verifier::external_body]
pub fn range(r: core::ops::Range<usize>) -> (u: URange) ensures u.inv(), u.items() == range_seq(r.start as int, r.end as int) { unimplemented!() }
impl Iterator for URange {
    type Item = usize;
    uninterp spec fn items(&self) -> Seq<usize>;
    uninterp spec fn inv(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<usize>) { unimplemented!() }
}

// --- Clone, Default, Ord (lawful implementations assumed) -----------------------------------------
pub trait Clone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<'a, T> Clone for &'a T { fn clone(&self) -> (r: Self) { *self } }
pub trait Default: Sized { spec fn default_s() -> Self; fn default() -> (r: Self) ensures r == Self::default_s(); }
pub trait Ord: Sized {
    spec fn ord_le(&self, other: &Self) -> bool;
    proof fn ord_total(a: &Self, b: &Self) ensures a.ord_le(b) || b.ord_le(a);
    proof fn ord_trans(a: &Self, b: &Self, c: &Self) requires a.ord_le(b), b.ord_le(c) ensures a.ord_le(c);
}
impl Default for usize { open spec fn default_s() -> usize { 0 } fn default() -> (r: usize) { 0 } }
impl<'a, T: Ord> Ord for &'a T {
    open spec fn ord_le(&self, other: &&'a T) -> bool { (**self).ord_le(*other) }
    proof fn ord_total(a: &&'a T, b: &&'a T) { T::ord_total(*a, *b) }
    proof fn ord_trans(a: &&'a T, b: &&'a T, c: &&'a T) { T::ord_trans(*a, *b, *c) }
}

/// `==` on core::cmp::Ordering (derived there)
pub broadcast axiom fn ordering_eq(a: Ordering, b: Ordering) ensures #[trigger] a.eq_spec(&b) <==> a == b;
pub broadcast axiom fn ordering_obeys() ensures #[trigger] <Ordering as PartialEqSpec<Ordering>>::obeys_eq_spec();

// --- manual storage ----------------------------------------------------------------------------
/// Storage whose slots are initialised, moved out and dropped by hand. The ghost part is the ledger:
/// the slots that hold a value which has not been moved out or dropped. Dropping a NoDrop drops nothing.
pub struct NoDrop<A>(pub A, pub Ghost<ISet<int>>);
/// where storage comes from: an array (every slot live) or uninitialised memory (none)
pub trait Slots: Sized {
    type A;
    spec fn slots(self, r: NoDrop<Self::A>) -> bool;
    fn into_slots(self) -> (r: NoDrop<Self::A>) ensures self.slots(r);
}
impl<T, const K: usize> Slots for [T; K] {
    type A = [T; K];
    open spec fn slots(self, r: NoDrop<[T; K]>) -> bool { r.0 == self && forall|k: int| 0 <= k < K ==> #[trigger] r.live().contains(k) }
    #[verifier::external_body]
    fn into_slots(self) -> (r: NoDrop<[T; K]>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Uninit<A> { p: PhantomData<A> }
impl<A> Slots for Uninit<A> {
    type A = A;
    open spec fn slots(self, r: NoDrop<A>) -> bool { forall|k: int| !#[trigger] r.live().contains(k) }
    #[verifier::external_body]
    fn into_slots(self) -> (r: NoDrop<A>) { unimplemented!() }
}
impl<A> NoDrop<A> {
    pub open spec fn live(&self) -> ISet<int> { self.1@ }
    pub fn new<S: Slots<A = A>>(s: S) -> (r: NoDrop<A>) ensures s.slots(r) { s.into_slots() }
    /// the array is dropped in the usual way from here on: every slot must be live
    #[verifier::external_body]
    pub fn into_inner<T>(self) -> (r: A) where A: ArrLike<T>
        requires forall|k: int| 0 <= k < A::cap() ==> #[trigger] self.live().contains(k)
        ensures r == self.0
    { unimplemented!() }
    pub fn keep(self) -> (r: NoDrop<A>) ensures r == self { self }
    #[verifier::external_body]
    pub fn take_slot<T>(&mut self, i: usize) -> (r: T) where A: ArrLike<T>
        requires i < A::cap(), old(self).live().contains(i as int)
        ensures r == old(self).0.seq()[i as int], final(self).0 == old(self).0, final(self).live() == old(self).live().remove(i as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slot<T>(&mut self, i: usize, v: T) where A: ArrLike<T>
        requires i < A::cap(), !old(self).live().contains(i as int)
        ensures final(self).0.seq() == old(self).0.seq().update(i as int, v), final(self).live() == old(self).live().insert(i as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drop_slot<T>(&mut self, i: usize) where A: ArrLike<T>
        requires i < A::cap(), old(self).live().contains(i as int)
        ensures final(self).0.seq() == old(self).0.seq(), final(self).live() == old(self).live().remove(i as int)
    { unimplemented!() }
    pub open spec fn none_live<T>(&self) -> bool where A: ArrLike<T> { forall|k: int| 0 <= k < A::cap() ==> !#[trigger] self.live().contains(k) }
    #[verifier::external_body]
    pub fn end_slots<T>(self) where A: ArrLike<T>
        requires forall|k: int| 0 <= k < A::cap() ==> !#[trigger] self.live().contains(k)
    { unimplemented!() }
}
/// what happens when a value goes out of scope
pub trait Drop {
    spec fn drop_ok(&self) -> bool;
    spec fn dropped(&self) -> bool;
    fn drop(&mut self) requires old(self).drop_ok() ensures final(self).dropped();
}
use vstd::iset::ISet;
pub mod mem {
    use super::*;
    #[verifier::external_body]
    pub unsafe fn uninitialized<A>() -> Uninit<A> { unimplemented!() }
}
pub trait Float: Sized + Copy + num::Zero + num::One + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self> {
    spec fn powi_s(self, n: i32) -> Self;
    spec fn sqrt_s(self) -> Self;
    fn powi(self, n: i32) -> (r: Self) ensures r == self.powi_s(n);
    fn sqrt(self) -> (r: Self) ensures r == self.sqrt_s();
}
pub mod num {
    use super::*;
    pub trait Zero: Sized + Add<Self, Output = Self> {
        spec fn zero_s() -> Self;
        spec fn is_zero_s(&self) -> bool;
        fn zero() -> (r: Self) ensures r == Self::zero_s();
        fn is_zero(&self) -> (r: bool) ensures r == self.is_zero_s();
    }
    pub trait One: Sized + Mul<Self, Output = Self> {
        spec fn one_s() -> Self;
        fn one() -> (r: Self) ensures r == Self::one_s();
    }
    pub trait Bounded: Sized {
        spec fn min_s() -> Self;
        spec fn max_s() -> Self;
        fn min_value() -> (r: Self) ensures r == Self::min_s();
        fn max_value() -> (r: Self) ensures r == Self::max_s();
    }
    pub trait Num: Sized + Zero + One + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self> {}
    pub trait Signed: Num + Neg<Output = Self> {}
    pub mod pow {
        use super::*;
        /// num::pow (outside this crate, trusted): repeated squaring, the exp-fold product when * is associative
        #[verifier::external_body]
        pub fn pow<T: super::super::Clone + One + Mul<T, Output = T>>(base: T, exp: usize) -> (r: T)
            requires total_mul::<T>()
            ensures assoc_mul::<T>() ==> r == pow_s(base, exp as nat)
        { unimplemented!() }
    }
}
pub open spec fn assoc_mul<T: Mul<T, Output = T>>() -> bool { T::obeys_mul_spec() && forall|a: T, b: T, c: T| #[trigger] a.mul_spec(b).mul_spec(c) == a.mul_spec(b.mul_spec(c)) }
/// the k-fold product, pow(0) being one
pub open spec fn pow_s<T: num::One + Mul<T, Output = T>>(base: T, k: nat) -> T decreases k { if k == 0 { T::one_s() } else if k == 1 { base } else { pow_s(base, (k - 1) as nat).mul_spec(base) } }
pub open spec fn total_mul<T: Mul<T, Output = T>>() -> bool { forall|a: T, b: T| #[trigger] a.mul_req(b) }
pub open spec fn total_add<T: Add<T, Output = T>>() -> bool { forall|a: T, b: T| #[trigger] a.add_req(b) }

pub struct Complex<T> { pub re: T, pub im: T }
impl<T: Clone> Clone for Complex<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: Clone + Neg<Output = T>> Complex<T> {
    #[verifier::external_body]
    pub fn conj(&self) -> (r: Complex<T>)
        requires self.im.neg_req()
        ensures r.re == self.re, <T as NegSpec>::obeys_neg_spec() ==> r.im == self.im.neg_spec()
    { unimplemented!() }
}
pub broadcast proof fn ord_total_b<T: Ord>(a: &T, b: &T) ensures #[trigger] a.ord_le(b) || b.ord_le(a) { T::ord_total(a, b); }
pub broadcast proof fn ord_trans_b<T: Ord>(a: &T, b: &T, c: &T) requires #[trigger] a.ord_le(b), #[trigger] b.ord_le(c) ensures a.ord_le(c) { T::ord_trans(a, b, c); }
/// r is x limited to [lo, hi] (which of two elements that compare equal is returned is left open)
pub open spec fn clamp_ok<T: Ord>(x: T, lo: T, hi: T, r: T) -> bool {
    (r == x || r == lo || r == hi) && (lo.ord_le(&hi) ==> {
        let t = if !lo.ord_le(&x) { lo } else if !x.ord_le(&hi) { hi } else { x };
        r.ord_le(&t) && t.ord_le(&r) })
}
pub mod cmp {
    use super::*;
    #[verifier::external_body]
    pub fn min<T: super::Ord>(a: T, b: T) -> (r: T) ensures r == if a.ord_le(&b) { a } else { b } { unimplemented!() }
    #[verifier::external_body]
    pub fn max<T: super::Ord>(a: T, b: T) -> (r: T) ensures r == if a.ord_le(&b) { b } else { a } { unimplemented!() }
}
impl Ord for usize {
    open spec fn ord_le(&self, other: &usize) -> bool { *self <= *other }
    proof fn ord_total(a: &usize, b: &usize) {}
    proof fn ord_trans(a: &usize, b: &usize, c: &usize) {}
}
pub trait OptionShim<'a, T: 'a> { fn v_cloned(self) -> Option<T> where T: Clone; }
impl<'a, T: 'a> OptionShim<'a, T> for Option<&'a T> {
    #[verifier::external_body]
    fn v_cloned(self) -> (r: Option<T>) where T: Clone
        ensures r == match self { Some(x) => Some(*x), None => None }
    { unimplemented!() }
}
pub trait ApproxEq: Sized {
    type Epsilon;
    spec fn default_epsilon_s() -> Self::Epsilon;
    spec fn default_max_relative_s() -> Self::Epsilon;
    spec fn default_max_ulps_s() -> u32;
    spec fn relative_eq_s(&self, other: &Self, epsilon: Self::Epsilon, max_relative: Self::Epsilon) -> bool;
    spec fn ulps_eq_s(&self, other: &Self, epsilon: Self::Epsilon, max_ulps: u32) -> bool;
    fn default_epsilon() -> (r: Self::Epsilon) ensures r == Self::default_epsilon_s();
    fn default_max_relative() -> (r: Self::Epsilon) ensures r == Self::default_max_relative_s();
    fn default_max_ulps() -> (r: u32) ensures r == Self::default_max_ulps_s();
    fn relative_eq(&self, other: &Self, epsilon: Self::Epsilon, max_relative: Self::Epsilon) -> (r: bool)
        ensures r == self.relative_eq_s(other, epsilon, max_relative);
    fn ulps_eq(&self, other: &Self, epsilon: Self::Epsilon, max_ulps: u32) -> (r: bool)
        ensures r == self.ulps_eq_s(other, epsilon, max_ulps);
}

// --- formatting ----------------------------------------------------------------------------------
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
#[verifier::external_body]
pub struct Formatter { p: u8 }
#[verifier::external_body]
pub struct Arguments { p: u8 }
impl Arguments { pub uninterp spec fn txt(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn fmt_lit(s: &str) -> (r: Arguments) ensures r.txt() == s@ { unimplemented!() }
impl Formatter {
    /// what has been written
    pub uninterp spec fn out(&self) -> Seq<char>;
    /// no flags: `{:?}`
    pub uninterp spec fn plain(&self) -> bool;
    /// a writer or an element reported an error
    pub uninterp spec fn erred(&self) -> bool;
    pub open spec fn wrote(&self, after: &Formatter, s: Seq<char>, r: FmtResult) -> bool {
        &&& r is Ok ==> after.out() == self.out() + s
        &&& r is Err ==> after.erred()
        &&& after.plain() == self.plain()
        &&& self.erred() ==> after.erred()
    }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult) ensures old(self).wrote(final(self), s@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_fmt(&mut self, a: Arguments) -> (r: FmtResult) ensures old(self).wrote(final(self), a.txt(), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_list<'a>(&'a mut self) -> (r: DebugList<'a>) ensures *r.f == *old(self), *final(r.f) == *final(self), r.items@ == Seq::<Seq<char>>::empty() { unimplemented!() }
}
impl Formatter {
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult) ensures old(self).wrote(final(self), seq![c], r) { unimplemented!() }
}
pub trait Display {
    /// the text `{}` prints
    spec fn disp(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) ensures old(f).wrote(final(f), self.disp(), r);
}
/// format!("{}", x)
#[verifier::external_body]
pub fn fmt_display<T: Display>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
/// str::lines and the number of columns a line takes (unicode_width)
pub uninterp spec fn lines(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn width(s: Seq<char>) -> nat;
pub broadcast axiom fn width_empty() ensures #[trigger] width(Seq::<char>::empty()) == 0;
#[verifier::external_body]
pub struct StrLines<'a> { s: &'a str }
impl<'a> Iterator for StrLines<'a> {
    type Item = &'a str;
    uninterp spec fn items(&self) -> Seq<&'a str>;
    open spec fn inv(&self) -> bool { true }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>) { unimplemented!() }
}
pub open spec fn are_lines(l: Seq<&str>, s: Seq<char>) -> bool { l.len() == lines(s).len() && forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k])@ == lines(s)[k] }
pub trait StrX {
    fn v_lines<'a>(&'a self) -> (r: StrLines<'a>);
    fn v_width(&self) -> (r: usize);
}
impl StrX for str {
    #[verifier::external_body]
    fn v_lines<'a>(&'a self) -> (r: StrLines<'a>) ensures are_lines(r.items(), self@) { unimplemented!() }
    #[verifier::external_body]
    fn v_width(&self) -> (r: usize) ensures r == width(self@), r <= isize::MAX { unimplemented!() }
}
impl StrX for String {
    #[verifier::external_body]
    fn v_lines<'a>(&'a self) -> (r: StrLines<'a>) ensures are_lines(r.items(), self@) { unimplemented!() }
    #[verifier::external_body]
    fn v_width(&self) -> (r: usize) ensures r == width(self@), r <= isize::MAX { unimplemented!() }
}
/// a callback as a state machine: `step` relates the state before a call, its argument and result, and the state after
pub trait Calls<A>: Sized {
    type Out;
    spec fn step(self, a: A, b: Self::Out, post: Self) -> bool;
    fn v_call(&mut self, a: A) -> (r: Self::Out) ensures old(self).step(a, r, *final(self));
}
/// the states of a callback, one row of calls after the other: each row starts where the one before ended
#[verifier::opaque]
pub open spec fn rows_from<F>(s: Seq<Seq<F>>, f: F) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0 && s[i][0] == if i == 0 { f } else { s[i - 1].last() }
}
pub proof fn rows_none<F>(f: F) ensures rows_from(Seq::<Seq<F>>::empty(), f) { reveal(rows_from); }
pub proof fn rows_add<F>(s: Seq<Seq<F>>, f: F, h: Seq<F>)
    requires rows_from(s, f), h.len() > 0, h[0] == if s.len() == 0 { f } else { s.last().last() }
    ensures rows_from(s.push(h), f)
{ reveal(rows_from); }
/// what a range mapped by a stateful closure has yielded so far, collected at the end
pub struct Collecting<A> { pub p: PhantomData<A>, pub got: Ghost<Seq<A>> }
impl<A> Collecting<A> {
    pub open spec fn items(&self) -> Seq<A> { self.got@ }
    pub fn new() -> (r: Self) ensures r.items() == Seq::<A>::empty() { Collecting { p: PhantomData, got: Ghost(Seq::empty()) } }
    pub fn push(&mut self, a: A) ensures final(self).items() == old(self).items().push(a) { proof { self.got@ = self.got@.push(a); } }
    #[verifier::external_body]
    pub fn finish<B: FromIterator<A>>(self) -> (r: B) requires B::fits(self.items()) || may_panic() ensures B::collected(self.items(), r) { unimplemented!() }
}
/// what std's derive/list builders print of an element, without flags
pub trait Debug {
    spec fn dbg(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        requires old(f).plain()
        ensures old(f).wrote(final(f), self.dbg(), r);
}
impl<'a, T: Debug> Debug for &'a T {
    open spec fn dbg(&self) -> Seq<char> { (**self).dbg() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
impl<T: Debug> Debug for [T] {
    open spec fn dbg(&self) -> Seq<char> { dbg_list(dbg_all(self@)) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() }
}
pub open spec fn dbg_all<T: Debug>(s: Seq<T>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].dbg()) }
/// the texts with a comma and a space between them
pub open spec fn join(s: Seq<Seq<char>>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { join(s.drop_last()) + ", "@ + s.last() } }
pub open spec fn dbg_list(s: Seq<Seq<char>>) -> Seq<char> { "["@ + join(s) + "]"@ }
/// std's list builder: it writes while it is used; here everything is written at finish, which is when its result is known
pub struct DebugList<'a> { pub f: &'a mut Formatter, pub items: Ghost<Seq<Seq<char>>> }
impl<'a> DebugList<'a> {
    #[verifier::external_body]
    pub fn entries<I: IntoIterator>(self, it: I) -> (r: Self) where I::Item: Debug
        requires it.into_inv()
        ensures *r.f == *old(self.f), *final(r.f) == *final(self.f), r.items@ == self.items@ + dbg_all(it.into_items())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: FmtResult)
        requires old(self.f).plain()
        ensures old(self.f).wrote(final(self.f), dbg_list(self.items@), r)
    { unimplemented!() }
}
