# Contracts for sinkuu/rowcol. Spliced by lib/extract.py into the text rustc expands from /repo.
# ===================================================================== dialect
@drop Debug for ColsIterRefInner.*
@drop Copy for .*
@drop Eq for .*
@impl trait ArrayLen
proof fn len_ok() ensures <Self::Array as ArrLike<T>>::cap() == Self::n();
@end

# ===================================================================== vector.rs
@struct Vector
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(N)]
@struct IntoIter
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(N)]
@struct Chunks
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(I)]
@impl Vector<T,N>
pub open spec fn view(&self) -> Seq<T> { self.0.seq() }
@end

@fn Vector<T,N>::new
@props P01
ensures r@ == array.seq(), r.0 == array
@fn Vector<T,N>::generate
@props P01
requires forall|i: usize| i < N::n() ==> call_requires(f, (i,))
ensures r@.len() == N::n(), forall|i: int| 0 <= i < N::n() ==> call_ensures(f, (i as usize,), #[trigger] r@[i])
@fn Vector<T,N>::generate#calls
@props P01
ensures exists|s: Seq<F>| s.len() == N::n() + 1 && s[0] == CB && forall|k: int| 0 <= k < N::n() ==> (#[trigger] s[k]).step((k as usize,), r@[k], s[k + 1])
@pre
let ghost hf0 = CB; let ghost mut hs: Seq<F> = seq![CB]; let ghost mut hgot: Seq<T> = Seq::empty(); let mut CB = CB;
proof { n_fits::<T, N>(); }
@loop 0
hs.len() == n0 + 1, hs[0] == hf0, hs[n0] == CB, col0.items().len() == n0, all0 == range_seq(0, N::n() as int), N::n() <= usize::MAX,
forall|k: int| 0 <= k < n0 ==> (#[trigger] hs[k]).step((k as usize,), col0.items()[k], hs[k + 1])
ensures n0 == all0.len()
@loopend 0
proof { hs = hs.push(CB); }
@after 0
proof { hgot = col0.items(); }
@post
proof { assert(out@ =~= hgot); }
@fn Vector<T,N>::into_inner
@props P01
ensures r == self.0, r.seq() == self@
@fn Vector<T,N>::as_slice
@props P01
ensures r@ == self@
@fn Vector<T,N>::as_slice_mut
@props P01
ensures r@ == old(self)@, final(self)@ == final(r)@
@fn Vector<T,N>::iter
@props P01
ensures r.inv(), r.items() == refs(self@)
@fn Vector<T,N>::iter_mut
@props P01
ensures r.inv(), r.items().len() == N::n(), old(self)@.len() == N::n(), forall|i: int| 0 <= i < N::n() ==> *(#[trigger] r.items()[i]) == old(self)@[i],
    final(self)@ == Seq::new(N::n(), |i: int| *final(r.items()[i]))
@pre
proof { vec_len(self); }
@fn Vector<T,N>::into_chunks
@props P05
ensures r.it.items() == self@, r.it.inv()
@fn Vector<T,N>::get_unchecked
@props P06
requires i < N::n()
ensures *r == self@[i as int]
@pre
proof { vec_len(self); }
@fn Vector<T,N>::get_unchecked_mut
@props P06
requires i < N::n()
ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r))
@pre
proof { vec_len(self); }
@fn Vector<T,N>::len
@props P01
ensures r == N::n()
@fn Vector<T,N>::is_empty
@props P01
ensures r == (N::n() == 0)

@fn Clone for Vector<T,N>::clone
@props P21
@post
proof { vec_ext(self, &out); }
@fn Default for Vector<T,N>::default
@props P01
@closure 0
usize | T
ensures cr == T::default_s()
@post
proof { vec_is(&out, Seq::new(N::n(), |i: int| T::default_s())); }
@impl Default for Vector<T,N>
open spec fn default_s() -> Self { vec_of(Seq::new(N::n(), |i: int| T::default_s())) }
@end

@tail
pub open spec fn vec_of<T, N: ArrayLen<T>>(s: Seq<T>) -> Vector<T, N> { Vector(N::Array::arr_of(s)) }
pub broadcast proof fn vec_len<T, N: ArrayLen<T>>(v: &Vector<T, N>) ensures (#[trigger] v@).len() == N::n(), N::n() <= usize::MAX
{ N::len_ok(); N::Array::arr_len(&v.0); N::Array::cap_fits(); }
/// a type-level array length is a machine length
pub proof fn n_fits<T, N: ArrayLen<T>>() ensures N::n() <= usize::MAX { N::len_ok(); N::Array::cap_fits(); }
pub broadcast proof fn vec_of_view<T, N: ArrayLen<T>>(s: Seq<T>) requires s.len() == N::n() ensures (#[trigger] vec_of::<T, N>(s))@ == s
{ N::len_ok(); N::Array::seq_arr_of(s); }
pub proof fn vec_is<T, N: ArrayLen<T>>(v: &Vector<T, N>, s: Seq<T>) requires v@ =~= s ensures *v == vec_of::<T, N>(s)
{ N::Array::arr_of_seq(&v.0); }
pub proof fn vec_ext<T, N: ArrayLen<T>>(v: &Vector<T, N>, w: &Vector<T, N>) requires v@ =~= w@ ensures *v == *w
{ N::Array::arr_of_seq(&v.0); N::Array::arr_of_seq(&w.0); }
@end

@fn PartialEq<Vector<U,N>> for Vector<T,N>::eq
@props P21
@pre
broadcast use {slice_eq, slice_eq_obeys};
@tail
impl<T, U, N> PartialEqSpecImpl<Vector<U, N>> for Vector<T, N> where T: PartialEq<U>, N: ArrayLen<T> + ArrayLen<U> {
    open spec fn obeys_eq_spec() -> bool { <T as PartialEqSpec<U>>::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Vector<U, N>) -> bool { forall|i: int| 0 <= i < N::n() ==> (#[trigger] self@[i]).eq_spec(&other@[i]) }
}
@end

@impl num::Zero for Vector<T,N>
open spec fn zero_s() -> Self { vec_of(Seq::new(N::n(), |i: int| T::zero_s())) }
open spec fn is_zero_s(&self) -> bool { forall|i: int| 0 <= i < N::n() ==> (#[trigger] self@[i]).is_zero_s() }
@fn num::Zero for Vector<T,N>::zero
@props P16
@closure 0
usize | T
ensures cr == T::zero_s()
@post
proof { vec_is(&out, Seq::new(N::n(), |i: int| T::zero_s())); }
@fn num::Zero for Vector<T,N>::is_zero
@props P16
@post
proof { let s = refs(self@);
  if out { assert forall|i: int| 0 <= i < N::n() implies (#[trigger] self@[i]).is_zero_s() by { assert(s[i] == &self@[i]); } } }
@impl num::Bounded for Vector<T,N>
open spec fn min_s() -> Self { vec_of(Seq::new(N::n(), |i: int| T::min_s())) }
open spec fn max_s() -> Self { vec_of(Seq::new(N::n(), |i: int| T::max_s())) }
@foreach M=min,max
@fn num::Bounded for Vector<T,N>::$M_value
@props P16
@closure 0
usize | T
ensures cr == T::$M_s()
@post
proof { vec_is(&out, Seq::new(N::n(), |i: int| T::$M_s())); }
@endfor

@fn Deref for Vector<T,N>::deref
@props P01
ensures *r == self.0
@fn DerefMut for Vector<T,N>::deref_mut
@props P01
ensures *r == old(self).0, final(self).0 == *final(r)
@fn AsRef<[T]> for Vector<T,N>::as_ref
@props P01
ensures r@ == self@
@fn AsMut<[T]> for Vector<T,N>::as_mut
@props P01
ensures r@ == old(self)@, final(self)@ == final(r)@

# --- indexing
@fn Index<usize> for Vector<T,N>::index
@props P06
@slicepanics
ensures idx < N::n(), *r == self@[idx as int]
@pre
proof { vec_len(self); }
@fn IndexMut<usize> for Vector<T,N>::index_mut
@props P06
@slicepanics
ensures idx < N::n(), *r == old(self)@[idx as int], final(self)@ == old(self)@.update(idx as int, *final(r))
@pre
proof { vec_len(self); }
@tail
impl<T, N> IndexSpecImpl<usize> for Vector<T, N> where N: ArrayLen<T> {
    open spec fn index_req(&self, idx: &usize) -> bool { *idx < N::n() || may_panic() }
}
impl<T, N> At for Vector<T, N> where N: ArrayLen<T> {
    type O = T;
    open spec fn at_is(&self, i: int, v: T) -> bool { self@[i] == v }
    open spec fn at_len(&self) -> nat { N::n() }
    open spec fn at_set(&self, i: int, v: T, r: &Self) -> bool { r@ == self@.update(i, v) }
    fn v_at(&self, i: usize) -> (r: &T) { &self[i] }
    fn v_at_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
@end
@fn Index<UInt<IU,IB>> for Vector<T,N>::index
@props P06
ensures *r == self@[(2 * IU::n() + IB::b()) as int]
@pre
proof { vec_len(self); cmp_less::<UInt<IU, IB>, N>(); }
@fn IndexMut<UInt<IU,IB>> for Vector<T,N>::index_mut
@props P06
ensures *r == old(self)@[(2 * IU::n() + IB::b()) as int], final(self)@ == old(self)@.update((2 * IU::n() + IB::b()) as int, *final(r))
@pre
proof { vec_len(self); cmp_less::<UInt<IU, IB>, N>(); }
@fn Index<U0> for Vector<T,N>::index
@props P06
ensures *r == self@[0]
@pre
proof { vec_len(self); cmp_less::<U0, N>(); }
@fn IndexMut<U0> for Vector<T,N>::index_mut
@props P06
ensures *r == old(self)@[0], final(self)@ == old(self)@.update(0, *final(r))
@pre
proof { vec_len(self); cmp_less::<U0, N>(); }
@tail
impl<T, N, IU, IB> IndexSpecImpl<UInt<IU, IB>> for Vector<T, N> where N: ArrayLen<T>, IU: Unsigned, IB: Bit, UInt<IU, IB>: Cmp<N>, Compare<UInt<IU, IB>, N>: Same<Less> {
    open spec fn index_req(&self, idx: &UInt<IU, IB>) -> bool { true }
}
impl<T, N> IndexSpecImpl<U0> for Vector<T, N> where N: ArrayLen<T>, U0: Cmp<N>, Compare<U0, N>: Same<Less> {
    open spec fn index_req(&self, idx: &U0) -> bool { true }
}
@end

# --- arithmetic
@foreach O=Add,Sub o=add,sub
@foreach K=,,&,& J=,&,,& L=T,T,&'a~T,&'b~T R=U,&'a~U,U,&'a~U G=,'a^,'a^,'a^'b^ V=,,&'a,&'b W=,&'a,,&'a A=,,&,& B=,&,,&
@fn $O<$JVector<U,N>> for $KVector<T,N>::$o
@props P12
@closure 0
($L, $R) | <$L as $O<$R>>::Output
requires c0.0.$o_req(c0.1)
ensures <$L as $OSpec<$R>>::obeys_$o_spec() ==> cr == c0.0.$o_spec(c0.1)
@pre
proof { vec_len(&self); vec_len(&other); }
@post
proof { if <$L as $OSpec<$R>>::obeys_$o_spec() { vec_is(&out, Seq::new(N::n(), |i: int| ($Aself@[i]).$o_spec($Bother@[i]))); } }
@tail
impl<$GT, U, N> $OSpecImpl<$W Vector<U, N>> for $V Vector<T, N> where $L: $O<$R>, N: ArrayLen<T> + ArrayLen<U> + ArrayLen<<$L as $O<$R>>::Output> {
    open spec fn obeys_$o_spec() -> bool { <$L as $OSpec<$R>>::obeys_$o_spec() }
    open spec fn $o_req(self, other: $W Vector<U, N>) -> bool { forall|i: int| 0 <= i < N::n() ==> ($A#[trigger] self@[i]).$o_req($Bother@[i]) }
    open spec fn $o_spec(self, other: $W Vector<U, N>) -> Vector<<$L as $O<$R>>::Output, N> { vec_of(Seq::new(N::n(), |i: int| ($Aself@[i]).$o_spec($Bother@[i]))) }
}
@end
@endfor
@fn $OAssign<Vector<U,N>> for Vector<T,N>::$o_assign
@props P12
@pre
proof { vec_len(self); vec_len(&rhs); }
let ghost s0 = self@; let ghost r0 = rhs@;
@loop 0
all0.len() == N::n(), s0.len() == N::n(), r0.len() == N::n(), 
forall|i: int| 0 <= i < N::n() ==> (#[trigger] all0[i]).1 == r0[i] && *all0[i].0 == s0[i],
forall|i: int| 0 <= i < N::n() ==> (#[trigger] s0[i]).$o_assign_req(r0[i]),
forall|i: int| #![trigger all0[i]] #![trigger s0[i]] 0 <= i < n0 && T::obeys_$o_assign_spec() ==> *final(all0[i].0) == *s0[i].$o_assign_spec(r0[i]),
@post
proof { if T::obeys_$o_assign_spec() { vec_is(self, Seq::new(N::n(), |i: int| *s0[i].$o_assign_spec(r0[i]))); } }
@tail
impl<T, U, N> $OAssignSpecImpl<Vector<U, N>> for Vector<T, N> where T: $OAssign<U>, N: ArrayLen<T> + ArrayLen<U> {
    open spec fn obeys_$o_assign_spec() -> bool { <T as $OAssignSpec<U>>::obeys_$o_assign_spec() }
    open spec fn $o_assign_req(&self, rhs: Vector<U, N>) -> bool { forall|i: int| 0 <= i < N::n() ==> (#[trigger] self@[i]).$o_assign_req(rhs@[i]) }
    open spec fn $o_assign_spec(&self, rhs: Vector<U, N>) -> &Vector<T, N> { &vec_of(Seq::new(N::n(), |i: int| *self@[i].$o_assign_spec(rhs@[i]))) }
}
@end
@endfor
@foreach O=Mul,Div o=mul,div
@fn $O<U> for Vector<T,N>::$o
@props P12
@closure 0
T | <T as $O<U>>::Output
requires c0.$o_req(rhs)
ensures <T as $OSpec<U>>::obeys_$o_spec() ==> cr == c0.$o_spec(rhs)
@pre
proof { vec_len(&self); }
@post
proof { if <T as $OSpec<U>>::obeys_$o_spec() { vec_is(&out, Seq::new(N::n(), |i: int| self@[i].$o_spec(rhs))); } }
@fn $OAssign<U> for Vector<T,N>::$o_assign
@props P12
@pre
proof { vec_len(self); }
let ghost s0 = self@;
@loop 0
all0.len() == N::n(), s0.len() == N::n(), 
forall|i: int| 0 <= i < N::n() ==> *(#[trigger] all0[i]) == s0[i],
forall|i: int| 0 <= i < N::n() ==> (#[trigger] s0[i]).$o_assign_req(rhs),
forall|i: int| 0 <= i < n0 && T::obeys_$o_assign_spec() ==> *final(#[trigger] all0[i]) == *s0[i].$o_assign_spec(rhs),
@post
proof { if T::obeys_$o_assign_spec() { vec_is(self, Seq::new(N::n(), |i: int| *s0[i].$o_assign_spec(rhs))); } }
@tail
impl<T, U, N> $OSpecImpl<U> for Vector<T, N> where T: $O<U>, U: Clone, N: ArrayLen<T> + ArrayLen<<T as $O<U>>::Output> {
    open spec fn obeys_$o_spec() -> bool { <T as $OSpec<U>>::obeys_$o_spec() }
    open spec fn $o_req(self, rhs: U) -> bool { forall|i: int| 0 <= i < N::n() ==> (#[trigger] self@[i]).$o_req(rhs) }
    open spec fn $o_spec(self, rhs: U) -> Vector<<T as $O<U>>::Output, N> { vec_of(Seq::new(N::n(), |i: int| self@[i].$o_spec(rhs))) }
}
impl<T, U, N> $OAssignSpecImpl<U> for Vector<T, N> where T: $OAssign<U>, U: Clone, N: ArrayLen<T> {
    open spec fn obeys_$o_assign_spec() -> bool { <T as $OAssignSpec<U>>::obeys_$o_assign_spec() }
    open spec fn $o_assign_req(&self, rhs: U) -> bool { forall|i: int| 0 <= i < N::n() ==> (#[trigger] self@[i]).$o_assign_req(rhs) }
    open spec fn $o_assign_spec(&self, rhs: U) -> &Vector<T, N> { &vec_of(Seq::new(N::n(), |i: int| *self@[i].$o_assign_spec(rhs))) }
}
@end
@endfor
@fn Neg for Vector<T,N>::neg
@props P12
@closure 0
T | <T as Neg>::Output
requires c0.neg_req()
ensures <T as NegSpec>::obeys_neg_spec() ==> cr == c0.neg_spec()
@pre
proof { vec_len(&self); }
@post
proof { if <T as NegSpec>::obeys_neg_spec() { vec_is(&out, Seq::new(N::n(), |i: int| self@[i].neg_spec())); } }
@tail
impl<T, N> NegSpecImpl for Vector<T, N> where T: Neg, N: ArrayLen<T> + ArrayLen<<T as Neg>::Output> {
    open spec fn obeys_neg_spec() -> bool { <T as NegSpec>::obeys_neg_spec() }
    open spec fn neg_req(self) -> bool { forall|i: int| 0 <= i < N::n() ==> (#[trigger] self@[i]).neg_req() }
    open spec fn neg_spec(self) -> Vector<<T as Neg>::Output, N> { vec_of(Seq::new(N::n(), |i: int| self@[i].neg_spec())) }
}
@end

# --- products, norms, reductions
@tail
pub open spec fn addf<T: Add<T, Output = T>>() -> spec_fn(T, T) -> T { |a: T, b: T| a.add_spec(b) }
pub open spec fn mulf<T: Mul<T, Output = T>>() -> spec_fn(T, T) -> T { |a: T, b: T| a.mul_spec(b) }
/// addition (multiplication) on T is a total function: the assumption on the element type
pub open spec fn ring_add<T: Add<T, Output = T>>() -> bool { T::obeys_add_spec() && forall|a: T, b: T| #[trigger] a.add_req(b) }
pub open spec fn ring_mul<T: Mul<T, Output = T>>() -> bool { T::obeys_mul_spec() && forall|a: T, b: T| #[trigger] a.mul_req(b) }
pub open spec fn ring_sub<T: Sub<T, Output = T>>() -> bool { T::obeys_sub_spec() && forall|a: T, b: T| #[trigger] a.sub_req(b) }
pub open spec fn ring_div<T: Div<T, Output = T>>() -> bool { T::obeys_div_spec() && forall|a: T, b: T| #[trigger] a.div_req(b) }
pub open spec fn ring_neg<T: Neg<Output = T>>() -> bool { T::obeys_neg_spec() && forall|a: T| #[trigger] a.neg_req() }
pub open spec fn sum_s<T: num::Zero + Add<T, Output = T>>(s: Seq<T>) -> T { s.fold_left(T::zero_s(), addf::<T>()) }
pub open spec fn pairf<T: Mul<T, Output = T>>() -> spec_fn((T, T)) -> T { |p: (T, T)| p.0.mul_spec(p.1) }
/// the dot product of two sequences, left to right from zero
pub open spec fn dot_s<T: num::Zero + Add<T, Output = T> + Mul<T, Output = T>>(a: Seq<T>, b: Seq<T>) -> T
{ sum_s(zip_seq(a, b).map_values(pairf::<T>())) }
@end
@fn Vector<T,N>::dot
@props P15
requires ring_add::<T>(), ring_mul::<T>()
ensures r == dot_s(self@, other@)
@closure 0
(T, T) | T
requires c0.0.mul_req(c0.1)
ensures cr == c0.0.mul_spec(c0.1)
@post
proof {
  let a = refs(self@).map_values(|x: &T| *x); let b = refs(other@).map_values(|x: &T| *x);
  assert(a =~= self@); assert(b =~= other@);
  let z = zip_seq(self@, other@);
  let m = z.map_values(pairf::<T>());
  assert(m.fold_left(T::zero_s(), addf::<T>()) == out);
}
@fn Vector<T,N>::sum
@props P19
requires ring_add::<T>()
ensures r == sum_s(self@)
@post
proof {
  let a = refs(self@).map_values(|x: &T| *x); assert(a =~= self@);
  assert(a.fold_left(T::zero_s(), addf::<T>()) == out);
}
@fn Vector<T,U3>::cross
@props P15
requires ring_sub::<T>(), ring_mul::<T>()
ensures r@ =~= cross_s(self@, other@)
@tail
pub open spec fn cross_s<T: Sub<T, Output = T> + Mul<T, Output = T>>(a: Seq<T>, b: Seq<T>) -> Seq<T> { seq![
    a[1].mul_spec(b[2]).sub_spec(a[2].mul_spec(b[1])),
    a[2].mul_spec(b[0]).sub_spec(a[0].mul_spec(b[2])),
    a[0].mul_spec(b[1]).sub_spec(a[1].mul_spec(b[0]))] }
@end
@fn Vector<T,N>::norm
@props P15
requires ring_add::<T>()
ensures r == norm_s(self@)
@closure 0
T | T
ensures cr == c0.powi_s(2)
@post
proof {
  let a = refs(self@).map_values(|x: &T| *x); assert(a =~= self@);
  let m = a.map_values(sqf::<T>());
  assert(sum_s(m).sqrt_s() == out);
}
@tail
pub open spec fn sqf<T: Float>() -> spec_fn(T) -> T { |x: T| x.powi_s(2) }
pub open spec fn norm_s<T: Float>(s: Seq<T>) -> T { sum_s(s.map_values(sqf::<T>())).sqrt_s() }
@end
@fn Vector<T,N>::normalized
@props P15
requires ring_add::<T>(), ring_div::<T>()
ensures r@ =~= Seq::new(N::n(), |i: int| self@[i].div_spec(norm_s(self@)))
@post
proof { vec_of_view::<T, N>(Seq::new(N::n(), |i: int| self@[i].div_spec(norm_s(self@)))); }
@fn Vector<T,UInt<U,B>>::max
@props P19
ensures self@.contains(r), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).ord_le(&r)
@pre
proof { uint_pos::<T, U, B>(); }
let ghost s = refs(self@);
@post
proof { max_lift(self@, out); }
@fn Vector<T,UInt<U,B>>::min
@props P19
ensures self@.contains(r), forall|i: int| 0 <= i < self@.len() ==> r.ord_le(#[trigger] &self@[i])
@pre
proof { uint_pos::<T, U, B>(); }
let ghost s = refs(self@);
@post
proof { max_lift(self@, out); }
@tail
pub proof fn max_lift<T: Ord>(s: Seq<T>, r: T)
    ensures refs(s).contains(&r) ==> s.contains(r),
        forall|i: int| 0 <= i < s.len() ==> refs(s)[i] == &(#[trigger] s[i]),
{ if refs(s).contains(&r) { let i = choose|i: int| 0 <= i < refs(s).len() && refs(s)[i] == &r; assert(s[i] == r); } }
@end

@fn Vector<T,UInt<U,B>>::max_by
@props P19
requires cmp_total(comp, self@)
ensures self@.contains(r), forall|g: spec_fn(T, T) -> Ordering, i: int| #[trigger] cmp_law(g) && cmp_fn(comp, g) && 0 <= i < self@.len() ==> #[trigger] g(self@[i], r) != Ordering::Greater
@pre
proof { uint_pos::<T, U, B>(); }
let ghost s = refs(self@);
@loop 0
all0 == s.subrange(1, s.len() as int), s == refs(self@), cmp_total(comp, self@), self@.len() > 0, self@.contains(*st),
forall|g: spec_fn(T, T) -> Ordering, i: int| #[trigger] cmp_law(g) && cmp_fn(comp, g) && 0 <= i <= n0 ==> #[trigger] g(self@[i], *st) != Ordering::Greater,
@loopstart 0
broadcast use {ordering_eq, ordering_obeys};
let ghost st0 = *st;
proof { assert(v == s[n0]); assert(*v == self@[n0]); let kst = choose|k: int| 0 <= k < self@.len() && self@[k] == *st; assert(call_requires(comp, (&self@[n0], &self@[kst]))); }
@loopend 0
proof {
  let j = n0 - 1;
  assert forall|g: spec_fn(T, T) -> Ordering, i: int| #[trigger] cmp_law(g) && cmp_fn(comp, g) && 0 <= i <= n0 implies #[trigger] g(self@[i], *st) != Ordering::Greater by {
    assert(g(*st, *st) == Ordering::Equal);
    assert(self@[n0] == *v);
    if *st != st0 { assert(g(*v, st0) == Ordering::Greater); assert(g(st0, *v) == Ordering::Less); } else { assert(g(st0, st0) == Ordering::Equal); }
    if i < n0 { assert(g(self@[i], st0) != Ordering::Greater); assert(g(st0, *st) != Ordering::Greater); }
  }
}
@tail
pub open spec fn cmp_total<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool
{ forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] call_requires(f, (&s[i], &s[j])) }
/// f is a function and a total order up to ties
pub open spec fn cmp_is<T, F: Fn(&T, &T) -> Ordering>(f: F, g: spec_fn(T, T) -> Ordering) -> bool {
    cmp_fn(f, g) && cmp_law(g)
}
pub open spec fn cmp_fn<T, F: Fn(&T, &T) -> Ordering>(f: F, g: spec_fn(T, T) -> Ordering) -> bool {
    forall|a: T, b: T, o: Ordering| #[trigger] call_ensures(f, (&a, &b), o) ==> o == g(a, b)
}
pub open spec fn cmp_law<T>(g: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T| #[trigger] g(a, a) == Ordering::Equal
    &&& forall|a: T, b: T| #[trigger] g(a, b) == Ordering::Greater <==> g(b, a) == Ordering::Less
    &&& forall|a: T, b: T, c: T| #[trigger] g(a, b) != Ordering::Greater && #[trigger] g(b, c) != Ordering::Greater ==> g(a, c) != Ordering::Greater
}
@end
@fn Vector<T,UInt<U,B>>::min_by
@props P19
requires cmp_total(comp, self@)
ensures self@.contains(r), forall|g: spec_fn(T, T) -> Ordering, i: int| #[trigger] cmp_law(g) && cmp_fn(comp, g) && 0 <= i < self@.len() ==> #[trigger] g(self@[i], r) != Ordering::Less
@closure 0
&T, &T | Ordering
requires call_requires(comp, (c1, c0))
ensures call_ensures(comp, (c1, c0), cr)
@post
proof {
  assert forall|g: spec_fn(T, T) -> Ordering, i: int| #[trigger] cmp_law(g) && cmp_fn(comp, g) && 0 <= i < self@.len() implies #[trigger] g(self@[i], out) != Ordering::Less by {
    let g2 = |a: T, b: T| g(b, a);
    assert(cmp_law(g2)) by {
      assert forall|a: T, b: T, c: T| #[trigger] g2(a, b) != Ordering::Greater && #[trigger] g2(b, c) != Ordering::Greater implies g2(a, c) != Ordering::Greater by {}
    }
    assert(g2(self@[i], out) != Ordering::Greater);
  }
}

# --- FromIterator, IntoIter
@impl FromIterator<T> for Vector<T,N>
open spec fn collected(s: Seq<T>, r: Self) -> bool { s.len() >= N::n() && r@ == s.subrange(0, N::n() as int) }
open spec fn want() -> nat { N::n() }
open spec fn fits(s: Seq<T>) -> bool { s.len() == N::n() }
@impl IntoIterator for Vector<T,N>
open spec fn into_items(self) -> Seq<T> { self@ }
open spec fn into_inv(self) -> bool { true }
@impl Iterator for IntoIter<T,N>
open spec fn inv(&self) -> bool { self.next <= self.back <= N::n() && forall|k: int| 0 <= k < N::n() ==> (#[trigger] self.arr.live().contains(k) <==> self.next <= k < self.back) }
open spec fn items(&self) -> Seq<T> { self.arr.0.seq().subrange(self.next as int, self.back as int) }
@fn FromIterator<T> for Vector<T,N>::from_iter
@props P02 P03
@pre
let ghost s0 = iter.into_items();
proof { N::len_ok(); arr_all_len::<T, N>(); }
@loop 0
s0.len() == N::n() || may_panic(), it.inv(), s0.len() >= i, it.items() == s0.subrange(i as int, s0.len() as int), i <= N::n(), arr.0.seq().len() == N::n(), N::Array::cap() == N::n(),
forall|k: int| 0 <= k < i ==> arr.0.seq()[k] == s0[k],
forall|k: int| 0 <= k < N::n() ==> (#[trigger] arr.live().contains(k) <==> k < i),
@loop 1
N::Array::cap() == N::n(), i < N::n(),
forall|k: int| 0 <= k < N::n() ==> (#[trigger] arr.live().contains(k) <==> j <= k < i),
@post
proof { assert(out@ =~= s0.subrange(0, N::n() as int)); }
@fn IntoIterator for Vector<T,N>::into_iter
@props P03 P04
@pre
proof { N::len_ok(); vec_len(&self); assert(self@.subrange(0, N::n() as int) =~= self@); assert forall|r: NoDrop<N::Array>| #[trigger] self.0.slots(r) implies r.0 == self.0 && forall|k: int| 0 <= k < N::n() ==> #[trigger] r.live().contains(k) by { N::Array::all_live(self.0, r); } }
@fn Iterator for IntoIter<T,N>::next
@props P03 P04
@pre
proof { N::len_ok(); N::Array::arr_len(&self.arr.0); }
@post
proof { assert(out is Some ==> self.items() =~= old(self).items().subrange(1, old(self).items().len() as int)); }
@fn Iterator for IntoIter<T,N>::size_hint
@props P04
ensures r.0 == self.items().len(), r.1 == Some(r.0)
@pre
proof { N::len_ok(); N::Array::arr_len(&self.arr.0); }
@fn Iterator for IntoIter<T,N>::count || ExactSizeIterator for IntoIter<T,N>::len
@props P03 P04
@pre
proof { N::len_ok(); N::Array::arr_len(&self.arr.0); }
@fn Iterator for IntoIter<T,N>::nth
@props P03 P04
@pre
let ghost s0 = self.items();
@loop 0
self.inv(), _i0 <= s0.len(), s0 == old(self).items(), self.items() == s0.subrange(_i0 as int, s0.len() as int),
@loopstart 0
let ghost s1 = self.items();
@loopend 0
proof { assert(s1.subrange(1, s1.len() as int) =~= s0.subrange(_i0 + 1, s0.len() as int)); }
@post
proof { if out is Some { assert(s0.subrange(n as int, s0.len() as int).subrange(1, s0.len() - n) =~= s0.subrange(n + 1, s0.len() as int)); } }
@fn DoubleEndedIterator for IntoIter<T,N>::next_back
@props P03 P04
@pre
proof { N::len_ok(); N::Array::arr_len(&self.arr.0); }
@post
proof { assert(out is Some ==> self.items() =~= old(self).items().drop_last()); }
@impl Drop for IntoIter<T,N>
open spec fn drop_ok(&self) -> bool { Iterator::inv(self) }
open spec fn dropped(&self) -> bool { forall|k: int| 0 <= k < N::n() ==> !#[trigger] self.arr.live().contains(k) }
@fn Drop for IntoIter<T,N>::drop
@props P03
@pre
proof { N::len_ok(); }
@loop 0
self.next <= self.back <= N::n(), N::Array::cap() == N::n(), self.next == old(self).next, self.back == old(self).back,
forall|k: int| 0 <= k < N::n() ==> (#[trigger] self.arr.live().contains(k) <==> i <= k < self.back),

# --- chunks
@impl Iterator for Chunks<T,N,I>
open spec fn inv(&self) -> bool { self.it.inv() && self.it.items().len() % I::n() == 0 }
open spec fn items(&self) -> Seq<Vector<T, I>> { chunks_of::<T, I>(self.it.items()) }
@tail
pub open spec fn chunks_of<T, I: ArrayLen<T>>(s: Seq<T>) -> Seq<Vector<T, I>> {
    Seq::new(s.len() / I::n(), |c: int| vec_of::<T, I>(s.subrange(c * I::n(), c * I::n() + I::n())))
}
/// cutting one chunk off the front or the back of a sequence
pub proof fn chunk_front<T, I: ArrayLen<T>>(s: Seq<T>)
    requires I::n() > 0, s.len() > 0, s.len() % I::n() == 0
    ensures s.len() >= I::n(), (s.len() - I::n()) % (I::n() as int) == 0,
        chunks_of::<T, I>(s).len() > 0,
        chunks_of::<T, I>(s)[0] == vec_of::<T, I>(s.subrange(0, I::n() as int)),
        chunks_of::<T, I>(s.subrange(I::n() as int, s.len() as int)) == chunks_of::<T, I>(s).subrange(1, chunks_of::<T, I>(s).len() as int)
{
    let k = I::n() as int; let q = s.len() as int / k;
    assert(s.len() == k * q && q >= 1) by (nonlinear_arith) requires k > 0, s.len() > 0, s.len() as int % k == 0, q == s.len() as int / k;
    assert(s.len() >= k) by (nonlinear_arith) requires s.len() == k * q, q >= 1, k > 0;
    assert((s.len() - k) / k == q - 1 && (s.len() - k) % k == 0) by (nonlinear_arith) requires s.len() == k * q, k > 0;
    let t = s.subrange(k, s.len() as int);
    assert forall|c: int| 0 <= c < q - 1 implies #[trigger] t.subrange(c * k, c * k + k) == s.subrange((c + 1) * k, (c + 1) * k + k) by {
        assert((c + 1) * k == c * k + k && c * k >= 0 && (c + 1) * k + k <= s.len()) by (nonlinear_arith) requires 0 <= c < q - 1, k > 0, s.len() == k * q;
        assert(t.subrange(c * k, c * k + k) =~= s.subrange((c + 1) * k, (c + 1) * k + k));
    }
    assert(chunks_of::<T, I>(t) =~= chunks_of::<T, I>(s).subrange(1, q));
    assert(s.subrange(0 * k, 0 * k + k) =~= s.subrange(0, k));
}
pub proof fn chunk_back<T, I: ArrayLen<T>>(s: Seq<T>)
    requires I::n() > 0, s.len() > 0, s.len() % I::n() == 0
    ensures s.len() >= I::n(), (s.len() - I::n()) % (I::n() as int) == 0,
        chunks_of::<T, I>(s).len() > 0,
        chunks_of::<T, I>(s).last() == vec_of::<T, I>(s.subrange(s.len() - I::n(), s.len() as int)),
        chunks_of::<T, I>(s.subrange(0, s.len() - I::n())) == chunks_of::<T, I>(s).drop_last()
{
    let k = I::n() as int; let q = s.len() as int / k;
    assert(s.len() == k * q && q >= 1) by (nonlinear_arith) requires k > 0, s.len() > 0, s.len() as int % k == 0, q == s.len() as int / k;
    assert(s.len() >= k) by (nonlinear_arith) requires s.len() == k * q, q >= 1, k > 0;
    assert((s.len() - k) / k == q - 1 && (s.len() - k) % k == 0) by (nonlinear_arith) requires s.len() == k * q, k > 0;
    let t = s.subrange(0, s.len() - k);
    assert forall|c: int| 0 <= c < q - 1 implies #[trigger] t.subrange(c * k, c * k + k) == s.subrange(c * k, c * k + k) by {
        assert(c * k >= 0 && c * k + k <= s.len() - k) by (nonlinear_arith) requires 0 <= c < q - 1, k > 0, s.len() == k * q;
        assert(t.subrange(c * k, c * k + k) =~= s.subrange(c * k, c * k + k));
    }
    assert(chunks_of::<T, I>(t) =~= chunks_of::<T, I>(s).drop_last());
    assert((q - 1) * k == s.len() - k && (q - 1) * k + k == s.len()) by (nonlinear_arith) requires s.len() == k * q;
}
@end
@fn Chunks<T,N,I>::new
@props P05
ensures r.it == it
@fn Iterator for Chunks<T,N,I>::next
@props P03 P05
@pre
proof { mod_zero::<N, I>(); vec_all_len::<T, I>(); if self.it.items().len() > 0 { chunk_front::<T, I>(self.it.items()); } else { assert(0nat / I::n() == 0) by (nonlinear_arith) requires I::n() > 0; } }
let ghost s0 = self.it.items();
@post
proof { if s0.len() > 0 { vec_is(&out.unwrap(), s0.subrange(0, I::n() as int)); } }
@fn Iterator for Chunks<T,N,I>::size_hint
@props P05
ensures r.0 == self.items().len(), r.1 == Some(r.0)
@pre
proof { mod_zero::<N, I>(); }
@fn DoubleEndedIterator for Chunks<T,N,I>::next_back
@props P03 P05
@pre
proof { mod_zero::<N, I>(); vec_all_len::<T, I>(); if self.it.items().len() > 0 { chunk_back::<T, I>(self.it.items()); } else { assert(0nat / I::n() == 0) by (nonlinear_arith) requires I::n() > 0; } }
let ghost s0 = self.it.items();
@post
proof { if s0.len() > 0 {
    let k = I::n() as int;
    assert(out.unwrap()@ =~= s0.subrange(s0.len() - k, s0.len() as int));
    vec_is(&out.unwrap(), s0.subrange(s0.len() - k, s0.len() as int)); } }
@tail
pub proof fn arr_all_len<T, N: ArrayLen<T>>() ensures forall|a: N::Array| (#[trigger] a.seq()).len() == N::n()
{ N::len_ok(); assert forall|a: N::Array| (#[trigger] a.seq()).len() == N::n() by { N::Array::arr_len(&a); } }
pub proof fn vec_all_len<T, N: ArrayLen<T>>() ensures forall|v: Vector<T, N>| (#[trigger] v@).len() == N::n()
{ assert forall|v: Vector<T, N>| (#[trigger] v@).len() == N::n() by { vec_len(&v); } }
@end

# --- clamp
@fn Vector<T,N>::clamped
@props P20
ensures forall|i: int| 0 <= i < N::n() ==> clamp_ok(self@[i], min, max, #[trigger] r@[i])
@closure 0
&T | T
ensures clamp_ok(*c0, min, max, cr)
@closurepre 0
broadcast use {ord_total_b, ord_trans_b};
@fn Vector<T,N>::clamp
@props P20
ensures forall|i: int| 0 <= i < N::n() ==> clamp_ok(old(self)@[i], min, max, #[trigger] final(self)@[i])
@pre
let ghost s0 = self@;
@loop 0
all0.len() == N::n(), s0.len() == N::n(),
forall|i: int| 0 <= i < N::n() ==> *(#[trigger] all0[i]) == s0[i],
forall|i: int| 0 <= i < n0 ==> clamp_ok(s0[i], min, max, *final(#[trigger] all0[i])),
@loopstart 0
broadcast use {ord_total_b, ord_trans_b};

# ===================================================================== matrix/mod.rs: shape, construction, views
@struct Matrix
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(Row)]
#[verifier::reject_recursive_types(Col)]
@impl Matrix<T,Row,Col>
/// the entry at row i, column j
pub open spec fn at(&self, i: int, j: int) -> T { self.0@[i]@[j] }
@tail
/// the matrix with entry f(i, j) at row i, column j
pub open spec fn mat_of<T, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>>(f: spec_fn(int, int) -> T) -> Matrix<T, Row, Col> {
    Matrix(vec_of(Seq::new(Row::n(), |i: int| vec_of(Seq::new(Col::n(), |j: int| f(i, j))))))
}
pub proof fn mat_is<T, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>>(m: &Matrix<T, Row, Col>, f: spec_fn(int, int) -> T)
    requires forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> #[trigger] m.at(i, j) == f(i, j)
    ensures *m == mat_of::<T, Row, Col>(f)
{
    broadcast use vec_len;
    let s = Seq::new(Row::n(), |i: int| vec_of::<T, Col>(Seq::new(Col::n(), |j: int| f(i, j))));
    assert forall|i: int| 0 <= i < Row::n() implies m.0@[i] == s[i] by {
        assert forall|j: int| 0 <= j < Col::n() implies m.0@[i]@[j] == f(i, j) by { assert(m.at(i, j) == f(i, j)); }
        vec_is(&m.0@[i], Seq::new(Col::n(), |j: int| f(i, j)));
    }
    vec_is(&m.0, s);
}
pub proof fn mat_of_at<T, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>>(f: spec_fn(int, int) -> T)
    ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> #[trigger] mat_of::<T, Row, Col>(f).at(i, j) == f(i, j)
{
    broadcast use vec_of_view;
}
pub proof fn mat_ext<T, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>>(a: &Matrix<T, Row, Col>, b: &Matrix<T, Row, Col>)
    requires forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> #[trigger] a.at(i, j) == b.at(i, j)
    ensures *a == *b
{
    let f = |i: int, j: int| b.at(i, j);
    mat_is(a, f); mat_is(b, f);
}
@end
@fn Matrix<T,Row,Col>::new
@props P07
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> #[trigger] r.at(i, j) == rows.seq()[i].seq()[j]
@fn Matrix<T,Row,Col>::diag
@props P16
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> #[trigger] r.at(i, j) == if i == j { elems.seq()[i] } else { T::zero_s() }
@gen 0 Row Col
@item 0 Vector<T, Col>
@pre
let ghost hall = elems.seq(); let ghost mut hgot: Seq<Vector<T, Col>> = Seq::empty(); let ghost m = min_int(Row::n() as int, Col::n() as int);
proof { n_fits::<T, Col>(); n_fits::<Vector<T, Col>, Row>(); n_fits::<T, Min<Row, Col>>(); min_is::<Row, Col>(); }
@loop 0
col0.items().len() == n0, all0 == range_seq(0, Row::n() as int), Row::n() <= usize::MAX, Col::n() <= usize::MAX, m == min_int(Row::n() as int, Col::n() as int), hall.len() == m,
elems.inv(), elems.items() =~= hall.subrange(min_int(n0, Col::n() as int), m),
forall|i: int, j: int| 0 <= i < n0 && 0 <= j < Col::n() ==> #[trigger] col0.items()[i]@[j] == if i == j { hall[i] } else { T::zero_s() }
ensures n0 == all0.len()
@loopstart 0
broadcast use {vec_len, vec_of_view};
let ghost mut hitems: Seq<T> = Seq::empty();
@loop 1
col1.items().len() == n1, all1 == range_seq(0, Col::n() as int), Row::n() <= usize::MAX, Col::n() <= usize::MAX, m == min_int(Row::n() as int, Col::n() as int), hall.len() == m, 1 <= n0 <= Row::n(), gi0 == n0 - 1,
elems.inv(), elems.items() =~= hall.subrange(if n0 - 1 < Col::n() { n0 - 1 + (if n1 > n0 - 1 { 1int } else { 0int }) } else { Col::n() as int }, m),
forall|j: int| 0 <= j < n1 ==> #[trigger] col1.items()[j] == if n0 - 1 == j { hall[j] } else { T::zero_s() }
ensures n1 == all1.len()
@after 1
proof { hitems = col1.items(); }
@loopend 0
proof { assert(item0@ =~= hitems); }
@after 0
proof { hgot = col0.items(); }
@post
proof { assert(out.0@ =~= hgot); }
@tail
pub open spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }
/// the only impls of MinImpl are those of the triples (A, B, _) whose `left` and `right` are A and B, and typenum's comparison is that of the numbers
pub axiom fn min_parts<A: Unsigned + Cmp<B>, B: Unsigned>() where (A, B, Compare<A, B>): MinImpl
    ensures <(A, B, Compare<A, B>) as MinImpl>::left() == A::n(), <(A, B, Compare<A, B>) as MinImpl>::right() == B::n(),
        <(A, B, Compare<A, B>) as MinImpl>::order() == if A::n() < B::n() { -1int } else if A::n() == B::n() { 0 } else { 1 };
pub proof fn min_is<A: Unsigned + Cmp<B>, B: Unsigned>() where (A, B, Compare<A, B>): MinImpl
    ensures <Min<A, B> as Unsigned>::n() == min_int(A::n() as int, B::n() as int)
{ min_parts::<A, B>(); <(A, B, Compare<A, B>) as MinImpl>::min_ok(); }
@end
@impl trait MinImpl
# (the defaults are for impls this file does not know: nothing is proved about those)
open spec fn left() -> nat { 0 }
open spec fn right() -> nat { 0 }
open spec fn order() -> int { 0 }
//@fn MinImpl::min_ok
proof fn min_ok()
    requires Self::order() == if Self::left() < Self::right() { -1int } else if Self::left() == Self::right() { 0 } else { 1 }
    ensures Self::Output::n() == min_int(Self::left() as int, Self::right() as int)
{ assume(false); }
//@endfn
@end
@foreach O=Equal,Greater,Less V=0,1,-1
@impl MinImpl for (A,B,$O)
open spec fn left() -> nat { A::n() }
open spec fn right() -> nat { B::n() }
open spec fn order() -> int { $V }
//@fn MinImpl for (A,B,$O)::min_ok
proof fn min_ok() {}
//@endfn
@end
@endfor
@fn Matrix<T,Row,Col>::dim
@props P07
ensures r.0 == Row::n(), r.1 == Col::n()
@fn Matrix<T,Row,Col>::rows
@props P07
ensures r == Row::n()
@fn Matrix<T,Row,Col>::cols
@props P07
ensures r == Col::n()
@fn Matrix<T,Row,Col>::generate
@props P07
requires forall|i: usize, j: usize| i < Row::n() && j < Col::n() ==> #[trigger] call_requires(f, ((i, j),))
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> call_ensures(f, ((i as usize, j as usize),), #[trigger] r.at(i, j))
@closure 0
usize | Vector<T, Col>
requires c0 < Row::n()
ensures forall|j: int| 0 <= j < Col::n() ==> call_ensures(f, ((c0, j as usize),), #[trigger] cr@[j])
@closure 1
usize | T
requires c0 < Col::n()
ensures call_ensures(f, ((i, c0),), cr)
@fn Matrix<T,Row,Col>::generate#calls
@props P07
ensures exists|s: Seq<Seq<F>>| s.len() == Row::n() && rows_from(s, CB) && forall|i: int| #![trigger s[i]] 0 <= i < Row::n() ==> s[i].len() == Col::n() + 1
    && forall|j: int| 0 <= j < Col::n() ==> (#[trigger] s[i][j]).step(((i as usize, j as usize),), r.at(i, j), s[i][j + 1])
@gen 1 Col
@item 0 Vector<T, Col>
@pre
let ghost hf0 = CB; let ghost mut hs: Seq<Seq<F>> = seq![]; let ghost mut hgot: Seq<Vector<T, Col>> = Seq::empty();
proof { rows_none(hf0); n_fits::<T, Col>(); n_fits::<Vector<T, Col>, Row>(); }
@loop 0
hs.len() == n0, rows_from(hs, hf0), CB == (if n0 == 0 { hf0 } else { hs[n0 - 1].last() }), col0.items().len() == n0,
all0 == range_seq(0, Row::n() as int), Row::n() <= usize::MAX, Col::n() <= usize::MAX,
forall|i: int| #![trigger hs[i]] 0 <= i < n0 ==> hs[i].len() == Col::n() + 1
    && forall|j: int| 0 <= j < Col::n() ==> (#[trigger] hs[i][j]).step(((i as usize, j as usize),), col0.items()[i]@[j], hs[i][j + 1])
ensures n0 == all0.len()
@loopstart 0
broadcast use {vec_len, vec_of_view};
let ghost mut hrow: Seq<F> = seq![CB]; let ghost mut hitems: Seq<T> = Seq::empty(); let ghost hg0 = CB;
@loop 1
hrow.len() == n1 + 1, hrow[0] == hg0, hrow[n1] == CB, col1.items().len() == n1, all1 == range_seq(0, Col::n() as int), 1 <= n0 <= Row::n(), P0_0 == n0 - 1,
Row::n() <= usize::MAX, Col::n() <= usize::MAX,
forall|j: int| 0 <= j < n1 ==> (#[trigger] hrow[j]).step((((n0 - 1) as usize, j as usize),), col1.items()[j], hrow[j + 1])
ensures n1 == all1.len()
@loopend 1
proof { hrow = hrow.push(CB); }
@after 1
proof { hitems = col1.items(); }
@loopend 0
proof { assert(item0@ =~= hitems); rows_add(hs, hf0, hrow); hs = hs.push(hrow); }
@after 0
proof { hgot = col0.items(); }
@post
proof { assert(out.0@ =~= hgot); }
@fn Matrix<T,Row,Col>::get_unchecked
@props P08
requires p1.0 < Row::n(), p1.1 < Col::n()
ensures *r == self.at(p1.0 as int, p1.1 as int)
@fn Matrix<T,Row,Col>::get_unchecked_mut
@props P08
requires p1.0 < Row::n(), p1.1 < Col::n()
ensures *r == old(self).at(p1.0 as int, p1.1 as int),
    final(self).at(p1.0 as int, p1.1 as int) == *final(r),
    forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() && (i != p1.0 || j != p1.1) ==> #[trigger] final(self).at(i, j) == old(self).at(i, j)
@fn Matrix<T,Row,Col>::transposed
@props P10
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> #[trigger] r.at(j, i) == self.at(i, j)
@fn Matrix<T,N,N>::identity
@props P16
ensures forall|i: int, j: int| 0 <= i < N::n() && 0 <= j < N::n() ==> #[trigger] r.at(i, j) == if i == j { T::one_s() } else { T::zero_s() }
@closure 0
(usize, usize) | T
ensures cr == if c0.0 == c0.1 { T::one_s() } else { T::zero_s() }
@pre
proof { n_fits::<T, N>(); }
@fn Matrix<T,N,N>::transpose
@props P10
ensures forall|i: int, j: int| 0 <= i < N::n() && 0 <= j < N::n() ==> #[trigger] final(self).at(j, i) == old(self).at(i, j)
@fn Matrix<T,Row,Col>::rows_iter
@props P11
ensures r.inv(), r.items() == self.0@
@fn Matrix<T,Row,Col>::cols_iter
@props P11
ensures r.0 == &self.0, r.1 == 0, r.2 == Col::n()
@fn Matrix<T,Row,Col>::rows_iter_ref
@props P11
ensures r.inv(), r.mat == &self.0, r.front == 0, r.back == Row::n()
@fn Matrix<T,Row,Col>::cols_iter_ref
@props P11
ensures r.inv(), r.mat == &self.0, r.front == 0, r.back == Col::n()

# ===================================================================== matrix/iter.rs
@foreach I=RowsIter,ColsIter,RowsIterRef,ColsIterRef,ColsIterRefInner
@struct $I
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(Row)]
#[verifier::reject_recursive_types(Col)]
@fn Iterator for $I<T,Row,Col>::size_hint
@props P11
ensures r.0 == self.items().len(), r.1 == Some(r.0)
@fn Iterator for $I<T,Row,Col>::count || Iterator for $I<T,Row,Col>::last || ExactSizeIterator for $I<T,Row,Col>::len
@props P11
@fn Iterator for $I<T,Row,Col>::nth
@props P11
@pre
let ghost s0 = self.items();
@post
proof { if out is Some { assert(s0.subrange(n as int, s0.len() as int).subrange(1, s0.len() - n) =~= s0.subrange(n + 1, s0.len() as int)); } }
@endfor
@impl Iterator for RowsIter<T,Row,Col>
open spec fn inv(&self) -> bool { self.1 <= self.2 <= Row::n() }
open spec fn items(&self) -> Seq<Vector<T, Col>> { self.0@.subrange(self.1 as int, self.2 as int) }
@impl Iterator for ColsIter<T,Row,Col>
open spec fn inv(&self) -> bool { self.1 <= self.2 <= Col::n() }
open spec fn items(&self) -> Seq<Vector<T, Row>> { cols_of::<T, Row, Col>(self.0, self.1 as int, self.2 as int) }
@impl Iterator for RowsIterRef<T,Row,Col>
open spec fn inv(&self) -> bool { self.front <= self.back <= Row::n() }
open spec fn items(&self) -> Seq<&'a [T]> { Seq::new((self.back - self.front) as nat, |k: int| slice_of::<'a, T>(self.mat@[self.front + k]@)) }
@impl Iterator for ColsIterRef<T,Row,Col>
open spec fn inv(&self) -> bool { self.front <= self.back <= Col::n() }
open spec fn items(&self) -> Seq<ColsIterRefInner<'a, T, Row, Col>> { Seq::new((self.back - self.front) as nat, |k: int| ColsIterRefInner { mat: self.mat, col: (self.front + k) as usize, front: 0, back: Row::n() as usize }) }
@impl Iterator for ColsIterRefInner<T,Row,Col>
open spec fn inv(&self) -> bool { self.front <= self.back <= Row::n() && self.col < Col::n() }
open spec fn items(&self) -> Seq<&'a T> { Seq::new((self.back - self.front) as nat, |k: int| &self.mat@[self.front + k]@[self.col as int]) }
@tail
pub open spec fn col_seq<T, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>>(m: &Vector<Vector<T, Col>, Row>, j: int) -> Seq<T> {
    Seq::new(Row::n(), |i: int| m@[i]@[j])
}
pub open spec fn cols_of<T, Row: ArrayLen<Vector<T, Col>> + ArrayLen<T>, Col: ArrayLen<T>>(m: &Vector<Vector<T, Col>, Row>, a: int, b: int) -> Seq<Vector<T, Row>> {
    Seq::new((b - a) as nat, |k: int| vec_of::<T, Row>(col_seq::<T, Row, Col>(m, a + k)))
}
@end
@fn RowsIter<T,Row,Col>::new
@props P11
ensures r.0 == vec, r.1 == 0, r.2 == Row::n()
@fn ColsIter<T,Row,Col>::new
@props P11
ensures r.0 == vec, r.1 == 0, r.2 == Col::n()
@fn RowsIterRef<T,Row,Col>::new
@props P11
ensures r.mat == mat, r.front == 0, r.back == Row::n()
@fn ColsIterRef<T,Row,Col>::new
@props P11
ensures r.mat == mat, r.front == 0, r.back == Col::n()
@fn ColsIterRefInner<T,Row,Col>::new
@props P11
requires col < Col::n() || may_panic()
ensures col < Col::n(), r.inv(), r.mat == mat, r.col == col, r.front == 0, r.back == Row::n()
@foreach I=RowsIter,ColsIterRef,ColsIterRefInner
@fn Iterator for $I<T,Row,Col>::next
@props P11
@post
proof { assert(out is Some ==> self.items() =~= old(self).items().subrange(1, old(self).items().len() as int)); }
@fn DoubleEndedIterator for $I<T,Row,Col>::next_back
@props P11
@post
proof { assert(out is Some ==> self.items() =~= old(self).items().drop_last()); }
@endfor
@fn Iterator for ColsIter<T,Row,Col>::next
@props P11
@pre
let ghost j = self.1;
@closure 0
&Vector<T, Col> | T
requires s < Col::n()
ensures cr == c0@[s as int]
@post
proof {
  if out is Some {
    assert(self.items() =~= old(self).items().subrange(1, old(self).items().len() as int));
    vec_is(&out.unwrap(), col_seq::<T, Row, Col>(self.0, j as int));
  }
}
@fn DoubleEndedIterator for ColsIter<T,Row,Col>::next_back
@props P11
@closure 0
&Vector<T, Col> | T
requires 0 < s <= Col::n()
ensures cr == c0@[s - 1]
@post
proof {
  if out is Some {
    assert(self.items() =~= old(self).items().drop_last());
    vec_is(&out.unwrap(), col_seq::<T, Row, Col>(self.0, self.2 as int));
  }
}
@fn Iterator for RowsIterRef<T,Row,Col>::next
@props P11
@pre
let ghost k = self.front;
@post
proof {
  if out is Some {
    assert(self.items() =~= old(self).items().subrange(1, old(self).items().len() as int));
    slice_is(out.unwrap(), self.mat@[k as int]@);
  }
}
@fn DoubleEndedIterator for RowsIterRef<T,Row,Col>::next_back
@props P11
@post
proof {
  if out is Some {
    assert(self.items() =~= old(self).items().drop_last());
    slice_is(out.unwrap(), self.mat@[self.back as int]@);
  }
}

# ===================================================================== matrix/arith.rs
@foreach O=Add,Sub o=add,sub
@foreach K=,,&,& J=,&,,& L=T,T,&'a~T,&'b~T R=T,&'a~T,T,&'a~T G=,'a^,'a^,'a^'b^ V=,,&'a,&'b W=,&'a,,&'a A=,,&,& B=,&,,&
@fn $O<$JMatrix<T,Row,Col>> for $KMatrix<T,Row,Col>::$o
@props P13
@pre
proof { vec_len(&self.0); vec_len(&rhs.0);
  assert forall|i: int| 0 <= i < Row::n() implies $OSpec::$o_req($A#[trigger] self.0@[i], $Brhs.0@[i]) by {
    assert forall|j: int| 0 <= j < Col::n() implies ($A#[trigger] self.0@[i]@[j]).$o_req($Brhs.0@[i]@[j]) by { assert(($Aself.at(i, j)).$o_req($Brhs.at(i, j))); } } }
@post
proof { broadcast use {vec_len, vec_of_view};
  if <$L as $OSpec<$R>>::obeys_$o_spec() { mat_is(&out, |i: int, j: int| ($Aself.at(i, j)).$o_spec($Brhs.at(i, j))); } }
@tail
impl<$GT, Row, Col> $OSpecImpl<$W Matrix<T, Row, Col>> for $V Matrix<T, Row, Col> where $L: $O<$R>, Row: ArrayLen<Vector<T, Col>> + ArrayLen<Vector<<$L as $O<$R>>::Output, Col>>, Col: ArrayLen<T> + ArrayLen<<$L as $O<$R>>::Output> {
    open spec fn obeys_$o_spec() -> bool { <$L as $OSpec<$R>>::obeys_$o_spec() }
    open spec fn $o_req(self, rhs: $W Matrix<T, Row, Col>) -> bool { forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> ($A#[trigger] self.at(i, j)).$o_req($Brhs.at(i, j)) }
    open spec fn $o_spec(self, rhs: $W Matrix<T, Row, Col>) -> Matrix<<$L as $O<$R>>::Output, Row, Col> { mat_of(|i: int, j: int| ($Aself.at(i, j)).$o_spec($Brhs.at(i, j))) }
}
@end
@endfor
@endfor
@fn Neg for Matrix<T,Row,Col>::neg
@props P13
@closure 0
Vector<T, Col> | Vector<<T as Neg>::Output, Col>
requires NegSpec::neg_req(c0)
ensures <T as NegSpec>::obeys_neg_spec() ==> cr == NegSpec::neg_spec(c0)
@pre
proof { vec_len(&self.0);
  assert forall|i: int| 0 <= i < Row::n() implies NegSpec::neg_req(#[trigger] self.0@[i]) by {
    assert forall|j: int| 0 <= j < Col::n() implies (#[trigger] self.0@[i]@[j]).neg_req() by { assert((self.at(i, j)).neg_req()); } } }
@post
proof { broadcast use {vec_len, vec_of_view};
  if <T as NegSpec>::obeys_neg_spec() { mat_is(&out, |i: int, j: int| self.at(i, j).neg_spec()); } }
@tail
impl<T, Row, Col> NegSpecImpl for Matrix<T, Row, Col> where T: Neg, Row: ArrayLen<Vector<T, Col>> + ArrayLen<Vector<<T as Neg>::Output, Col>>, Col: ArrayLen<T> + ArrayLen<<T as Neg>::Output> {
    open spec fn obeys_neg_spec() -> bool { <T as NegSpec>::obeys_neg_spec() }
    open spec fn neg_req(self) -> bool { forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] self.at(i, j)).neg_req() }
    open spec fn neg_spec(self) -> Matrix<<T as Neg>::Output, Row, Col> { mat_of(|i: int, j: int| self.at(i, j).neg_spec()) }
}
@end
@foreach O=Mul,Div o=mul,div
@foreach R=T,&'a~T W=T,&T G=,'a^ Q=+~Clone,
@fn $O<$W> for Matrix<T,Row,Col>::$o
@props P13
@opcalls
@closure 0
Vector<T, Col> | Vector<T, Col>
requires $OSpec::$o_req(c0, rhs)
ensures <T as $OSpec<$R>>::obeys_$o_spec() ==> cr == $OSpec::$o_spec(c0, rhs)
@pre
proof { vec_len(&self.0);
  assert forall|i: int| 0 <= i < Row::n() implies $OSpec::$o_req(#[trigger] self.0@[i], rhs) by {
    assert forall|j: int| 0 <= j < Col::n() implies (#[trigger] self.0@[i]@[j]).$o_req(rhs) by { assert((self.at(i, j)).$o_req(rhs)); } } }
@post
proof { broadcast use {vec_len, vec_of_view};
  if <T as $OSpec<$R>>::obeys_$o_spec() { mat_is(&out, |i: int, j: int| self.at(i, j).$o_spec(rhs)); } }
@tail
impl<$GT, Row, Col> $OSpecImpl<$R> for Matrix<T, Row, Col> where T: $O<$R, Output = T> $Q, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T> {
    open spec fn obeys_$o_spec() -> bool { <T as $OSpec<$R>>::obeys_$o_spec() }
    open spec fn $o_req(self, rhs: $R) -> bool { forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] self.at(i, j)).$o_req(rhs) }
    open spec fn $o_spec(self, rhs: $R) -> Matrix<T, Row, Col> { mat_of(|i: int, j: int| self.at(i, j).$o_spec(rhs)) }
}
@end
@endfor
@endfor
@tail
pub open spec fn pairr<'a, T: Mul<&'a T, Output = T>>() -> spec_fn((T, &'a T)) -> T { |p: (T, &'a T)| p.0.mul_spec(p.1) }
/// the dot product where the right factors are taken by reference
pub open spec fn dot_r<'a, T: num::Zero + Add<T, Output = T> + Mul<&'a T, Output = T>>(a: Seq<T>, b: Seq<&'a T>) -> T
{ sum_s(zip_seq(a, b).map_values(pairr::<T>())) }
pub open spec fn ring_mulr<'a, T: Mul<&'a T, Output = T> + 'a>() -> bool { <T as MulSpec<&'a T>>::obeys_mul_spec() && forall|a: T, b: &'a T| #[trigger] a.mul_req(b) }
pub open spec fn row_times_s<T: num::Zero + Add<T, Output = T> + Mul<T, Output = T>, N: ArrayLen<Vector<T, RCol>> + ArrayLen<T>, RCol: ArrayLen<T>>(l: Seq<T>, r: &Matrix<T, N, RCol>, j: int) -> T
{ dot_s(l, col_seq::<T, N, RCol>(&r.0, j)) }
pub open spec fn row_times_r<'a, T: num::Zero + Add<T, Output = T> + Mul<&'a T, Output = T>, N: ArrayLen<Vector<T, RCol>> + ArrayLen<T>, RCol: ArrayLen<T>>(l: Seq<T>, r: &'a Matrix<T, N, RCol>, j: int) -> T
{ dot_r(l, refs(col_seq::<T, N, RCol>(&r.0, j))) }
pub proof fn row_times_s_is<T: num::Zero + Add<T, Output = T> + Mul<T, Output = T>, N: ArrayLen<Vector<T, RCol>> + ArrayLen<T>, RCol: ArrayLen<T>>(l: Seq<T>, it: Seq<&T>, r: &Matrix<T, N, RCol>, j: int)
    requires it.len() == N::n(), forall|i: int| 0 <= i < N::n() ==> *(#[trigger] it[i]) == r.at(i, j)
    ensures refs(l).map_values(|x: &T| *x) == l, it.map_values(|x: &T| *x) == col_seq::<T, N, RCol>(&r.0, j),
        zip_seq(l, col_seq::<T, N, RCol>(&r.0, j)).map_values(pairf::<T>()).fold_left(T::zero_s(), addf::<T>()) == row_times_s::<T, N, RCol>(l, r, j)
{
    assert(refs(l).map_values(|x: &T| *x) =~= l);
    assert(it.map_values(|x: &T| *x) =~= col_seq::<T, N, RCol>(&r.0, j));
}
pub proof fn row_times_r_is<'a, T: num::Zero + Add<T, Output = T> + Mul<&'a T, Output = T>, N: ArrayLen<Vector<T, RCol>> + ArrayLen<T>, RCol: ArrayLen<T>>(l: Seq<T>, it: Seq<&'a T>, r: &'a Matrix<T, N, RCol>, j: int)
    requires it.len() == N::n(), forall|i: int| 0 <= i < N::n() ==> *(#[trigger] it[i]) == r.at(i, j)
    ensures refs(l).map_values(|x: &T| *x) == l, it == refs(col_seq::<T, N, RCol>(&r.0, j)),
        zip_seq(l, refs(col_seq::<T, N, RCol>(&r.0, j))).map_values(pairr::<T>()).fold_left(T::zero_s(), addf::<T>()) == row_times_r::<T, N, RCol>(l, r, j)
{
    assert(refs(l).map_values(|x: &T| *x) =~= l);
    assert(it =~= refs(col_seq::<T, N, RCol>(&r.0, j)));
}
/// the product of two matrices, entry by entry
pub open spec fn prod_s<T: num::Zero + Add<T, Output = T> + Mul<T, Output = T>, N, LRow, RCol>(l: &Matrix<T, LRow, N>, r: &Matrix<T, N, RCol>) -> Matrix<T, LRow, RCol>
    where N: ArrayLen<Vector<T, RCol>> + ArrayLen<T>, RCol: ArrayLen<T>, LRow: ArrayLen<Vector<T, RCol>> + ArrayLen<Vector<T, N>>
{ mat_of(|i: int, j: int| row_times_s::<T, N, RCol>(l.0@[i]@, r, j)) }
pub open spec fn prod_r<'a, T: num::Zero + Add<T, Output = T> + Mul<&'a T, Output = T>, N, LRow, RCol>(l: &Matrix<T, LRow, N>, r: &'a Matrix<T, N, RCol>) -> Matrix<T, LRow, RCol>
    where N: ArrayLen<Vector<T, RCol>> + ArrayLen<T>, RCol: ArrayLen<T>, LRow: ArrayLen<Vector<T, RCol>> + ArrayLen<Vector<T, N>>
{ mat_of(|i: int, j: int| row_times_r::<T, N, RCol>(l.0@[i]@, r, j)) }
@end
@foreach F=Mul<Matrix<T;N;RCol>>~for~Matrix<T;LRow;N>::mul~||~Mul<Matrix<T;N;RCol>>~for~&Matrix<T;LRow;N>::mul,MulAssign<Matrix<T;N;N>>~for~Matrix<T;N;N>::mul_assign,Mul<&Matrix<T;N;RCol>>~for~Matrix<T;LRow;N>::mul~||~Mul<&Matrix<T;N;RCol>>~for~&Matrix<T;LRow;N>::mul V=RCol,N,RCol L=LRow,N,LRow R=&rhs,&rhs,rhs P=T,T,&T D=dot_s,dot_s,dot_r G=prod_s,prod_s,prod_r E=s,s,r O=out,*self,out S=self,s0,self X=r,s,r
@fn $F
@opcalls
@props P14
@closure 0
&[T] | Vector<T, $V>
requires c0@.len() == N::n()
ensures forall|j: int| 0 <= j < <$V as Unsigned>::n() ==> #[trigger] cr@[j] == row_times_$E::<T, N, $V>(c0@, $R, j)
@closurepre 0
broadcast use {vec_len, vec_of_view, slice_of_view};
@closure 1
ColsIterRefInner<T, N, $V> | T
requires c0.inv(), c0.mat == &rhs.0, c0.front == 0, c0.back == N::n()
ensures cr == row_times_$E::<T, N, $V>(lrow@, $R, c0.col as int)
@closurepre 1
broadcast use {vec_len, vec_of_view, slice_of_view};
@closurepost 1
proof { row_times_$E_is::<T, N, $V>(lrow@, c0.items(), $R, c0.col as int); }
@closure 2
(T, $P) | T
requires c0.0.mul_req(c0.1)
ensures cr == c0.0.mul_spec(c0.1)
@pre
broadcast use {slice_of_view};
proof { n_fits::<T, N>(); n_fits::<T, $V>(); n_fits::<Vector<T, N>, $L>(); }
let ghost s0 = self;
@post
proof { mat_is(&$O, |i: int, j: int| row_times_$E::<T, N, $V>($S.0@[i]@, $R, j)); }
@endfor
@tail
@foreach L=,&'a~ G=,'a^
impl<$GT, N, LRow, RCol> MulSpecImpl<Matrix<T, N, RCol>> for $LMatrix<T, LRow, N>
    where T: Clone + num::Zero + Add<T, Output = T> + Mul<T, Output = T>, N: ArrayLen<Vector<T, RCol>> + ArrayLen<T>, RCol: ArrayLen<T>, LRow: ArrayLen<Vector<T, RCol>> + ArrayLen<Vector<T, N>> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Matrix<T, N, RCol>) -> bool { ring_add::<T>() && ring_mul::<T>() }
    open spec fn mul_spec(self, rhs: Matrix<T, N, RCol>) -> Matrix<T, LRow, RCol> { mat_of(|i: int, j: int| row_times_s::<T, N, RCol>(self.0@[i]@, &rhs, j)) }
}
@endfor
@foreach L=,&'b~ G=,'b^
impl<'a, $GT, N, LRow, RCol> MulSpecImpl<&'a Matrix<T, N, RCol>> for $LMatrix<T, LRow, N>
    where T: Clone + num::Zero + Add<T, Output = T> + Mul<&'a T, Output = T>, N: ArrayLen<Vector<T, RCol>> + ArrayLen<T>, RCol: ArrayLen<T>, LRow: ArrayLen<Vector<T, RCol>> + ArrayLen<Vector<T, N>> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'a Matrix<T, N, RCol>) -> bool { ring_add::<T>() && ring_mulr::<T>() }
    open spec fn mul_spec(self, rhs: &'a Matrix<T, N, RCol>) -> Matrix<T, LRow, RCol> { mat_of(|i: int, j: int| row_times_r::<T, N, RCol>(self.0@[i]@, rhs, j)) }
}
@endfor
impl<T, N> MulAssignSpecImpl<Matrix<T, N, N>> for Matrix<T, N, N>
    where T: Clone + num::Zero + Add<T, Output = T> + Mul<T, Output = T>, N: ArrayLen<Vector<T, N>> + ArrayLen<T> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: Matrix<T, N, N>) -> bool { ring_add::<T>() && ring_mul::<T>() }
    open spec fn mul_assign_spec(&self, rhs: Matrix<T, N, N>) -> &Matrix<T, N, N> { &mat_of(|i: int, j: int| row_times_s::<T, N, N>(self.0@[i]@, &rhs, j)) }
}
@end

@foreach O=Add,Sub o=add,sub
@fn $OAssign<Matrix<U,Row,Col>> for Matrix<T,Row,Col>::$o_assign
@props P13
@pre
let ghost s0 = *self; let ghost r0 = rhs;
@loop 0
all0.len() == Row::n(),
forall|i: int| 0 <= i < Row::n() ==> (#[trigger] all0[i]).1 == r0.0@[i] && *all0[i].0 == s0.0@[i],
forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] s0.at(i, j)).$o_assign_req(r0.at(i, j)),
forall|i: int, j: int| #![trigger all0[i], s0.at(i, j)] 0 <= i < n0 && 0 <= j < Col::n() && <T as $OAssignSpec<U>>::obeys_$o_assign_spec() ==> final(all0[i].0)@[j] == *s0.at(i, j).$o_assign_spec(r0.at(i, j)),
@loopstart 0
broadcast use {vec_len};
@loop 1
all1.len() == Col::n(), 0 < n0 <= Row::n(), 
forall|j: int| 0 <= j < Col::n() ==> (#[trigger] all1[j]).1 == r0.0@[n0 - 1]@[j] && *all1[j].0 == s0.0@[n0 - 1]@[j],
forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] s0.at(i, j)).$o_assign_req(r0.at(i, j)),
forall|j: int| #![trigger all1[j]] #![trigger s0.at(n0 - 1, j)] 0 <= j < n1 && <T as $OAssignSpec<U>>::obeys_$o_assign_spec() ==> *final(all1[j].0) == *s0.at(n0 - 1, j).$o_assign_spec(r0.at(n0 - 1, j)),
@loopstart 1
proof { assert(s0.at(n0 - 1, n1 - 1).$o_assign_req(r0.at(n0 - 1, n1 - 1))); }
@after 1
proof { if <T as $OAssignSpec<U>>::obeys_$o_assign_spec() { assert forall|j: int| 0 <= j < Col::n() implies #[trigger] lrow@[j] == *s0.at(n0 - 1, j).$o_assign_spec(r0.at(n0 - 1, j)) by { assert(lrow@[j] == *final(all1[j].0)); } } }
@after 0
proof { if <T as $OAssignSpec<U>>::obeys_$o_assign_spec() { assert forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() implies #[trigger] self.at(i, j) == *s0.at(i, j).$o_assign_spec(r0.at(i, j)) by { assert(self.0@[i] == *final(all0[i].0)); } } }
@post
proof { if <T as $OAssignSpec<U>>::obeys_$o_assign_spec() { mat_is(self, |i: int, j: int| *s0.at(i, j).$o_assign_spec(r0.at(i, j))); } }
@tail
impl<T, U, Row, Col> $OAssignSpecImpl<Matrix<U, Row, Col>> for Matrix<T, Row, Col> where T: $OAssign<U>, Row: ArrayLen<Vector<T, Col>> + ArrayLen<Vector<U, Col>>, Col: ArrayLen<T> + ArrayLen<U> {
    open spec fn obeys_$o_assign_spec() -> bool { <T as $OAssignSpec<U>>::obeys_$o_assign_spec() }
    open spec fn $o_assign_req(&self, rhs: Matrix<U, Row, Col>) -> bool { forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] self.at(i, j)).$o_assign_req(rhs.at(i, j)) }
    open spec fn $o_assign_spec(&self, rhs: Matrix<U, Row, Col>) -> &Matrix<T, Row, Col> { &mat_of(|i: int, j: int| *self.at(i, j).$o_assign_spec(rhs.at(i, j))) }
}
@end
@endfor
@foreach O=Mul,Div o=mul,div
@fn $OAssign<T> for Matrix<T,Row,Col>::$o_assign
@props P13
@pre
let ghost s0 = *self;
@loop 0
all0.len() == Row::n(),
forall|i: int| 0 <= i < Row::n() ==> *(#[trigger] all0[i]) == s0.0@[i],
forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] s0.at(i, j)).$o_assign_req(rhs),
forall|i: int, j: int| #![trigger all0[i], s0.at(i, j)] 0 <= i < n0 && 0 <= j < Col::n() && <T as $OAssignSpec<T>>::obeys_$o_assign_spec() ==> final(all0[i])@[j] == *s0.at(i, j).$o_assign_spec(rhs),
@loopstart 0
broadcast use {vec_len};
@loop 1
all1.len() == Col::n(), 0 < n0 <= Row::n(), 
forall|j: int| 0 <= j < Col::n() ==> *(#[trigger] all1[j]) == s0.0@[n0 - 1]@[j],
forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] s0.at(i, j)).$o_assign_req(rhs),
forall|j: int| #![trigger all1[j]] #![trigger s0.at(n0 - 1, j)] 0 <= j < n1 && <T as $OAssignSpec<T>>::obeys_$o_assign_spec() ==> *final(all1[j]) == *s0.at(n0 - 1, j).$o_assign_spec(rhs),
@loopstart 1
proof { assert(s0.at(n0 - 1, n1 - 1).$o_assign_req(rhs)); }
@post
proof { if <T as $OAssignSpec<T>>::obeys_$o_assign_spec() { mat_is(self, |i: int, j: int| *s0.at(i, j).$o_assign_spec(rhs)); } }
@tail
impl<T, Row, Col> $OAssignSpecImpl<T> for Matrix<T, Row, Col> where T: $OAssign + Clone, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T> {
    open spec fn obeys_$o_assign_spec() -> bool { <T as $OAssignSpec<T>>::obeys_$o_assign_spec() }
    open spec fn $o_assign_req(&self, rhs: T) -> bool { forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] self.at(i, j)).$o_assign_req(rhs) }
    open spec fn $o_assign_spec(&self, rhs: T) -> &Matrix<T, Row, Col> { &mat_of(|i: int, j: int| *self.at(i, j).$o_assign_spec(rhs)) }
}
@end
@endfor
# --- matrix * vector
@fn Mul<Vector<T,Col>> for Matrix<T,Row,Col>::mul
@props P14
@pre
broadcast use {slice_of_view};
let ghost s0 = self;
@closure 0
&[T] | T
ensures cr == dot_s(c0@, rhs@)
@closurepre 0
broadcast use {vec_len, vec_of_view, slice_of_view};
@closurepost 0
proof { dot_rl_is(c0@, rhs@); }
@closure 1
(&T, T) | T
requires (*c0.0).mul_req(c0.1)
ensures cr == (*c0.0).mul_spec(c0.1)
@post
proof { vec_is(&out, Seq::new(<Row as Unsigned>::n(), |i: int| dot_s(s0.0@[i]@, rhs@))); }
@fn Mul<&Vector<T,Col>> for Matrix<T,Row,Col>::mul
@opcalls
@props P14
@pre
let ghost s0 = self;
@closure 0
Vector<T, Col> | T
ensures cr == dot_r(c0@, refs(rhs@))
@closurepre 0
broadcast use {vec_len, vec_of_view};
@closurepost 0
proof { assert(zip_seq(c0@, refs(rhs@)).map_values(pairr::<T>()).fold_left(T::zero_s(), addf::<T>()) == cout); }
@closure 1
(T, &T) | T
requires c0.0.mul_req(c0.1)
ensures cr == c0.0.mul_spec(c0.1)
@post
proof { vec_is(&out, Seq::new(<Row as Unsigned>::n(), |i: int| dot_r(s0.0@[i]@, refs(rhs@)))); }
@tail
pub open spec fn pairl<'a, T: Mul<T, Output = T>>() -> spec_fn((&'a T, T)) -> T { |p: (&'a T, T)| (*p.0).mul_spec(p.1) }
pub proof fn dot_rl_is<T: num::Zero + Add<T, Output = T> + Mul<T, Output = T>>(a: Seq<T>, b: Seq<T>)
    ensures refs(b).map_values(|x: &T| *x) == b,
        zip_seq(refs(a), b).map_values(pairl::<T>()).fold_left(T::zero_s(), addf::<T>()) == dot_s(a, b)
{
    assert(refs(b).map_values(|x: &T| *x) =~= b);
    assert(zip_seq(refs(a), b).map_values(pairl::<T>()) =~= zip_seq(a, b).map_values(pairf::<T>()));
}
impl<T, Row, Col> MulSpecImpl<Vector<T, Col>> for Matrix<T, Row, Col> where T: Clone + Mul<T, Output = T> + Add<T, Output = T> + num::Zero, Row: ArrayLen<Vector<T, Col>> + ArrayLen<T>, Col: ArrayLen<T> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Vector<T, Col>) -> bool { ring_add::<T>() && ring_mul::<T>() }
    open spec fn mul_spec(self, rhs: Vector<T, Col>) -> Vector<T, Row> { vec_of(Seq::new(<Row as Unsigned>::n(), |i: int| dot_s(self.0@[i]@, rhs@))) }
}
impl<'a, T, Row, Col> MulSpecImpl<&'a Vector<T, Col>> for Matrix<T, Row, Col> where T: Mul<&'a T, Output = T> + Add<T, Output = T> + num::Zero, Row: ArrayLen<Vector<T, Col>> + ArrayLen<T>, Col: ArrayLen<T> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'a Vector<T, Col>) -> bool { ring_add::<T>() && ring_mulr::<T>() }
    open spec fn mul_spec(self, rhs: &'a Vector<T, Col>) -> Vector<T, Row> { vec_of(Seq::new(<Row as Unsigned>::n(), |i: int| dot_r(self.0@[i]@, refs(rhs@)))) }
}
@end

# ===================================================================== matrix/mod.rs: maps, traits
@foreach F=all,any A=true,false B=false,true C=r,!r D=!r,r E=out,!out I=!out,out X=cr,!cr Y=!cr,cr
@fn Matrix<T,Row,Col>::$F
@props P09
requires forall|i: usize, j: usize, x: &T| i < Row::n() && j < Col::n() ==> #[trigger] call_requires(pred, ((i, j), x))
ensures $C ==> forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> call_ensures(pred, ((i as usize, j as usize), &#[trigger] self.at(i, j)), $A),
    $D ==> exists|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() && call_ensures(pred, ((i as usize, j as usize), &#[trigger] self.at(i, j)), $B)
@closure 0
(usize, &Vector<T, Col>) | bool
requires c0.0 < Row::n()
ensures $X ==> row_all(pred, c0.0, c0.1@, $A), $Y ==> row_some(pred, c0.0, c0.1@, $B)
@closurepre 0
broadcast use {vec_len};
proof { n_fits::<T, Col>(); }
@closurepost 0
proof { let e = enum_seq(refs(c0.1@)); assert forall|j: int| 0 <= j < Col::n() implies #[trigger] c0.1@[j] == *e[j].1 by {}
  assert(forall|j: int, b: bool| #[trigger] call_ensures(pred, ((c0.0, j as usize), &c0.1@[j]), b) == row_ens(pred, c0.0, c0.1@, j, b));
  if cout == $A { assert forall|j: int| 0 <= j < Col::n() implies #[trigger] row_ens(pred, c0.0, c0.1@, j, $A) by { assert(e[j] == (j as usize, &c0.1@[j])); } }
  else { let j = choose|j: int| 0 <= j < e.len() && call_ensures(pred, ((c0.0, (#[trigger] e[j]).0), e[j].1), $B); assert(row_ens(pred, c0.0, c0.1@, j, $B)); } }
@closure 1
(usize, &T) | bool
requires c0.0 < Col::n()
ensures call_ensures(pred, ((i, c0.0), c0.1), cr)
@pre
proof { n_fits::<Vector<T, Col>, Row>(); }
@post
proof { let e = enum_seq(refs(self.0@));
  if $E { assert forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() implies call_ensures(pred, ((i as usize, j as usize), &#[trigger] self.at(i, j)), $A) by { assert(row_all(pred, e[i].0, e[i].1@, $A)); assert(row_ens(pred, e[i].0, e[i].1@, j, $A)); } }
  else { let i = choose|i: int| 0 <= i < e.len() && row_some(pred, (#[trigger] e[i]).0, e[i].1@, $B);
     let j = choose|j: int| 0 <= j < e[i].1@.len() && #[trigger] row_ens(pred, e[i].0, e[i].1@, j, $B);
     assert(self.at(i, j) == e[i].1@[j]); } }
@endfor
@tail
pub open spec fn row_ens<T, F: Fn(MatrixIdx, &T) -> bool>(f: F, i: usize, s: Seq<T>, j: int, b: bool) -> bool { call_ensures(f, ((i, j as usize), &s[j]), b) }
pub open spec fn row_all<T, F: Fn(MatrixIdx, &T) -> bool>(f: F, i: usize, s: Seq<T>, b: bool) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] row_ens(f, i, s, j, b) }
pub open spec fn row_some<T, F: Fn(MatrixIdx, &T) -> bool>(f: F, i: usize, s: Seq<T>, b: bool) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] row_ens(f, i, s, j, b) }
@end
@fn Matrix<T,Row,Col>::map
@props P09
requires forall|i: usize, j: usize, x: T| i < Row::n() && j < Col::n() ==> #[trigger] call_requires(f, ((i, j), x))
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> call_ensures(f, ((i as usize, j as usize), self.at(i, j)), #[trigger] r.at(i, j))
@pre
let ghost s0 = self;
proof { n_fits::<Vector<T, Col>, Row>(); }
@closure 0
(usize, Vector<T, Col>) | Vector<U, Col>
requires c0.0 < Row::n()
ensures forall|j: int| 0 <= j < Col::n() ==> call_ensures(f, ((c0.0, j as usize), c0.1@[j]), #[trigger] cr@[j])
@closurepre 0
broadcast use {vec_len};
proof { n_fits::<T, Col>(); }
@closure 1
(usize, T) | U
requires c0.0 < Col::n()
ensures call_ensures(f, ((i, c0.0), c0.1), cr)
@foreach F=all,any A=true,false C=r,!r W=res0,!res0 N=res1,!res1
@fn Matrix<T,Row,Col>::$F#calls
@props P09
ensures exists|s: Seq<Seq<F>>| rows_from(s, CB) && s.len() <= Row::n() && (if $C { s.len() == Row::n() } else { s.len() > 0 })
    && forall|i: int| 0 <= i < s.len() ==> row_visited(#[trigger] s[i], i, self.0@[i]@, $A, $C || i < s.len() - 1)
@pre
let ghost hf0 = CB; let ghost mut hs: Seq<Seq<F>> = seq![]; let ghost hrows = self.0@;
proof { rows_none(hf0); n_fits::<T, Col>(); n_fits::<Vector<T, Col>, Row>(); }
@loop 0
rows_from(hs, hf0), CB == (if hs.len() == 0 { hf0 } else { hs.last().last() }), hrows == self.0@, hrows.len() == Row::n(), hs.len() == n0,
all0 == enum_seq(refs(hrows)), Row::n() <= usize::MAX, Col::n() <= usize::MAX, $W || n0 > 0,
forall|i: int| 0 <= i < n0 ==> row_visited(#[trigger] hs[i], i, hrows[i]@, $A, $W || i < n0 - 1)
EXCEPT $W,
ensures $W ==> hs.len() == Row::n()
@loopstart 0
broadcast use {vec_len, vec_of_view};
let ghost mut hrow: Seq<F> = seq![CB]; let ghost hg0 = CB;
@loop 1
hrow.len() == n1 + 1, hrow[0] == hg0, hrow.last() == CB, all1 == enum_seq(refs(hrows[n0 - 1]@)), 1 <= n0 <= Row::n(), P0_0 == n0 - 1, hrows.len() == Row::n(), hrows[n0 - 1]@.len() == Col::n(),
Row::n() <= usize::MAX, Col::n() <= usize::MAX, $N || n1 > 0,
forall|j: int| 0 <= j < n1 ==> (#[trigger] hrow[j]).step((((n0 - 1) as usize, j as usize), &hrows[n0 - 1]@[j]), if $N || j < n1 - 1 { $A } else { !$A }, hrow[j + 1])
EXCEPT $N,
ensures $N ==> n1 == Col::n()
@loopend 1
proof { hrow = hrow.push(CB); }
@loopend 0
proof { assert(row_visited(hrow, n0 - 1, hrows[n0 - 1]@, $A, item0 == $A)); rows_add(hs, hf0, hrow); hs = hs.push(hrow); }
@endfor
@tail
/// the states h of one row of predicate calls on a, in order; every answer is `go`, except the last one when not `done`
pub open spec fn row_visited<T, F: for<'cb> Calls<(MatrixIdx, &'cb T), Out = bool>>(h: Seq<F>, i: int, a: Seq<T>, go: bool, done: bool) -> bool {
    (if done { h.len() == a.len() + 1 } else { 2 <= h.len() <= a.len() + 1 })
    && forall|j: int| 0 <= j < h.len() - 1 ==> (#[trigger] h[j]).step(((i as usize, j as usize), &a[j]), if done || j < h.len() - 2 { go } else { !go }, h[j + 1])
}
@end
@fn Matrix<T,Row,Col>::map#calls
@props P09
ensures exists|s: Seq<Seq<F>>| s.len() == Row::n() && rows_from(s, CB) && forall|i: int| #![trigger s[i]] 0 <= i < Row::n() ==> s[i].len() == Col::n() + 1
    && forall|j: int| 0 <= j < Col::n() ==> (#[trigger] s[i][j]).step(((i as usize, j as usize), self.at(i, j)), r.at(i, j), s[i][j + 1])
@item 0 Vector<U, Col>
@pre
let ghost hf0 = CB; let ghost mut hs: Seq<Seq<F>> = seq![]; let ghost mut hgot: Seq<Vector<U, Col>> = Seq::empty(); let ghost hrows = self.0@;
proof { rows_none(hf0); n_fits::<T, Col>(); n_fits::<Vector<T, Col>, Row>(); }
@loop 0
hs.len() == n0, rows_from(hs, hf0), CB == (if n0 == 0 { hf0 } else { hs[n0 - 1].last() }), col0.items().len() == n0, hrows.len() == Row::n(),
all0 == enum_seq(hrows), Row::n() <= usize::MAX, Col::n() <= usize::MAX,
forall|i: int| #![trigger hs[i]] 0 <= i < n0 ==> row_mapped(hs[i], i, hrows[i]@, col0.items()[i]@)
ensures n0 == all0.len()
@loopstart 0
broadcast use {vec_len, vec_of_view};
let ghost mut hrow: Seq<F> = seq![CB]; let ghost mut hitems: Seq<U> = Seq::empty(); let ghost hg0 = CB;
@loop 1
hrow.len() == n1 + 1, hrow[0] == hg0, hrow[n1] == CB, col1.items().len() == n1, all1 == enum_seq(hrows[n0 - 1]@), 1 <= n0 <= Row::n(), P0_0 == n0 - 1, hrows.len() == Row::n(), hrows[n0 - 1]@.len() == Col::n(),
Row::n() <= usize::MAX, Col::n() <= usize::MAX,
forall|j: int| 0 <= j < n1 ==> (#[trigger] hrow[j]).step((((n0 - 1) as usize, j as usize), hrows[n0 - 1]@[j]), col1.items()[j], hrow[j + 1])
ensures n1 == all1.len()
@loopend 1
proof { hrow = hrow.push(CB); }
@after 1
proof { hitems = col1.items(); }
@loopend 0
proof { assert(item0@ =~= hitems); assert(row_mapped(hrow, n0 - 1, hrows[n0 - 1]@, item0@)); rows_add(hs, hf0, hrow); hs = hs.push(hrow); }
@after 0
proof { hgot = col0.items(); }
@post
proof { assert(out.0@ =~= hgot);
  assert forall|i: int| #![trigger hs[i]] 0 <= i < Row::n() implies hs[i].len() == Col::n() + 1 && forall|j: int| 0 <= j < Col::n() ==> (#[trigger] hs[i][j]).step(((i as usize, j as usize), hrows[i]@[j]), out.at(i, j), hs[i][j + 1]) by { assert(row_mapped(hs[i], i, hrows[i]@, out.0@[i]@)); } }
@tail
pub open spec fn row_mapped<T, U, F: Calls<(MatrixIdx, T), Out = U>>(h: Seq<F>, i: int, a: Seq<T>, b: Seq<U>) -> bool {
    h.len() == a.len() + 1 && forall|j: int| 0 <= j < a.len() ==> (#[trigger] h[j]).step(((i as usize, j as usize), a[j]), b[j], h[j + 1])
}
@end
@fn From<Vector<T,Prod<Row,Col>>> for Matrix<T,Row,Col>::from
@props P07
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> #[trigger] r.at(i, j) == v@[i * Col::n() + j]
@pre
proof { mod_zero::<Prod<Row, Col>, Col>(); prod_is::<Row, Col>(); }
let ghost s = v@;
proof { let (a, b) = (Row::n() as int, Col::n() as int); assert((a * b) / b == a) by (nonlinear_arith) requires b > 0; }
@post
proof {
  assert forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() implies #[trigger] out.at(i, j) == s[i * Col::n() + j] by {
    let (a, b) = (Row::n() as int, Col::n() as int);
    assert(0 <= i * b && i * b + b <= a * b) by (nonlinear_arith) requires 0 <= i < a, b > 0;
    assert(out.0@[i]@ == s.subrange(i * b, i * b + b));
  }
  mat_is(&out, |i: int, j: int| s[i * Col::n() + j]);
}
@tail
impl<T, Row, Col> vstd::std_specs::convert::FromSpecImpl<Vector<T, Prod<Row, Col>>> for Matrix<T, Row, Col> where Row: ArrayLen<Vector<T, Col>> + Mul<Col>, Col: ArrayLen<T>, Prod<Row, Col>: ArrayLen<T> + Rem<Col>, Mod<Prod<Row, Col>, Col>: Same<U0> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vector<T, Prod<Row, Col>>) -> Self { mat_of(|i: int, j: int| v@[i * Col::n() + j]) }
}
@end
@fn Default for Matrix<T,Row,Col>::default
@props P16
@post
proof { mat_is(&out, |i: int, j: int| T::default_s()); }
@impl Default for Matrix<T,Row,Col>
open spec fn default_s() -> Self { mat_of(|i: int, j: int| T::default_s()) }
@fn Clone for Matrix<T,Row,Col>::clone
@props P21
@fn PartialEq for Matrix<T,Row,Col>::eq
@props P21
@post
proof { if <T as PartialEqSpec<T>>::obeys_eq_spec() {
  assert(out == forall|i: int| 0 <= i < Row::n() ==> PartialEqSpec::eq_spec(#[trigger] &self.0@[i], &rhs.0@[i]));
  if out { assert forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() implies (#[trigger] self.at(i, j)).eq_spec(&rhs.at(i, j)) by { assert(PartialEqSpec::eq_spec(&self.0@[i], &rhs.0@[i])); } }
  else { let i = choose|i: int| 0 <= i < Row::n() && !PartialEqSpec::eq_spec(#[trigger] &self.0@[i], &rhs.0@[i]);
    let j = choose|j: int| 0 <= j < Col::n() && !(#[trigger] self.0@[i]@[j]).eq_spec(&rhs.0@[i]@[j]); assert(!self.at(i, j).eq_spec(&rhs.at(i, j))); } } }
@tail
impl<T, Row, Col> PartialEqSpecImpl<Matrix<T, Row, Col>> for Matrix<T, Row, Col> where T: PartialEq, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T> {
    open spec fn obeys_eq_spec() -> bool { <T as PartialEqSpec<T>>::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Matrix<T, Row, Col>) -> bool { forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] self.at(i, j)).eq_spec(&other.at(i, j)) }
}
@end
# --- indexing
@fn Index<MatrixIdx> for Matrix<T,Row,Col>::index
@props P08
@slicepanics
ensures p1.0 < Row::n(), p1.1 < Col::n(), *r == self.at(p1.0 as int, p1.1 as int)
@fn IndexMut<MatrixIdx> for Matrix<T,Row,Col>::index_mut
@props P08
@slicepanics
ensures p1.0 < Row::n(), p1.1 < Col::n(), *r == old(self).at(p1.0 as int, p1.1 as int), final(self).at(p1.0 as int, p1.1 as int) == *final(r),
    forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() && (i != p1.0 || j != p1.1) ==> #[trigger] final(self).at(i, j) == old(self).at(i, j)
@tail
impl<T, Row, Col> IndexSpecImpl<MatrixIdx> for Matrix<T, Row, Col> where Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T> {
    open spec fn index_req(&self, idx: &MatrixIdx) -> bool { (idx.0 < Row::n() && idx.1 < Col::n()) || may_panic() }
}
@end
@foreach K=(UInt<UIRow;BIRow>;UInt<UICol;BICol>),(U0;U0),(UInt<UIRow;BIRow>;U0),(U0;UInt<UICol;BICol>) I=(2*UIRow::n()+BIRow::b())~as~int,0,(2*UIRow::n()+BIRow::b())~as~int,0 J=(2*UICol::n()+BICol::b())~as~int,0,0,(2*UICol::n()+BICol::b())~as~int R=UInt<UIRow;BIRow>,U0,UInt<UIRow;BIRow>,U0 C=UInt<UICol;BICol>,U0,U0,UInt<UICol;BICol> G=UIRow;~BIRow;~UICol;~BICol,,UIRow;~BIRow,UICol;~BICol W=UIRow:~Unsigned;UICol:~Unsigned;BIRow:~Bit;BICol:~Bit;,,UIRow:~Unsigned;BIRow:~Bit;,UICol:~Unsigned;BICol:~Bit;
@fn Index<$K> for Matrix<T,Row,Col>::index
@props P08
ensures *r == self.at($I, $J)
@pre
proof { cmp_less::<$R, Row>(); cmp_less::<$C, Col>(); }
@fn IndexMut<$K> for Matrix<T,Row,Col>::index_mut
@props P08
ensures *r == old(self).at($I, $J), final(self).at($I, $J) == *final(r),
    forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() && (i != $I || j != $J) ==> #[trigger] final(self).at(i, j) == old(self).at(i, j)
@pre
proof { cmp_less::<$R, Row>(); cmp_less::<$C, Col>(); }
@tail
impl<T, Row, Col, $G> IndexSpecImpl<$K> for Matrix<T, Row, Col> where Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>, $W
    $R: Unsigned + Cmp<Row>, $C: Unsigned + Cmp<Col>, Compare<$R, Row>: Same<Less>, Compare<$C, Col>: Same<Less> {
    open spec fn index_req(&self, idx: &$K) -> bool { true }
}
@end
@endfor
@impl num::Zero for Matrix<T,Row,Col>
open spec fn zero_s() -> Self { mat_of(|i: int, j: int| T::zero_s()) }
open spec fn is_zero_s(&self) -> bool { forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] self.at(i, j)).is_zero_s() }
@fn num::Zero for Matrix<T,Row,Col>::zero
@props P16
@closure 0
MatrixIdx | T
ensures cr == T::zero_s()
@post
proof { mat_is(&out, |i: int, j: int| T::zero_s()); }
@fn num::Zero for Matrix<T,Row,Col>::is_zero
@props P16
@closure 0
&Vector<T, Col> | bool
ensures cr == seq_zero(c0@)
@closurepre 0
broadcast use {vec_len};
@closurepost 0
proof { let s = refs(c0@); if cout { assert forall|i: int| 0 <= i < Col::n() implies (#[trigger] c0@[i]).is_zero_s() by { assert(s[i] == &c0@[i]); } } }
@closure 1
&T | bool
ensures cr == c0.is_zero_s()
@post
proof { let s = refs(self.0@);
  if out { assert forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() implies (#[trigger] self.at(i, j)).is_zero_s() by { assert(seq_zero(s[i]@)); assert(s[i]@[j] == self.at(i, j)); } }
  else { let i = choose|i: int| 0 <= i < Row::n() && !seq_zero((#[trigger] s[i])@);
     let j = choose|j: int| 0 <= j < Col::n() && !(#[trigger] s[i]@[j]).is_zero_s(); assert(!self.at(i, j).is_zero_s()); } }
@impl num::Bounded for Matrix<T,Row,Col>
open spec fn min_s() -> Self { mat_of(|i: int, j: int| T::min_s()) }
open spec fn max_s() -> Self { mat_of(|i: int, j: int| T::max_s()) }
@foreach M=min,max
@fn num::Bounded for Matrix<T,Row,Col>::$M_value
@props P16
@closure 0
MatrixIdx | T
ensures cr == T::$M_s()
@post
proof { mat_is(&out, |i: int, j: int| T::$M_s()); }
@endfor
@impl num::One for Matrix<T,N,N>
open spec fn one_s() -> Self { mat_of(|i: int, j: int| if i == j { T::one_s() } else { T::zero_s() }) }
@fn num::One for Matrix<T,N,N>::one
@props P16
@post
proof { mat_is(&out, |i: int, j: int| if i == j { T::one_s() } else { T::zero_s() }); }
@fn Matrix<T,N,N>::pow
@props P16
requires ring_add::<T>(), ring_mul::<T>()
ensures assoc_mul::<Matrix<T, N, N>>() ==> r == pow_s(*self, exp as nat)
@fn Matrix<Complex<T>,Row,Col>::conjugate
@props P13
requires ring_neg::<T>()
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] r.at(i, j)).re == self.at(i, j).re && r.at(i, j).im == self.at(i, j).im.neg_spec()
@closure 0
MatrixIdx, Complex<T> | Complex<T>
ensures cr.re == c1.re, cr.im == c1.im.neg_spec()
@fn Matrix<T,Row,Col>::sum
@props P19
requires ring_add::<T>()
ensures r == sum_s(Seq::new(Row::n(), |i: int| sum_s(self.0@[i]@)))
@post
proof {
  let g = |v: &Vector<T, Col>| sum_s(v@);
  let m = refs(self.0@).map_values(g);
  assert(m =~= Seq::new(Row::n(), |i: int| sum_s(self.0@[i]@)));
  assert(m.fold_left(T::zero_s(), addf::<T>()) == out);
}
@foreach M=max,min L=self.at(i;j).ord_le(&r),r.ord_le(&self.at(i;j)) K=self.at(i;j).ord_le(&out),out.ord_le(&self.at(i;j))
@fn Matrix<T,UInt<U,B>,UInt<U,B>>::$M
@props P19
ensures exists|i: int, j: int| 0 <= i < UInt::<U, B>::n() && 0 <= j < UInt::<U, B>::n() && r == #[trigger] self.at(i, j),
    forall|i: int, j: int| #![trigger self.at(i, j)] 0 <= i < UInt::<U, B>::n() && 0 <= j < UInt::<U, B>::n() ==> $L
@pre
proof { uint_pos::<T, U, B>(); }
let ghost rows = refs(self.0@);
@post
proof {
  broadcast use {ord_trans_b};
  let k = choose|k: int| 0 <= k < rows.len() && (#[trigger] rows[k])@.contains(out);
  let l = choose|l: int| 0 <= l < UInt::<U, B>::n() && #[trigger] self.0@[k]@[l] == out;
  assert(self.at(k, l) == out);
  assert forall|i: int, j: int| #![trigger self.at(i, j)] 0 <= i < UInt::<U, B>::n() && 0 <= j < UInt::<U, B>::n() implies $K by {
    assert(rows[i] == &self.0@[i]); assert(rows[i]@[j] == self.at(i, j));
  }
}
@endfor

@impl ApproxEq for Matrix<T,Row,Col>
open spec fn default_epsilon_s() -> T::Epsilon { T::default_epsilon_s() }
open spec fn default_max_relative_s() -> T::Epsilon { T::default_max_relative_s() }
open spec fn default_max_ulps_s() -> u32 { T::default_max_ulps_s() }
open spec fn relative_eq_s(&self, other: &Self, epsilon: T::Epsilon, max_relative: T::Epsilon) -> bool {
    forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] self.at(i, j)).relative_eq_s(&other.at(i, j), epsilon, max_relative) }
open spec fn ulps_eq_s(&self, other: &Self, epsilon: T::Epsilon, max_ulps: u32) -> bool {
    forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> (#[trigger] self.at(i, j)).ulps_eq_s(&other.at(i, j), epsilon, max_ulps) }
@fn ApproxEq for Matrix<T,Row,Col>::default_epsilon || ApproxEq for Matrix<T,Row,Col>::default_max_relative || ApproxEq for Matrix<T,Row,Col>::default_max_ulps
@props P22
@foreach F=relative_eq,ulps_eq Q=max_relative,max_ulps
@fn ApproxEq for Matrix<T,Row,Col>::$F
@props P22
@pre
broadcast use {slice_of_view};
proof { n_fits::<Vector<T, Col>, Row>(); }
@closure 0
(&[T], &[T]) | bool
requires c0.0@.len() == Col::n(), c0.1@.len() == Col::n()
ensures cr == seq_$F(c0.0@, c0.1@, epsilon, $Q)
@closurepre 0
broadcast use {vec_len};
@closurepost 0
proof { let z = zip_seq(refs(c0.0@), refs(c0.1@));
  if cout { assert forall|k: int| 0 <= k < c0.0@.len() implies (#[trigger] c0.0@[k]).$F_s(&c0.1@[k], epsilon, $Q) by { assert(z[k] == (&c0.0@[k], &c0.1@[k])); } } }
@closure 1
(&T, &T) | bool
ensures cr == c0.0.$F_s(c0.1, epsilon, $Q)
@closure 2
bool, bool | bool
ensures cr == (c0 && c1)
@post
proof {
  let g = |p: (&[T], &[T])| seq_$F(p.0@, p.1@, epsilon, $Q);
  let z = Seq::new(Row::n(), |i: int| (slice_of(self.0@[i]@), slice_of(other.0@[i]@)));
  let a = Seq::new(Row::n(), |k: int| slice_of(self.0@[0 + k]@)); let b = Seq::new(Row::n(), |k: int| slice_of(other.0@[0 + k]@));
  assert(zip_seq(a, b) =~= z);
  let m = z.map_values(g);
  let h = |x: bool, y: bool| x && y;
  assert(m.fold_left(true, h) == out);
  fold_and(m, true);
  assert forall|i: int| 0 <= i < Row::n() implies (#[trigger] m[i]) == seq_$F(self.0@[i]@, other.0@[i]@, epsilon, $Q) by {}
  if out { assert forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() implies (#[trigger] self.at(i, j)).$F_s(&other.at(i, j), epsilon, $Q) by { assert(m[i]); assert(self.0@[i]@[j] == self.at(i, j)); } }
  else { let i = choose|i: int| 0 <= i < m.len() && !m[i]; let j = choose|j: int| 0 <= j < Col::n() && !(#[trigger] self.0@[i]@[j]).$F_s(&other.0@[i]@[j], epsilon, $Q);
    assert(!self.at(i, j).$F_s(&other.at(i, j), epsilon, $Q)); }
}
@endfor
@tail
pub open spec fn seq_relative_eq<T: ApproxEq>(a: Seq<T>, b: Seq<T>, e: T::Epsilon, r: T::Epsilon) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).relative_eq_s(&b[k], e, r) }
pub open spec fn seq_ulps_eq<T: ApproxEq>(a: Seq<T>, b: Seq<T>, e: T::Epsilon, r: u32) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).ulps_eq_s(&b[k], e, r) }
pub proof fn fold_and(s: Seq<bool>, init: bool)
    ensures s.fold_left(init, |x: bool, y: bool| x && y) <==> init && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i]
    decreases s.len()
{
    reveal_with_fuel(Seq::fold_left, 2);
    if s.len() > 0 {
        let t = s.drop_last();
        fold_and(t, init);
        assert forall|i: int| 0 <= i < t.len() implies t[i] == s[i] by {}
        assert(s.fold_left(init, |x: bool, y: bool| x && y) == (t.fold_left(init, |x: bool, y: bool| x && y) && s.last()));
    }
}
pub open spec fn seq_zero<T: num::Zero>(s: Seq<T>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).is_zero_s() }
@end
@fn Matrix<T,UInt<U,B>,UInt<U,B>>::max_by
@props P19
requires mat_total(comp, *self)
ensures mat_has(*self, r), mat_ub(*self, comp, r, UInt::<U, B>::n() as int, 0)
@pre
proof { uint_pos::<T, U, B>(); }
let ghost s = refs(self.0@);
@loop 0
all0 == s, s == refs(self.0@), mat_total(comp, *self), UInt::<U, B>::n() > 0, n0 == 0 ==> st is None, n0 > 0 ==> st is Some,
st is Some ==> mat_has(*self, *st->0) && mat_ub(*self, comp, *st->0, n0, 0),
@loopstart 0
broadcast use {ordering_eq, ordering_obeys, vec_len};
let ghost rs = refs(row@);
proof { assert(row == s[n0 - 1]); assert(row@ == self.0@[n0 - 1]@); }
@loop 1
0 < n0 <= UInt::<U, B>::n(), all1 == rs, rs == refs(self.0@[n0 - 1]@), mat_total(comp, *self), UInt::<U, B>::n() > 0, n0 == 1 && n1 == 0 ==> st is None, n0 > 1 || n1 > 0 ==> st is Some,
st is Some ==> mat_has(*self, *st->0) && mat_ub(*self, comp, *st->0, n0 - 1, n1),
@loopstart 1
broadcast use {ordering_eq, ordering_obeys, vec_len};
let ghost st0 = st;
proof { assert(v == rs[n1 - 1]); assert(*v == self.at(n0 - 1, n1 - 1));
  if st0 is Some { let (k, l) = choose|k: int, l: int| 0 <= k < UInt::<U, B>::n() && 0 <= l < UInt::<U, B>::n() && #[trigger] self.at(k, l) == *st0->0; assert(call_requires(comp, (&self.at(n0 - 1, n1 - 1), &self.at(k, l)))); } }
@loopend 1
proof {
  assert(mat_has(*self, *v)) by { assert(*v == self.at(n0 - 1, n1 - 1)); }
  if st0 is Some { mat_ub_step(*self, comp, *st0->0, *st->0, n0 - 1, n1 - 1); }
  else { mat_ub_first(*self, comp, *v); }
}
@after 1
proof { mat_ub_row(*self, comp, *st->0, n0 - 1); }
@fn Matrix<T,UInt<U,B>,UInt<U,B>>::min_by
@props P19
requires mat_total(comp, *self)
ensures mat_has(*self, r), mat_lb(*self, comp, r)
@closure 0
&T, &T | Ordering
requires call_requires(comp, (c1, c0))
ensures call_ensures(comp, (c1, c0), cr)
@post
proof {
  assert forall|g: spec_fn(T, T) -> Ordering, i: int, j: int| #[trigger] cmp_law(g) && cmp_fn(comp, g) && 0 <= i < UInt::<U, B>::n() && 0 <= j < UInt::<U, B>::n() implies #[trigger] g(self.at(i, j), out) != Ordering::Less by {
    let g2 = |a: T, b: T| g(b, a);
    assert(cmp_law(g2)) by {
      assert forall|a: T, b: T, c: T| #[trigger] g2(a, b) != Ordering::Greater && #[trigger] g2(b, c) != Ordering::Greater implies g2(a, c) != Ordering::Greater by {}
    }
    assert(g2(self.at(i, j), out) != Ordering::Greater);
  }
}
@tail
pub open spec fn mat_total<T, F: Fn(&T, &T) -> Ordering, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(f: F, m: Matrix<T, R, C>) -> bool
{ forall|i: int, j: int, k: int, l: int| 0 <= i < R::n() && 0 <= j < C::n() && 0 <= k < R::n() && 0 <= l < C::n() ==> #[trigger] call_requires(f, (&m.at(i, j), &m.at(k, l))) }
pub open spec fn mat_has<T, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: Matrix<T, R, C>, x: T) -> bool
{ exists|i: int, j: int| 0 <= i < R::n() && 0 <= j < C::n() && #[trigger] m.at(i, j) == x }
/// x bounds, under every total order the comparator is, the entries before position (i0, j0) in row-major order
pub open spec fn mat_ub<T, F: Fn(&T, &T) -> Ordering, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: Matrix<T, R, C>, f: F, x: T, i0: int, j0: int) -> bool
{ forall|g: spec_fn(T, T) -> Ordering, i: int, j: int| #[trigger] cmp_law(g) && cmp_fn(f, g) && 0 <= i && 0 <= j < C::n() && (i < i0 || i == i0 && j < j0) ==> #[trigger] g(m.at(i, j), x) != Ordering::Greater }
pub open spec fn mat_lb<T, F: Fn(&T, &T) -> Ordering, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: Matrix<T, R, C>, f: F, x: T) -> bool
{ forall|g: spec_fn(T, T) -> Ordering, i: int, j: int| #[trigger] cmp_law(g) && cmp_fn(f, g) && 0 <= i < R::n() && 0 <= j < C::n() ==> #[trigger] g(m.at(i, j), x) != Ordering::Less }
pub proof fn mat_ub_step<T, F: Fn(&T, &T) -> Ordering, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: Matrix<T, R, C>, f: F, x: T, x2: T, i0: int, j0: int)
    requires mat_ub(m, f, x, i0, j0), exists|o: Ordering| #[trigger] call_ensures(f, (&m.at(i0, j0), &x), o) && x2 == if o == Ordering::Greater { m.at(i0, j0) } else { x }
    ensures mat_ub(m, f, x2, i0, j0 + 1)
{
  assert forall|g: spec_fn(T, T) -> Ordering, i: int, j: int| #[trigger] cmp_law(g) && cmp_fn(f, g) && 0 <= i && 0 <= j < C::n() && (i < i0 || i == i0 && j < j0 + 1) implies #[trigger] g(m.at(i, j), x2) != Ordering::Greater by {
    let y = m.at(i0, j0);
    assert(g(y, y) == Ordering::Equal); assert(g(x, x) == Ordering::Equal);
    assert(g(y, x) == Ordering::Greater <==> g(x, y) == Ordering::Less);
    if i < i0 || j < j0 { assert(g(m.at(i, j), x) != Ordering::Greater); assert(g(x, x2) != Ordering::Greater); }
  }
}
pub proof fn mat_ub_first<T, F: Fn(&T, &T) -> Ordering, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: Matrix<T, R, C>, f: F, x: T)
    requires x == m.at(0, 0)
    ensures mat_ub(m, f, x, 0, 1)
{
  assert forall|g: spec_fn(T, T) -> Ordering, i: int, j: int| #[trigger] cmp_law(g) && cmp_fn(f, g) && 0 <= i && 0 <= j < C::n() && (i < 0 || i == 0 && j < 1) implies #[trigger] g(m.at(i, j), x) != Ordering::Greater by { assert(g(x, x) == Ordering::Equal); }
}
pub proof fn mat_ub_row<T, F: Fn(&T, &T) -> Ordering, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: Matrix<T, R, C>, f: F, x: T, i0: int)
    requires mat_ub(m, f, x, i0, C::n() as int)
    ensures mat_ub(m, f, x, i0 + 1, 0)
{ }
@end
@fn Matrix<T,Row,Col>::clamped
@props P20
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> clamp_ok(self.at(i, j), min, max, #[trigger] r.at(i, j))
@closure 0
&Vector<T, Col> | Vector<T, Col>
ensures forall|j: int| 0 <= j < Col::n() ==> clamp_ok(c0@[j], min, max, #[trigger] cr@[j])
@closurepre 0
broadcast use {vec_len};
@closure 1
&T | T
ensures clamp_ok(*c0, min, max, cr)
@closurepre 1
broadcast use {ord_total_b, ord_trans_b};
@fn Matrix<T,Row,Col>::clamp
@props P20
ensures forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() ==> clamp_ok(old(self).at(i, j), min, max, #[trigger] final(self).at(i, j))
@pre
let ghost s0 = *self;
@loop 0
all0.len() == Row::n(),
forall|i: int| 0 <= i < Row::n() ==> *(#[trigger] all0[i]) == s0.0@[i],
forall|i: int, j: int| #![trigger all0[i], s0.at(i, j)] 0 <= i < n0 && 0 <= j < Col::n() ==> clamp_ok(s0.at(i, j), min, max, final(all0[i])@[j]),
@loopstart 0
broadcast use {vec_len};
@loop 1
all1.len() == Col::n(), 0 < n0 <= Row::n(), 
forall|j: int| 0 <= j < Col::n() ==> *(#[trigger] all1[j]) == s0.0@[n0 - 1]@[j],
forall|j: int| #![trigger all1[j]] #![trigger s0.at(n0 - 1, j)] 0 <= j < n1 ==> clamp_ok(s0.at(n0 - 1, j), min, max, *final(all1[j])),
@loopstart 1
broadcast use {ord_total_b, ord_trans_b};
@after 0
proof { assert forall|i: int, j: int| 0 <= i < Row::n() && 0 <= j < Col::n() implies clamp_ok(s0.at(i, j), min, max, #[trigger] self.at(i, j)) by { assert(self.0@[i] == *final(all0[i])); } }

# --- Debug
@impl Debug for Vector<T,N>
open spec fn dbg(&self) -> Seq<char> { "Vector"@ + dbg_list(dbg_all(self@)) }
@fn Debug for Vector<T,N>::fmt
@props P24
@post
proof { let s = refs(self@); assert(dbg_all(s) =~= dbg_all(self@)); if out is Ok { assert(f.out() =~= old(f).out() + self.dbg()); } }
@impl Debug for Matrix<T,Row,Col>
open spec fn dbg(&self) -> Seq<char> { "Matrix["@ + join(Seq::new(Row::n(), |i: int| dbg_list(dbg_all(self.0@[i]@)))) + "]"@ }
@fn Debug for Matrix<T,Row,Col>::fmt
@props P24
@pre
let ghost o0 = fmt.out(); let ghost e0 = fmt.erred(); let ghost rows = Seq::new(Row::n(), |i: int| dbg_list(dbg_all(self.0@[i]@)));
@loop 0
all0 == enum_seq(refs(self.0@)), all0.len() == Row::n(), rows.len() == Row::n(), fmt.plain(), e0 ==> fmt.erred(), e0 == old(fmt).erred(), old(fmt).plain(), Row::n() <= usize::MAX,
forall|i: int| 0 <= i < Row::n() ==> #[trigger] rows[i] == dbg_list(dbg_all(self.0@[i]@)),
fmt.out() == o0 + "Matrix["@ + join(rows.take(n0)),
@loopstart 0
proof { assert(rows.take(n0).drop_last() =~= rows.take(n0 - 1)); }
@after 0
proof { assert(rows.take(n0) =~= rows); }
@post
proof { if out is Ok { assert(fmt.out() =~= o0 + self.dbg()); } }

# --- Display
@fn Display for Matrix<T,Row,Col>::fmt::str_len
@props P25
ensures r == width(s@), r <= isize::MAX
@tail
/// the largest of these, 0 if there is none
pub open spec fn top(s: Seq<nat>) -> nat decreases s.len() { if s.len() == 0 { 0 } else if s.last() >= top(s.drop_last()) { s.last() } else { top(s.drop_last()) } }
pub proof fn top_is(s: Seq<nat>)
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= top(s), s.len() > 0 ==> s.contains(top(s)), s.len() == 0 ==> top(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); top_is(d);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] <= top(s) by { if i < d.len() { assert(d[i] == s[i]); } }
        if s.last() >= top(d) { assert(s[s.len() - 1] == top(s)); } else { let k = choose|k: int| 0 <= k < d.len() && d[k] == top(d); assert(s[k] == top(s)); }
    }
}
/// the entries' texts
pub type Texts = spec_fn(int, int) -> Seq<char>;
/// width of the widest line of a text
pub open spec fn text_w(t: Seq<char>) -> nat { top(Seq::new(lines(t).len(), |k: int| width(lines(t)[k]))) }
/// width of column j over its first k entries; height of row i over its first k entries
pub open spec fn col_w(c: Texts, j: int, k: nat) -> nat { top(Seq::new(k, |i: int| text_w(c(i, j)))) }
pub open spec fn row_h(c: Texts, i: int, k: nat) -> nat { top(Seq::new(k, |j: int| lines(c(i, j)).len())) }
pub open spec fn spaces(k: nat) -> Seq<char> { Seq::new(k, |i: int| ' ') }
/// line n of a text, nothing after its last line
pub open spec fn text_line(t: Seq<char>, n: int) -> Seq<char> { if n < lines(t).len() { lines(t)[n] } else { Seq::empty() } }
/// line n of row i up to column k: every entry centred in its column, a space between columns
pub open spec fn cells_txt(c: Texts, R: nat, C: nat, i: int, n: int, k: nat) -> Seq<char> decreases k
{
    if k == 0 { Seq::empty() } else {
        let j = k - 1; let w = col_w(c, j, R); let l = text_line(c(i, j), n);
        let left = (w - text_w(c(i, j))) / 2;
        cells_txt(c, R, C, i, n, j as nat) + spaces(left as nat) + l + spaces((w - width(l) - left + if j != C - 1 { 1int } else { 0 }) as nat)
    }
}
pub open spec fn bracket_l(R: nat, i: int, n: int, h: nat) -> char { if i == 0 && n == 0 { '⎡' } else if i == R - 1 && n == h - 1 { '⎣' } else { '⎢' } }
pub open spec fn bracket_r(R: nat, i: int, n: int, h: nat) -> Seq<char> { if i == 0 && n == 0 { "⎤\n"@ } else if i == R - 1 && n == h - 1 { "⎦"@ } else { "⎥\n"@ } }
/// the first k lines of row i
pub open spec fn row_txt(c: Texts, R: nat, C: nat, i: int, k: nat) -> Seq<char> decreases k
{
    if k == 0 { Seq::empty() } else {
        row_txt(c, R, C, i, (k - 1) as nat) + seq![bracket_l(R, i, k - 1, row_h(c, i, C))] + cells_txt(c, R, C, i, k - 1, C) + bracket_r(R, i, k - 1, row_h(c, i, C))
    }
}
/// the first k rows
pub open spec fn grid_txt(c: Texts, R: nat, C: nat, k: nat) -> Seq<char> decreases k
{ if k == 0 { Seq::empty() } else { grid_txt(c, R, C, (k - 1) as nat) + row_txt(c, R, C, k - 1, row_h(c, k - 1, C)) } }
@end
@impl Display for Matrix<T,Row,Col>
open spec fn disp(&self) -> Seq<char> { grid_txt(self.texts(), Row::n(), Col::n(), Row::n()) }
@tail
impl<T: Display, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>> Matrix<T, Row, Col> {
    pub open spec fn texts(&self) -> Texts { |i: int, j: int| self.at(i, j).disp() }
}
@end
@fn Display for Matrix<T,Row,Col>::fmt
@props P25
@pre
let ghost c = self.texts(); let ghost R = Row::n(); let ghost C = Col::n(); let ghost o0 = f.out(); let ghost e0 = f.erred(); let ghost p0 = f.plain();
broadcast use {text_w_max, text_w_none, width_empty};
proof { <Row as ArrayLen<usize>>::len_ok(); <Col as ArrayLen<usize>>::len_ok(); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@loop 0
c == self.texts(), R == Row::n(), C == Col::n(), R <= usize::MAX, C <= usize::MAX, ws@.len() == C, narrow(ws@), hs@.len() == R, col0.items().len() == i,
f.out() == o0, f.erred() == e0, f.plain() == p0,
forall|b: int| 0 <= b < C ==> #[trigger] ws@[b] == col_w(c, b, i as nat),
forall|a: int| 0 <= a < R ==> #[trigger] hs@[a] == if a < i { row_h(c, a, C) } else { 0 },
forall|a: int| 0 <= a < i ==> row_ok(#[trigger] col0.items()[a], c, a),
@loopend 0
proof { assert(row_ok(item0, c, i as int)); }
@loop 1
c == self.texts(), R == Row::n(), C == Col::n(), R <= usize::MAX, C <= usize::MAX, ws@.len() == C, narrow(ws@), hs@.len() == R, col1.items().len() == j, i < R,
f.out() == o0, f.erred() == e0, f.plain() == p0,
forall|b: int| 0 <= b < C ==> #[trigger] ws@[b] == col_w(c, b, if b < j { (i + 1) as nat } else { i as nat }),
forall|a: int| 0 <= a < R ==> #[trigger] hs@[a] == if a < i { row_h(c, a, C) } else if a == i { row_h(c, a, j as nat) } else { 0 },
forall|b: int| 0 <= b < j ==> cell_ok(#[trigger] col1.items()[b], c(i as int, b)),
@loopstart 1
broadcast use {vec_len, text_w_max, text_w_none};
proof { col_w_step(c, j as int, i as nat); row_h_step(c, i as int, j as nat); }
@closure 2
&str | usize
ensures cr == width(l@), cr <= isize::MAX
@loop 2
c == self.texts(), R == Row::n(), C == Col::n(), R <= usize::MAX, C <= usize::MAX, ws@.len() == C, narrow(ws@), hs@.len() == R, ss@.len() == R,
all2 == enum_seq(ss@), f.plain() == p0, e0 ==> f.erred(), e0 == old(f).erred(), p0 == old(f).plain(),
forall|b: int| 0 <= b < C ==> #[trigger] ws@[b] == col_w(c, b, R),
forall|a: int| 0 <= a < R ==> #[trigger] hs@[a] == row_h(c, a, C),
forall|a: int| 0 <= a < R ==> row_ok(#[trigger] ss@[a], c, a),
f.out() == o0 + grid_txt(c, R, C, n2 as nat),
@loopstart 2
let ghost o1 = f.out();
@loopend 2
proof { assert(f.out() =~= o0 + grid_txt(c, R, C, n2 as nat)); }
@loop 3
c == self.texts(), R == Row::n(), C == Col::n(), R <= usize::MAX, C <= usize::MAX, ws@.len() == C, narrow(ws@), hs@.len() == R, i < R,
f.plain() == p0, e0 ==> f.erred(), e0 == old(f).erred(), p0 == old(f).plain(),
forall|b: int| 0 <= b < C ==> #[trigger] ws@[b] == col_w(c, b, R), hs@[i as int] == row_h(c, i as int, C), row_ok(row, c, i as int),
f.out() == o1 + row_txt(c, R, C, i as int, n as nat),
@loopstart 3
broadcast use {vec_len, width_empty};
let ghost o2 = f.out() + seq![bracket_l(R, i as int, n as int, row_h(c, i as int, C))];
@loopend 3
proof { assert(f.out() =~= o1 + row_txt(c, R, C, i as int, (n + 1) as nat)); }
@loop 4
c == self.texts(), R == Row::n(), C == Col::n(), R <= usize::MAX, C <= usize::MAX, ws@.len() == C, narrow(ws@), i < R,
all4 == enum_seq(refs(row@)), row@.len() == C, f.plain() == p0, e0 ==> f.erred(), e0 == old(f).erred(), p0 == old(f).plain(),
forall|b: int| 0 <= b < C ==> #[trigger] ws@[b] == col_w(c, b, R), row_ok(row, c, i as int),
f.out() == o2 + cells_txt(c, R, C, i as int, n as int, n4 as nat),
@loopstart 4
broadcast use {vec_len, width_empty};
let ghost o3 = f.out();
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(cell_ok(row@[j as int], c(i as int, j as int))); fits_col(c, i as int, j as int, R, n as int); }
@loopend 4
proof { assert(f.out() =~= o2 + cells_txt(c, R, C, i as int, n as int, n4 as nat)); }
@loop 5
f.plain() == p0, e0 ==> f.erred(), e0 == old(f).erred(), p0 == old(f).plain(), f.out() == o3 + spaces(_i5 as nat),
@loopend 5
proof { assert(f.out() =~= o3 + spaces((_i5 + 1) as nat)); }
@loop 6
f.plain() == p0, e0 ==> f.erred(), e0 == old(f).erred(), p0 == old(f).plain(), f.out() == o3 + spaces(leftpad as nat) + line@ + spaces(_i6 as nat),
@loopend 6
proof { assert(f.out() =~= o3 + spaces(leftpad as nat) + line@ + spaces((_i6 + 1) as nat)); }
@tail
pub open spec fn narrow(w: Seq<usize>) -> bool { forall|b: int| 0 <= b < w.len() ==> #[trigger] w[b] <= isize::MAX }
pub open spec fn cell_ok(p: (String, usize), t: Seq<char>) -> bool { p.0@ == t && p.1 == text_w(t) }
pub open spec fn row_ok<Col: ArrayLen<(String, usize)>>(r: Vector<(String, usize), Col>, c: Texts, i: int) -> bool { forall|b: int| 0 <= b < Col::n() ==> cell_ok(#[trigger] r@[b], c(i, b)) }
pub broadcast proof fn text_w_max(l: Seq<&str>, t: Seq<char>, w: Seq<usize>, x: usize)
    requires #[trigger] are_lines(l, t), w.len() == l.len(), forall|k: int| 0 <= k < l.len() ==> w[k] == width((#[trigger] l[k])@), #[trigger] w.contains(x), forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k]).ord_le(&x)
    ensures text_w(t) == x
{
    let s = Seq::new(lines(t).len(), |k: int| width(lines(t)[k])); top_is(s);
    let k = choose|k: int| 0 <= k < w.len() && w[k] == x; assert(s[k] == width(l[k]@));
    let q = choose|q: int| 0 <= q < s.len() && s[q] == top(s); assert(w[q].ord_le(&x)); assert(w[q] == width(l[q]@));
}
pub broadcast proof fn text_w_none(l: Seq<&str>, t: Seq<char>)
    requires #[trigger] are_lines(l, t), l.len() == 0
    ensures text_w(t) == 0
{}
pub proof fn col_w_step(c: Texts, j: int, k: nat)
    ensures col_w(c, j, k + 1) == if col_w(c, j, k) < text_w(c(k as int, j)) { text_w(c(k as int, j)) } else { col_w(c, j, k) }
{ let s = Seq::new(k + 1, |i: int| text_w(c(i, j))); assert(s.drop_last() =~= Seq::new(k, |i: int| text_w(c(i, j)))); assert(s.last() == text_w(c(k as int, j))); }
pub proof fn row_h_step(c: Texts, i: int, k: nat)
    ensures row_h(c, i, k + 1) == if row_h(c, i, k) < lines(c(i, k as int)).len() { lines(c(i, k as int)).len() } else { row_h(c, i, k) }
{ let s = Seq::new(k + 1, |j: int| lines(c(i, j)).len()); assert(s.drop_last() =~= Seq::new(k, |j: int| lines(c(i, j)).len())); assert(s.last() == lines(c(i, k as int)).len()); }
pub proof fn fits_col(c: Texts, i: int, j: int, R: nat, n: int)
    requires 0 <= i < R, n >= 0
    ensures text_w(c(i, j)) <= col_w(c, j, R), width(text_line(c(i, j), n)) <= text_w(c(i, j))
{
    broadcast use width_empty;
    let s = Seq::new(R, |i: int| text_w(c(i, j))); top_is(s); assert(s[i] == text_w(c(i, j)));
    let t = c(i, j); let v = Seq::new(lines(t).len(), |k: int| width(lines(t)[k])); top_is(v);
    if n < lines(t).len() { assert(v[n] == width(lines(t)[n])); }
}
@end

# ===================================================================== matrix/ops.rs
@tail
pub open spec fn matf<T, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>>(m: &Matrix<T, Row, Col>) -> Mat<T> { |i: int, j: int| m.at(i, j) }
// R's operations are T's
pub open spec fn agr_add<T: Add<T, Output = T>>(R: Rg<T>) -> bool { forall|a: T, b: T| #![trigger R.p(a, b)] #![trigger a.add_spec(b)] R.p(a, b) == a.add_spec(b) }
pub open spec fn agr_sub<T: Sub<T, Output = T>>(R: Rg<T>) -> bool { forall|a: T, b: T| #![trigger R.s(a, b)] #![trigger a.sub_spec(b)] R.s(a, b) == a.sub_spec(b) }
pub open spec fn agr_mul<T: Mul<T, Output = T>>(R: Rg<T>) -> bool { forall|a: T, b: T| #![trigger R.m(a, b)] #![trigger a.mul_spec(b)] R.m(a, b) == a.mul_spec(b) }
pub open spec fn agr_div<T: Div<T, Output = T>>(R: Rg<T>) -> bool { forall|a: T, b: T| #![trigger R.d(a, b)] #![trigger a.div_spec(b)] R.d(a, b) == a.div_spec(b) }
pub open spec fn agr_neg<T: Neg<Output = T>>(R: Rg<T>) -> bool { forall|a: T| #![trigger R.neg(a)] #![trigger a.neg_spec()] R.neg(a) == a.neg_spec() }
pub open spec fn agr_zero<T: num::Zero>(R: Rg<T>) -> bool { R.zero == T::zero_s() && forall|a: T| #[trigger] a.is_zero_s() <==> a == R.zero }
/// division by anything that is not zero is total
pub open spec fn div_ok<T: num::Zero + Div<T, Output = T>>() -> bool { T::obeys_div_spec() && forall|a: T, b: T| !b.is_zero_s() ==> #[trigger] a.div_req(b) }
/// T's own operations
pub open spec fn ring_of<T: num::Zero + num::One + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + Div<T, Output = T>>() -> Rg<T> {
    Rg { add: |a: T, b: T| a.add_spec(b), sub: |a: T, b: T| a.sub_spec(b), mul: |a: T, b: T| a.mul_spec(b), div: |a: T, b: T| a.div_spec(b), zero: T::zero_s(), one: T::one_s() }
}
@end
@impl trait Determinant
/// size and entries, the arithmetic the code needs to be total, the algebra under which the result is the determinant
spec fn det_n() -> nat;
spec fn det_m(&self) -> Mat<Self::Output>;
spec fn det_ok() -> bool;
spec fn det_laws(R: Rg<Self::Output>) -> bool;
@fn Determinant::determinant
@props P17
requires Self::det_ok()
ensures forall|R: Rg<Self::Output>| #[trigger] Self::det_laws(R) ==> r == det(R, Self::det_n(), self.det_m())
@foreach N=1,2,3 O=true,ring_mul::<T>()~&&~ring_sub::<T>(),ring_mul::<T>()~&&~ring_add::<T>()~&&~ring_sub::<T>() L=R.ring(),R.ring()~&&~agr_mul::<T>(R)~&&~agr_sub::<T>(R),R.ring()~&&~agr_mul::<T>(R)~&&~agr_add::<T>(R)~&&~agr_sub::<T>(R)
@impl Determinant for Matrix<T,U$N,U$N>
open spec fn det_n() -> nat { $N }
open spec fn det_m(&self) -> Mat<T> { matf(self) }
open spec fn det_ok() -> bool { $O }
open spec fn det_laws(R: Rg<T>) -> bool { $L }
@fn Determinant for Matrix<T,U$N,U$N>::determinant
@props P17
@brittle
@post
proof { assert forall|R: Rg<T>| #[trigger] Self::det_laws(R) implies out == det(R, $N, self.det_m()) by { det$N_is(R, matf(self)); } }
@endfor
@impl Determinant for Matrix<T,UInt<UInt<UInt<U,Ba>,Bb>,Bc>,UInt<UInt<UInt<U,Ba>,Bb>,Bc>>
open spec fn det_n() -> nat { UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n() }
open spec fn det_m(&self) -> Mat<T> { matf(self) }
open spec fn det_ok() -> bool { ring_add::<T>() && ring_sub::<T>() && ring_mul::<T>() && div_ok::<T>() && <Self as Cofactor>::cof_ok() && <Self as Cofactor>::cof_n() == Self::det_n() }
open spec fn det_laws(R: Rg<T>) -> bool { R == ring_of::<T>() && R.fld() && agr_zero::<T>(R) && <Self as Cofactor>::cof_laws(R) && forall|m: Self| #[trigger] <Self as Cofactor>::cof_m(&m) == matf(&m) }
@fn Determinant for Matrix<T,UInt<UInt<UInt<U,Ba>,Bb>,Bc>,UInt<UInt<UInt<U,Ba>,Bb>,Bc>>::determinant
@props P17
@pre
let ghost R = ring_of::<T>(); let ghost lw: bool = Self::det_laws(R);
let ghost m0 = matf(self);
let ghost g0 = |x: usize| dterm(R, Self::det_n(), m0)(x as int);
proof { uint_pos::<T, UInt<UInt<U, Ba>, Bb>, Bc>(); n_fits::<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>>(); }
@loop 0
n == Self::det_n(), n > 0, Self::det_ok(), R == ring_of::<T>(), lw == Self::det_laws(R), m0 == matf(self), g0 == (|x: usize| dterm(R, Self::det_n(), m0)(x as int)),
lw ==> det(R, n as nat, matf(&mat)) == det(R, n as nat, m0),
lw ==> forall|r: int, c: int| 0 <= c < i && c < r < n ==> #[trigger] mat.at(r, c) == R.zero,
@loop 1
n == Self::det_n(), i < n, Self::det_ok(), R == ring_of::<T>(), lw == Self::det_laws(R), m0 == matf(self), g0 == (|x: usize| dterm(R, Self::det_n(), m0)(x as int)),
lw ==> det(R, n as nat, matf(&mat)) == det(R, n as nat, m0),
lw ==> forall|r: int, c: int| 0 <= c < i && c < r < n ==> #[trigger] mat.at(r, c) == R.zero,
lw ==> forall|r: int| i < r < j ==> #[trigger] mat.at(r, i as int) == R.zero,
@loopstart 1
let ghost mat0 = mat;
proof { if lw { fold_is_det(R, n as nat, m0, g0); } }
@loop 2
n == Self::det_n(), i < j < n, Self::det_ok(),
forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] mat.at(r, c) == if r == j && c < k { mat0.at(j as int, c).sub_spec(mat0.at(i as int, c).mul_spec(d)) } else { mat0.at(r, c) },
@after 2
proof { if lw {
  det_rowop(R, n as nat, matf(&mat0), matf(&mat), i as int, j as int, d);
  assert forall|r: int, c: int| 0 <= c < i && c < r < n implies #[trigger] mat.at(r, c) == R.zero by {
    assert(mat0.at(r, c) == R.zero); assert(mat0.at(i as int, c) == R.zero); id_zsub(R, d); }
  assert forall|r: int| i < r < j + 1 implies #[trigger] mat.at(r, i as int) == R.zero by {
    if r == j { let (a, p) = (mat0.at(j as int, i as int), mat0.at(i as int, i as int)); R.d_m(a, p); R.m_comm(d, p); id_self(R, a); } }
} }
@after 0
proof { if lw {
  let mm = matf(&mat); let g = |x: usize| mm(x as int, x as int);
  det_diag(R, n as nat, mm);
  fold_is_dprod(R, n as nat, mm, g);
} }
@closure 0
usize | T
requires c0 < n
ensures lw ==> cr == dterm(R, Self::det_n(), m0)(c0 as int)
@closurepost 0
proof { if lw { } }
@closure 1
usize | T
requires c0 < n
ensures cr == mat.at(c0 as int, c0 as int)
@impl trait Cofactor
spec fn cof_n() -> nat;
spec fn cof_m(&self) -> Mat<Self::Output>;
spec fn cof_ok() -> bool;
spec fn cof_laws(R: Rg<Self::Output>) -> bool;
@fn Cofactor::cofactor
@props P17
requires Self::cof_ok(), (idx.0 < Self::cof_n() && idx.1 < Self::cof_n()) || may_panic()
ensures idx.0 < Self::cof_n(), idx.1 < Self::cof_n(), forall|R: Rg<Self::Output>| #[trigger] Self::cof_laws(R) ==> r == cof(R, Self::cof_n(), self.cof_m(), idx.0 as int, idx.1 as int)
@tail
/// the arithmetic the cofactors use is total
pub open spec fn sg_ok<T: num::Signed>() -> bool { ring_add::<T>() && ring_sub::<T>() && ring_mul::<T>() && ring_neg::<T>() }
pub open spec fn sg_laws<T: num::Signed>(R: Rg<T>) -> bool { R == ring_of::<T>() && R.ring() && agr_neg::<T>(R) }
pub proof fn fold_is_sum<T>(R: Rg<T>, f: spec_fn(T, T) -> T, s: Seq<T>, h: spec_fn(int) -> T)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == h(i), forall|a: T, b: T| #[trigger] f(a, b) == R.p(a, b)
    ensures s.fold_left(R.zero, f) == sum(R, s.len() as int, h)
    decreases s.len()
{
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == h(i) by { assert(s[i] == h(i)); } fold_is_sum(R, f, d, h); assert(s.last() == h(s.len() - 1)); }
}
pub proof fn fold_is_det<T: num::Zero + num::One + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + Div<T, Output = T>>(R: Rg<T>, n: nat, m: Mat<T>, g: spec_fn(usize) -> T)
    requires R == ring_of::<T>(), 0 < n <= usize::MAX, g == (|x: usize| dterm(R, n, m)(x as int))
    ensures range_seq(0, n as int).map_values(g).fold_left(T::zero_s(), addf::<T>()) == det(R, n, m)
{
    fold_is_sum(R, addf::<T>(), range_seq(0, n as int).map_values(g), dterm(R, n, m));
}
pub proof fn fold_is_prod<T>(R: Rg<T>, f: spec_fn(T, T) -> T, s: Seq<T>, m: Mat<T>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == m(i, i), forall|a: T, b: T| #[trigger] f(a, b) == R.m(a, b)
    ensures s.fold_left(R.one, f) == dprod(R, s.len() as int, m)
    decreases s.len()
{
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == m(i, i) by { assert(s[i] == m(i, i)); } fold_is_prod(R, f, d, m); assert(s.last() == m(s.len() - 1, s.len() - 1)); }
}
pub proof fn fold_is_dprod<T: num::Zero + num::One + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + Div<T, Output = T>>(R: Rg<T>, n: nat, m: Mat<T>, g: spec_fn(usize) -> T)
    requires R == ring_of::<T>(), 0 < n <= usize::MAX, g == (|x: usize| m(x as int, x as int))
    ensures range_seq(0, n as int).map_values(g).fold_left(T::one_s(), mulf::<T>()) == dprod(R, n as int, m)
{
    fold_is_prod(R, mulf::<T>(), range_seq(0, n as int).map_values(g), m);
}
/// the elements of s with their numbers, all but number i
pub open spec fn skip_seq<A>(s: Seq<A>, i: int) -> Seq<(usize, A)> { Seq::new((s.len() - 1) as nat, |k: int| (up(i, k) as usize, s[up(i, k)])) }
pub proof fn filter_skip<A>(s: Seq<A>, i: usize, g: spec_fn((usize, A)) -> bool)
    requires s.len() <= usize::MAX, forall|p: (usize, A)| #[trigger] g(p) == (p.0 != i)
    ensures enum_seq(s).filter(g) == if i < s.len() { skip_seq(s, i as int) } else { enum_seq(s) }
    decreases s.len()
{
    reveal(Seq::filter);
    let e = enum_seq(s);
    if s.len() > 0 {
        filter_skip(s.drop_last(), i, g);
        assert(e.drop_last() =~= enum_seq(s.drop_last()));
    }
    assert(e.filter(g) =~= if i < s.len() { skip_seq(s, i as int) } else { e });
}
@end
@impl Cofactor for Matrix<T,U2,U2>
open spec fn cof_n() -> nat { 2 }
open spec fn cof_m(&self) -> Mat<T> { matf(self) }
open spec fn cof_ok() -> bool { sg_ok::<T>() }
open spec fn cof_laws(R: Rg<T>) -> bool { sg_laws::<T>(R) }
@fn Cofactor for Matrix<T,U2,U2>::cofactor
@props P17
@brittle
@overflows
@post
proof { assert forall|R: Rg<T>| #[trigger] Self::cof_laws(R) implies out == cof(R, 2, self.cof_m(), p1.0 as int, p1.1 as int) by { det1_is(R, minor(matf(self), p1.0 as int, p1.1 as int)); } }
@impl Cofactor for Matrix<T,U3,U3>
open spec fn cof_n() -> nat { 3 }
open spec fn cof_m(&self) -> Mat<T> { matf(self) }
open spec fn cof_ok() -> bool { sg_ok::<T>() }
open spec fn cof_laws(R: Rg<T>) -> bool { sg_laws::<T>(R) }
@impl Cofactor for Matrix<T,UInt<UInt<UInt<U,Ba>,Bb>,Bc>,UInt<UInt<UInt<U,Ba>,Bb>,Bc>>
open spec fn cof_n() -> nat { UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n() }
open spec fn cof_m(&self) -> Mat<T> { matf(self) }
open spec fn cof_ok() -> bool { sg_ok::<T>() && 2 * Self::cof_n() <= usize::MAX && <Matrix<T, Diff<UInt<UInt<UInt<U, Ba>, Bb>, Bc>, U1>, Diff<UInt<UInt<UInt<U, Ba>, Bb>, Bc>, U1>> as Determinant>::det_ok() }
open spec fn cof_laws(R: Rg<T>) -> bool { sg_laws::<T>(R) && <Matrix<T, Diff<UInt<UInt<UInt<U, Ba>, Bb>, Bc>, U1>, Diff<UInt<UInt<UInt<U, Ba>, Bb>, Bc>, U1>> as Determinant>::det_laws(R)
    && <Matrix<T, Diff<UInt<UInt<UInt<U, Ba>, Bb>, Bc>, U1>, Diff<UInt<UInt<UInt<U, Ba>, Bb>, Bc>, U1>> as Determinant>::det_n() == Self::cof_n() - 1
    && forall|m: Matrix<T, Diff<UInt<UInt<UInt<U, Ba>, Bb>, Bc>, U1>, Diff<UInt<UInt<UInt<U, Ba>, Bb>, Bc>, U1>>| #[trigger] m.det_m() == matf(&m) }
@foreach K=Cofactor~for~Matrix<T;U3;U3>,Cofactor~for~Matrix<T;UInt<UInt<UInt<U;Ba>;Bb>;Bc>;UInt<UInt<UInt<U;Ba>;Bb>;Bc>> M=U2,Diff<UInt<UInt<UInt<U;Ba>;Bb>;Bc>;U1> N=U3,UInt<UInt<UInt<U;Ba>;Bb>;Bc> D=,{~diff_is::<UInt<UInt<UInt<U;Ba>;Bb>;Bc>;~U1>()~}~{~uint_pos::<T;~UInt<UInt<U;Ba>;Bb>;Bc>()~}
@fn $K::cofactor
@props P17
@pre
proof { n_fits::<T, $N>(); $D }
let ghost rs = RowsIterRef::<T, $N, $N> { mat: &self.0, front: 0, back: <$N>::n() as usize }.items();
let ghost g0 = |p: (usize, &[T])| p.0 != p1.0;
proof {
  broadcast use slice_of_view;
  filter_skip(rs, p1.0, g0);
  assert(p1.0 < <$N>::n() ==> enum_seq(rs).filter(g0) == skip_seq(rs, p1.0 as int));
  assert forall|k: int| 0 <= k < <$N>::n() implies (#[trigger] rs[k])@ == self.0@[k]@ by { }
}
@closure 0
&(usize, &'_ [T]) | bool
ensures cr == (c0.0 != i)
@closure 1
(usize, &[T]) | Vector<T, $M>
requires c0.1@.len() == <$N>::n()
ensures cr@ == Seq::new(<$M>::n(), |k: int| c0.1@[up(j as int, k)])
@closurepre 1
let ghost es = refs(row@); let ghost g2 = |p: (usize, &T)| p.0 != j; let ghost g3 = |p: (usize, &T)| *p.1;
proof {
  filter_skip(es, j, g2);
  assert(enum_seq(es).filter(g2) == skip_seq(es, j as int));
  assert(skip_seq(es, j as int).map_values(g3) =~= Seq::new(<$M>::n(), |k: int| row@[up(j as int, k)]));
}
@closurepost 1
proof { assert(cout@ =~= Seq::new(<$M>::n(), |k: int| row@[up(j as int, k)])); }
@closure 2
&(usize, &'_ T) | bool
ensures cr == (c0.0 != j)
@closure 3
(usize, &T) | T
ensures cr == *c0.1
@post
proof {
  let (i, j) = (p1.0 as int, p1.1 as int);
  assert forall|R: Rg<T>| #[trigger] Self::cof_laws(R) implies out == cof(R, <$N>::n(), self.cof_m(), i, j) by {
    let mi = minor(matf(self), i, j);
    assert(<Matrix<T, $M, $M> as Determinant>::det_laws(R));
    assert forall|m: Matrix<T, $M, $M>| (forall|k: int| 0 <= k < <$M>::n() ==> #[trigger] m.0@[k]@ == Seq::new(<$M>::n(), |l: int| self.0@[up(i, k)]@[up(j, l)]))
      implies #[trigger] det(R, <$M>::n(), matf(&m)) == det(R, <$M>::n(), mi) by {
      assert forall|k: int, l: int| 0 <= k < <$M>::n() && 0 <= l < <$M>::n() implies #[trigger] matf(&m)(k, l) == mi(k, l) by { assert(m.0@[k]@[l] == self.0@[up(i, k)]@[up(j, l)]); }
      det_ext(R, <$M>::n(), matf(&m), mi);
    }
  }
}
@endfor
@impl trait Inverse
spec fn inv_ok() -> bool;
spec fn inv_post(&self, r: Option<Self::Output>) -> bool;
@fn Inverse::inverse
@props P18
requires Self::inv_ok()
ensures self.inv_post(r)
@tail
/// r is the two-sided inverse of a, None only if there is none
pub open spec fn inv_res<T, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>>(R: Rg<T>, n: nat, a: Mat<T>, r: Option<Matrix<T, Row, Col>>) -> bool {
    match r { Some(x) => is_inv(R, n, a, matf(&x)), None => forall|b: Mat<T>| !#[trigger] is_inv(R, n, a, b) }
}
pub open spec fn inv_laws1<T: num::Zero + num::One + Div<T, Output = T>>(R: Rg<T>) -> bool { R.fld() && agr_zero::<T>(R) && R.one == T::one_s() && agr_div::<T>(R) }
pub open spec fn inv_laws2<T: num::Zero + Div<T, Output = T> + Neg<Output = T>>(R: Rg<T>) -> bool where Matrix<T, U2, U2>: Determinant<Output = T>
{ R.fld() && agr_zero::<T>(R) && agr_neg::<T>(R) && agr_div::<T>(R) && <Matrix<T, U2, U2> as Determinant>::det_laws(R) && <Matrix<T, U2, U2> as Determinant>::det_n() == 2 && forall|m: Matrix<T, U2, U2>| #[trigger] m.det_m() == matf(&m) }
pub open spec fn inv_laws3<T: num::Zero + Mul<T, Output = T> + Div<T, Output = T> + Sub<T, Output = T>>(R: Rg<T>) -> bool where Matrix<T, U3, U3>: Determinant<Output = T>
{ R.fld() && agr_zero::<T>(R) && agr_mul::<T>(R) && agr_sub::<T>(R) && agr_div::<T>(R) && <Matrix<T, U3, U3> as Determinant>::det_laws(R) && <Matrix<T, U3, U3> as Determinant>::det_n() == 3 && forall|m: Matrix<T, U3, U3>| #[trigger] m.det_m() == matf(&m) }
pub open spec fn inv_lawsn<T: num::Signed>(R: Rg<T>) -> bool { R == ring_of::<T>() && R.fld() && agr_zero::<T>(R) }
pub broadcast proof fn mat_of_entry<T, Row: ArrayLen<Vector<T, Col>>, Col: ArrayLen<T>>(f: spec_fn(int, int) -> T, i: int, j: int)
    requires 0 <= i < Row::n(), 0 <= j < Col::n()
    ensures #[trigger] mat_of::<T, Row, Col>(f).at(i, j) == f(i, j)
{ mat_of_at::<T, Row, Col>(f); }
/// m with rows i and p exchanged
pub open spec fn exch<T>(m: Mat<T>, i: int, p: int) -> Mat<T> { |r: int, c: int| m(if r == i { p } else if r == p { i } else { r }, c) }
@end
@foreach N=1,2,3 O=div_ok::<T>(),div_ok::<T>()~&&~ring_neg::<T>()~&&~<Self~as~Determinant>::det_ok(),div_ok::<T>()~&&~ring_mul::<T>()~&&~ring_sub::<T>()~&&~<Self~as~Determinant>::det_ok() S=inv1_ok(R;a;matf(&x)),{~adj2_ok(R;a)~}~{~adj_inv(R;2;a;adj2(R;a);matf(&x);det(R;2;a))~},{~adj3_ok(R;a)~}~{~adj_inv(R;3;a;adj3(R;a);matf(&x);det(R;3;a))~}
@impl Inverse for Matrix<T,U$N,U$N>
open spec fn inv_ok() -> bool { $O }
open spec fn inv_post(&self, r: Option<Self>) -> bool { forall|R: Rg<T>| #[trigger] inv_laws$N::<T>(R) ==> inv_res(R, $N, matf(self), r) }
@fn Inverse for Matrix<T,U$N,U$N>::inverse
@props P18
@brittle
@post
proof {
  broadcast use mat_of_entry;
  assert forall|R: Rg<T>| #[trigger] inv_laws$N::<T>(R) implies inv_res(R, $N, matf(self), out) by {
    let a = matf(self);
    match out {
      None => { assert forall|b: Mat<T>| !#[trigger] is_inv(R, $N, a, b) by { singular$N(R, a, b); } }
      Some(x) => { $S }
    }
  }
}
@endfor
@impl Inverse for Matrix<T,UInt<UInt<UInt<U,Ba>,Bb>,Bc>,UInt<UInt<UInt<U,Ba>,Bb>,Bc>>
open spec fn inv_ok() -> bool { div_ok::<T>() && ring_sub::<T>() && ring_mul::<T>() }
open spec fn inv_post(&self, r: Option<Self>) -> bool { forall|R: Rg<T>| #[trigger] inv_lawsn::<T>(R) ==> inv_res(R, UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n(), matf(self), r) }
@fn Inverse for Matrix<T,UInt<UInt<UInt<U,Ba>,Bb>,Bc>,UInt<UInt<UInt<U,Ba>,Bb>,Bc>>::inverse
@props P18
@pre
let ghost R = ring_of::<T>(); let ghost lw: bool = inv_lawsn::<T>(R);
let ghost m0 = matf(self); let ghost e = UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n();
proof { n_fits::<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>>(); 
  if lw { assert forall|w: Self| (forall|i: int, j: int| 0 <= i < e && 0 <= j < e ==> #[trigger] w.at(i, j) == if i == j { T::one_s() } else { T::zero_s() })
    implies gj(R, e, #[trigger] matf(&w), m0, m0) by { gj_start(R, e, matf(&w), m0); } } }
@loop 0
n == e, e == UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n(), Self::inv_ok(), R == ring_of::<T>(), lw == inv_lawsn::<T>(R), m0 == matf(self),
lw ==> gj(R, e, matf(&inv), m0, matf(&mat)),
lw ==> forall|r: int, c: int| 0 <= r < n && 0 <= c < i ==> #[trigger] mat.at(r, c) == delta(R, r, c),
@loop 1
invariant n == e, e == UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n(), i <= p <= n, i < n, R == ring_of::<T>(), lw == inv_lawsn::<T>(R),
lw ==> forall|r: int| i <= r < p ==> #[trigger] mat.at(r, i as int) == R.zero,
decreases n - p
@after 1
let ghost (mat1, inv1) = (mat, inv);
proof { vec_len(&mat.0); vec_len(&inv.0); }
proof { if lw && p == n { assert forall|b: Mat<T>| !#[trigger] is_inv(R, e, m0, b) by { gj_none(R, e, matf(&inv), m0, matf(&mat), i as int, b); } } }
@loop 2
n == e, e == UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n(), i <= p < n, Self::inv_ok(),
forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] mat.at(r, c) == if r == i && c < j { exch(matf(&mat1), i as int, p as int)(r, c).mul_spec(rcp) } else { exch(matf(&mat1), i as int, p as int)(r, c) },
forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] inv.at(r, c) == if r == i && c < j { exch(matf(&inv1), i as int, p as int)(r, c).mul_spec(rcp) } else { exch(matf(&inv1), i as int, p as int)(r, c) },
@after 2
proof { if lw {
  let (sm, si) = (exch(matf(&mat1), i as int, p as int), exch(matf(&inv1), i as int, p as int));
  gj_swap(R, e, matf(&inv1), m0, matf(&mat1), si, sm, i as int, p as int);
  let d = sm(i as int, i as int);
  R.d_m(R.one, d); R.m_comm(rcp, d);
  gj_scale(R, e, si, m0, sm, matf(&inv), matf(&mat), i as int, rcp, d);
  R.m_zero(rcp);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < i implies #[trigger] mat.at(r, c) == delta(R, r, c) by {
    assert(mat1.at(r, c) == delta(R, r, c)); assert(mat1.at(p as int, c) == R.zero); assert(mat1.at(i as int, c) == R.zero); }
} }
@loop 3
n == e, e == UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n(), i < n, Self::inv_ok(), R == ring_of::<T>(), lw == inv_lawsn::<T>(R),
lw ==> gj(R, e, matf(&inv), m0, matf(&mat)),
lw ==> forall|r: int, c: int| 0 <= r < n && 0 <= c < i ==> #[trigger] mat.at(r, c) == delta(R, r, c),
lw ==> mat.at(i as int, i as int) == R.one,
lw ==> forall|r: int| 0 <= r < j && r != i ==> #[trigger] mat.at(r, i as int) == R.zero,
@loopstart 3
let ghost (mat4, inv4) = (mat, inv);
@loop 4
n == e, e == UInt::<UInt<UInt<U, Ba>, Bb>, Bc>::n(), i < n, j < n, i != j, Self::inv_ok(),
forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] mat.at(r, c) == if r == j && c < k { mat4.at(j as int, c).sub_spec(mat4.at(i as int, c).mul_spec(a)) } else { mat4.at(r, c) },
forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] inv.at(r, c) == if r == j && c < k { inv4.at(j as int, c).sub_spec(inv4.at(i as int, c).mul_spec(a)) } else { inv4.at(r, c) },
@after 4
proof { if lw {
  gj_sub(R, e, matf(&inv4), m0, matf(&mat4), matf(&inv), matf(&mat), i as int, j as int, a);
  assert forall|r: int, c: int| 0 <= r < n && 0 <= c < i implies #[trigger] mat.at(r, c) == delta(R, r, c) by {
    assert(mat4.at(r, c) == delta(R, r, c)); assert(mat4.at(i as int, c) == R.zero); id_zsub(R, a); id_szero(R, mat4.at(j as int, c), a); }
  R.m_one(a); id_self(R, a);
} }
@after 0
proof { if lw { gj_some(R, e, matf(&inv), m0, matf(&mat)); } }

# the conditions of the determinant, cofactor and inverse contracts hold at the sizes the crate reaches, given T's laws alone
@tail
/// T's arithmetic is total / is a field
pub open spec fn fld_ok<T: num::Signed>() -> bool { sg_ok::<T>() && div_ok::<T>() }
pub open spec fn fld_laws_of<T: num::Signed>(R: Rg<T>) -> bool { R == ring_of::<T>() && R.fld() && agr_neg::<T>(R) && agr_zero::<T>(R) }
pub proof fn ring_of_agrees<T: num::Signed>(R: Rg<T>) requires R == ring_of::<T>() ensures agr_add::<T>(R), agr_sub::<T>(R), agr_mul::<T>(R), agr_div::<T>(R) { }
/// the field of two elements: the laws are consistent
pub open spec fn gf2() -> Rg<bool> { Rg { add: |a: bool, b: bool| a != b, sub: |a: bool, b: bool| a != b, mul: |a: bool, b: bool| a && b, div: |a: bool, b: bool| a, zero: false, one: true } }
pub proof fn gf2_is_a_field() ensures gf2().fld() { reveal(Rg::ring); reveal(Rg::fld_laws); }
pub proof fn link_2<T: num::Signed + Clone>(R: Rg<T>) requires fld_ok::<T>(), fld_laws_of::<T>(R)
    ensures <Matrix<T, U2, U2> as Determinant>::det_ok(), <Matrix<T, U2, U2> as Determinant>::det_laws(R), <Matrix<T, U2, U2> as Cofactor>::cof_ok(), <Matrix<T, U2, U2> as Cofactor>::cof_laws(R),
        <Matrix<T, U2, U2> as Inverse>::inv_ok(), inv_laws2::<T>(R)
{ ring_of_agrees(R); }
pub proof fn link_3<T: num::Signed + Clone>(R: Rg<T>) requires fld_ok::<T>(), fld_laws_of::<T>(R)
    ensures <Matrix<T, U3, U3> as Determinant>::det_ok(), <Matrix<T, U3, U3> as Determinant>::det_laws(R), <Matrix<T, U3, U3> as Cofactor>::cof_ok(), <Matrix<T, U3, U3> as Cofactor>::cof_laws(R),
        <Matrix<T, U3, U3> as Inverse>::inv_ok(), inv_laws3::<T>(R)
{ ring_of_agrees(R); }
@end
@foreach N=4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32 M=3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31
@tail
pub proof fn link_$N<T: num::Signed + Clone>(R: Rg<T>) requires fld_ok::<T>(), fld_laws_of::<T>(R)
    ensures <Matrix<T, U$N, U$N> as Determinant>::det_ok(), <Matrix<T, U$N, U$N> as Determinant>::det_laws(R), <Matrix<T, U$N, U$N> as Cofactor>::cof_ok(), <Matrix<T, U$N, U$N> as Cofactor>::cof_laws(R),
        <Matrix<T, U$N, U$N> as Inverse>::inv_ok(), inv_lawsn::<T>(R)
{ link_$M::<T>(R); ring_of_agrees(R); }
@end
@endfor
