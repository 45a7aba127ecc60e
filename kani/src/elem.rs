//! Element types the harnesses instantiate the generic code with.
use crate::nd::*;
use num::{Bounded, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::*;

// ---------------------------------------------------------------- Op: arbitrary operators
/// Operators chosen to satisfy no algebraic law, so operand order and the operator used both show.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op(pub u8);
fn m3(a: u8) -> u8 { a.wrapping_add(a).wrapping_add(a) }
impl Op {
    pub fn add_(a: u8, b: u8) -> u8 { m3(a).wrapping_add(b.rotate_left(1)).wrapping_add(1) }
    pub fn sub_(a: u8, b: u8) -> u8 { m3(a) ^ b.rotate_left(3) ^ 0x35 }
    pub fn mul_(a: u8, b: u8) -> u8 { (a.rotate_left(2)).wrapping_sub(m3(b)).wrapping_add(7) }
    pub fn div_(a: u8, b: u8) -> u8 { (a.rotate_left(5)) ^ m3(b).wrapping_add(9) }
    pub fn neg_(a: u8) -> u8 { m3(a) ^ 0x5b }
    // the compound forms are different functions again
    pub fn adda(a: u8, b: u8) -> u8 { a.rotate_left(1).wrapping_add(m3(b)) ^ 1 }
    pub fn suba(a: u8, b: u8) -> u8 { a.rotate_left(4).wrapping_add(m3(b)) ^ 2 }
    pub fn mula(a: u8, b: u8) -> u8 { a.rotate_left(6).wrapping_add(m3(b)) ^ 4 }
    pub fn diva(a: u8, b: u8) -> u8 { a.rotate_left(7).wrapping_add(m3(b)) ^ 8 }
}
macro_rules! op_bin { ($($T:ident $f:ident $g:ident)*) => { $(
    impl $T<Op> for Op { type Output = Op; fn $f(self, r: Op) -> Op { Op(Op::$g(self.0, r.0)) } }
    impl<'a> $T<&'a Op> for Op { type Output = Op; fn $f(self, r: &'a Op) -> Op { Op(Op::$g(self.0, r.0)) } }
    impl<'a> $T<Op> for &'a Op { type Output = Op; fn $f(self, r: Op) -> Op { Op(Op::$g(self.0, r.0)) } }
    impl<'a, 'b> $T<&'a Op> for &'b Op { type Output = Op; fn $f(self, r: &'a Op) -> Op { Op(Op::$g(self.0, r.0)) } }
)* } }
op_bin! { Add add add_ Sub sub sub_ Mul mul mul_ Div div div_ }
macro_rules! op_asg { ($($T:ident $f:ident $g:ident)*) => { $(
    impl $T<Op> for Op { fn $f(&mut self, r: Op) { self.0 = Op::$g(self.0, r.0) } }
)* } }
op_asg! { AddAssign add_assign adda SubAssign sub_assign suba MulAssign mul_assign mula DivAssign div_assign diva }
impl Neg for Op { type Output = Op; fn neg(self) -> Op { Op(Op::neg_(self.0)) } }

// ---------------------------------------------------------------- Nc: a non-commutative ring
/// 2x2 matrices over GF(2), one bit per entry (a b / c d = bits 0 1 / 2 3).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Nc(pub u8);
impl Nc {
    pub fn any() -> Nc { Nc(any::<u8>() & 15) }
    pub fn m(x: u8, y: u8) -> u8 {
        let (a, b, c, d) = (x & 1, x >> 1 & 1, x >> 2 & 1, x >> 3 & 1);
        let (e, f, g, h) = (y & 1, y >> 1 & 1, y >> 2 & 1, y >> 3 & 1);
        ((a & e) ^ (b & g)) | ((a & f) ^ (b & h)) << 1 | ((c & e) ^ (d & g)) << 2 | ((c & f) ^ (d & h)) << 3
    }
}
impl Add for Nc { type Output = Nc; fn add(self, r: Nc) -> Nc { Nc(self.0 ^ r.0) } }
impl<'a> Add<&'a Nc> for Nc { type Output = Nc; fn add(self, r: &'a Nc) -> Nc { Nc(self.0 ^ r.0) } }
impl Mul for Nc { type Output = Nc; fn mul(self, r: Nc) -> Nc { Nc(Nc::m(self.0, r.0)) } }
impl<'a> Mul<&'a Nc> for Nc { type Output = Nc; fn mul(self, r: &'a Nc) -> Nc { Nc(Nc::m(self.0, r.0)) } }
impl<'a> Mul<Nc> for &'a Nc { type Output = Nc; fn mul(self, r: Nc) -> Nc { Nc(Nc::m(self.0, r.0)) } }
impl Zero for Nc { fn zero() -> Nc { Nc(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Nc { fn one() -> Nc { Nc(0b1001) } }

// ---------------------------------------------------------------- Z4: integers modulo 16, 4 bits
macro_rules! modular { ($Z:ident, $m:literal) => {
/// The integers modulo a power of two: signs and multiplicities are visible, cheap for the solver.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct $Z(pub u8);
impl $Z { pub fn any() -> $Z { $Z(any::<u8>() & $m) } }
impl Add for $Z { type Output = $Z; fn add(self, r: $Z) -> $Z { $Z(self.0.wrapping_add(r.0) & $m) } }
impl Sub for $Z { type Output = $Z; fn sub(self, r: $Z) -> $Z { $Z(self.0.wrapping_sub(r.0) & $m) } }
impl Mul for $Z { type Output = $Z; fn mul(self, r: $Z) -> $Z { $Z(self.0.wrapping_mul(r.0) & $m) } }
impl<'a> Mul<&'a $Z> for $Z { type Output = $Z; fn mul(self, r: &'a $Z) -> $Z { self * *r } }
impl Neg for $Z { type Output = $Z; fn neg(self) -> $Z { $Z(0u8.wrapping_sub(self.0) & $m) } }
impl Zero for $Z { fn zero() -> $Z { $Z(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for $Z { fn one() -> $Z { $Z(1) } }
impl Bounded for $Z { fn min_value() -> $Z { $Z(2) } fn max_value() -> $Z { $Z(13) } }
impl Default for $Z { fn default() -> $Z { $Z(5) } }
/// Not a division (there is none): only there so code that needs the trait bounds compiles.
impl Div for $Z { type Output = $Z; fn div(self, _: $Z) -> $Z { panic!("Z has no division") } }
impl Rem for $Z { type Output = $Z; fn rem(self, _: $Z) -> $Z { panic!("Z has no remainder") } }
impl Num for $Z { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<$Z, ()> { Err(()) } }
impl Signed for $Z {
    fn abs(&self) -> $Z { *self }
    fn abs_sub(&self, o: &$Z) -> $Z { *self - *o }
    fn signum(&self) -> $Z { $Z(1) }
    fn is_positive(&self) -> bool { self.0 != 0 }
    fn is_negative(&self) -> bool { false }
}
} }
modular!(Z, 15);
modular!(Z4, 3);

// ---------------------------------------------------------------- prime fields
macro_rules! field {
    ($F:ident, $p:literal, $mul:expr, $inv:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct $F(pub u8);
        impl $F {
            pub fn any() -> $F { let x: u8 = any(); assume(x < $p); $F(x) }
            fn red(x: u8) -> $F { $F(if x >= $p { x - $p } else { x }) }
            pub fn inv(self) -> $F { const I: [u8; $p] = $inv; $F(I[self.0 as usize]) }
        }
        impl Add for $F { type Output = $F; fn add(self, r: $F) -> $F { $F::red(self.0 + r.0) } }
        impl Neg for $F { type Output = $F; fn neg(self) -> $F { $F::red($p - self.0) } }
        impl Sub for $F { type Output = $F; fn sub(self, r: $F) -> $F { self + (-r) } }
        impl Mul for $F { type Output = $F; fn mul(self, r: $F) -> $F { const M: [[u8; $p]; $p] = $mul; $F(M[self.0 as usize][r.0 as usize]) } }
        impl<'a> Mul<&'a $F> for $F { type Output = $F; fn mul(self, r: &'a $F) -> $F { self * *r } }
        /// Dividing by zero is a failure.
        impl Div for $F { type Output = $F; fn div(self, r: $F) -> $F { assert!(r.0 != 0, "division by zero"); self * r.inv() } }
        impl Rem for $F { type Output = $F; fn rem(self, _: $F) -> $F { $F(0) } }
        impl Zero for $F { fn zero() -> $F { $F(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
        impl One for $F { fn one() -> $F { $F(1) } }
        impl Num for $F { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<$F, ()> { Err(()) } }
        impl Signed for $F {
            fn abs(&self) -> $F { *self }
            fn abs_sub(&self, o: &$F) -> $F { *self - *o }
            fn signum(&self) -> $F { $F(1) }
            fn is_positive(&self) -> bool { self.0 != 0 }
            fn is_negative(&self) -> bool { false }
        }
    };
}
field!(G2, 2, [[0, 0], [0, 1]], [0, 1]);
field!(G3, 3, [[0, 0, 0], [0, 1, 2], [0, 2, 1]], [0, 1, 2]);
// division and multiplication differ from here on
field!(G5, 5, [[0, 0, 0, 0, 0], [0, 1, 2, 3, 4], [0, 2, 4, 1, 3], [0, 3, 1, 4, 2], [0, 4, 3, 2, 1]], [0, 1, 3, 2, 4]);

// ---------------------------------------------------------------- D: ownership ledger
pub const CAP: usize = 96;
static mut LIVE: [u8; CAP] = [0; CAP];
static mut NEXT: usize = 0;
static mut COUNT: usize = 0;
/// An element with identity: dropping one that is not live is a failure, `all_dropped` finds leaks.
pub struct D { pub id: usize, pub v: u8 }
pub fn ledger_reset() { unsafe { NEXT = 0; COUNT = 0; LIVE = [0; CAP]; } }
/// A failure that is not a panic for Kani, so it also shows inside harnesses that have to panic.
pub fn bad_drop() -> ! {
    #[cfg(kani)]
    { escaped() }
    #[cfg(not(kani))]
    { println!("REPLAY: an element that is not live was dropped (double drop or garbage)\nVALUES {}", crate::nd::log()); std::process::exit(1) }
}
impl D {
    pub fn new(v: u8) -> D { unsafe { let id = NEXT; NEXT += 1; COUNT += 1; LIVE[id] = 1; D { id, v } } }
    pub fn live(&self) -> bool { unsafe { self.id < NEXT && LIVE[self.id] == 1 } }
}
impl Drop for D { fn drop(&mut self) { unsafe {
    if self.id >= NEXT || LIVE[self.id] != 1 { bad_drop() }
    LIVE[self.id] = 0;
    COUNT -= 1;
} } }
pub fn live_count() -> usize { unsafe { COUNT } }
impl Clone for D { fn clone(&self) -> D { assert!(self.live()); D::new(self.v) } }
impl PartialEq for D { fn eq(&self, o: &D) -> bool { assert!(self.live() && o.live()); self.v == o.v } }
impl Eq for D {}
impl PartialOrd for D { fn partial_cmp(&self, o: &D) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for D { fn cmp(&self, o: &D) -> Ordering { assert!(self.live() && o.live()); self.v.cmp(&o.v) } }
impl Default for D { fn default() -> D { D::new(0) } }
macro_rules! d_bin { ($($T:ident $f:ident $g:ident)*) => { $(
    impl $T<D> for D { type Output = D; fn $f(self, r: D) -> D { D::new(self.v.$g(r.v)) } }
    impl<'a> $T<&'a D> for D { type Output = D; fn $f(self, r: &'a D) -> D { assert!(r.live()); D::new(self.v.$g(r.v)) } }
    impl<'a> $T<D> for &'a D { type Output = D; fn $f(self, r: D) -> D { assert!(self.live()); D::new(self.v.$g(r.v)) } }
    impl<'a, 'b> $T<&'a D> for &'b D { type Output = D; fn $f(self, r: &'a D) -> D { assert!(self.live() && r.live()); D::new(self.v.$g(r.v)) } }
)* } }
d_bin! { Add add wrapping_add Sub sub wrapping_sub Mul mul wrapping_mul Div div wrapping_add }
impl AddAssign for D { fn add_assign(&mut self, r: D) { self.v = self.v.wrapping_add(r.v) } }
impl SubAssign for D { fn sub_assign(&mut self, r: D) { self.v = self.v.wrapping_sub(r.v) } }
impl MulAssign for D { fn mul_assign(&mut self, r: D) { self.v = self.v.wrapping_mul(r.v) } }
impl DivAssign for D { fn div_assign(&mut self, r: D) { self.v = self.v ^ r.v } }
impl Neg for D { type Output = D; fn neg(self) -> D { D::new(self.v.wrapping_neg()) } }
impl Zero for D { fn zero() -> D { D::new(0) } fn is_zero(&self) -> bool { self.v == 0 } }
impl One for D { fn one() -> D { D::new(1) } }

// ---------------------------------------------------------------- Q: irreflexive equality
/// Equality like a float's: values with the top bit set (NaN) equal nothing, not even themselves.
#[derive(Clone, Copy, Debug)]
pub struct Q(pub u8);
impl PartialEq for Q { fn eq(&self, o: &Q) -> bool { self.0 == o.0 && self.0 < 128 } }
/// A second type comparable with Q from the left.
#[derive(Clone, Copy, Debug)]
pub struct Q2(pub u8);
impl PartialEq<Q2> for Q { fn eq(&self, o: &Q2) -> bool { self.0.wrapping_add(1) == o.0 } }

// ---------------------------------------------------------------- Mf: a mock float
/// Ring operations modulo 256 with arbitrary `sqrt` and `/`: any law-abiding rewrite agrees with the
/// definition, a different formula does not.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub struct Mf(pub u8);
impl Mf {
    pub fn sq(x: u8) -> u8 { m3(x).rotate_left(3) ^ 0x6d }
    pub fn dv(a: u8, b: u8) -> u8 { Op::div_(a, b) }
}
impl Add for Mf { type Output = Mf; fn add(self, r: Mf) -> Mf { Mf(self.0.wrapping_add(r.0)) } }
impl Sub for Mf { type Output = Mf; fn sub(self, r: Mf) -> Mf { Mf(self.0.wrapping_sub(r.0)) } }
impl Mul for Mf { type Output = Mf; fn mul(self, r: Mf) -> Mf { Mf(self.0.wrapping_mul(r.0)) } }
impl Div for Mf { type Output = Mf; fn div(self, r: Mf) -> Mf { Mf(Mf::dv(self.0, r.0)) } }
impl Rem for Mf { type Output = Mf; fn rem(self, _: Mf) -> Mf { unimplemented!() } }
impl Neg for Mf { type Output = Mf; fn neg(self) -> Mf { Mf(self.0.wrapping_neg()) } }
impl Zero for Mf { fn zero() -> Mf { Mf(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Mf { fn one() -> Mf { Mf(1) } }
impl Num for Mf { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Mf, ()> { Err(()) } }
impl ToPrimitive for Mf { fn to_i64(&self) -> Option<i64> { None } fn to_u64(&self) -> Option<u64> { None } }
impl NumCast for Mf { fn from<T: ToPrimitive>(_: T) -> Option<Mf> { None } }
macro_rules! mf_todo {
    (c: $($c:ident)*; u: $($u:ident)*; b: $($b:ident)*; p: $($p:ident)*) => {
        $( fn $c() -> Mf { unimplemented!() } )*
        $( fn $u(self) -> Mf { unimplemented!() } )*
        $( fn $b(self, _: Mf) -> Mf { unimplemented!() } )*
        $( fn $p(self) -> bool { unimplemented!() } )*
    };
}
impl num::Float for Mf {
    mf_todo! {
        c: nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon;
        u: floor ceil round trunc fract abs signum recip exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan
           exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
        b: powf log max min abs_sub hypot atan2;
        p: is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative
    }
    fn classify(self) -> std::num::FpCategory { unimplemented!() }
    fn mul_add(self, a: Mf, b: Mf) -> Mf { self * a + b }
    fn powi(self, n: i32) -> Mf {
        assert!(n >= 0 && n <= 4);
        let mut r = Mf(1); let mut i = 0; while i < n { r = r * self; i += 1 } r
    }
    fn sqrt(self) -> Mf { Mf(Mf::sq(self.0)) }
    fn sin_cos(self) -> (Mf, Mf) { unimplemented!() }
    fn integer_decode(self) -> (u64, i16, i8) { unimplemented!() }
}
