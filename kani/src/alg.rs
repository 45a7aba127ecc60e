//! The definitions the determinant, cofactor and inverse are held against, on plain arrays.
use std::ops::*;
pub trait Ring: Copy + PartialEq + num::Zero + num::One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> {}
impl<T> Ring for T where T: Copy + PartialEq + num::Zero + num::One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Neg<Output = T> {}
pub fn det1<T: Ring>(a: &[[T; 1]; 1]) -> T { a[0][0] }
pub fn det2<T: Ring>(a: &[[T; 2]; 2]) -> T { a[0][0] * a[1][1] - a[0][1] * a[1][0] }
fn minor<T: Ring, const N: usize, const M: usize>(a: &[[T; N]; N], i: usize, j: usize) -> [[T; M]; M] {
    let mut b = [[T::zero(); M]; M];
    for p in 0..M { for q in 0..M { b[p][q] = a[if p < i { p } else { p + 1 }][if q < j { q } else { q + 1 }]; } }
    b
}
fn sgn<T: Ring>(i: usize, j: usize, x: T) -> T { if (i + j) % 2 == 0 { x } else { -x } }
pub fn cof2<T: Ring>(a: &[[T; 2]; 2], i: usize, j: usize) -> T { sgn(i, j, det1(&minor(a, i, j))) }
pub fn cof3<T: Ring>(a: &[[T; 3]; 3], i: usize, j: usize) -> T { sgn(i, j, det2(&minor(a, i, j))) }
pub fn det3<T: Ring>(a: &[[T; 3]; 3]) -> T { let mut s = T::zero(); for k in 0..3 { s = s + a[0][k] * cof3(a, 0, k); } s }
pub fn cof4<T: Ring>(a: &[[T; 4]; 4], i: usize, j: usize) -> T { sgn(i, j, det3(&minor(a, i, j))) }
pub fn det4<T: Ring>(a: &[[T; 4]; 4]) -> T { let mut s = T::zero(); for k in 0..4 { s = s + a[0][k] * cof4(a, 0, k); } s }
pub fn cof5<T: Ring>(a: &[[T; 5]; 5], i: usize, j: usize) -> T { sgn(i, j, det4(&minor(a, i, j))) }
pub fn det5<T: Ring>(a: &[[T; 5]; 5]) -> T { let mut s = T::zero(); for k in 0..5 { s = s + a[0][k] * cof5(a, 0, k); } s }
pub fn is_identity_product<T: Ring, const N: usize>(a: &[[T; N]; N], b: impl Fn(usize, usize) -> T) -> bool {
    let mut ok = true;
    for i in 0..N { for j in 0..N {
        let (mut s, mut t) = (T::zero(), T::zero());
        for k in 0..N { s = s + a[i][k] * b(k, j); t = t + b(i, k) * a[k][j]; }
        let e = if i == j { T::one() } else { T::zero() };
        ok &= s == e && t == e;
    } }
    ok
}
/// Laplace expansion at any size (executed scenarios only).
#[cfg(not(kani))]
pub fn det_n<T: Ring>(a: &[Vec<T>]) -> T {
    if a.is_empty() { return T::one() }
    let mut s = T::zero();
    for k in 0..a.len() {
        if a[0][k].is_zero() { continue }
        let m: Vec<Vec<T>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect()).collect();
        s = s + sgn(0, k, a[0][k] * det_n(&m));
    }
    s
}
#[cfg(not(kani))]
pub fn cof_n<T: Ring>(a: &[Vec<T>], i: usize, j: usize) -> T {
    let m: Vec<Vec<T>> = a.iter().enumerate().filter(|r| r.0 != i).map(|r| r.1.iter().enumerate().filter(|x| x.0 != j).map(|x| *x.1).collect()).collect();
    sgn(i, j, det_n(&m))
}
/// Matrices over a small field: every one when there are few enough, else a spread of dense, sparse,
/// permutation-like and rank-deficient ones.
#[cfg(not(kani))]
pub fn samples<const N: usize>(p: u8, count: usize, mut f: impl FnMut([[u8; N]; N])) {
    if p == 2 && N <= 4 {
        for c in 0..1u32 << (N * N) { f(core::array::from_fn(|i| core::array::from_fn(|j| (c >> (i * N + j) & 1) as u8))) }
        return
    }
    let mut s = 0x9e3779b97f4a7c15u64;
    let mut rnd = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s >> 33 };
    for c in 0..count {
        let zeros = [0, 30, 60, 80][c % 4];
        let mut a: [[u8; N]; N] = core::array::from_fn(|_| core::array::from_fn(|_| if rnd() % 100 < zeros { 0 } else { (rnd() % p as u64) as u8 }));
        match rnd() % 6 {
            0 => { let (i, j) = (rnd() as usize % N, rnd() as usize % N); a[i] = a[j]; }
            1 => { let i = rnd() as usize % N; for r in a.iter_mut() { r[i] = 0 } }
            2 => { // a scaled permutation, possibly with one more entry
                let mut q: [usize; N] = core::array::from_fn(|i| i);
                for i in (1..N).rev() { q.swap(i, rnd() as usize % (i + 1)); }
                let d: [u8; N] = core::array::from_fn(|_| 1 + (rnd() % (p as u64 - 1)) as u8);
                a = core::array::from_fn(|i| core::array::from_fn(|j| if q[i] == j { d[i] } else { 0 }));
                if rnd() % 2 == 0 { a[rnd() as usize % N][rnd() as usize % N] = 1; }
            }
            _ => {}
        }
        f(a)
    }
}
