//! Non-deterministic values: symbolic under Kani, read from a replay file natively.
#[cfg(kani)]
pub fn any<T: kani::Arbitrary>() -> T { kani::any() }
#[cfg(kani)]
pub fn assume(c: bool) { kani::assume(c) }
/// Reached only if a call that had to panic returned: a failure Kani does not class as a panic.
#[cfg(kani)]
pub fn escaped() -> ! { unsafe { let p: *const u8 = core::ptr::null(); let _v = core::ptr::read_volatile(p); } loop {} }

/// Stands in for `mem::uninitialized` under Kani: genuinely arbitrary contents (the real one
/// fills with 0x01 since Rust 1.60, which would hide reads of uninitialised elements).
#[cfg(kani)]
#[inline]
pub unsafe fn uninit<T>() -> T { core::mem::MaybeUninit::<T>::uninit().assume_init() }

#[cfg(not(kani))]
pub use native::*;
#[cfg(not(kani))]
mod native {
    use std::cell::{Cell, RefCell};
    use std::collections::VecDeque;
    thread_local! {
        pub static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
        /// Non-zero: values are drawn pseudo-randomly instead of read from the arguments.
        pub static RNG: Cell<u64> = Cell::new(0);
        /// The values handed out so far.
        pub static LOG: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
    }
    /// Thrown when a random run does not meet a precondition.
    pub struct Unmet;
    pub fn random() -> bool { RNG.with(|r| r.get() != 0) }
    pub fn rnd() -> u64 { RNG.with(|r| {
        let mut x = r.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; r.set(x); x.wrapping_mul(0x2545f4914f6cdd1d)
    }) }
    /// The values handed out so far, as arguments of the replay binary.
    pub fn log() -> String {
        LOG.with(|l| l.borrow().iter().map(|v| if v.is_empty() { "-".to_string() } else { v.iter().map(|b| format!("{:02x}", b)).collect::<String>() }).collect::<Vec<_>>().join(" "))
    }
    pub trait Nd { fn nd(b: &[u8]) -> Self; fn draw() -> Vec<u8>; }
    macro_rules! ints { ($($t:ty)*) => { $( impl Nd for $t {
        fn nd(b: &[u8]) -> $t {
            let mut a = [0u8; std::mem::size_of::<$t>()];
            for (x, y) in a.iter_mut().zip(b) { *x = *y }
            <$t>::from_le_bytes(a)
        }
        fn draw() -> Vec<u8> {
            let n = std::mem::size_of::<$t>();
            match rnd() >> 60 {
                0..=8 => { let mut v = vec![0; n]; v[0] = (rnd() >> 56) as u8 % if n == 1 { 16 } else { 7 }; v }
                9 => vec![0xff; n],
                _ => (0..n).map(|_| (rnd() >> 56) as u8).collect(),
            }
        }
    } )* } }
    ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    impl Nd for bool {
        fn nd(b: &[u8]) -> bool { b.first().map_or(false, |x| x & 1 == 1) }
        fn draw() -> Vec<u8> { vec![(rnd() >> 63) as u8] }
    }
    pub fn any<T: Nd>() -> T {
        let v = if random() { T::draw() } else { VALS.with(|v| v.borrow_mut().pop_front().unwrap_or_default()) };
        LOG.with(|l| l.borrow_mut().push(v.clone()));
        T::nd(&v)
    }
    pub fn assume(c: bool) {
        if c { return }
        if random() { std::panic::resume_unwind(Box::new(Unmet)) }
        println!("REPLAY: assumption not met"); std::process::exit(77)
    }
    pub fn escaped() -> ! { println!("REPLAY: the call returned although it had to panic\nVALUES {}", log()); std::process::exit(42) }
    pub fn below(n: usize) -> usize {
        if random() {
            let i = (rnd() >> 8) as usize % n;
            LOG.with(|l| l.borrow_mut().push(i.to_le_bytes().to_vec()));
            return i
        }
        let i: usize = any(); assume(i < n); i
    }
}

pub fn arr<const N: usize>() -> [u8; N] { core::array::from_fn(|_| any::<u8>()) }
pub fn arr2<const R: usize, const C: usize>() -> [[u8; C]; R] { core::array::from_fn(|_| arr::<C>()) }
#[cfg(kani)]
pub fn below(n: usize) -> usize { let i: usize = any(); assume(i < n); i }
