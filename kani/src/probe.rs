//! Does `V: Index<I>` (`IndexMut<I>`) hold? Decided by the type checker while this crate compiles.
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};
pub struct Probe<V, I>(pub PhantomData<(V, I)>);
pub trait Yes { fn reads(&self) -> bool { true } }
impl<V: Index<I>, I> Yes for Probe<V, I> {}
pub trait No { fn reads(&self) -> bool { false } }
impl<V, I> No for &Probe<V, I> {}
pub trait YesMut { fn writes(&self) -> bool { true } }
impl<V: IndexMut<I>, I> YesMut for Probe<V, I> {}
pub trait NoMut { fn writes(&self) -> bool { false } }
impl<V, I> NoMut for &Probe<V, I> {}
