use siphasher::sip128::{Hasher128, SipHasher13};
use std::hash::{Hash, Hasher};
use std::ops::{Deref, DerefMut};

pub fn hash128<T: Hash + ?Sized>(value: &T) -> u128 {
    let mut state = SipHasher13::new();
    value.hash(&mut state);
    state.finish128().as_u128()
}
pub fn round_with_precision(value: f64, precision: i16) -> f64 {
    let f = 10f64.powi(precision as i32);
    (value * f).round() / f
}

#[derive(Clone, Default)]
pub struct LazyHash<T: ?Sized> {
    hash: std::marker::PhantomData<u128>,
    value: T,
}
impl<T> LazyHash<T> {
    pub fn new(value: T) -> Self {
        Self { hash: Default::default(), value }
    }
    pub fn into_inner(self) -> T {
        self.value
    }
}
impl<T> From<T> for LazyHash<T> {
    fn from(value: T) -> Self {
        Self::new(value)
    }
}
impl<T: Hash + ?Sized + 'static> Hash for LazyHash<T> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u128(hash128(&self.value));
    }
}
impl<T: Hash + ?Sized + 'static> Eq for LazyHash<T> {}
impl<T: Hash + ?Sized + 'static> PartialEq for LazyHash<T> {
    fn eq(&self, other: &Self) -> bool {
        hash128(&self.value) == hash128(&other.value)
    }
}
impl<T: ?Sized> Deref for LazyHash<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.value
    }
}
impl<T: ?Sized> DerefMut for LazyHash<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.value
    }
}
impl<T: std::fmt::Debug + ?Sized> std::fmt::Debug for LazyHash<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.value.fmt(f)
    }
}

pub trait OptionExt<T> {
    fn map_or_default<U: Default, F: FnOnce(T) -> U>(self, f: F) -> U;
}
impl<T> OptionExt<T> for Option<T> {
    fn map_or_default<U: Default, F: FnOnce(T) -> U>(self, f: F) -> U {
        self.map(f).unwrap_or_default()
    }
}
