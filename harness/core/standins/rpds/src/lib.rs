//! A stand-in for rpds: persistent by cloning the whole map when it is changed while shared.
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;

pub struct RedBlackTreeMap<K, V>(Arc<BTreeMap<K, V>>);
pub type RedBlackTreeMapSync<K, V> = RedBlackTreeMap<K, V>;
pub type HashTrieMap<K, V> = RedBlackTreeMap<K, V>;
pub type HashTrieMapSync<K, V> = RedBlackTreeMap<K, V>;

impl<K, V> Clone for RedBlackTreeMap<K, V> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<K, V> Default for RedBlackTreeMap<K, V> {
    fn default() -> Self {
        Self(Arc::default())
    }
}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for RedBlackTreeMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Ord, V: PartialEq> PartialEq for RedBlackTreeMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Ord, V> RedBlackTreeMap<K, V> {
    pub fn new_sync() -> Self {
        Self::default()
    }
    pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.0.get(k)
    }
    pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k)
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::collections::btree_map::Iter<'_, K, V> {
        self.0.iter()
    }
    pub fn keys(&self) -> std::collections::btree_map::Keys<'_, K, V> {
        self.0.keys()
    }
    pub fn values(&self) -> std::collections::btree_map::Values<'_, K, V> {
        self.0.values()
    }
    pub fn first(&self) -> Option<(&K, &V)> {
        self.0.first_key_value()
    }
    pub fn last(&self) -> Option<(&K, &V)> {
        self.0.last_key_value()
    }
}
impl<K: Ord + Clone, V: Clone> RedBlackTreeMap<K, V> {
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        if !self.0.contains_key(k) {
            return None;
        }
        Arc::make_mut(&mut self.0).get_mut(k)
    }
    pub fn insert_mut(&mut self, k: K, v: V) {
        Arc::make_mut(&mut self.0).insert(k, v);
    }
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut m = self.clone();
        m.insert_mut(k, v);
        m
    }
    pub fn remove_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k) && Arc::make_mut(&mut self.0).remove(k).is_some()
    }
    pub fn remove<Q: Ord + ?Sized>(&self, k: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut m = self.clone();
        m.remove_mut(k);
        m
    }
}
impl<'a, K: Ord, V> IntoIterator for &'a RedBlackTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::collections::btree_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<K: Ord + Clone, V: Clone> FromIterator<(K, V)> for RedBlackTreeMap<K, V> {
    fn from_iter<T: IntoIterator<Item = (K, V)>>(t: T) -> Self {
        Self(Arc::new(t.into_iter().collect()))
    }
}
impl<K: std::hash::Hash, V: std::hash::Hash> std::hash::Hash for RedBlackTreeMap<K, V> {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.0.hash(state)
    }
}
