//! Hash containers with a fixed iteration order, so that a path can be re-executed.
pub use std::collections::*;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasherDefault, Hash};
use std::ops::{Deref, DerefMut};

type Fix = BuildHasherDefault<DefaultHasher>;

#[derive(Clone)]
pub struct HashSet<T>(std::collections::HashSet<T, Fix>);
impl<T: Eq + Hash> HashSet<T> {
    pub fn new() -> Self { HashSet(Default::default()) }
    pub fn with_capacity(n: usize) -> Self { HashSet(std::collections::HashSet::with_capacity_and_hasher(n, Default::default())) }
}
impl<T: Eq + Hash> Default for HashSet<T> { fn default() -> Self { Self::new() } }
impl<T> Deref for HashSet<T> { type Target = std::collections::HashSet<T, Fix>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<T> DerefMut for HashSet<T> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
impl<T: std::fmt::Debug> std::fmt::Debug for HashSet<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl<T: Eq + Hash> PartialEq for HashSet<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Eq + Hash> Eq for HashSet<T> {}
impl<T: Eq + Hash> std::iter::FromIterator<T> for HashSet<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { HashSet(i.into_iter().collect()) } }
impl<T: Eq + Hash> Extend<T> for HashSet<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { self.0.extend(i) } }
impl<'a, T: Eq + Hash + Copy + 'a> Extend<&'a T> for HashSet<T> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { self.0.extend(i) } }
impl<T> IntoIterator for HashSet<T> { type Item = T; type IntoIter = std::collections::hash_set::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T> IntoIterator for &'a HashSet<T> { type Item = &'a T; type IntoIter = std::collections::hash_set::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
macro_rules! set_op { ($tr:ident, $m:ident, $f:ident) => {
    impl<'a, 'b, T: Eq + Hash + Clone> std::ops::$tr<&'b HashSet<T>> for &'a HashSet<T> { type Output = HashSet<T>; fn $m(self, o: &'b HashSet<T>) -> HashSet<T> { self.0.$f(&o.0).cloned().collect() } }
} }
set_op!(BitAnd, bitand, intersection);
set_op!(BitOr, bitor, union);
set_op!(BitXor, bitxor, symmetric_difference);
set_op!(Sub, sub, difference);
// `use std::borrow::BorrowMut` in the code under test makes `.borrow_mut()` an ordinary identity call on these.

#[derive(Clone)]
pub struct HashMap<K, V>(std::collections::HashMap<K, V, Fix>);
impl<K: Eq + Hash, V> HashMap<K, V> {
    pub fn new() -> Self { HashMap(Default::default()) }
    pub fn with_capacity(n: usize) -> Self { HashMap(std::collections::HashMap::with_capacity_and_hasher(n, Default::default())) }
}
impl<K: Eq + Hash, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
impl<K, V> Deref for HashMap<K, V> { type Target = std::collections::HashMap<K, V, Fix>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<K, V> DerefMut for HashMap<K, V> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for HashMap<K, V> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq + Hash, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { HashMap(i.into_iter().collect()) } }
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { self.0.extend(i) } }
impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = std::collections::hash_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = std::collections::hash_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V> std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, q: &Q) -> &V { &self.0[q] } }
