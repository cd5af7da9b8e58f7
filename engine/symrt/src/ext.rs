//! Glue for the crates the code under test hands floats to: json, bytes; and a deterministic HashMap.
use crate::sym::{boxed, unboxed, Sym};
use json::{number::Number, JsonValue};

const HANDLE_EXP: i16 = 7777;

impl From<Sym> for JsonValue {
    fn from(s: Sym) -> JsonValue {
        match s {
            Sym::C(a) => JsonValue::from(a),
            Sym::T(t) => JsonValue::Number(unsafe { Number::from_parts_unchecked(true, t as u64 * 10 + 1, HANDLE_EXP) }),
        }
    }
}
pub trait JsonExt {
    fn as_sym(&self) -> Option<Sym>;
}
impl JsonExt for JsonValue {
    fn as_sym(&self) -> Option<Sym> {
        if let Some(n) = self.as_number() {
            let (pos, m, e) = n.as_parts();
            if e == HANDLE_EXP && pos {
                return Some(Sym::T((m / 10) as u32));
            }
        }
        self.as_f64().map(Sym::C)
    }
}

pub trait PutExt {
    fn put_sym(&mut self, s: Sym);
    fn put_sym_le(&mut self, s: Sym);
}
impl<B: bytes::BufMut> PutExt for B {
    fn put_sym(&mut self, s: Sym) {
        self.put_u64(boxed(s))
    }
    fn put_sym_le(&mut self, s: Sym) {
        self.put_u64_le(boxed(s))
    }
}
pub trait GetExt {
    fn get_sym(&mut self) -> Sym;
    fn get_sym_le(&mut self) -> Sym;
}
impl<B: bytes::Buf> GetExt for B {
    fn get_sym(&mut self) -> Sym {
        unboxed(self.get_u64())
    }
    fn get_sym_le(&mut self) -> Sym {
        unboxed(self.get_u64_le())
    }
}

/// `std::collections` with hash containers whose iteration order is a function of the path (std seeds them
/// randomly per process, which re-execution could not follow).
pub mod coll {
    pub use std::collections::*;
    pub mod hash_map {
        pub use super::HashMap;
        pub use std::collections::hash_map::{DefaultHasher, Entry, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut};
    }
    pub mod hash_set {
        pub use super::HashSet;
    }
    use std::collections as sc;
    use std::hash::{BuildHasher, Hash};
    use std::ops::{Deref, DerefMut};

    /// every container hashes in its own way, as with std, but the n-th one on a path always in the same way
    #[derive(Clone)]
    pub struct Det(u32);
    impl Default for Det {
        fn default() -> Self {
            Det(crate::engine::next_seed())
        }
    }
    impl BuildHasher for Det {
        type Hasher = sc::hash_map::DefaultHasher;
        fn build_hasher(&self) -> Self::Hasher {
            let mut h = sc::hash_map::DefaultHasher::new();
            std::hash::Hasher::write_u32(&mut h, self.0);
            h
        }
    }
    #[derive(Clone)]
    pub struct HashMap<K, V>(sc::HashMap<K, V, Det>);
    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self {
            HashMap(sc::HashMap::with_hasher(Det::default()))
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
        pub fn into_keys(self) -> impl Iterator<Item = K> {
            self.0.into_keys()
        }
        pub fn into_values(self) -> impl Iterator<Item = V> {
            self.0.into_values()
        }
    }
    impl<K, V> Default for HashMap<K, V> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K, V> Deref for HashMap<K, V> {
        type Target = sc::HashMap<K, V, Det>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K, V> DerefMut for HashMap<K, V> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
            HashMap(i.into_iter().collect())
        }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<K, V> IntoIterator for HashMap<K, V> {
        type Item = (K, V);
        type IntoIter = sc::hash_map::IntoIter<K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = sc::hash_map::Iter<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = sc::hash_map::IterMut<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter_mut()
        }
    }
    impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for HashMap<K, V> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
    impl<K, Q: ?Sized + Eq + Hash, V> std::ops::Index<&Q> for HashMap<K, V>
    where
        K: Eq + Hash + std::borrow::Borrow<Q>,
    {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            self.0.index(k)
        }
    }

    #[derive(Clone)]
    pub struct HashSet<K>(sc::HashSet<K, Det>);
    impl<K> HashSet<K> {
        pub fn new() -> Self {
            HashSet(sc::HashSet::with_hasher(Det::default()))
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }
    impl<K> Default for HashSet<K> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K> Deref for HashSet<K> {
        type Target = sc::HashSet<K, Det>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K> DerefMut for HashSet<K> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K: Eq + Hash> FromIterator<K> for HashSet<K> {
        fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
            HashSet(i.into_iter().collect())
        }
    }
    impl<K: Eq + Hash> Extend<K> for HashSet<K> {
        fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<K> IntoIterator for HashSet<K> {
        type Item = K;
        type IntoIter = sc::hash_set::IntoIter<K>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, K> IntoIterator for &'a HashSet<K> {
        type Item = &'a K;
        type IntoIter = sc::hash_set::Iter<'a, K>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<K: std::fmt::Debug> std::fmt::Debug for HashSet<K> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<K: Eq + Hash> PartialEq for HashSet<K> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
}
