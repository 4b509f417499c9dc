//! Contract model of `std::collections::HashMap` as an association list (bounded number of
//! entries; reaching the bound aborts the proof).
#![allow(dead_code)]
pub const ENTRIES: usize = 6;
#[derive(Debug)]
pub struct HashMap<K, V> {
    n: usize,
    k: [Option<K>; ENTRIES],
    v: [Option<V>; ENTRIES],
}
impl<K, V> HashMap<K, V> {
    pub const fn new() -> Self {
        Self { n: 0, k: [const { None }; ENTRIES], v: [const { None }; ENTRIES] }
    }
    pub fn len(&self) -> usize {
        self.n
    }
}
impl<K: PartialEq, V> HashMap<K, V> {
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let mut i = 0;
        while i < ENTRIES {
            if i < self.n && self.k[i].as_ref() == Some(&k) {
                return self.v[i].replace(v);
            }
            i += 1;
        }
        assert!(self.n < ENTRIES, "VERIF-LIMIT ghost map entries");
        self.k[self.n] = Some(k);
        self.v[self.n] = Some(v);
        self.n += 1;
        None
    }
    pub fn get<Q: ?Sized + PartialEq>(&self, k: &Q) -> Option<&V>
    where
        K: std::borrow::Borrow<Q>,
    {
        let mut i = 0;
        while i < ENTRIES {
            if i < self.n && self.k[i].as_ref().map(|x| x.borrow() == k) == Some(true) {
                return self.v[i].as_ref();
            }
            i += 1;
        }
        None
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.get(k).is_some()
    }
    pub fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        Self { n: self.n, k: self.k.clone(), v: self.v.clone() }
    }
}
impl<K: PartialEq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::new();
        m.extend(it);
        m
    }
}
impl<K, V> PartialEq for HashMap<K, V> {
    fn eq(&self, _: &Self) -> bool {
        panic!("VERIF-LIMIT comparison of ghost maps")
    }
}
impl<K, V> Eq for HashMap<K, V> {}
impl<K, V> serde::Serialize for HashMap<K, V> {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        panic!("VERIF-LIMIT serialisation of a ghost map")
    }
}
impl<'de, K, V> serde::Deserialize<'de> for HashMap<K, V> {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        panic!("VERIF-LIMIT deserialisation of a ghost map")
    }
}
impl<V> HashMap<String, V> {
    pub fn keys(&self) -> std::iter::Empty<&String> {
        panic!("VERIF-LIMIT keys of a ghost map")
    }
}
