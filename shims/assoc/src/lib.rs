//! Association lists with the interface of hash maps, hash sets and bidirectional maps: symbolic
//! execution does not get through real hash tables. Iteration is in order of insertion, except
//! that a removal moves the last entry into the gap.
use std::borrow::Borrow;
use std::ops::Index;

#[derive(Clone, Debug)]
pub struct HashMap<K, V> {
    items: Vec<(K, V)>,
}

impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        HashMap { items: Vec::new() }
    }
}

impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k) == Some(v))
    }
}
impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}

impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap { items: Vec::with_capacity(n) }
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter(self.items.iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut(self.items.iter_mut())
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ {
        self.items.iter().map(|x| &x.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ {
        self.items.iter().map(|x| &x.1)
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
        self.items.iter_mut().map(|x| &mut x.1)
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.items.into_iter().map(|x| x.0)
    }
    pub fn into_values(self) -> impl Iterator<Item = V> {
        self.items.into_iter().map(|x| x.1)
    }
    pub fn drain(&mut self) -> std::vec::Drain<'_, (K, V)> {
        self.items.drain(..)
    }
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
        self.items.retain_mut(|x| f(&x.0, &mut x.1))
    }
}

impl<K: Eq, V> HashMap<K, V> {
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.items.len() {
            if self.items[i].0.borrow() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
            None => {
                self.items.push((k, v));
                None
            }
        }
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &self.items[i].1)
    }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => Some(&mut self.items[i].1),
            None => None,
        }
    }
    pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| (&self.items[i].0, &self.items[i].1))
    }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| self.items.swap_remove(i).1)
    }
    pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| self.items.swap_remove(i))
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.find(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { map: self, i }),
            None => Entry::Vacant(VacantEntry { map: self, k }),
        }
    }
}

pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    map: &'a mut HashMap<K, V>,
    i: usize,
}
pub struct VacantEntry<'a, K, V> {
    map: &'a mut HashMap<K, V>,
    k: K,
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V {
        &self.map.items[self.i].1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.map.items[self.i].1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.map.items[self.i].1
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> &'a mut V {
        self.map.items.push((self.k, v));
        let n = self.map.items.len() - 1;
        &mut self.map.items[n].1
    }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(e) => e.insert(v),
        }
    }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut());
        }
        self
    }
}

#[derive(Clone)]
pub struct Iter<'a, K, V>(std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some(x) => Some((&x.0, &x.1)),
            None => None,
        }
    }
}
pub struct IterMut<'a, K, V>(std::slice::IterMut<'a, (K, V)>);
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some(x) => Some((&x.0, &mut x.1)),
            None => None,
        }
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.items.into_iter()
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}

#[derive(Clone, Debug)]
pub struct HashSet<K> {
    items: Vec<K>,
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        HashSet { items: Vec::new() }
    }
}
impl<K: Eq> PartialEq for HashSet<K> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|k| o.contains(k))
    }
}
impl<K: Eq> Eq for HashSet<K> {}
impl<K> HashSet<K> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet { items: Vec::with_capacity(n) }
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, K> {
        self.items.iter()
    }
    pub fn drain(&mut self) -> std::vec::Drain<'_, K> {
        self.items.drain(..)
    }
    pub fn retain(&mut self, f: impl FnMut(&K) -> bool) {
        self.items.retain(f)
    }
}
impl<K: Eq> HashSet<K> {
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.items.len() {
            if self.items[i].borrow() == k {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn insert(&mut self, k: K) -> bool {
        if self.find(&k).is_some() {
            return false;
        }
        self.items.push(k);
        true
    }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&K>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &self.items[i])
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => {
                self.items.swap_remove(i);
                true
            }
            None => false,
        }
    }
    pub fn take<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<K>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| self.items.swap_remove(i))
    }
    pub fn difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> + 'a {
        self.items.iter().filter(move |k| !o.contains(*k))
    }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> + 'a {
        self.items.iter().filter(move |k| o.contains(*k))
    }
    pub fn union<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> + 'a {
        self.items.iter().chain(o.difference(self))
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> + 'a {
        self.difference(o).chain(o.difference(self))
    }
    pub fn is_subset(&self, o: &Self) -> bool {
        self.iter().all(|k| o.contains(k))
    }
    pub fn is_disjoint(&self, o: &Self) -> bool {
        self.iter().all(|k| !o.contains(k))
    }
}
impl<K> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = std::vec::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        self.items.into_iter()
    }
}
impl<'a, K> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = std::slice::Iter<'a, K>;
    fn into_iter(self) -> Self::IntoIter {
        self.items.iter()
    }
}
impl<K: Eq> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<K: Eq> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
        for k in it {
            self.insert(k);
        }
    }
}
impl<'a, K: Eq + Copy + 'a> Extend<&'a K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = &'a K>>(&mut self, it: I) {
        for k in it {
            self.insert(*k);
        }
    }
}

#[derive(Clone, Debug)]
pub struct BiMap<L, R> {
    items: Vec<(L, R)>,
}
impl<L, R> Default for BiMap<L, R> {
    fn default() -> Self {
        BiMap { items: Vec::new() }
    }
}
impl<L, R> BiMap<L, R> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn iter(&self) -> Iter<'_, L, R> {
        Iter(self.items.iter())
    }
    pub fn left_values(&self) -> impl Iterator<Item = &L> + '_ {
        self.items.iter().map(|x| &x.0)
    }
    pub fn right_values(&self) -> impl Iterator<Item = &R> + '_ {
        self.items.iter().map(|x| &x.1)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Overwritten<L, R> {
    Neither,
    Some(Vec<(L, R)>),
}
impl<L: Eq, R: Eq> BiMap<L, R> {
    fn find_left(&self, l: &L) -> Option<usize> {
        let mut i = 0;
        while i < self.items.len() {
            if self.items[i].0 == *l {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn find_right(&self, r: &R) -> Option<usize> {
        let mut i = 0;
        while i < self.items.len() {
            if self.items[i].1 == *r {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn insert(&mut self, l: L, r: R) -> Overwritten<L, R> {
        let mut gone = vec![];
        if let Some(i) = self.find_left(&l) {
            gone.push(self.items.swap_remove(i));
        }
        if let Some(i) = self.find_right(&r) {
            gone.push(self.items.swap_remove(i));
        }
        self.items.push((l, r));
        if gone.is_empty() {
            Overwritten::Neither
        } else {
            Overwritten::Some(gone)
        }
    }
    pub fn insert_no_overwrite(&mut self, l: L, r: R) -> Result<(), (L, R)> {
        if self.find_left(&l).is_some() || self.find_right(&r).is_some() {
            return Err((l, r));
        }
        self.items.push((l, r));
        Ok(())
    }
    pub fn get_by_left(&self, l: &L) -> Option<&R> {
        self.find_left(l).map(|i| &self.items[i].1)
    }
    pub fn get_by_right(&self, r: &R) -> Option<&L> {
        self.find_right(r).map(|i| &self.items[i].0)
    }
    pub fn contains_left(&self, l: &L) -> bool {
        self.find_left(l).is_some()
    }
    pub fn contains_right(&self, r: &R) -> bool {
        self.find_right(r).is_some()
    }
    pub fn remove_by_left(&mut self, l: &L) -> Option<(L, R)> {
        self.find_left(l).map(|i| self.items.swap_remove(i))
    }
    pub fn remove_by_right(&mut self, r: &R) -> Option<(L, R)> {
        self.find_right(r).map(|i| self.items.swap_remove(i))
    }
}
impl<L: Eq, R: Eq> FromIterator<(L, R)> for BiMap<L, R> {
    fn from_iter<I: IntoIterator<Item = (L, R)>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<L: Eq, R: Eq> Extend<(L, R)> for BiMap<L, R> {
    fn extend<I: IntoIterator<Item = (L, R)>>(&mut self, it: I) {
        for (l, r) in it {
            self.insert(l, r);
        }
    }
}
impl<L, R> IntoIterator for BiMap<L, R> {
    type Item = (L, R);
    type IntoIter = std::vec::IntoIter<(L, R)>;
    fn into_iter(self) -> Self::IntoIter {
        self.items.into_iter()
    }
}
impl<'a, L, R> IntoIterator for &'a BiMap<L, R> {
    type Item = (&'a L, &'a R);
    type IntoIter = Iter<'a, L, R>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl<K, V> serde::Serialize for HashMap<K, V> {
    fn serialize<Z: serde::Serializer>(&self, _z: Z) -> Result<Z::Ok, Z::Error> {
        unimplemented!()
    }
}
impl<'de, K, V> serde::Deserialize<'de> for HashMap<K, V> {
    fn deserialize<Z: serde::Deserializer<'de>>(_z: Z) -> Result<Self, Z::Error> {
        unimplemented!()
    }
}
