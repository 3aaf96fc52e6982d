#![no_std]
extern crate alloc;
use alloc::{boxed::Box, vec::Vec};
use core::borrow::Borrow;
use core::cell::UnsafeCell;
use core::hash::Hash;

pub struct HashMap<K, V> {
    // boxed keys: references handed out by get_key stay valid across insertions
    items: UnsafeCell<Vec<(Box<K>, V)>>,
    capacity: usize,
}
unsafe impl<K, V> Send for HashMap<K, V> {}
unsafe impl<K, V> Sync for HashMap<K, V> {}

impl<K: Hash + Eq, V: Copy> HashMap<K, V> {
    pub fn with_capacity(capacity: usize) -> Self {
        assert!(i16::try_from(capacity).is_ok());
        Self { items: UnsafeCell::new(Vec::new()), capacity }
    }
    fn list(&self) -> &Vec<(Box<K>, V)> {
        unsafe { &*self.items.get() }
    }
    pub fn insert(&self, key: K, value: V) -> bool {
        if self.list().len() >= self.capacity || self.get::<K>(&key).is_some() {
            return false;
        }
        unsafe { (*self.items.get()).push((Box::new(key), value)) };
        true
    }
    pub fn get<Q: ?Sized>(&self, key: &Q) -> Option<V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        for (k, v) in self.list() {
            if key == (**k).borrow() {
                return Some(*v);
            }
        }
        None
    }
    pub fn contains_key<Q: ?Sized>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.get(key).is_some()
    }
    pub fn get_key(&self, index: usize) -> Option<&K> {
        self.list().get(index).map(|e| &*e.0)
    }
    pub fn len(&self) -> usize {
        self.list().len()
    }
    pub fn update<Q: ?Sized>(&self, key: &Q, value: V) -> Option<V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.fetch_update(key, |_| Some(value))
    }
    pub fn fetch_update<Q: ?Sized, F>(&self, key: &Q, mut f: F) -> Option<V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
        F: FnMut(V) -> Option<V>,
    {
        let l = unsafe { &mut *self.items.get() };
        for (k, v) in l.iter_mut() {
            if key == (**k).borrow() {
                let old = *v;
                *v = f(old)?;
                return Some(old);
            }
        }
        None
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { map: self, index: 0 }
    }
}

impl<'map, K: Hash + Eq, V: Copy> IntoIterator for &'map HashMap<K, V> {
    type Item = (&'map K, V);
    type IntoIter = Iter<'map, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

pub struct Iter<'map, K, V> {
    map: &'map HashMap<K, V>,
    index: usize,
}

impl<'map, K: Hash + Eq, V: Copy> Iterator for Iter<'map, K, V> {
    type Item = (&'map K, V);
    fn next(&mut self) -> Option<Self::Item> {
        let e = self.map.list().get(self.index)?;
        self.index += 1;
        Some((&*e.0, e.1))
    }
}

impl<K: Hash + Eq + Clone, V: Copy> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        Self { items: UnsafeCell::new(self.list().clone()), capacity: self.capacity }
    }
}
impl<K: Hash + Eq, V: Copy> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::with_capacity(64)
    }
}
