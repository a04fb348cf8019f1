//! Stand-in: the concurrent map of dashmap under the harness scheduler.  One
//! lock for the whole map (dashmap: one per shard), entries in order of insertion.
use sched::Held;
use std::{cell::UnsafeCell, fmt, ops::{Deref, DerefMut}};
pub struct DashMap<K, V> { h: UnsafeCell<Held>, v: UnsafeCell<Vec<Box<(K, V)>>> }
unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Sync for DashMap<K, V> {}
impl<K: Eq, V> Default for DashMap<K, V> { fn default() -> Self { Self::new() } }
impl<K, V> fmt::Debug for DashMap<K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("DashMap") } }
struct R<'a, K, V>(&'a DashMap<K, V>);
struct W<'a, K, V>(&'a DashMap<K, V>);
impl<K, V> Drop for R<'_, K, V> { fn drop(&mut self) { unsafe { (*self.0.h.get()).readers -= 1 } } }
impl<K, V> Drop for W<'_, K, V> { fn drop(&mut self) { unsafe { (*self.0.h.get()).writer = false } } }
#[allow(clippy::mut_from_ref)]
impl<K, V> DashMap<K, V> {
    fn r(&self) -> R<'_, K, V> { sched::point(); unsafe { (*self.h.get()).read() }; R(self) }
    fn w(&self) -> W<'_, K, V> { sched::point(); unsafe { (*self.h.get()).lock() }; W(self) }
    fn d(&self) -> &mut Vec<Box<(K, V)>> { unsafe { &mut *self.v.get() } }
}
use std::borrow::Borrow;
impl<K: Eq, V> DashMap<K, V> {
    pub fn new() -> Self { DashMap { h: UnsafeCell::new(Held::new()), v: UnsafeCell::new(Vec::new()) } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    fn at<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> { self.d().iter().position(|e| e.0.borrow() == k) }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        let _g = self.w();
        match self.at(&k) { Some(i) => Some(std::mem::replace(&mut self.d()[i].1, v)), None => { self.d().push(Box::new((k, v))); None } }
    }
    pub fn remove<Q: Eq + ?Sized>(&self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { let _g = self.w(); self.at(k).map(|i| *self.d().remove(i)) }
    pub fn contains_key<Q: Eq + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> { let _g = self.r(); self.at(k).is_some() }
    pub fn get<'a, Q: Eq + ?Sized>(&'a self, k: &Q) -> Option<mapref::one::Ref<'a, K, V>> where K: Borrow<Q> { let g = self.r(); self.at(k).map(|i| mapref::one::Ref { e: unsafe { &*(&**self.d().get_unchecked(i) as *const (K, V)) }, _g: g }) }
    pub fn get_mut<'a, Q: Eq + ?Sized>(&'a self, k: &Q) -> Option<mapref::one::RefMut<'a, K, V>> where K: Borrow<Q> { let g = self.w(); self.at(k).map(|i| mapref::one::RefMut { e: unsafe { &mut *(&mut *self.d()[i] as *mut (K, V)) }, _g: g }) }
    pub fn entry(&self, k: K) -> mapref::entry::Entry<'_, K, V> {
        let g = self.w();
        match self.at(&k) { Some(i) => mapref::entry::Entry::Occupied(mapref::entry::OccupiedEntry { i, k, g }), None => mapref::entry::Entry::Vacant(mapref::entry::VacantEntry { k, g }) }
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) { let _g = self.w(); self.d().retain_mut(|e| { let (k, v) = &mut **e; f(k, v) }) }
    pub fn iter(&self) -> impl Iterator<Item = mapref::multiple::RefMulti<'_, K, V>> + '_ { let n = self.d().len(); (0..n).map(move |i| { let g = self.r(); mapref::multiple::RefMulti { e: &self.d()[i], _g: g } }) }
    pub fn clear(&self) { let _g = self.w(); self.d().clear() }
    pub fn len(&self) -> usize { let _g = self.r(); self.d().len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
}
pub mod mapref {
    use super::*;
    pub mod one {
        use super::*;
        pub struct Ref<'a, K, V> { pub(crate) e: &'a (K, V), pub(crate) _g: R<'a, K, V> }
        impl<K, V> Ref<'_, K, V> { pub fn key(&self) -> &K { &self.e.0 } pub fn value(&self) -> &V { &self.e.1 } pub fn pair(&self) -> (&K, &V) { (&self.e.0, &self.e.1) } }
        impl<K, V> Deref for Ref<'_, K, V> { type Target = V; fn deref(&self) -> &V { &self.e.1 } }
        pub struct RefMut<'a, K, V> { pub(crate) e: &'a mut (K, V), pub(crate) _g: W<'a, K, V> }
        impl<K, V> RefMut<'_, K, V> { pub fn key(&self) -> &K { &self.e.0 } pub fn value(&self) -> &V { &self.e.1 } pub fn value_mut(&mut self) -> &mut V { &mut self.e.1 } }
        impl<K, V> Deref for RefMut<'_, K, V> { type Target = V; fn deref(&self) -> &V { &self.e.1 } }
        impl<K, V> DerefMut for RefMut<'_, K, V> { fn deref_mut(&mut self) -> &mut V { &mut self.e.1 } }
    }
    pub mod multiple {
        use super::*;
        pub struct RefMulti<'a, K, V> { pub(crate) e: &'a (K, V), pub(crate) _g: R<'a, K, V> }
        impl<K, V> RefMulti<'_, K, V> { pub fn key(&self) -> &K { &self.e.0 } pub fn value(&self) -> &V { &self.e.1 } pub fn pair(&self) -> (&K, &V) { (&self.e.0, &self.e.1) } }
        impl<K, V> Deref for RefMulti<'_, K, V> { type Target = V; fn deref(&self) -> &V { &self.e.1 } }
    }
    pub mod entry {
        use super::*;
        pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
        pub struct OccupiedEntry<'a, K, V> { pub(crate) i: usize, pub(crate) k: K, pub(crate) g: W<'a, K, V> }
        pub struct VacantEntry<'a, K, V> { pub(crate) k: K, pub(crate) g: W<'a, K, V> }
        impl<'a, K: Eq, V> OccupiedEntry<'a, K, V> {
            pub fn key(&self) -> &K { &self.k }
            pub fn get(&self) -> &V { &self.g.0.d()[self.i].1 }
            pub fn get_mut(&mut self) -> &mut V { &mut self.g.0.d()[self.i].1 }
            pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.get_mut(), v) }
            pub fn remove(self) -> V { self.g.0.d().remove(self.i).1 }
            pub fn into_ref(self) -> one::RefMut<'a, K, V> { let e = unsafe { &mut *(&mut *self.g.0.d()[self.i] as *mut (K, V)) }; one::RefMut { e, _g: self.g } }
        }
        impl<'a, K: Eq, V> VacantEntry<'a, K, V> {
            pub fn key(&self) -> &K { &self.k }
            pub fn insert(self, v: V) -> one::RefMut<'a, K, V> {
                let d = self.g.0.d();
                d.push(Box::new((self.k, v)));
                let e = unsafe { &mut *(&mut **d.last_mut().unwrap() as *mut (K, V)) };
                one::RefMut { e, _g: self.g }
            }
        }
        impl<'a, K: Eq, V> Entry<'a, K, V> {
            pub fn or_insert_with(self, f: impl FnOnce() -> V) -> one::RefMut<'a, K, V> { match self { Entry::Occupied(o) => o.into_ref(), Entry::Vacant(v) => v.insert(f()) } }
            pub fn or_insert(self, x: V) -> one::RefMut<'a, K, V> { self.or_insert_with(|| x) }
            pub fn or_default(self) -> one::RefMut<'a, K, V> where V: Default { self.or_insert_with(V::default) }
            pub fn and_modify(self, f: impl FnOnce(&mut V)) -> Self { match self { Entry::Occupied(mut o) => { f(o.get_mut()); Entry::Occupied(o) } v => v } }
        }
    }
}
