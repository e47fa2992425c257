//! Stand-in for `elsa::FrozenMap`: an append-only map handing out references to what its values point to.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::Hash;
use std::ops::Deref;

/// Types whose target stays in place when they are moved.
pub trait StableDeref: Deref {}
impl<T> StableDeref for Vec<T> {}
impl<T: ?Sized> StableDeref for Box<T> {}
impl<T: ?Sized> StableDeref for std::sync::Arc<T> {}
impl<T: ?Sized> StableDeref for std::rc::Rc<T> {}

pub struct FrozenMap<K, V> {
    map: RefCell<HashMap<K, V>>,
}
impl<K, V> Default for FrozenMap<K, V> {
    fn default() -> Self {
        Self { map: RefCell::new(HashMap::new()) }
    }
}
impl<K: Clone, V: Clone> Clone for FrozenMap<K, V> {
    fn clone(&self) -> Self {
        Self { map: self.map.clone() }
    }
}
impl<K: Eq + Hash, V> FrozenMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn map_get<T>(&self, k: &K, f: impl FnOnce(&V) -> T) -> Option<T> {
        self.map.borrow().get(k).map(f)
    }
    pub fn as_mut(&mut self) -> &mut HashMap<K, V> {
        self.map.get_mut()
    }
    pub fn keys_cloned(&self) -> Vec<K>
    where
        K: Clone,
    {
        self.map.borrow().keys().cloned().collect()
    }
    pub fn into_map(self) -> HashMap<K, V> {
        self.map.into_inner()
    }
    pub fn len(&self) -> usize {
        self.map.borrow().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<K: Eq + Hash, V: StableDeref> FrozenMap<K, V> {
    /// If the key is present already, the present value stays.
    pub fn insert(&self, k: K, v: V) -> &V::Target {
        let mut map = self.map.borrow_mut();
        let p: *const V::Target = &**map.entry(k).or_insert(v);
        unsafe { &*p } // entries are never removed or replaced, and the target does not move
    }
    pub fn insert_with(&self, k: K, f: impl FnOnce() -> V) -> &V::Target {
        let v = f();
        self.insert(k, v)
    }
    pub fn get(&self, k: &K) -> Option<&V::Target> {
        let map = self.map.borrow();
        map.get(k).map(|v| {
            let p: *const V::Target = &**v;
            unsafe { &*p }
        })
    }
}
