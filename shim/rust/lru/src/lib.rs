//! Stand-in for `lru`: a least recently used map with the methods in use.
use std::{
    borrow::Borrow,
    collections::{BTreeMap, HashMap},
    hash::{BuildHasher, Hash},
    num::NonZeroUsize,
    rc::Rc,
};
pub type DefaultHasher = std::hash::RandomState;

struct Key<K>(Rc<K>);
impl<K: Hash> Hash for Key<K> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<K: PartialEq> PartialEq for Key<K> {
    fn eq(&self, o: &Self) -> bool {
        *self.0 == *o.0
    }
}
impl<K: Eq> Eq for Key<K> {}
#[derive(Hash, PartialEq, Eq)]
#[repr(transparent)]
struct Ref<Q: ?Sized>(Q);
impl<K: Borrow<Q>, Q: ?Sized> Borrow<Ref<Q>> for Key<K> {
    fn borrow(&self) -> &Ref<Q> {
        let q: &Q = (*self.0).borrow();
        unsafe { &*(q as *const Q as *const Ref<Q>) }
    }
}

pub struct LruCache<K, V, S = DefaultHasher> {
    map: HashMap<Key<K>, (V, u64), S>,
    order: BTreeMap<u64, Rc<K>>,
    cap: usize,
    tick: u64,
}
// the reference counted keys never leave the cache
unsafe impl<K: Send, V: Send, S: Send> Send for LruCache<K, V, S> {}

impl<K: Hash + Eq, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(cap: NonZeroUsize, hasher: S) -> Self {
        LruCache { map: HashMap::with_hasher(hasher), order: BTreeMap::new(), cap: cap.get(), tick: 0 }
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    fn touch<Q>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq + ?Sized,
    {
        let r = unsafe { &*(k as *const Q as *const Ref<Q>) };
        self.tick += 1;
        match self.map.get_mut(r) {
            None => false,
            Some(e) => {
                let key = self.order.remove(&e.1).unwrap();
                e.1 = self.tick;
                self.order.insert(self.tick, key);
                true
            }
        }
    }
    fn insert(&mut self, k: K, v: V) {
        if self.map.len() == self.cap {
            let (_, old) = self.order.pop_first().unwrap();
            self.map.remove(&Key(old));
        }
        self.tick += 1;
        let k = Rc::new(k);
        self.order.insert(self.tick, k.clone());
        self.map.insert(Key(k), (v, self.tick));
    }
    pub fn get_or_insert(&mut self, k: K, f: impl FnOnce() -> V) -> &V {
        if !self.touch(&k) {
            self.insert(k, f());
        }
        // the entry just touched or inserted is the most recent one
        let k = self.order.last_key_value().unwrap().1.clone();
        &self.map[&Key(k)].0
    }
    pub fn get_or_insert_ref<Q>(&mut self, k: &Q, f: impl FnOnce() -> V) -> &V
    where
        K: Borrow<Q>,
        Q: ToOwned<Owned = K> + Hash + Eq,
    {
        if !self.touch(k) {
            self.insert(k.to_owned(), f());
        }
        &self.map[unsafe { &*(k as *const Q as *const Ref<Q>) }].0
    }
}
