//! A persistent map with the interface of hamt-sync that redscript's compiler uses: a shared list
//! of bindings, the newest first, gathered into tables that are merged as they grow.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::Arc;

const RUN: usize = 16;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);

impl Fx {
    fn add(&mut self, w: u64) {
        self.0 = (self.0.rotate_left(5) ^ w).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}

impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(b));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(u64::from(i));
    }
    fn write_u32(&mut self, i: u32) {
        self.add(u64::from(i));
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i);
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64);
    }
}

type Table<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Debug)]
enum Node<K, V> {
    Empty,
    Table(Table<K, V>, Arc<Node<K, V>>),
    Bind(K, V, usize, Arc<Node<K, V>>),
}

#[derive(Debug)]
pub struct Map<K, V>(Arc<Node<K, V>>);

impl<K, V> Clone for Map<K, V> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}

impl<K: Eq + Hash + Clone, V: Clone> Map<K, V> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Arc::new(Node::Empty))
    }

    pub fn find(&self, key: &K) -> Option<&V> {
        let mut node = &*self.0;
        loop {
            match node {
                Node::Empty => return None,
                Node::Table(t, rest) => match t.get(key) {
                    Some(v) => return Some(v),
                    None => node = rest,
                },
                Node::Bind(k, v, _, _) if k == key => return Some(v),
                Node::Bind(_, _, _, rest) => node = rest,
            }
        }
    }

    #[must_use]
    pub fn insert(&self, key: K, value: V) -> Self {
        let depth = match &*self.0 {
            Node::Bind(_, _, d, _) => *d,
            _ => 0,
        };
        if depth < RUN {
            return Self(Arc::new(Node::Bind(key, value, depth + 1, self.0.clone())));
        }
        // the newest binding of a key wins
        let mut t = Table::default();
        t.insert(key, value);
        let mut node = &self.0;
        loop {
            match &**node {
                Node::Bind(k, v, _, rest) => {
                    t.entry(k.clone()).or_insert_with(|| v.clone());
                    node = rest;
                }
                Node::Table(u, rest) if u.len() <= 2 * t.len() => {
                    for (k, v) in u {
                        t.entry(k.clone()).or_insert_with(|| v.clone());
                    }
                    node = rest;
                }
                _ => break,
            }
        }
        Self(Arc::new(Node::Table(t, node.clone())))
    }
}
