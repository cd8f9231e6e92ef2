//! A trie with the interface of sequence_trie that redscript's compiler uses.
use std::collections::HashMap;
use std::hash::Hash;

#[derive(Debug, Clone)]
pub struct SequenceTrie<K: Eq + Hash, V> {
    value: Option<V>,
    children: HashMap<K, SequenceTrie<K, V>>,
}

impl<K: Eq + Hash + Clone, V> SequenceTrie<K, V> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self { value: None, children: HashMap::new() }
    }

    pub fn insert<'k, I: IntoIterator<Item = &'k K>>(&mut self, key: I, value: V) -> Option<V>
    where
        K: 'k,
    {
        let node = key.into_iter().fold(self, |n, k| n.children.entry(k.clone()).or_insert_with(Self::new));
        node.value.replace(value)
    }

    pub fn get_node<'k, I: IntoIterator<Item = &'k K>>(&self, key: I) -> Option<&Self>
    where
        K: 'k,
    {
        key.into_iter().try_fold(self, |n, k| n.children.get(k))
    }

    pub fn get<'k, I: IntoIterator<Item = &'k K>>(&self, key: I) -> Option<&V>
    where
        K: 'k,
    {
        self.get_node(key)?.value.as_ref()
    }

    pub fn get_mut<'k, I: IntoIterator<Item = &'k K>>(&mut self, key: I) -> Option<&mut V>
    where
        K: 'k,
    {
        key.into_iter().try_fold(self, |n, k| n.children.get_mut(k))?.value.as_mut()
    }

    pub fn iter(&self) -> impl Iterator<Item = (Vec<&K>, &V)> {
        let mut out = vec![];
        self.collect(&mut vec![], &mut out);
        out.into_iter()
    }

    fn collect<'a>(&'a self, path: &mut Vec<&'a K>, out: &mut Vec<(Vec<&'a K>, &'a V)>) {
        if let Some(v) = &self.value {
            out.push((path.clone(), v));
        }
        for (k, n) in &self.children {
            path.push(k);
            n.collect(path, out);
            path.pop();
        }
    }
}
