//! Models of library functions, substituted in the MIR the deductive engine executes (see
//! `engine/models.py`): plain loops in place of the optimised iteration and allocation of std.
#![allow(clippy::all)]
use std::sync::Arc;

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut it = i.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x) }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() { v.push(x) }
}
pub fn arc_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Arc<[T]> {
    let mut it = i.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x) }
    Arc::from(v)
}
pub fn slice_fold<'a, T, B, F: FnMut(B, &'a T) -> B>(mut it: std::slice::Iter<'a, T>, init: B, mut f: F) -> B {
    let mut r = init;
    while let Some(x) = it.next() { r = f(r, x) }
    r
}
pub fn into_iter_fold<T, A, B, F: FnMut(B, T) -> B>(mut it: std::vec::IntoIter<T>, init: B, mut f: F) -> B {
    let mut r = init;
    while let Some(x) = it.next() { r = f(r, x) }
    r
}
pub fn map_into_iter_fold<K, V, A, B, F: FnMut(B, (K, V)) -> B>(mut it: std::collections::hash_map::IntoIter<K, V>, init: B, mut f: F) -> B {
    let mut r = init;
    while let Some(x) = it.next() { r = f(r, x) }
    r
}
pub fn vec_clone<T: Clone, A>(v: &Vec<T>) -> Vec<T> {
    let mut r = Vec::new();
    let mut it = v.iter();
    while let Some(x) = it.next() { r.push(x.clone()) }
    r
}
pub fn slice_to_vec<T: Clone>(v: &[T]) -> Vec<T> {
    let mut r = Vec::new();
    let mut it = v.iter();
    while let Some(x) = it.next() { r.push(x.clone()) }
    r
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() { return false }
    let (mut i, mut k) = (a.iter(), b.iter());
    while let Some(x) = i.next() {
        if let Some(y) = k.next() { if *x != *y { return false } }
    }
    true
}
pub fn arc_eq<T: ?Sized + PartialEq, A>(a: &Arc<T>, b: &Arc<T>) -> bool { **a == **b }
pub fn arc_ne<T: ?Sized + PartialEq, A>(a: &Arc<T>, b: &Arc<T>) -> bool { !(**a == **b) }
pub fn string_from_iter<I: IntoIterator<Item = char>>(i: I) -> String {
    let mut it = i.into_iter();
    let mut s = String::new();
    while let Some(c) = it.next() { s.push(c) }
    s
}
pub fn string_extend<I: IntoIterator<Item = char>>(s: &mut String, i: I) {
    let mut it = i.into_iter();
    while let Some(c) = it.next() { s.push(c) }
}
pub fn map_from_iter<K: Eq + std::hash::Hash, V, S: std::hash::BuildHasher + Default, I: IntoIterator<Item = (K, V)>>(i: I) -> std::collections::HashMap<K, V, S> {
    let mut it = i.into_iter();
    let mut m = std::collections::HashMap::default();
    while let Some((k, v)) = it.next() { m.insert(k, v); }
    m
}
pub fn map_extend<K: Eq + std::hash::Hash, V, S: std::hash::BuildHasher, A, I: IntoIterator<Item = (K, V)>>(m: &mut std::collections::HashMap<K, V, S>, i: I) {
    let mut it = i.into_iter();
    while let Some((k, v)) = it.next() { m.insert(k, v); }
}
pub fn map_eq<K: Eq + std::hash::Hash, V: PartialEq, S: std::hash::BuildHasher, A>(a: &std::collections::HashMap<K, V, S>, b: &std::collections::HashMap<K, V, S>) -> bool {
    if a.len() != b.len() { return false }
    let mut it = a.iter();
    while let Some((k, v)) = it.next() {
        match b.get(k) { Some(w) => if *v != *w { return false }, None => return false }
    }
    true
}
pub fn deque_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> std::collections::VecDeque<T> {
    let mut it = i.into_iter();
    let mut v = std::collections::VecDeque::new();
    while let Some(x) = it.next() { v.push_back(x) }
    v
}
pub fn deque_extend<T, A, I: IntoIterator<Item = T>>(v: &mut std::collections::VecDeque<T>, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() { v.push_back(x) }
}
