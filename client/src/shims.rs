//! Plain bodies for functions of std whose own ones work on raw memory.  The fact extractor puts them in their place; like the
//! models of `engine/models.py`, they say what std documents.
#![allow(clippy::all, missing_docs)]

pub fn array_map_2<T, F: FnMut(T) -> U, U>(a: [T; 2], mut f: F) -> [U; 2] {
    let [x, y] = a;
    let x = f(x);
    let y = f(y);
    [x, y]
}

pub fn array_each_ref_2<T>(a: &[T; 2]) -> [&T; 2] {
    let [x, y] = a;
    [x, y]
}

pub fn array_each_mut_2<T>(a: &mut [T; 2]) -> [&mut T; 2] {
    let [x, y] = a;
    [x, y]
}

pub fn array_from_fn_2<T, F: FnMut(usize) -> T>(mut f: F) -> [T; 2] {
    let x = f(0);
    let y = f(1);
    [x, y]
}

pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}

pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut last = None;
    while let Some(x) = it.next() {
        last = Some(x);
    }
    last
}

pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}

#[allow(non_snake_case)]
pub fn Vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

#[allow(non_snake_case)]
pub fn VecDeque_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> std::collections::VecDeque<T> {
    let mut it = it.into_iter();
    let mut v = std::collections::VecDeque::new();
    while let Some(x) = it.next() {
        v.push_back(x);
    }
    v
}

#[allow(non_snake_case)]
pub fn Vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}

#[allow(non_snake_case)]
pub fn VecDeque_extend<T, I: IntoIterator<Item = T>>(v: &mut std::collections::VecDeque<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push_back(x);
    }
}

use std::collections::hash_map::Entry;

pub fn entry_and_modify<'a, K, V, F: FnOnce(&mut V)>(mut e: Entry<'a, K, V>, f: F) -> Entry<'a, K, V> {
    if let Entry::Occupied(o) = &mut e {
        f(o.get_mut());
    }
    e
}

pub fn entry_or_insert_with<'a, K, V, F: FnOnce() -> V>(e: Entry<'a, K, V>, f: F) -> &'a mut V {
    match e {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(v) => v.insert(f()),
    }
}

pub fn entry_or_default<'a, K, V: Default>(e: Entry<'a, K, V>) -> &'a mut V {
    match e {
        Entry::Occupied(o) => o.into_mut(),
        Entry::Vacant(v) => v.insert(V::default()),
    }
}
