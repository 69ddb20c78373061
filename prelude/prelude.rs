// Loop bodies of the iterator consumers, so that the analysis sees them as ordinary loops.
#![no_std]
extern crate alloc;
use alloc::vec::Vec;

pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x) }
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x) }
    acc
}
pub fn collect<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x) }
    v
}
pub fn extend<I: Iterator>(v: &mut Vec<I::Item>, mut it: I) {
    while let Some(x) = it.next() { v.push(x) }
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(_) = it.next() { n += 1 }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x) }
    r
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false } }
    true
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true } }
    false
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x) } }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() { if f(x) { return Some(i) } i += 1 }
    None
}
pub fn resize_push<T: Copy>(v: &mut Vec<T>, n: usize, x: T) {
    while v.len() < n { v.push(x) }
}
pub fn reduce_with<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(a) => { let mut acc = a; while let Some(x) = it.next() { acc = f(acc, x) } Some(acc) }
    }
}
