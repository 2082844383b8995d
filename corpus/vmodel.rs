//! Reference bodies for the provided methods of `Iterator` (and a few other
//! std functions whose std bodies use pointer arithmetic or specialisation).
//! The extractor substitutes these for the std bodies; each is the documented
//! meaning of the method.  Never executed.
#![allow(dead_code)]
use std::cmp::Ordering;
pub fn all<I: Iterator + ?Sized, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn any<I: Iterator + ?Sized, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn find<I: Iterator + ?Sized, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> { while let Some(x) = it.next() { if p(&x) { return Some(x); } } None }
pub fn find_map<I: Iterator + ?Sized, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(b) = f(x) { return Some(b); } } None }
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x) } }
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x); } acc }
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn nth<I: Iterator + ?Sized>(it: &mut I, mut n: usize) -> Option<I::Item> { while n > 0 { if it.next().is_none() { return None; } n -= 1; } it.next() }
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> { let mut acc = match it.next() { Some(x) => x, None => return None }; while let Some(x) = it.next() { acc = f(acc, x); } Some(acc) }
pub fn rfind<I: DoubleEndedIterator + ?Sized, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> { while let Some(x) = it.next_back() { if p(&x) { return Some(x); } } None }
pub fn max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> { let mut best = match it.next() { Some(x) => { let k = f(&x); (k, x) } None => return None }; while let Some(x) = it.next() { let k = f(&x); if k >= best.0 { best = (k, x); } } Some(best.1) }
pub fn min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> { let mut best = match it.next() { Some(x) => { let k = f(&x); (k, x) } None => return None }; while let Some(x) = it.next() { let k = f(&x); if k < best.0 { best = (k, x); } } Some(best.1) }
pub fn max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> { let mut best = match it.next() { Some(x) => x, None => return None }; while let Some(x) = it.next() { if f(&best, &x) != Ordering::Greater { best = x; } } Some(best) }
pub fn min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> { let mut best = match it.next() { Some(x) => x, None => return None }; while let Some(x) = it.next() { if f(&best, &x) == Ordering::Greater { best = x; } } Some(best) }

pub fn filter_next<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, p: &mut P) -> Option<I::Item> { while let Some(x) = it.next() { if p(&x) { return Some(x); } } None }

pub fn default_arc<T: Default>() -> std::sync::Arc<T> { std::sync::Arc::new(T::default()) }
pub fn default_box<T: Default>() -> Box<T> { Box::new(T::default()) }
pub fn default_mutex<T: Default>() -> std::sync::Mutex<T> { std::sync::Mutex::new(T::default()) }
/// Index of the element the iterator yielded last (analysis primitive).
#[inline(never)] pub fn cur_index<I: ?Sized>(_it: &I) -> usize { loop {} }
pub fn position<I: Iterator + ?Sized, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> { while let Some(x) = it.next() { if p(x) { return Some(cur_index(it)); } } None }

pub fn display_guard<T: std::fmt::Display + ?Sized>(g: &std::sync::MutexGuard<'_, T>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&**g, f) }
pub fn debug_guard<T: std::fmt::Debug + ?Sized>(g: &std::sync::MutexGuard<'_, T>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&**g, f) }
pub fn display_arc<T: std::fmt::Display + ?Sized>(g: &std::sync::Arc<T>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&**g, f) }
pub fn debug_arc<T: std::fmt::Debug + ?Sized>(g: &std::sync::Arc<T>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&**g, f) }
