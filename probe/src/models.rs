//! Plain implementations the analysis uses in place of library functions: same type parameters in the
//! same order as the function named in the `model:` line.
use core::hint::black_box;
use core::ops::ControlFlow;

/// marker: an empty collection of type B
pub fn new_collection<B>() -> B {
    unimplemented!()
}
/// marker: adds to the collection behind the reference
pub fn push<C: ?Sized, T>(_c: &mut C, _t: T) {
    unimplemented!()
}

/// model: core::iter::traits::iterator::Iterator::collect
fn collect<I: Iterator, B>(iter: I) -> B {
    let mut iter = iter;
    let mut c = new_collection::<B>();
    while let Some(x) = iter.next() {
        push(&mut c, x);
    }
    c
}
/// model: core::iter::traits::iterator::Iterator::for_each
fn for_each<I: Iterator, F: FnMut(I::Item)>(iter: I, f: F) {
    let mut iter = iter;
    let mut f = f;
    while let Some(x) = iter.next() {
        f(x);
    }
}
/// model: core::iter::traits::iterator::Iterator::fold
fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(iter: I, init: B, f: F) -> B {
    let mut iter = iter;
    let mut f = f;
    let mut acc = init;
    while let Some(x) = iter.next() {
        acc = f(acc, x);
    }
    acc
}
/// model: core::iter::traits::iterator::Iterator::count
fn count<I: Iterator>(iter: I) -> usize {
    let mut iter = iter;
    let mut n = 0;
    while let Some(_) = iter.next() {
        n += 1;
    }
    n
}
/// model: core::iter::traits::iterator::Iterator::any
fn any<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, f: F) -> bool {
    let mut f = f;
    while let Some(x) = iter.next() {
        if f(x) {
            return true;
        }
    }
    false
}
/// model: core::iter::traits::iterator::Iterator::all
fn all<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, f: F) -> bool {
    let mut f = f;
    while let Some(x) = iter.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
/// model: core::iter::traits::iterator::Iterator::find
fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(iter: &mut I, p: P) -> Option<I::Item> {
    let mut p = p;
    while let Some(x) = iter.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
/// model: core::iter::traits::iterator::Iterator::find_map
fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(iter: &mut I, f: F) -> Option<B> {
    let mut f = f;
    while let Some(x) = iter.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
/// model: core::iter::traits::iterator::Iterator::position
fn position<I: Iterator, P: FnMut(I::Item) -> bool>(iter: &mut I, p: P) -> Option<usize> {
    let mut p = p;
    let mut n = 0;
    while let Some(x) = iter.next() {
        if p(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}
/// model: core::iter::traits::collect::Extend::extend
fn extend<C, A, I: IntoIterator<Item = A>>(c: &mut C, iter: I) {
    let mut iter = iter.into_iter();
    while let Some(x) = iter.next() {
        push(c, x);
    }
}
/// model: core::str::<impl str>::parse
fn parse<F: core::str::FromStr>(s: &str) -> Result<F, F::Err> {
    F::from_str(s)
}
/// model: alloc::vec::Vec::<T, A>::retain
fn retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, f: F) {
    let mut f = f;
    let mut iter = core::mem::replace(v, Vec::new()).into_iter();
    while let Some(x) = iter.next() {
        if f(&x) {
            push(v, x);
        }
    }
}
/// model: alloc::vec::Vec::<T, A>::dedup
fn dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut iter = core::mem::replace(v, Vec::new()).into_iter();
    while let Some(x) = iter.next() {
        if let Some(y) = v.last() {
            if *y == x {
                continue;
            }
        }
        push(v, x);
    }
}
/// model: alloc::vec::Vec::<T, A>::dedup_by_key
fn dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, f: F) {
    let mut f = f;
    let mut iter = core::mem::replace(v, Vec::new()).into_iter();
    while let Some(x) = iter.next() {
        let mut x = x;
        if let Some(y) = v.last_mut() {
            if f(y) == f(&mut x) {
                continue;
            }
        }
        push(v, x);
    }
}
/// model: core::iter::traits::iterator::Iterator::last
fn last<I: Iterator>(iter: I) -> Option<I::Item> {
    let mut iter = iter;
    let mut last = None;
    while let Some(x) = iter.next() {
        last = Some(x);
    }
    last
}
/// model: core::iter::traits::iterator::Iterator::max
fn max<I: Iterator<Item: Ord>>(iter: I) -> Option<I::Item> {
    let mut iter = iter;
    let mut max = None;
    while let Some(x) = iter.next() {
        max = match max {
            Some(y) if y > x => Some(y),
            _ => Some(x),
        };
    }
    max
}
/// model: core::iter::traits::iterator::Iterator::min
fn min<I: Iterator<Item: Ord>>(iter: I) -> Option<I::Item> {
    let mut iter = iter;
    let mut min = None;
    while let Some(x) = iter.next() {
        min = match min {
            Some(y) if y <= x => Some(y),
            _ => Some(x),
        };
    }
    min
}
/// model: core::slice::<impl [T]>::contains
fn contains<T: PartialEq>(v: &[T], x: &T) -> bool {
    let mut iter = v.iter();
    while let Some(y) = iter.next() {
        if y == x {
            return true;
        }
    }
    false
}
/// model: core::slice::<impl [T]>::split_first
fn split_first<T>(v: &[T]) -> Option<(&T, &[T])> {
    if v.is_empty() { None } else { Some((&v[0], &v[1..])) }
}
/// model: core::slice::<impl [T]>::split_last
fn split_last<T>(v: &[T]) -> Option<(&T, &[T])> {
    if v.is_empty() { None } else { Some((&v[v.len() - 1], &v[..v.len() - 1])) }
}
