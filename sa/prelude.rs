//! Library model: definitions of core functions that take closures or build iterator adapters, written
//! in Rust and analysed from their MIR together with the crate.  `Option__map` models `Option::map`.
#![allow(non_snake_case, dead_code, unused)]
#![no_std]
use core::ops::{ControlFlow, Deref, DerefMut, FnMut, FnOnce};
use core::cmp::Ordering;

// ---- Option
pub fn Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn Option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => false }
}
pub fn Option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => true }
}
pub fn Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn Option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    if let Some(x) = o { if f(&x) { return Some(x); } }
    None
}
pub fn Option__or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => p }
}
pub fn Option__and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> {
    match o { Some(_) => p, None => None }
}
pub fn Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn Option__unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(x) => x, None => d }
}
pub fn Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn Option__transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}
pub fn Option__is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn Option__is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn Option__as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn Option__take<T>(o: &mut Option<T>) -> Option<T> { core::mem::replace(o, None) }
pub fn Option__replace<T>(o: &mut Option<T>, v: T) -> Option<T> { core::mem::replace(o, Some(v)) }
pub fn Option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
    match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None }
}
pub fn Option__cloned<'a, T: Clone>(o: Option<&'a T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn Option__copied<'a, T: Copy>(o: Option<&'a T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn Option__unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => __panic() } }
pub fn Option__expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => __panic() } }
pub fn Option__unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }

pub fn Option__flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn Option__xor<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match (o, p) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None }
}
pub fn Option__insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    *o = Some(v);
    match o { Some(x) => x, None => __panic() }
}
pub fn Option__get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    if let None = o { *o = Some(v); }
    match o { Some(x) => x, None => __panic() }
}
pub fn Option__get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = o { *o = Some(f()); }
    match o { Some(x) => x, None => __panic() }
}
pub fn Option__take_if<T, F: FnOnce(&mut T) -> bool>(o: &mut Option<T>, f: F) -> Option<T> {
    let t = match o { Some(x) => f(x), None => false };
    if t { core::mem::replace(o, None) } else { None }
}
pub fn Option__inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    if let Some(x) = &o { f(x); }
    o
}
pub fn Option__as_deref<T: Deref>(o: &Option<T>) -> Option<&T::Target> { match o { Some(x) => Some(x.deref()), None => None } }

// ---- Result
pub fn Result__map_or_else<T, U, E, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
    match o { Ok(x) => f(x), Err(e) => d(e) }
}
pub fn Result__or<T, E, G>(o: Result<T, E>, p: Result<T, G>) -> Result<T, G> {
    match o { Ok(x) => Ok(x), Err(_) => p }
}
pub fn Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn Result__is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
pub fn Result__as_mut<T, E>(o: &mut Result<T, E>) -> Result<&mut T, &mut E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result__unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => T::default() } }
pub fn Result__inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> {
    if let Ok(x) = &o { f(x); }
    o
}
pub fn Result__inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> {
    if let Err(x) = &o { f(x); }
    o
}
pub fn Result__transpose<T, E>(o: Result<Option<T>, E>) -> Option<Result<T, E>> {
    match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }
}
pub fn Result__map<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn Result__map_err<T, E, G, F: FnOnce(E) -> G>(o: Result<T, E>, f: F) -> Result<T, G> {
    match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn Result__map_or<T, U, E, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
    match o { Ok(x) => f(x), Err(_) => d }
}
pub fn Result__and_then<T, U, E, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn Result__or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(o: Result<T, E>, f: F) -> Result<T, G> {
    match o { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn Result__and<T, U, E>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> {
    match o { Ok(_) => p, Err(e) => Err(e) }
}
pub fn Result__unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
    match o { Ok(x) => x, Err(e) => f(e) }
}
pub fn Result__is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn Result__is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn Result__ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn Result__err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result__as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result__unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => __panic() } }
pub fn Result__expect<T, E>(o: Result<T, E>, m: &str) -> T { match o { Ok(x) => x, Err(_) => __panic() } }
pub fn Result__unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => __panic(), Err(e) => e } }
pub fn Result__expect_err<T, E>(o: Result<T, E>, m: &str) -> E { match o { Ok(_) => __panic(), Err(e) => e } }
pub fn __panic() -> ! { panic!() }

// ---- Ordering
pub fn Ordering__then_with<F: FnOnce() -> Ordering>(o: Ordering, f: F) -> Ordering {
    match o { Ordering::Equal => f(), x => x }
}
pub fn Ordering__then(o: Ordering, p: Ordering) -> Ordering { match o { Ordering::Equal => p, x => x } }
pub fn Ordering__reverse(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub fn Ordering__is_lt(o: Ordering) -> bool { match o { Ordering::Less => true, _ => false } }
pub fn Ordering__is_le(o: Ordering) -> bool { match o { Ordering::Greater => false, _ => true } }
pub fn Ordering__is_gt(o: Ordering) -> bool { match o { Ordering::Greater => true, _ => false } }
pub fn Ordering__is_ge(o: Ordering) -> bool { match o { Ordering::Less => false, _ => true } }
pub fn Ordering__is_eq(o: Ordering) -> bool { match o { Ordering::Equal => true, _ => false } }
pub fn Ordering__is_ne(o: Ordering) -> bool { match o { Ordering::Equal => false, _ => true } }

// ---- comparison defaults
pub fn Ord__max<T: Ord>(a: T, b: T) -> T { match a.cmp(&b) { Ordering::Greater => a, _ => b } }
pub fn Ord__min<T: Ord>(a: T, b: T) -> T { match a.cmp(&b) { Ordering::Greater => b, _ => a } }
pub fn cmp__max<T: Ord>(a: T, b: T) -> T { match a.cmp(&b) { Ordering::Greater => a, _ => b } }
pub fn cmp__min<T: Ord>(a: T, b: T) -> T { match a.cmp(&b) { Ordering::Greater => b, _ => a } }

// ---- mem
pub fn mem__take<T: Default>(x: &mut T) -> T { core::mem::replace(x, T::default()) }

// ---- iterator adapters
pub struct Map<I, F> { iter: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.iter.next() { Some(x) => Some((self.f)(x)), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.iter.size_hint() }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> { match self.iter.next_back() { Some(x) => Some((self.f)(x)), None => None } }
}
pub fn Iterator__map<I, F>(iter: I, f: F) -> Map<I, F> { Map { iter, f } }

pub struct Filter<I, F> { iter: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.iter.next() { if (self.f)(&x) { return Some(x); } }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, self.iter.size_hint().1) }
}
pub fn Iterator__filter<I, F>(iter: I, f: F) -> Filter<I, F> { Filter { iter, f } }

pub struct Enumerate<I> { iter: I, count: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.iter.next() { Some(x) => { let i = self.count; self.count += 1; Some((i, x)) } None => None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.iter.size_hint() }
}
pub fn Iterator__enumerate<I>(iter: I) -> Enumerate<I> { Enumerate { iter, count: 0 } }

pub struct Rev<I> { iter: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.iter.next_back() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.iter.size_hint() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
    fn next_back(&mut self) -> Option<I::Item> { self.iter.next() }
}
pub fn Iterator__rev<I>(iter: I) -> Rev<I> { Rev { iter } }

pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() {
            Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None },
            None => None,
        }
    }
}
pub fn Iterator__zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }

pub struct Take<I> { iter: I, n: usize }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n != 0 { self.n -= 1; self.iter.next() } else { None } }
}
pub fn Iterator__take<I>(iter: I, n: usize) -> Take<I> { Take { iter, n } }

pub struct Skip<I> { iter: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.n != 0 { self.n -= 1; if let None = self.iter.next() { return None; } }
        self.iter.next()
    }
}
pub fn Iterator__skip<I>(iter: I, n: usize) -> Skip<I> { Skip { iter, n } }

pub struct Chain<A, B> { a: Option<A>, b: Option<B> }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if let Some(a) = &mut self.a {
            if let Some(x) = a.next() { return Some(x); }
            self.a = None;
        }
        match &mut self.b { Some(b) => b.next(), None => None }
    }
}
pub fn Iterator__chain<A: Iterator, B: IntoIterator<Item = A::Item>>(a: A, b: B) -> Chain<A, B::IntoIter> {
    Chain { a: Some(a), b: Some(b.into_iter()) }
}

pub struct Fuse<I> { iter: Option<I> }
impl<I: Iterator> Iterator for Fuse<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match &mut self.iter {
            Some(i) => match i.next() { Some(x) => Some(x), None => { self.iter = None; None } },
            None => None,
        }
    }
}
pub fn Iterator__fuse<I>(iter: I) -> Fuse<I> { Fuse { iter: Some(iter) } }

pub struct FilterMap<I, F> { iter: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        while let Some(x) = self.iter.next() { if let Some(y) = (self.f)(x) { return Some(y); } }
        None
    }
}
pub fn Iterator__filter_map<I, F>(iter: I, f: F) -> FilterMap<I, F> { FilterMap { iter, f } }

pub struct TakeWhile<I, F> { iter: I, done: bool, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.iter.next() {
            Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None },
            None => None,
        }
    }
}
pub fn Iterator__take_while<I, F>(iter: I, f: F) -> TakeWhile<I, F> { TakeWhile { iter, done: false, f } }

pub struct SkipWhile<I, F> { iter: I, started: bool, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.iter.next() {
            if self.started || !(self.f)(&x) { self.started = true; return Some(x); }
        }
        None
    }
}
pub fn Iterator__skip_while<I, F>(iter: I, f: F) -> SkipWhile<I, F> { SkipWhile { iter, started: false, f } }

pub struct Inspect<I, F> { iter: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.iter.next() { Some(x) => { (self.f)(&x); Some(x) } None => None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.iter.size_hint() }
}
pub fn Iterator__inspect<I, F>(iter: I, f: F) -> Inspect<I, F> { Inspect { iter, f } }

pub struct Cloned<I> { it: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.it.next() { Some(x) => Some(x.clone()), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
pub fn Iterator__cloned<I>(it: I) -> Cloned<I> { Cloned { it } }
pub struct Copied<I> { it: I }
impl<'a, T: Copy + 'a, I: Iterator<Item = &'a T>> Iterator for Copied<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.it.next() { Some(x) => Some(*x), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
pub fn Iterator__copied<I>(it: I) -> Copied<I> { Copied { it } }

pub struct Peekable<I: Iterator> { iter: I, peeked: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match core::mem::replace(&mut self.peeked, None) { Some(v) => v, None => self.iter.next() }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = match self.peeked { Some(None) => return (0, Some(0)), Some(Some(_)) => 1, None => 0 };
        let (lo, hi) = self.iter.size_hint();
        (lo + n, match hi { Some(x) => Some(x + n), None => None })
    }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Peekable<I> {
    fn len(&self) -> usize {
        match self.peeked { Some(None) => 0, Some(Some(_)) => self.iter.len() + 1, None => self.iter.len() }
    }
}
pub fn Iterator__peekable<I: Iterator>(iter: I) -> Peekable<I> { Peekable { iter, peeked: None } }
pub fn Peekable__peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if let None = p.peeked { p.peeked = Some(p.iter.next()); }
    match &p.peeked { Some(Some(x)) => Some(x), _ => None }
}
pub fn Peekable__next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(p: &mut Peekable<I>, f: F) -> Option<I::Item> {
    match p.next() {
        Some(m) => if f(&m) { Some(m) } else { p.peeked = Some(Some(m)); None },
        o => { p.peeked = Some(o); None }
    }
}

// ---- iterator consumers
pub fn Iterator__collect<I: Iterator, B: FromIterator<I::Item>>(it: I) -> B { B::from_iter(it) }
pub fn Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x) } }
pub fn Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x) }
    acc
}
pub fn Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn Iterator__find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn Iterator__position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn Iterator__find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn Iterator__eq<A: Iterator, B: IntoIterator>(mut a: A, b: B) -> bool where A::Item: PartialEq<B::Item> {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            None => return match b.next() { None => true, Some(_) => false },
            Some(x) => match b.next() { None => return false, Some(y) => if !x.eq(&y) { return false; } },
        }
    }
}
pub fn DoubleEndedIterator__rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() { acc = f(acc, x) }
    acc
}
pub fn DoubleEndedIterator__rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next_back() { if f(&x) { return Some(x); } }
    None
}
pub fn DoubleEndedIterator__nth_back<I: DoubleEndedIterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 { if let None = it.next_back() { return None; } n -= 1; }
    it.next_back()
}
pub fn Iterator__count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x); }
    l
}
pub fn Iterator__nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 { if let None = it.next() { return None; } n -= 1; }
    it.next()
}
pub fn Iterator__try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { match f(x) { Ok(()) => {} Err(e) => return Err(e) } }
    Ok(())
}
pub fn Iterator__try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Ok(v) => acc = v, Err(e) => return Err(e) } }
    Ok(acc)
}
pub fn Iterator__cmp<A: Iterator, B: IntoIterator<Item = A::Item>>(mut a: A, b: B) -> Ordering where A::Item: Ord {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            None => return match b.next() { None => Ordering::Equal, Some(_) => Ordering::Less },
            Some(x) => match b.next() {
                None => return Ordering::Greater,
                Some(y) => match x.cmp(&y) { Ordering::Equal => {} o => return o },
            },
        }
    }
}
pub fn Iterator__partial_cmp<A: Iterator, B: IntoIterator>(mut a: A, b: B) -> Option<Ordering> where A::Item: PartialOrd<B::Item> {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            None => return match b.next() { None => Some(Ordering::Equal), Some(_) => Some(Ordering::Less) },
            Some(x) => match b.next() {
                None => return Some(Ordering::Greater),
                Some(y) => match x.partial_cmp(&y) { Some(Ordering::Equal) => {} o => return o },
            },
        }
    }
}
pub fn Iterator__ne<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool where A::Item: PartialEq<B::Item> { !a.eq(b) }
pub fn Iterator__lt<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool where A::Item: PartialOrd<B::Item> {
    match a.partial_cmp(b) { Some(Ordering::Less) => true, _ => false }
}
pub fn Iterator__gt<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool where A::Item: PartialOrd<B::Item> {
    match a.partial_cmp(b) { Some(Ordering::Greater) => true, _ => false }
}
pub fn Iterator__le<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool where A::Item: PartialOrd<B::Item> {
    match a.partial_cmp(b) { Some(Ordering::Less) | Some(Ordering::Equal) => true, _ => false }
}
pub fn Iterator__ge<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool where A::Item: PartialOrd<B::Item> {
    match a.partial_cmp(b) { Some(Ordering::Greater) | Some(Ordering::Equal) => true, _ => false }
}
pub fn bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool__then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }
