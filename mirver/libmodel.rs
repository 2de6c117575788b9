//! Reference definitions of standard-library functions that loop or call a function they are given. The compiler lowers them to
//! MIR like the code under verification, and a call of the library function is verified as a call of its definition here.
#![allow(dead_code, non_snake_case)]

pub fn Iterator_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i: usize = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn Iterator_count<I: Iterator>(mut it: I) -> usize {
    let mut i: usize = 0;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}

pub fn Iterator_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn Iterator_find_map<I: Iterator, T, F: FnMut(I::Item) -> Option<T>>(it: &mut I, mut f: F) -> Option<T> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn Iterator_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn Iterator_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn Iterator_fold<I: Iterator, T, F: FnMut(T, I::Item) -> T>(mut it: I, init: T, mut f: F) -> T {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn Iterator_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn Iterator_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut last = None;
    while let Some(x) = it.next() {
        last = Some(x);
    }
    last
}

pub struct TakeWhile<I, P> {
    it: I,
    done: bool,
    p: P,
}

pub fn TakeWhile_next<I: Iterator, P: FnMut(&I::Item) -> bool>(s: &mut TakeWhile<I, P>) -> Option<I::Item> {
    if s.done {
        return None;
    }
    if let Some(x) = s.it.next() {
        if (s.p)(&x) {
            return Some(x);
        }
        s.done = true;
    }
    None
}

pub struct SkipWhile<I, P> {
    it: I,
    done: bool,
    p: P,
}

pub fn SkipWhile_next<I: Iterator, P: FnMut(&I::Item) -> bool>(s: &mut SkipWhile<I, P>) -> Option<I::Item> {
    while let Some(x) = s.it.next() {
        if s.done || !(s.p)(&x) {
            s.done = true;
            return Some(x);
        }
    }
    None
}

pub struct Filter<I, P> {
    it: I,
    p: P,
}

pub fn Filter_next<I: Iterator, P: FnMut(&I::Item) -> bool>(s: &mut Filter<I, P>) -> Option<I::Item> {
    while let Some(x) = s.it.next() {
        if (s.p)(&x) {
            return Some(x);
        }
    }
    None
}

pub struct Map<I, P> {
    it: I,
    p: P,
}

pub fn Map_next<T, I: Iterator, P: FnMut(I::Item) -> T>(s: &mut Map<I, P>) -> Option<T> {
    match s.it.next() {
        Some(x) => Some((s.p)(x)),
        None => None,
    }
}

/// `str::find` of a string
pub fn str_find_str(code: &str, pat: &str) -> Option<usize> {
    let bytes = code.as_bytes();
    let mut i: usize = 0;
    while i + pat.len() <= bytes.len() {
        if bytes[i..].starts_with(pat.as_bytes()) {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// `str::find` of a character
pub fn str_find_char(code: &str, pat: char) -> Option<usize> {
    for (i, c) in code.char_indices() {
        if c == pat {
            return Some(i);
        }
    }
    None
}

/// `str::find` of a character class
pub fn str_find_fn<P: FnMut(char) -> bool>(code: &str, mut pat: P) -> Option<usize> {
    for (i, c) in code.char_indices() {
        if pat(c) {
            return Some(i);
        }
    }
    None
}

/// `<[T]>::contains` and `str::contains` through the same definitions
pub fn slice_contains(hay: &[u8], x: &u8) -> bool {
    let mut i: usize = 0;
    while i < hay.len() {
        if hay[i] == *x {
            return true;
        }
        i += 1;
    }
    false
}
