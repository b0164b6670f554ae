// Consumers of core::iter::Iterator, as core defines them (core/src/iter/traits/iterator.rs),
// compiled to MIR and interpreted like the crate's own functions.  The verifier uses these bodies
// where a closure carries state, so that its loop summaries apply to them.
pub fn shim_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn shim_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn shim_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn shim_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn shim_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn shim_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn shim_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn shim_try_fold_result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(
    it: &mut I,
    init: B,
    mut f: F,
) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    Ok(acc)
}
pub fn shim_try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(
    it: &mut I,
    init: B,
    mut f: F,
) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    Some(acc)
}
pub fn shim_try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(
    it: &mut I,
    mut f: F,
) -> Result<(), E> {
    while let Some(x) = it.next() {
        f(x)?;
    }
    Ok(())
}
pub fn shim_try_for_each_option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        f(x)?;
    }
    Some(())
}
pub fn shim_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn shim_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn shim_last<I: Iterator>(it: I) -> Option<I::Item> {
    let mut it = it;
    let mut last = None;
    while let Some(x) = it.next() {
        last = Some(x);
    }
    last
}
pub fn shim_last_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, mut f: F) -> Option<I::Item> {
    let mut it = it;
    let mut last = None;
    while let Some(x) = it.next() {
        if f(&x) {
            last = Some(x);
        }
    }
    last
}
