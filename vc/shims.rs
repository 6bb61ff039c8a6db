//! Definitions of standard library functions in terms of simpler ones, for the verifier.
//! The verifier executes these bodies (their MIR) where the repository calls the function they are named after.
#![allow(non_snake_case, dead_code, clippy::all)]

pub fn Iterator_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn Iterator_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn Iterator_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn Iterator_find_map<I: Iterator, T, F: FnMut(I::Item) -> Option<T>>(it: &mut I, mut f: F) -> Option<T> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn Iterator_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}

pub fn Iterator_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next() {
        b = f(b, x);
    }
    b
}

pub fn Iterator_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn Iterator_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut last = None;
    while let Some(x) = it.next() {
        last = Some(x);
    }
    last
}

pub fn Iterator_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = 0;
    while k < n {
        it.next()?;
        k += 1;
    }
    it.next()
}

pub fn Iterator_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}

pub struct Filter<I, F>(I, F);
pub fn Iterator_filter<I, F>(it: I, f: F) -> Filter<I, F> {
    Filter(it, f)
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.0.next() {
            if (self.1)(&x) {
                return Some(x);
            }
        }
        None
    }
}

pub struct FilterMap<I, F>(I, F);
pub fn Iterator_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> {
    FilterMap(it, f)
}
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        while let Some(x) = self.0.next() {
            if let Some(y) = (self.1)(x) {
                return Some(y);
            }
        }
        None
    }
}

pub struct TakeWhile<I, F>(I, F, bool);
pub fn Iterator_take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> {
    TakeWhile(it, f, false)
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.2 {
            return None;
        }
        let x = self.0.next()?;
        if (self.1)(&x) {
            Some(x)
        } else {
            self.2 = true;
            None
        }
    }
}

pub struct SkipWhile<I, F>(I, F, bool);
pub fn Iterator_skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> {
    SkipWhile(it, f, false)
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            let x = self.0.next()?;
            if self.2 || !(self.1)(&x) {
                self.2 = true;
                return Some(x);
            }
        }
    }
}

pub struct MapWhile<I, F>(I, F);
pub fn Iterator_map_while<I, F>(it: I, f: F) -> MapWhile<I, F> {
    MapWhile(it, f)
}
impl<I: Iterator, B, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        let x = self.0.next()?;
        (self.1)(x)
    }
}

pub struct Inspect<I, F>(I, F);
pub fn Iterator_inspect<I, F>(it: I, f: F) -> Inspect<I, F> {
    Inspect(it, f)
}
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.0.next()?;
        (self.1)(&x);
        Some(x)
    }
}

pub struct Zip<I, J>(I, J);
pub fn Iterator_zip<I, J: IntoIterator>(it: I, o: J) -> Zip<I, J::IntoIter> {
    Zip(it, o.into_iter())
}
impl<I: Iterator, J: Iterator> Iterator for Zip<I, J> {
    type Item = (I::Item, J::Item);
    fn next(&mut self) -> Option<(I::Item, J::Item)> {
        let a = self.0.next()?;
        let b = self.1.next()?;
        Some((a, b))
    }
}

pub struct Chain<I, J>(I, J, bool);
pub fn Iterator_chain<I, J: IntoIterator>(it: I, o: J) -> Chain<I, J::IntoIter> {
    Chain(it, o.into_iter(), false)
}
impl<I: Iterator, J: Iterator<Item = I::Item>> Iterator for Chain<I, J> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if !self.2 {
            if let Some(x) = self.0.next() {
                return Some(x);
            }
            self.2 = true;
        }
        self.1.next()
    }
}

pub struct Peekable<I: Iterator>(I, Option<Option<I::Item>>);
pub fn Iterator_peekable<I: Iterator>(it: I) -> Peekable<I> {
    Peekable(it, None)
}
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.1.take() {
            Some(x) => x,
            None => self.0.next(),
        }
    }
}
pub fn Peekable_peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if let None = p.1 {
        p.1 = Some(p.0.next());
    }
    match &p.1 {
        Some(Some(x)) => Some(x),
        _ => None,
    }
}

pub struct Skip<I>(I, usize);
pub fn Iterator_skip<I>(it: I, n: usize) -> Skip<I> {
    Skip(it, n)
}
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while 0 < self.1 {
            self.1 -= 1;
            self.0.next()?;
        }
        self.0.next()
    }
}

pub struct RevRange(usize, usize);
pub fn rev_range(lo: usize, hi: usize) -> RevRange {
    RevRange(lo, hi)
}
impl Iterator for RevRange {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.0 < self.1 {
            self.1 -= 1;
            Some(self.1)
        } else {
            None
        }
    }
}

pub struct Inclusive(usize, usize, bool);
pub fn RangeInclusive_new(lo: usize, hi: usize) -> Inclusive {
    Inclusive(lo, hi, false)
}
impl Iterator for Inclusive {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.2 || self.1 < self.0 {
            return None;
        }
        let x = self.0;
        if x < self.1 {
            self.0 = x + 1;
        } else {
            self.2 = true;
        }
        Some(x)
    }
}
pub fn RangeInclusive_contains(r: &Inclusive, x: &usize) -> bool {
    r.0 <= *x && *x <= r.1 && !r.2
}

pub struct StepBy<I>(I, usize, bool);
pub fn Iterator_step_by<I>(it: I, n: usize) -> StepBy<I> {
    assert!(n != 0);
    StepBy(it, n - 1, true)
}
impl<I: Iterator> Iterator for StepBy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.2 {
            self.2 = false;
            return self.0.next();
        }
        let mut k = 0;
        while k < self.1 {
            self.0.next()?;
            k += 1;
        }
        self.0.next()
    }
}

pub struct Chunks<'a, T>(&'a [T], usize);
pub fn slice_chunks<T>(s: &[T], n: usize) -> Chunks<'_, T> {
    assert!(n != 0);
    Chunks(s, n)
}
impl<'a, T> Iterator for Chunks<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        if self.0.is_empty() {
            return None;
        }
        let n = self.1.min(self.0.len());
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
}

pub fn slice_split_first<T>(s: &[T]) -> Option<(&T, &[T])> {
    if s.is_empty() {
        None
    } else {
        Some((&s[0], &s[1..]))
    }
}
pub fn slice_split_last<T>(s: &[T]) -> Option<(&T, &[T])> {
    if s.is_empty() {
        None
    } else {
        let n = s.len() - 1;
        Some((&s[n], &s[..n]))
    }
}
pub fn slice_split_at_checked<T>(s: &[T], n: usize) -> Option<(&[T], &[T])> {
    if n <= s.len() {
        Some(s.split_at(n))
    } else {
        None
    }
}

pub fn Vec_swap_remove<T>(v: &mut Vec<T>, i: usize) -> T {
    let n = v.len();
    assert!(i < n);
    v.swap(i, n - 1);
    v.pop().unwrap()
}
pub fn Vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    if n <= v.len() {
        v.truncate(n);
    } else {
        while v.len() < n {
            v.push(f());
        }
    }
}
pub fn Vec_extend_from_within_full<T: Clone>(v: &mut Vec<T>) {
    let c = v.clone();
    v.extend_from_slice(&c);
}
pub fn Vec_pop_if<T, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> {
    let last = v.last_mut()?;
    if f(last) {
        v.pop()
    } else {
        None
    }
}
pub fn Vec_try_reserve<T>(v: &mut Vec<T>, n: usize) -> Result<(), ()> {
    v.reserve(n);
    Ok(())
}

pub fn Range_contains(r: &std::ops::Range<usize>, x: &usize) -> bool {
    r.start <= *x && *x < r.end
}
pub fn Range_is_empty(r: &std::ops::Range<usize>) -> bool {
    !(r.start < r.end)
}

pub fn Ord_clamp(x: usize, lo: usize, hi: usize) -> usize {
    assert!(lo <= hi);
    if x < lo {
        lo
    } else if hi < x {
        hi
    } else {
        x
    }
}

pub fn Ordering_then(a: std::cmp::Ordering, b: std::cmp::Ordering) -> std::cmp::Ordering {
    match a {
        std::cmp::Ordering::Equal => b,
        o => o,
    }
}
pub fn Ordering_reverse(a: std::cmp::Ordering) -> std::cmp::Ordering {
    match a {
        std::cmp::Ordering::Less => std::cmp::Ordering::Greater,
        std::cmp::Ordering::Equal => std::cmp::Ordering::Equal,
        std::cmp::Ordering::Greater => std::cmp::Ordering::Less,
    }
}

pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn Iterator_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut b = it.next()?;
    while let Some(x) = it.next() {
        b = f(b, x);
    }
    Some(b)
}
pub fn Iterator_max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut b = it.next()?;
    while let Some(x) = it.next() {
        if x >= b {
            b = x;
        }
    }
    Some(b)
}
pub fn Iterator_min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut b = it.next()?;
    while let Some(x) = it.next() {
        if x < b {
            b = x;
        }
    }
    Some(b)
}
pub fn Vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
pub fn slice_rotate_left<T: Copy>(s: &mut [T], k: usize) {
    assert!(k <= s.len());
    let a = s[..k].to_vec();
    let n = s.len() - k;
    s.copy_within(k.., 0);
    s[n..].copy_from_slice(&a);
}
pub fn slice_rotate_right<T: Copy>(s: &mut [T], k: usize) {
    assert!(k <= s.len());
    let n = s.len() - k;
    let a = s[n..].to_vec();
    s.copy_within(..n, k);
    s[..k].copy_from_slice(&a);
}

pub fn Iterator_try_for_each_Result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) {
            Ok(()) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}

pub fn Iterator_try_for_each_Option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        match f(x) {
            Some(()) => {}
            None => return None,
        }
    }
    Some(())
}

pub fn Iterator_try_for_each_ControlFlow<I: Iterator, E, F: FnMut(I::Item) -> std::ops::ControlFlow<E>>(it: &mut I, mut f: F) -> std::ops::ControlFlow<E> {
    while let Some(x) = it.next() {
        match f(x) {
            std::ops::ControlFlow::Continue(()) => {}
            std::ops::ControlFlow::Break(e) => return std::ops::ControlFlow::Break(e),
        }
    }
    std::ops::ControlFlow::Continue(())
}

pub fn Iterator_try_fold_Result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut b = init;
    while let Some(x) = it.next() {
        match f(b, x) {
            Ok(y) => b = y,
            Err(e) => return Err(e),
        }
    }
    Ok(b)
}

pub fn Iterator_try_fold_Option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut b = init;
    while let Some(x) = it.next() {
        match f(b, x) {
            Some(y) => b = y,
            None => return None,
        }
    }
    Some(b)
}
