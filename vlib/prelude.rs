// Models of library loops, written over `next()`; the abstract interpreter runs these instead of the
// pointer-level bodies of the standard library.
#[doc(hidden)]
#[allow(dead_code, unused, clippy::all)]
pub mod __vp {
    use core::ops::{ControlFlow, FromResidual, Try};
    pub fn assume(_b: bool) {}
    pub fn cut() {}
    // a text of symbolic characters
    pub fn text(s: &str) -> &str {
        s
    }
    pub fn to_token_stream<T: ::quote::ToTokens + ?Sized>(x: &T) -> ::proc_macro2::TokenStream {
        let mut t = ::proc_macro2::TokenStream::new();
        x.to_tokens(&mut t);
        t
    }
    pub fn into_token_stream<T: ::quote::ToTokens>(x: T) -> ::proc_macro2::TokenStream {
        let mut t = ::proc_macro2::TokenStream::new();
        x.to_tokens(&mut t);
        t
    }
    pub fn append_into<U: Into<::proc_macro2::TokenTree>>(ts: &mut ::proc_macro2::TokenStream, u: U) {
        let tt: ::proc_macro2::TokenTree = u.into();
        ::quote::TokenStreamExt::append(ts, tt);
    }
    pub fn ts_extend<T: ::quote::ToTokens, I: IntoIterator<Item = T>>(ts: &mut ::proc_macro2::TokenStream, it: I) {
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            x.to_tokens(ts);
        }
    }
    pub fn ne<A: PartialEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> bool {
        !a.eq(b)
    }
    pub fn arr_map1<T, U, F: FnMut(T) -> U>(v: [T; 1], mut f: F) -> [U; 1] {
        let [a] = v;
        [f(a)]
    }
    pub fn arr_map2<T, U, F: FnMut(T) -> U>(v: [T; 2], mut f: F) -> [U; 2] {
        let [a, b] = v;
        [f(a), f(b)]
    }
    pub fn arr_map3<T, U, F: FnMut(T) -> U>(v: [T; 3], mut f: F) -> [U; 3] {
        let [a, b, c] = v;
        [f(a), f(b), f(c)]
    }
    pub fn arr_map4<T, U, F: FnMut(T) -> U>(v: [T; 4], mut f: F) -> [U; 4] {
        let [a, b, c, d] = v;
        [f(a), f(b), f(c), f(d)]
    }
    pub fn once_init<T, F: FnOnce() -> T>(f: F) -> &'static T {
        Box::leak(Box::new(f()))
    }
    pub fn set_contains<T: core::borrow::Borrow<Q>, Q: PartialEq + ?Sized>(v: &Vec<T>, q: &Q) -> bool {
        let mut i = 0;
        while i < v.len() {
            let x: &Q = v[i].borrow();
            if x == q {
                return true;
            }
            i += 1;
        }
        false
    }
    pub fn set_insert<T: PartialEq>(v: &mut Vec<T>, x: T) -> bool {
        let mut i = 0;
        while i < v.len() {
            if v[i] == x {
                return false;
            }
            i += 1;
        }
        v.push(x);
        true
    }
    pub trait Piece { fn put(self, s: &mut String); }
    impl Piece for char { fn put(self, s: &mut String) { s.push(self) } }
    impl Piece for &char { fn put(self, s: &mut String) { s.push(*self) } }
    impl Piece for &str { fn put(self, s: &mut String) { s.push_str(self) } }
    impl Piece for String { fn put(self, s: &mut String) { s.push_str(&self) } }
    pub fn text_from_iter<T: Piece, I: IntoIterator<Item = T>>(it: I) -> String {
        let mut s = String::new();
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            x.put(&mut s);
        }
        s
    }
    pub fn text_extend<T: Piece, I: IntoIterator<Item = T>>(s: &mut String, it: I) {
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            x.put(s);
        }
    }
    pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
        let mut v = Vec::new();
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    }
    pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            v.push(x);
        }
    }
    pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            v.push(*x);
        }
    }
    pub fn slice_starts<A: PartialEq>(a: &[A], b: &[A]) -> bool {
        if a.len() < b.len() {
            return false;
        }
        let mut i = a.iter();
        for y in b {
            match i.next() {
                Some(x) => if !(x == y) { return false; },
                None => return false,
            }
        }
        true
    }
    pub fn slice_ends<A: PartialEq>(a: &[A], b: &[A]) -> bool {
        if a.len() < b.len() {
            return false;
        }
        let mut i = a.iter().rev();
        for y in b.iter().rev() {
            match i.next() {
                Some(x) => if !(x == y) { return false; },
                None => return false,
            }
        }
        true
    }
    pub fn seq_eq<A: PartialEq<B>, B>(a: &Vec<A>, b: &Vec<B>) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut i = 0;
        while i < a.len() {
            if !(a[i] == b[i]) {
                return false;
            }
            i += 1;
        }
        true
    }
    pub fn it_eq<A: Iterator, B: IntoIterator>(mut a: A, b: B) -> bool where A::Item: PartialEq<B::Item> {
        let mut b = b.into_iter();
        loop {
            match a.next() {
                None => return b.next().is_none(),
                Some(x) => match b.next() {
                    None => return false,
                    Some(y) => {
                        if !(x == y) {
                            return false;
                        }
                    }
                },
            }
        }
    }
    pub fn it_ne<A: Iterator, B: IntoIterator>(a: A, b: B) -> bool where A::Item: PartialEq<B::Item> {
        !it_eq(a, b)
    }
    pub fn zip<A: Iterator, B: IntoIterator>(a: A, b: B) -> (A, B::IntoIter) {
        (a, b.into_iter())
    }
    pub fn zip_next<A: Iterator, B: Iterator>(z: &mut (A, B)) -> Option<(A::Item, B::Item)> {
        let a = z.0.next()?;
        let b = z.1.next()?;
        Some((a, b))
    }
    pub fn flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(i: I, f: F) -> (I, F, Option<U::IntoIter>) {
        (i, f, None)
    }
    pub fn flat_map_next<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(z: &mut (I, F, Option<U::IntoIter>)) -> Option<U::Item> {
        loop {
            if let Some(u) = &mut z.2 {
                if let Some(x) = u.next() {
                    return Some(x);
                }
                z.2 = None;
            }
            match z.0.next() {
                Some(x) => z.2 = Some((z.1)(x).into_iter()),
                None => return None,
            }
        }
    }
    pub fn flatten<I: Iterator>(i: I) -> (I, Option<<I::Item as IntoIterator>::IntoIter>)
    where
        I::Item: IntoIterator,
    {
        (i, None)
    }
    pub fn flatten_next<I: Iterator>(z: &mut (I, Option<<I::Item as IntoIterator>::IntoIter>)) -> Option<<I::Item as IntoIterator>::Item>
    where
        I::Item: IntoIterator,
    {
        loop {
            if let Some(u) = &mut z.1 {
                if let Some(x) = u.next() {
                    return Some(x);
                }
                z.1 = None;
            }
            match z.0.next() {
                Some(x) => z.1 = Some(x.into_iter()),
                None => return None,
            }
        }
    }
    pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = i.next() {
            acc = f(acc, x);
        }
        acc
    }
    pub fn it_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = i.next_back() {
            acc = f(acc, x);
        }
        acc
    }
    pub fn it_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(i: &mut I, init: B, mut f: F) -> R {
        let mut acc = init;
        while let Some(x) = i.next() {
            acc = match f(acc, x).branch() {
                ControlFlow::Continue(c) => c,
                ControlFlow::Break(r) => return R::from_residual(r),
            };
        }
        R::from_output(acc)
    }
    pub fn it_try_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(i: &mut I, init: B, mut f: F) -> R {
        let mut acc = init;
        while let Some(x) = i.next_back() {
            acc = match f(acc, x).branch() {
                ControlFlow::Continue(c) => c,
                ControlFlow::Break(r) => return R::from_residual(r),
            };
        }
        R::from_output(acc)
    }
    pub fn it_collect<I: Iterator, B: FromIterator<I::Item>>(i: I) -> B {
        B::from_iter(i)
    }
    pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) {
        while let Some(x) = i.next() {
            f(x);
        }
    }
    pub fn it_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(i: &mut I, mut f: F) -> R {
        while let Some(x) = i.next() {
            match f(x).branch() {
                ControlFlow::Continue(c) => c,
                ControlFlow::Break(r) => return R::from_residual(r),
            }
        }
        R::from_output(())
    }
    pub fn str_starts(s: &str, b: u8) -> bool {
        match s.as_bytes().first() {
            Some(x) => *x == b,
            None => false,
        }
    }

    pub fn str_contains<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool {
        for c in s.chars() {
            if f(c) {
                return true;
            }
        }
        false
    }
    pub fn found_at(s: &str, i: usize) -> usize {
        s.len() - i
    }
    pub fn str_find<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> {
        let mut i = 0;
        for c in s.chars() {
            if f(c) {
                return Some(found_at(s, i));
            }
            i += 1;
        }
        None
    }
    pub fn untrimmed(s: &str) -> &str {
        s
    }
    // empty exactly if every character matches
    pub fn str_trim<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str {
        for c in s.chars() {
            if !f(c) {
                let r = untrimmed(s);
                assume(!r.is_empty());
                return r;
            }
        }
        ""
    }
    pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
        while let Some(x) = i.next() {
            if f(x) {
                return true;
            }
        }
        false
    }
    pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
        while let Some(x) = i.next() {
            if !f(x) {
                return false;
            }
        }
        true
    }
    pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> {
        while let Some(x) = i.next() {
            if f(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn it_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> {
        while let Some(x) = i.next_back() {
            if f(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(i: &mut I, mut f: F) -> Option<B> {
        while let Some(x) = i.next() {
            if let Some(y) = f(x) {
                return Some(y);
            }
        }
        None
    }
    pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> Option<usize> {
        let mut n = 0;
        while let Some(x) = i.next() {
            if f(x) {
                return Some(n);
            }
            n += 1;
        }
        None
    }
    pub fn it_count<I: Iterator>(mut i: I) -> usize {
        let mut n = 0;
        while let Some(_) = i.next() {
            n += 1;
        }
        n
    }
    pub fn dbg_entries<'l, 'a, 'b, D: core::fmt::Debug, I: IntoIterator<Item = D>>(l: &'l mut core::fmt::DebugList<'a, 'b>, i: I) -> &'l mut core::fmt::DebugList<'a, 'b> {
        let mut i = i.into_iter();
        while let Some(x) = i.next() {
            l.entry(&x);
        }
        l
    }
    pub fn dbg_vec<T: core::fmt::Debug>(v: &Vec<T>, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_list().entries(v.iter()).finish()
    }
    pub fn dbg_slice<T: core::fmt::Debug>(v: &[T], f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_list().entries(v.iter()).finish()
    }
    pub fn it_last<I: Iterator>(mut i: I) -> Option<I::Item> {
        let mut l = None;
        while let Some(x) = i.next() {
            l = Some(x);
        }
        l
    }
    pub fn it_nth<I: Iterator>(i: &mut I, mut n: usize) -> Option<I::Item> {
        loop {
            let x = i.next()?;
            if n == 0 {
                return Some(x);
            }
            n -= 1;
        }
    }
    pub fn it_nth_back<I: DoubleEndedIterator>(i: &mut I, mut n: usize) -> Option<I::Item> {
        loop {
            let x = i.next_back()?;
            if n == 0 {
                return Some(x);
            }
            n -= 1;
        }
    }
    pub fn it_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut i: I, mut f: F) -> Option<I::Item> {
        let mut acc = i.next()?;
        while let Some(x) = i.next() {
            acc = f(acc, x);
        }
        Some(acc)
    }
    pub fn it_unzip<I: Iterator<Item = (A, B)>, A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(mut i: I) -> (FA, FB) {
        let mut a = FA::default();
        let mut b = FB::default();
        while let Some((x, y)) = i.next() {
            a.extend(Some(x));
            b.extend(Some(y));
        }
        (a, b)
    }
    pub fn it_partition<I: Iterator, B: Default + Extend<I::Item>, F: FnMut(&I::Item) -> bool>(mut i: I, mut f: F) -> (B, B) {
        let mut a = B::default();
        let mut b = B::default();
        while let Some(x) = i.next() {
            if f(&x) {
                a.extend(Some(x));
            } else {
                b.extend(Some(x));
            }
        }
        (a, b)
    }
    pub fn it_max_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(mut i: I, mut f: F) -> Option<I::Item> {
        let mut best = i.next()?;
        let mut key = f(&best);
        while let Some(x) = i.next() {
            let k = f(&x);
            if k >= key {
                best = x;
                key = k;
            }
        }
        Some(best)
    }
    pub fn it_min_by_key<I: Iterator, K: Ord, F: FnMut(&I::Item) -> K>(mut i: I, mut f: F) -> Option<I::Item> {
        let mut best = i.next()?;
        let mut key = f(&best);
        while let Some(x) = i.next() {
            let k = f(&x);
            if k < key {
                best = x;
                key = k;
            }
        }
        Some(best)
    }
    pub fn extend_one<E: Extend<A>, A>(e: &mut E, x: A) {
        e.extend(Some(x));
    }
}

// other spellings of a type, for the corpus
pub type Same<T> = T;
pub trait Is { type It; }
impl<T> Is for T { type It = T; }
#[macro_export] macro_rules! same { ($t:ty) => { $t } }
