//@ either_parse err=any blind=1
pub fn either_parse__imp<L: Parse, R: Parse>(input: ParseStream<'_>) -> Result<Either<L, R>> {
    <Either<L, R> as Parse>::parse(input)
}
pub fn either_parse__spec<L: Parse, R: Parse>(input: ParseStream<'_>) -> Result<Either<L, R>> {
    let a = input.fork();
    let e1 = match <L as Parse>::parse(&a) {
        Ok(x) => {
            input.advance_to(&a);
            return Ok(Either::Left(x));
        }
        Err(e) => e,
    };
    let b = input.fork();
    let e2 = match <R as Parse>::parse(&b) {
        Ok(x) => {
            input.advance_to(&b);
            return Ok(Either::Right(x));
        }
        Err(e) => e,
    };
    if e1.span().end() > e2.span().end() { Err(e1) } else { Err(e2) }
}

//@ either_print
pub fn either_print__imp<L: ToTokens, R: ToTokens>(x: &Either<L, R>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn either_print__spec<L: ToTokens, R: ToTokens>(x: &Either<L, R>, tokens: &mut TokenStream) {
    match x {
        Either::Left(l) => l.to_tokens(tokens),
        Either::Right(r) => r.to_tokens(tokens),
    }
}

//@ either_left
pub fn either_left__imp<L, R>(x: Either<L, R>) -> Option<L> {
    x.left()
}
pub fn either_left__spec<L, R>(x: Either<L, R>) -> Option<L> {
    match x {
        Either::Left(l) => Some(l),
        Either::Right(_) => None,
    }
}

//@ either_right
pub fn either_right__imp<L, R>(x: Either<L, R>) -> Option<R> {
    x.right()
}
pub fn either_right__spec<L, R>(x: Either<L, R>) -> Option<R> {
    match x {
        Either::Right(r) => Some(r),
        Either::Left(_) => None,
    }
}

//@ either_is_left
pub fn either_is_left__imp<L, R>(x: &Either<L, R>) -> bool {
    x.is_left()
}
pub fn either_is_left__spec<L, R>(x: &Either<L, R>) -> bool {
    match x {
        Either::Left(_) => true,
        Either::Right(_) => false,
    }
}

//@ either_is_right
pub fn either_is_right__imp<L, R>(x: &Either<L, R>) -> bool {
    x.is_right()
}
pub fn either_is_right__spec<L, R>(x: &Either<L, R>) -> bool {
    match x {
        Either::Right(_) => true,
        Either::Left(_) => false,
    }
}

//@ either_flip
pub fn either_flip__imp<L, R>(x: Either<L, R>) -> Either<R, L> {
    x.flip()
}
pub fn either_flip__spec<L, R>(x: Either<L, R>) -> Either<R, L> {
    match x {
        Either::Left(l) => Either::Right(l),
        Either::Right(r) => Either::Left(r),
    }
}

//@ either_as_ref
pub fn either_as_ref__imp<L, R>(x: &Either<L, R>) -> Either<&L, &R> {
    Either::<L, R>::as_ref(x)
}
pub fn either_as_ref__spec<L, R>(x: &Either<L, R>) -> Either<&L, &R> {
    match x {
        Either::Left(l) => Either::Left(l),
        Either::Right(r) => Either::Right(r),
    }
}

//@ either_as_mut
pub fn either_as_mut__imp<L, R>(x: &mut Either<L, R>) -> Either<&mut L, &mut R> {
    Either::<L, R>::as_mut(x)
}
pub fn either_as_mut__spec<L, R>(x: &mut Either<L, R>) -> Either<&mut L, &mut R> {
    match x {
        Either::Left(l) => Either::Left(l),
        Either::Right(r) => Either::Right(r),
    }
}

//@ either_map
pub fn either_map__imp<L, R, T, U, F: FnOnce(L) -> T, G: FnOnce(R) -> U>(x: Either<L, R>, f: F, g: G) -> Either<T, U> {
    x.map(f, g)
}
pub fn either_map__spec<L, R, T, U, F: FnOnce(L) -> T, G: FnOnce(R) -> U>(x: Either<L, R>, f: F, g: G) -> Either<T, U> {
    match x {
        Either::Left(l) => Either::Left(f(l)),
        Either::Right(r) => Either::Right(g(r)),
    }
}

//@ either_into_iter
pub fn either_into_iter__imp<L: IntoIterator, R: IntoIterator>(x: Either<L, R>) -> Either<L::IntoIter, R::IntoIter> {
    Either::<L, R>::into_iter(x)
}
pub fn either_into_iter__spec<L: IntoIterator, R: IntoIterator>(x: Either<L, R>) -> Either<L::IntoIter, R::IntoIter> {
    match x {
        Either::Left(l) => Either::Left(l.into_iter()),
        Either::Right(r) => Either::Right(r.into_iter()),
    }
}

//@ either_transpose_opt
pub fn either_transpose_opt__imp<L, R>(x: Either<Option<L>, Option<R>>) -> Option<Either<L, R>> {
    x.transpose()
}
pub fn either_transpose_opt__spec<L, R>(x: Either<Option<L>, Option<R>>) -> Option<Either<L, R>> {
    match x {
        Either::Left(Some(l)) => Some(Either::Left(l)),
        Either::Right(Some(r)) => Some(Either::Right(r)),
        _ => None,
    }
}

//@ either_transpose_res
pub fn either_transpose_res__imp<L, R>(x: Either<Result<L>, Result<R>>) -> Result<Either<L, R>> {
    x.transpose()
}
pub fn either_transpose_res__spec<L, R>(x: Either<Result<L>, Result<R>>) -> Result<Either<L, R>> {
    match x {
        Either::Left(Ok(l)) => Ok(Either::Left(l)),
        Either::Left(Err(e)) => Err(e),
        Either::Right(Ok(r)) => Ok(Either::Right(r)),
        Either::Right(Err(e)) => Err(e),
    }
}

//@ either_into_inner
pub fn either_into_inner__imp<T>(x: Either<T, T>) -> T {
    x.into_inner()
}
pub fn either_into_inner__spec<T>(x: Either<T, T>) -> T {
    match x {
        Either::Left(l) => l,
        Either::Right(r) => r,
    }
}

//@ either_asref
pub fn either_asref__imp<T>(x: &Either<T, T>) -> &T {
    <Either<T, T> as AsRef<T>>::as_ref(x)
}
pub fn either_asref__spec<T>(x: &Either<T, T>) -> &T {
    match x {
        Either::Left(l) => l,
        Either::Right(r) => r,
    }
}

//@ either_asmut
pub fn either_asmut__imp<T>(x: &mut Either<T, T>) -> &mut T {
    <Either<T, T> as AsMut<T>>::as_mut(x)
}
pub fn either_asmut__spec<T>(x: &mut Either<T, T>) -> &mut T {
    match x {
        Either::Left(l) => l,
        Either::Right(r) => r,
    }
}

//@ either_deref
pub fn either_deref__imp<T>(x: &Either<T, T>) -> &T {
    <Either<T, T> as Deref>::deref(x)
}
pub fn either_deref__spec<T>(x: &Either<T, T>) -> &T {
    match x {
        Either::Left(l) => l,
        Either::Right(r) => r,
    }
}

//@ either_deref_mut
pub fn either_deref_mut__imp<T>(x: &mut Either<T, T>) -> &mut T {
    <Either<T, T> as DerefMut>::deref_mut(x)
}
pub fn either_deref_mut__spec<T>(x: &mut Either<T, T>) -> &mut T {
    match x {
        Either::Left(l) => l,
        Either::Right(r) => r,
    }
}

//@ either_next
pub fn either_next__imp<L: Iterator, R: Iterator>(x: &mut Either<L, R>) -> Option<Either<L::Item, R::Item>> {
    <Either<L, R> as Iterator>::next(x)
}
pub fn either_next__spec<L: Iterator, R: Iterator>(x: &mut Either<L, R>) -> Option<Either<L::Item, R::Item>> {
    match x {
        Either::Left(l) => match l.next() {
            Some(y) => Some(Either::Left(y)),
            None => None,
        },
        Either::Right(r) => match r.next() {
            Some(y) => Some(Either::Right(y)),
            None => None,
        },
    }
}

//@ either_next_back
pub fn either_next_back__imp<L: DoubleEndedIterator, R: DoubleEndedIterator>(x: &mut Either<L, R>) -> Option<Either<L::Item, R::Item>> {
    <Either<L, R> as DoubleEndedIterator>::next_back(x)
}
pub fn either_next_back__spec<L: DoubleEndedIterator, R: DoubleEndedIterator>(x: &mut Either<L, R>) -> Option<Either<L::Item, R::Item>> {
    match x {
        Either::Left(l) => match l.next_back() {
            Some(y) => Some(Either::Left(y)),
            None => None,
        },
        Either::Right(r) => match r.next_back() {
            Some(y) => Some(Either::Right(y)),
            None => None,
        },
    }
}

//@ either_size_hint
pub fn either_size_hint__imp<L: Iterator, R: Iterator>(x: &Either<L, R>) -> (usize, Option<usize>) {
    <Either<L, R> as Iterator>::size_hint(x)
}
pub fn either_size_hint__spec<L: Iterator, R: Iterator>(x: &Either<L, R>) -> (usize, Option<usize>) {
    match x {
        Either::Left(l) => l.size_hint(),
        Either::Right(r) => r.size_hint(),
    }
}

//@ either_len
pub fn either_len__imp<T>(x: &Either<std::vec::IntoIter<T>, std::vec::IntoIter<T>>) -> usize {
    <Either<std::vec::IntoIter<T>, std::vec::IntoIter<T>> as ExactSizeIterator>::len(x)
}
pub fn either_len__spec<T>(x: &Either<std::vec::IntoIter<T>, std::vec::IntoIter<T>>) -> usize {
    match x {
        Either::Left(l) => l.len(),
        Either::Right(r) => r.len(),
    }
}

//@ either_extend
pub fn either_extend__imp<T, L: Extend<T>, R: Extend<T>, I: IntoIterator<Item = T>>(x: &mut Either<L, R>, it: I) {
    <Either<L, R> as Extend<T>>::extend(x, it)
}
pub fn either_extend__spec<T, L: Extend<T>, R: Extend<T>, I: IntoIterator<Item = T>>(x: &mut Either<L, R>, it: I) {
    match x {
        Either::Left(l) => l.extend(it),
        Either::Right(r) => r.extend(it),
    }
}

type V<T> = std::vec::IntoIter<T>;

//@ either_count k=3
pub fn either_count__imp<A, B>(x: Either<V<A>, V<B>>) -> usize {
    <Either<V<A>, V<B>> as Iterator>::count(x)
}
pub fn either_count__spec<A, B>(x: Either<V<A>, V<B>>) -> usize {
    match x {
        Either::Left(mut l) => { let mut n = 0; while let Some(_) = l.next() { n += 1; } n }
        Either::Right(mut r) => { let mut n = 0; while let Some(_) = r.next() { n += 1; } n }
    }
}

//@ either_last k=3
pub fn either_last__imp<A, B>(x: Either<V<A>, V<B>>) -> Option<Either<A, B>> {
    <Either<V<A>, V<B>> as Iterator>::last(x)
}
pub fn either_last__spec<A, B>(x: Either<V<A>, V<B>>) -> Option<Either<A, B>> {
    match x {
        Either::Left(mut l) => { let mut y = None; while let Some(z) = l.next() { y = Some(Either::Left(z)); } y }
        Either::Right(mut r) => { let mut y = None; while let Some(z) = r.next() { y = Some(Either::Right(z)); } y }
    }
}

//@ either_nth k=3
pub fn either_nth__imp<A, B>(x: &mut Either<V<A>, V<B>>, n: usize) -> Option<Either<A, B>> {
    <Either<V<A>, V<B>> as Iterator>::nth(x, n)
}
pub fn either_nth__spec<A, B>(x: &mut Either<V<A>, V<B>>, n: usize) -> Option<Either<A, B>> {
    let mut i = 0;
    loop {
        let y = match x {
            Either::Left(l) => l.next().map(Either::Left),
            Either::Right(r) => r.next().map(Either::Right),
        };
        if y.is_none() || i == n { return y; }
        i += 1;
    }
}

//@ either_nth_back k=3
pub fn either_nth_back__imp<A, B>(x: &mut Either<V<A>, V<B>>, n: usize) -> Option<Either<A, B>> {
    <Either<V<A>, V<B>> as DoubleEndedIterator>::nth_back(x, n)
}
pub fn either_nth_back__spec<A, B>(x: &mut Either<V<A>, V<B>>, n: usize) -> Option<Either<A, B>> {
    let mut i = 0;
    loop {
        let y = match x {
            Either::Left(l) => l.next_back().map(Either::Left),
            Either::Right(r) => r.next_back().map(Either::Right),
        };
        if y.is_none() || i == n { return y; }
        i += 1;
    }
}

//@ either_fold k=3
pub fn either_fold__imp<A, B>(x: Either<V<A>, V<B>>, v: Vec<Either<A, B>>) -> Vec<Either<A, B>> {
    <Either<V<A>, V<B>> as Iterator>::fold(x, v, |mut v, y| { v.push(y); v })
}
pub fn either_fold__spec<A, B>(x: Either<V<A>, V<B>>, v: Vec<Either<A, B>>) -> Vec<Either<A, B>> {
    let mut v = v;
    match x {
        Either::Left(mut l) => while let Some(y) = l.next() { v.push(Either::Left(y)); },
        Either::Right(mut r) => while let Some(y) = r.next() { v.push(Either::Right(y)); },
    }
    v
}

//@ either_rfold k=3
pub fn either_rfold__imp<A, B>(x: Either<V<A>, V<B>>, v: Vec<Either<A, B>>) -> Vec<Either<A, B>> {
    <Either<V<A>, V<B>> as DoubleEndedIterator>::rfold(x, v, |mut v, y| { v.push(y); v })
}
pub fn either_rfold__spec<A, B>(x: Either<V<A>, V<B>>, v: Vec<Either<A, B>>) -> Vec<Either<A, B>> {
    let mut v = v;
    match x {
        Either::Left(mut l) => while let Some(y) = l.next_back() { v.push(Either::Left(y)); },
        Either::Right(mut r) => while let Some(y) = r.next_back() { v.push(Either::Right(y)); },
    }
    v
}

//@ either_collect k=3
pub fn either_collect__imp<A, B>(x: Either<V<A>, V<B>>) -> Vec<Either<A, B>> {
    <Either<V<A>, V<B>> as Iterator>::collect::<Vec<_>>(x)
}
pub fn either_collect__spec<A, B>(x: Either<V<A>, V<B>>) -> Vec<Either<A, B>> {
    let mut v = Vec::new();
    match x {
        Either::Left(mut l) => while let Some(y) = l.next() { v.push(Either::Left(y)); },
        Either::Right(mut r) => while let Some(y) = r.next() { v.push(Either::Right(y)); },
    }
    v
}

//@ either_back_left k=5
pub fn either_back_left__imp<A, B>(a: A, b: A, c: A, n: usize) -> (Option<Either<A, B>>, Vec<Either<A, B>>) {
    let mut x: Either<V<A>, V<B>> = Either::Left(vec![a, b, c].into_iter());
    let y = x.nth_back(n);
    (y, x.collect())
}
pub fn either_back_left__spec<A, B>(a: A, b: A, c: A, n: usize) -> (Option<Either<A, B>>, Vec<Either<A, B>>) {
    match n {
        0 => (Some(Either::Left(c)), vec![Either::Left(a), Either::Left(b)]),
        1 => (Some(Either::Left(b)), vec![Either::Left(a)]),
        2 => (Some(Either::Left(a)), vec![]),
        _ => (None, vec![]),
    }
}

//@ either_front_left k=5
pub fn either_front_left__imp<A, B>(a: A, b: A, c: A, n: usize) -> (Option<Either<A, B>>, Vec<Either<A, B>>) {
    let mut x: Either<V<A>, V<B>> = Either::Left(vec![a, b, c].into_iter());
    let y = x.nth(n);
    (y, x.collect())
}
pub fn either_front_left__spec<A, B>(a: A, b: A, c: A, n: usize) -> (Option<Either<A, B>>, Vec<Either<A, B>>) {
    match n {
        0 => (Some(Either::Left(a)), vec![Either::Left(b), Either::Left(c)]),
        1 => (Some(Either::Left(b)), vec![Either::Left(c)]),
        2 => (Some(Either::Left(c)), vec![]),
        _ => (None, vec![]),
    }
}

//@ either_ends_left k=5
pub fn either_ends_left__imp<A, B>(a: A, b: A, c: A) -> (Option<Either<A, B>>, Option<Either<A, B>>, Vec<Either<A, B>>) {
    let mut x: Either<V<A>, V<B>> = Either::Left(vec![a, b, c].into_iter());
    let y = x.next();
    let z = x.next_back();
    (y, z, x.collect())
}
pub fn either_ends_left__spec<A, B>(a: A, b: A, c: A) -> (Option<Either<A, B>>, Option<Either<A, B>>, Vec<Either<A, B>>) {
    (Some(Either::Left(a)), Some(Either::Left(c)), vec![Either::Left(b)])
}

//@ either_foldr_left k=5
pub fn either_foldr_left__imp<A, B>(a: A, b: A, c: A) -> Vec<Either<A, B>> {
    let x: Either<V<A>, V<B>> = Either::Left(vec![a, b, c].into_iter());
    x.rfold(Vec::new(), |mut v, y| { v.push(y); v })
}
pub fn either_foldr_left__spec<A, B>(a: A, b: A, c: A) -> Vec<Either<A, B>> {
    vec![Either::Left(c), Either::Left(b), Either::Left(a)]
}

//@ either_foldl_left k=5
pub fn either_foldl_left__imp<A, B>(a: A, b: A, c: A) -> Vec<Either<A, B>> {
    let x: Either<V<A>, V<B>> = Either::Left(vec![a, b, c].into_iter());
    x.fold(Vec::new(), |mut v, y| { v.push(y); v })
}
pub fn either_foldl_left__spec<A, B>(a: A, b: A, c: A) -> Vec<Either<A, B>> {
    vec![Either::Left(a), Either::Left(b), Either::Left(c)]
}

//@ either_len_left k=5
pub fn either_len_left__imp<A, B>(a: A, b: A, c: A) -> (usize, (usize, Option<usize>)) {
    let x: Either<V<A>, V<B>> = Either::Left(vec![a, b, c].into_iter());
    (x.len(), x.size_hint())
}
pub fn either_len_left__spec<A, B>(_a: A, _b: A, _c: A) -> (usize, (usize, Option<usize>)) {
    (3, (3, Some(3)))
}

//@ either_back_right k=5
pub fn either_back_right__imp<A, B>(a: B, b: B, c: B, n: usize) -> (Option<Either<A, B>>, Vec<Either<A, B>>) {
    let mut x: Either<V<A>, V<B>> = Either::Right(vec![a, b, c].into_iter());
    let y = x.nth_back(n);
    (y, x.collect())
}
pub fn either_back_right__spec<A, B>(a: B, b: B, c: B, n: usize) -> (Option<Either<A, B>>, Vec<Either<A, B>>) {
    match n {
        0 => (Some(Either::Right(c)), vec![Either::Right(a), Either::Right(b)]),
        1 => (Some(Either::Right(b)), vec![Either::Right(a)]),
        2 => (Some(Either::Right(a)), vec![]),
        _ => (None, vec![]),
    }
}

//@ either_front_right k=5
pub fn either_front_right__imp<A, B>(a: B, b: B, c: B, n: usize) -> (Option<Either<A, B>>, Vec<Either<A, B>>) {
    let mut x: Either<V<A>, V<B>> = Either::Right(vec![a, b, c].into_iter());
    let y = x.nth(n);
    (y, x.collect())
}
pub fn either_front_right__spec<A, B>(a: B, b: B, c: B, n: usize) -> (Option<Either<A, B>>, Vec<Either<A, B>>) {
    match n {
        0 => (Some(Either::Right(a)), vec![Either::Right(b), Either::Right(c)]),
        1 => (Some(Either::Right(b)), vec![Either::Right(c)]),
        2 => (Some(Either::Right(c)), vec![]),
        _ => (None, vec![]),
    }
}

//@ either_ends_right k=5
pub fn either_ends_right__imp<A, B>(a: B, b: B, c: B) -> (Option<Either<A, B>>, Option<Either<A, B>>, Vec<Either<A, B>>) {
    let mut x: Either<V<A>, V<B>> = Either::Right(vec![a, b, c].into_iter());
    let y = x.next();
    let z = x.next_back();
    (y, z, x.collect())
}
pub fn either_ends_right__spec<A, B>(a: B, b: B, c: B) -> (Option<Either<A, B>>, Option<Either<A, B>>, Vec<Either<A, B>>) {
    (Some(Either::Right(a)), Some(Either::Right(c)), vec![Either::Right(b)])
}

//@ either_foldr_right k=5
pub fn either_foldr_right__imp<A, B>(a: B, b: B, c: B) -> Vec<Either<A, B>> {
    let x: Either<V<A>, V<B>> = Either::Right(vec![a, b, c].into_iter());
    x.rfold(Vec::new(), |mut v, y| { v.push(y); v })
}
pub fn either_foldr_right__spec<A, B>(a: B, b: B, c: B) -> Vec<Either<A, B>> {
    vec![Either::Right(c), Either::Right(b), Either::Right(a)]
}

//@ either_foldl_right k=5
pub fn either_foldl_right__imp<A, B>(a: B, b: B, c: B) -> Vec<Either<A, B>> {
    let x: Either<V<A>, V<B>> = Either::Right(vec![a, b, c].into_iter());
    x.fold(Vec::new(), |mut v, y| { v.push(y); v })
}
pub fn either_foldl_right__spec<A, B>(a: B, b: B, c: B) -> Vec<Either<A, B>> {
    vec![Either::Right(a), Either::Right(b), Either::Right(c)]
}

//@ either_len_right k=5
pub fn either_len_right__imp<A, B>(a: B, b: B, c: B) -> (usize, (usize, Option<usize>)) {
    let x: Either<V<A>, V<B>> = Either::Right(vec![a, b, c].into_iter());
    (x.len(), x.size_hint())
}
pub fn either_len_right__spec<A, B>(_a: B, _b: B, _c: B) -> (usize, (usize, Option<usize>)) {
    (3, (3, Some(3)))
}
