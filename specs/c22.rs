//@ maybe_absent
pub fn maybe_absent__imp<P, T>() -> (Option<(P, T)>, Option<(P, T)>, bool) {
    let m: Maybe<P, T> = Maybe::new();
    (Maybe::<P, T>::new().into_parts(), <Maybe<P, T> as Default>::default().into_parts(), m.is_none())
}
pub fn maybe_absent__spec<P, T>() -> (Option<(P, T)>, Option<(P, T)>, bool) {
    (None, None, true)
}

//@ maybe_from_option
pub fn maybe_from_option__imp<P, T>(x: Option<(P, T)>) -> Option<(P, T)> {
    <Maybe<P, T> as From<Option<(P, T)>>>::from(x).into_parts()
}
pub fn maybe_from_option__spec<P, T>(x: Option<(P, T)>) -> Option<(P, T)> {
    x
}

//@ maybe_from_parts
pub fn maybe_from_parts__imp<P, T>(x: (P, T)) -> Option<(P, T)> {
    <Maybe<P, T> as From<(P, T)>>::from(x).into_parts()
}
pub fn maybe_from_parts__spec<P, T>(x: (P, T)) -> Option<(P, T)> {
    Some(x)
}

//@ maybe_from_tail
pub fn maybe_from_tail__imp<P: Default, T>(x: T) -> Option<(P, T)> {
    <Maybe<P, T> as From<T>>::from(x).into_parts()
}
pub fn maybe_from_tail__spec<P: Default, T>(x: T) -> Option<(P, T)> {
    Some((P::default(), x))
}

//@ maybe_from_option_tail
pub fn maybe_from_option_tail__imp<P: Default, T>(x: Option<T>) -> Option<(P, T)> {
    <Maybe<P, T> as From<Option<T>>>::from(x).into_parts()
}
pub fn maybe_from_option_tail__spec<P: Default, T>(x: Option<T>) -> Option<(P, T)> {
    match x {
        Some(t) => Some((P::default(), t)),
        None => None,
    }
}

//@ maybe_views
pub fn maybe_views__imp<'a, P, T>(m: &'a Maybe<P, T>) -> (Option<&'a P>, Option<&'a T>, Option<&'a (P, T)>) {
    (m.as_prefix(), m.as_ref(), m.as_parts())
}
pub fn maybe_views__spec<'a, P, T>(m: &'a Maybe<P, T>) -> (Option<&'a P>, Option<&'a T>, Option<&'a (P, T)>) {
    let o: &Option<(P, T)> = &**m;
    match o {
        Some(x) => (Some(&x.0), Some(&x.1), Some(x)),
        None => (None, None, None),
    }
}

//@ maybe_deref
pub fn maybe_deref__imp<P, T>(x: Option<(P, T)>, y: Option<(P, T)>) -> (bool, Option<(P, T)>, Option<(P, T)>) {
    let mut m = Maybe::<P, T>::from(x);
    let some = <Maybe<P, T> as Deref>::deref(&m).is_some();
    let old = core::mem::replace(<Maybe<P, T> as DerefMut>::deref_mut(&mut m), y);
    (some, old, m.into_parts())
}
pub fn maybe_deref__spec<P, T>(x: Option<(P, T)>, y: Option<(P, T)>) -> (bool, Option<(P, T)>, Option<(P, T)>) {
    (x.is_some(), x, y)
}

//@ maybe_into
pub fn maybe_into__imp<P, T>(x: Option<(P, T)>, y: Option<(P, T)>) -> (Option<P>, Option<T>) {
    (Maybe::<P, T>::from(x).into_prefix(), Maybe::<P, T>::from(y).into_inner())
}
pub fn maybe_into__spec<P, T>(x: Option<(P, T)>, y: Option<(P, T)>) -> (Option<P>, Option<T>) {
    let p = match x {
        Some((p, _)) => Some(p),
        None => None,
    };
    let t = match y {
        Some((_, t)) => Some(t),
        None => None,
    };
    (p, t)
}

//@ maybe_write
pub fn maybe_write__imp<P, T>(x: Option<(P, T)>, p: P, t: T) -> (Option<P>, Option<T>, Option<(P, T)>) {
    let mut m = Maybe::<P, T>::from(x);
    let a = m.as_prefix_mut().map(|x| core::mem::replace(x, p));
    let b = m.as_mut().map(|x| core::mem::replace(x, t));
    (a, b, m.into_parts())
}
pub fn maybe_write__spec<P, T>(x: Option<(P, T)>, p: P, t: T) -> (Option<P>, Option<T>, Option<(P, T)>) {
    match x {
        Some((a, b)) => (Some(a), Some(b), Some((p, t))),
        None => (None, None, None),
    }
}

//@ maybe_write_parts
pub fn maybe_write_parts__imp<P, T>(x: Option<(P, T)>, y: (P, T)) -> (Option<(P, T)>, Option<(P, T)>) {
    let mut m = Maybe::<P, T>::from(x);
    let a = m.as_parts_mut().map(|x| core::mem::replace(x, y));
    (a, m.into_parts())
}
pub fn maybe_write_parts__spec<P, T>(x: Option<(P, T)>, y: (P, T)) -> (Option<(P, T)>, Option<(P, T)>) {
    match x {
        Some(o) => (Some(o), Some(y)),
        None => (None, None),
    }
}

//@ maybe_iter
pub fn maybe_iter__imp<'a, P, T>(m: &'a Maybe<P, T>) -> (Option<&'a P>, Option<&'a P>, Option<&'a T>, Option<&'a T>, Option<&'a T>, Option<&'a T>, Option<&'a (P, T)>, Option<&'a (P, T)>) {
    let mut a = m.prefix_iter();
    let mut b = m.iter();
    let mut c = <&Maybe<P, T> as IntoIterator>::into_iter(m);
    let mut d = m.parts_iter();
    (a.next(), a.next(), b.next(), b.next(), c.next(), c.next(), d.next(), d.next())
}
pub fn maybe_iter__spec<'a, P, T>(m: &'a Maybe<P, T>) -> (Option<&'a P>, Option<&'a P>, Option<&'a T>, Option<&'a T>, Option<&'a T>, Option<&'a T>, Option<&'a (P, T)>, Option<&'a (P, T)>) {
    match m.as_parts() {
        Some(x) => (Some(&x.0), None, Some(&x.1), None, Some(&x.1), None, Some(x), None),
        None => (None, None, None, None, None, None, None, None),
    }
}

//@ maybe_into_iter
pub fn maybe_into_iter__imp<P, T>(x: Option<(P, T)>, y: Option<(P, T)>, z: Option<(P, T)>) -> (Option<P>, Option<P>, Option<T>, Option<T>, Option<(P, T)>, Option<(P, T)>) {
    let mut a = Maybe::<P, T>::from(x).into_prefix_iter();
    let mut b = <Maybe<P, T> as IntoIterator>::into_iter(Maybe::<P, T>::from(y));
    let mut c = Maybe::<P, T>::from(z).into_parts_iter();
    (a.next(), a.next(), b.next(), b.next(), c.next(), c.next())
}
pub fn maybe_into_iter__spec<P, T>(x: Option<(P, T)>, y: Option<(P, T)>, z: Option<(P, T)>) -> (Option<P>, Option<P>, Option<T>, Option<T>, Option<(P, T)>, Option<(P, T)>) {
    let p = match x {
        Some((p, _)) => Some(p),
        None => None,
    };
    let t = match y {
        Some((_, t)) => Some(t),
        None => None,
    };
    (p, None, t, None, z, None)
}

//@ maybe_iter_mut
pub fn maybe_iter_mut__imp<P, T>(x: Option<(P, T)>, p: P, t: T, u: T) -> (Option<P>, Option<T>, Option<T>, Option<(P, T)>) {
    let mut m = Maybe::<P, T>::from(x);
    let a = m.prefix_iter_mut().next().map(|x| core::mem::replace(x, p));
    let b = m.iter_mut().next().map(|x| core::mem::replace(x, t));
    let c = <&mut Maybe<P, T> as IntoIterator>::into_iter(&mut m).next().map(|x| core::mem::replace(x, u));
    (a, b, c, m.into_parts())
}
pub fn maybe_iter_mut__spec<P, T>(x: Option<(P, T)>, p: P, t: T, u: T) -> (Option<P>, Option<T>, Option<T>, Option<(P, T)>) {
    match x {
        Some((a, b)) => (Some(a), Some(b), Some(t), Some((p, u))),
        None => (None, None, None, None),
    }
}

//@ maybe_parts_iter_mut
pub fn maybe_parts_iter_mut__imp<P, T>(x: Option<(P, T)>, y: (P, T)) -> (Option<(P, T)>, Option<(P, T)>) {
    let mut m = Maybe::<P, T>::from(x);
    let a = m.parts_iter_mut().next().map(|x| core::mem::replace(x, y));
    (a, m.into_parts())
}
pub fn maybe_parts_iter_mut__spec<P, T>(x: Option<(P, T)>, y: (P, T)) -> (Option<(P, T)>, Option<(P, T)>) {
    match x {
        Some(o) => (Some(o), Some(y)),
        None => (None, None),
    }
}

//@ maybe_compares
pub fn maybe_compares__imp<P: PartialEq, T: PartialEq>(x: &Maybe<P, T>, y: &Maybe<P, T>) -> bool {
    x == y
}
pub fn maybe_compares__spec<P: PartialEq, T: PartialEq>(x: &Maybe<P, T>, y: &Maybe<P, T>) -> bool {
    let a: &Option<(P, T)> = &**x;
    let b: &Option<(P, T)> = &**y;
    a == b
}

//@ punctuated_absent
pub fn punctuated_absent__imp<T, P>() -> (punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>, usize, bool) {
    let p = parsel::ast::Punctuated::<T, P>::new();
    let (n, e) = (p.len(), p.is_empty());
    (p.into_inner(), <parsel::ast::Punctuated<T, P> as Default>::default().into_inner(), n, e)
}
pub fn punctuated_absent__spec<T, P>() -> (punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>, usize, bool) {
    (punctuated::Punctuated::new(), punctuated::Punctuated::new(), 0, true)
}

//@ punctuated_from
pub fn punctuated_from__imp<T, P>(x: punctuated::Punctuated<T, P>, y: punctuated::Punctuated<T, P>) -> (punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>) {
    let a = parsel::ast::Punctuated::<T, P>::from(x);
    let b = parsel::ast::Punctuated::<T, P>::from(y);
    (a.into_inner(), punctuated::Punctuated::from(b))
}
pub fn punctuated_from__spec<T, P>(x: punctuated::Punctuated<T, P>, y: punctuated::Punctuated<T, P>) -> (punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>) {
    (x, y)
}

//@ punctuated_views
pub fn punctuated_views__imp<'a, T, P>(x: &'a parsel::ast::Punctuated<T, P>) -> (usize, bool, &'a punctuated::Punctuated<T, P>, &'a punctuated::Punctuated<T, P>, &'a punctuated::Punctuated<T, P>) {
    (x.len(), x.is_empty(), x.as_ref(), x.borrow(), <parsel::ast::Punctuated<T, P> as Deref>::deref(x))
}
pub fn punctuated_views__spec<'a, T, P>(x: &'a parsel::ast::Punctuated<T, P>) -> (usize, bool, &'a punctuated::Punctuated<T, P>, &'a punctuated::Punctuated<T, P>, &'a punctuated::Punctuated<T, P>) {
    let i: &'a punctuated::Punctuated<T, P> = &**x;
    (i.len(), i.is_empty(), i, i, i)
}

//@ punctuated_writes
pub fn punctuated_writes__imp<T, P>(x: punctuated::Punctuated<T, P>, a: punctuated::Punctuated<T, P>, b: punctuated::Punctuated<T, P>, c: punctuated::Punctuated<T, P>) -> (punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>) {
    let mut p = parsel::ast::Punctuated::<T, P>::from(x);
    let x = core::mem::replace(p.as_mut(), a);
    let a = core::mem::replace(p.borrow_mut(), b);
    let b = core::mem::replace(p.deref_mut(), c);
    (x, a, b, p.into_inner())
}
pub fn punctuated_writes__spec<T, P>(x: punctuated::Punctuated<T, P>, a: punctuated::Punctuated<T, P>, b: punctuated::Punctuated<T, P>, c: punctuated::Punctuated<T, P>) -> (punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>) {
    (x, a, b, c)
}

//@ punctuated_iterate k=4
pub fn punctuated_iterate__imp<'a, T, P>(x: &'a parsel::ast::Punctuated<T, P>, out: &mut Vec<&'a T>, back: &mut Vec<&'a T>, again: &mut Vec<&'a T>) {
    for v in x.iter() { out.push(v); }
    for v in x.iter().rev() { back.push(v); }
    for v in x { again.push(v); }
}
pub fn punctuated_iterate__spec<'a, T, P>(x: &'a parsel::ast::Punctuated<T, P>, out: &mut Vec<&'a T>, back: &mut Vec<&'a T>, again: &mut Vec<&'a T>) {
    let i: &'a punctuated::Punctuated<T, P> = &**x;
    for v in i.iter() { out.push(v); }
    for v in i.iter().rev() { back.push(v); }
    for v in i.iter() { again.push(v); }
}

//@ punctuated_iterate_mut k=4
pub fn punctuated_iterate_mut__imp<T: Default, P>(x: punctuated::Punctuated<T, P>) -> (Vec<T>, punctuated::Punctuated<T, P>, Vec<T>, punctuated::Punctuated<T, P>) where punctuated::Punctuated<T, P>: Clone {
    let mut p = parsel::ast::Punctuated::from(x.clone());
    let mut q = parsel::ast::Punctuated::from(x);
    let mut a = Vec::new();
    let mut b = Vec::new();
    for v in p.iter_mut() { a.push(core::mem::replace(v, T::default())); }
    for v in &mut q { b.push(core::mem::replace(v, T::default())); }
    (a, p.into_inner(), b, q.into_inner())
}
pub fn punctuated_iterate_mut__spec<T: Default, P>(x: punctuated::Punctuated<T, P>) -> (Vec<T>, punctuated::Punctuated<T, P>, Vec<T>, punctuated::Punctuated<T, P>) where punctuated::Punctuated<T, P>: Clone {
    let mut p = x.clone();
    let mut q = x;
    let mut a = Vec::new();
    let mut b = Vec::new();
    for v in p.iter_mut() { a.push(core::mem::replace(v, T::default())); }
    for v in q.iter_mut() { b.push(core::mem::replace(v, T::default())); }
    (a, p, b, q)
}

//@ punctuated_into_iter k=4
pub fn punctuated_into_iter__imp<T, P>(x: punctuated::Punctuated<T, P>) -> Vec<T> {
    let mut out = Vec::new();
    for v in parsel::ast::Punctuated::from(x) { out.push(v); }
    out
}
pub fn punctuated_into_iter__spec<T, P>(x: punctuated::Punctuated<T, P>) -> Vec<T> {
    let mut out = Vec::new();
    for v in x { out.push(v); }
    out
}

//@ punctuated_pairs k=4
pub fn punctuated_pairs__imp<'a, T, P>(x: &'a parsel::ast::Punctuated<T, P>) -> Vec<Pair<&'a T, &'a P>> {
    let mut out = Vec::new();
    for v in x.pairs() { out.push(v); }
    out
}
pub fn punctuated_pairs__spec<'a, T, P>(x: &'a parsel::ast::Punctuated<T, P>) -> Vec<Pair<&'a T, &'a P>> {
    let i: &'a punctuated::Punctuated<T, P> = &**x;
    let mut out = Vec::new();
    for v in i.pairs() { out.push(v); }
    out
}

//@ punctuated_into_pairs k=4
pub fn punctuated_into_pairs__imp<T, P>(x: punctuated::Punctuated<T, P>) -> Vec<Pair<T, P>> {
    let mut out = Vec::new();
    for v in parsel::ast::Punctuated::from(x).into_pairs() { out.push(v); }
    out
}
pub fn punctuated_into_pairs__spec<T, P>(x: punctuated::Punctuated<T, P>) -> Vec<Pair<T, P>> {
    let mut out = Vec::new();
    for v in x.into_pairs() { out.push(v); }
    out
}

//@ punctuated_pairs_mut k=4
pub fn punctuated_pairs_mut__imp<T: Default, P>(x: punctuated::Punctuated<T, P>) -> (Vec<T>, punctuated::Punctuated<T, P>) {
    let mut p = parsel::ast::Punctuated::from(x);
    let mut a = Vec::new();
    for v in p.pairs_mut() { a.push(core::mem::replace(v.into_value(), T::default())); }
    (a, p.into_inner())
}
pub fn punctuated_pairs_mut__spec<T: Default, P>(x: punctuated::Punctuated<T, P>) -> (Vec<T>, punctuated::Punctuated<T, P>) {
    let mut p = x;
    let mut a = Vec::new();
    for v in p.pairs_mut() { a.push(core::mem::replace(v.into_value(), T::default())); }
    (a, p)
}

//@ punctuated_index k=4
pub fn punctuated_index__imp<'a, T, P>(x: &'a parsel::ast::Punctuated<T, P>, i: usize) -> &'a T {
    &x[i]
}
pub fn punctuated_index__spec<'a, T, P>(x: &'a parsel::ast::Punctuated<T, P>, i: usize) -> &'a T {
    let s: &'a punctuated::Punctuated<T, P> = &**x;
    &s[i]
}

//@ punctuated_index_mut k=4
pub fn punctuated_index_mut__imp<T, P>(x: punctuated::Punctuated<T, P>, i: usize, v: T) -> punctuated::Punctuated<T, P> {
    let mut p = parsel::ast::Punctuated::from(x);
    p[i] = v;
    p.into_inner()
}
pub fn punctuated_index_mut__spec<T, P>(x: punctuated::Punctuated<T, P>, i: usize, v: T) -> punctuated::Punctuated<T, P> {
    let mut p = x;
    p[i] = v;
    p
}

//@ punctuated_compares k=4
pub fn punctuated_compares__imp<T: PartialEq, P: PartialEq>(x: &parsel::ast::Punctuated<T, P>, y: &parsel::ast::Punctuated<T, P>) -> bool {
    x == y
}
pub fn punctuated_compares__spec<T: PartialEq, P: PartialEq>(x: &parsel::ast::Punctuated<T, P>, y: &parsel::ast::Punctuated<T, P>) -> bool {
    let a: &punctuated::Punctuated<T, P> = &**x;
    let b: &punctuated::Punctuated<T, P> = &**y;
    a == b
}

//@ separated_into
pub fn separated_into__imp<T, P>(x: Separated<T, P>, y: Separated<T, P>) -> (punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>) where Separated<T, P>: Clone {
    (x.into_inner(), punctuated::Punctuated::from(y))
}
pub fn separated_into__spec<T, P>(x: Separated<T, P>, y: Separated<T, P>) -> (punctuated::Punctuated<T, P>, punctuated::Punctuated<T, P>) where Separated<T, P>: Clone, punctuated::Punctuated<T, P>: Clone {
    let a: punctuated::Punctuated<T, P> = (*x).clone();
    let b: punctuated::Punctuated<T, P> = (*y).clone();
    (a, b)
}

//@ separated_try_from k=5
pub fn separated_try_from__imp<T: ToTokens, P: ToTokens>(x: punctuated::Punctuated<T, P>) -> Option<punctuated::Punctuated<T, P>> {
    <Separated<T, P> as TryFrom<punctuated::Punctuated<T, P>>>::try_from(x).ok().map(Separated::into_inner)
}
pub fn separated_try_from__spec<T: ToTokens, P: ToTokens>(x: punctuated::Punctuated<T, P>) -> Option<punctuated::Punctuated<T, P>> {
    if x.empty_or_trailing() { None } else { Some(x) }
}

//@ separated_views k=4
pub fn separated_views__imp<'a, T, P>(x: &'a Separated<T, P>) -> (usize, &'a T, &'a T, &'a punctuated::Punctuated<T, P>, &'a punctuated::Punctuated<T, P>, &'a punctuated::Punctuated<T, P>) {
    (x.len().get(), x.first(), x.last(), x.as_ref(), x.borrow(), <Separated<T, P> as Deref>::deref(x))
}
pub fn separated_views__spec<'a, T, P>(x: &'a Separated<T, P>) -> (usize, &'a T, &'a T, &'a punctuated::Punctuated<T, P>, &'a punctuated::Punctuated<T, P>, &'a punctuated::Punctuated<T, P>) {
    let i: &'a punctuated::Punctuated<T, P> = &**x;
    __vp::assume(!i.empty_or_trailing());
    (i.len(), &i[0], &i[i.len() - 1], i, i, i)
}

//@ separated_first_last k=4
pub fn separated_first_last__imp<T: Default, P>(x: Separated<T, P>) -> (T, T, punctuated::Punctuated<T, P>) {
    let mut x = x;
    let f = core::mem::take(x.first_mut());
    let l = core::mem::take(x.last_mut());
    (f, l, x.into_inner())
}
pub fn separated_first_last__spec<T: Default, P>(x: Separated<T, P>) -> (T, T, punctuated::Punctuated<T, P>) {
    let mut x = x.into_inner();
    __vp::assume(!x.empty_or_trailing());
    let n = x.len();
    let f = core::mem::take(&mut x[0]);
    let l = core::mem::take(&mut x[n - 1]);
    (f, l, x)
}

//@ separated_push
pub fn separated_push__imp<T, P>(x: Separated<T, P>, p: P, t: T) -> punctuated::Punctuated<T, P> {
    let mut x = x;
    x.push(p, t);
    x.into_inner()
}
pub fn separated_push__spec<T, P>(x: Separated<T, P>, p: P, t: T) -> punctuated::Punctuated<T, P> {
    let mut x = x.into_inner();
    __vp::assume(!x.empty_or_trailing());
    x.push_punct(p);
    x.push_value(t);
    x
}

//@ separated_push_value
pub fn separated_push_value__imp<T, P: Default>(x: Separated<T, P>, t: T) -> punctuated::Punctuated<T, P> {
    let mut x = x;
    x.push_value(t);
    x.into_inner()
}
pub fn separated_push_value__spec<T, P: Default>(x: Separated<T, P>, t: T) -> punctuated::Punctuated<T, P> {
    let mut x = x.into_inner();
    __vp::assume(!x.empty_or_trailing());
    x.push_punct(P::default());
    x.push_value(t);
    x
}

//@ separated_insert k=4
pub fn separated_insert__imp<T, P: Default>(x: Separated<T, P>, i: usize, t: T) -> punctuated::Punctuated<T, P> {
    let mut x = x;
    x.insert(i, t);
    x.into_inner()
}
pub fn separated_insert__spec<T, P: Default>(x: Separated<T, P>, i: usize, t: T) -> punctuated::Punctuated<T, P> {
    let mut x = x.into_inner();
    __vp::assume(!x.empty_or_trailing());
    x.insert(i, t);
    x
}

//@ separated_extend k=4
pub fn separated_extend__imp<T, P: Default, I: Iterator<Item = T>>(x: Separated<T, P>, it: I) -> punctuated::Punctuated<T, P> {
    let mut x = x;
    <Separated<T, P> as Extend<T>>::extend(&mut x, it);
    x.into_inner()
}
pub fn separated_extend__spec<T, P: Default, I: Iterator<Item = T>>(x: Separated<T, P>, it: I) -> punctuated::Punctuated<T, P> {
    let mut x = x.into_inner();
    __vp::assume(!x.empty_or_trailing());
    for y in it {
        x.push_punct(P::default());
        x.push_value(y);
    }
    x
}

//@ separated_extend_parts k=4
pub fn separated_extend_parts__imp<T, P, I: Iterator<Item = (P, T)>>(x: Separated<T, P>, it: I) -> punctuated::Punctuated<T, P> {
    let mut x = x;
    <Separated<T, P> as Extend<(P, T)>>::extend(&mut x, it);
    x.into_inner()
}
pub fn separated_extend_parts__spec<T, P, I: Iterator<Item = (P, T)>>(x: Separated<T, P>, it: I) -> punctuated::Punctuated<T, P> {
    let mut x = x.into_inner();
    __vp::assume(!x.empty_or_trailing());
    for (p, t) in it {
        x.push_punct(p);
        x.push_value(t);
    }
    x
}

//@ separated_iterate k=4
pub fn separated_iterate__imp<'a, T, P>(x: &'a Separated<T, P>, out: &mut Vec<&'a T>, back: &mut Vec<&'a T>, again: &mut Vec<&'a T>) {
    for v in x.iter() { out.push(v); }
    for v in x.iter().rev() { back.push(v); }
    for v in x { again.push(v); }
}
pub fn separated_iterate__spec<'a, T, P>(x: &'a Separated<T, P>, out: &mut Vec<&'a T>, back: &mut Vec<&'a T>, again: &mut Vec<&'a T>) {
    let i: &'a punctuated::Punctuated<T, P> = &**x;
    __vp::assume(!i.empty_or_trailing());
    for v in i.iter() { out.push(v); }
    for v in i.iter().rev() { back.push(v); }
    for v in i.iter() { again.push(v); }
}

//@ separated_iterate_mut k=4
pub fn separated_iterate_mut__imp<T: Default, P>(x: Separated<T, P>, y: Separated<T, P>) -> (Vec<T>, punctuated::Punctuated<T, P>, Vec<T>, punctuated::Punctuated<T, P>) {
    let (mut p, mut q) = (x, y);
    let mut a = Vec::new();
    let mut b = Vec::new();
    for v in p.iter_mut() { a.push(core::mem::replace(v, T::default())); }
    for v in &mut q { b.push(core::mem::replace(v, T::default())); }
    (a, p.into_inner(), b, q.into_inner())
}
pub fn separated_iterate_mut__spec<T: Default, P>(x: Separated<T, P>, y: Separated<T, P>) -> (Vec<T>, punctuated::Punctuated<T, P>, Vec<T>, punctuated::Punctuated<T, P>) {
    let (mut p, mut q) = (x.into_inner(), y.into_inner());
    __vp::assume(!p.empty_or_trailing());
    __vp::assume(!q.empty_or_trailing());
    let mut a = Vec::new();
    let mut b = Vec::new();
    for v in p.iter_mut() { a.push(core::mem::replace(v, T::default())); }
    for v in q.iter_mut() { b.push(core::mem::replace(v, T::default())); }
    (a, p, b, q)
}

//@ separated_into_iter k=4
pub fn separated_into_iter__imp<T, P>(x: Separated<T, P>) -> Vec<T> {
    let mut out = Vec::new();
    for v in x { out.push(v); }
    out
}
pub fn separated_into_iter__spec<T, P>(x: Separated<T, P>) -> Vec<T> {
    let x = x.into_inner();
    __vp::assume(!x.empty_or_trailing());
    let mut out = Vec::new();
    for v in x { out.push(v); }
    out
}

//@ separated_pairs k=4
pub fn separated_pairs__imp<'a, T, P>(x: &'a Separated<T, P>) -> Vec<Pair<&'a T, &'a P>> {
    let mut out = Vec::new();
    for v in x.pairs() { out.push(v); }
    out
}
pub fn separated_pairs__spec<'a, T, P>(x: &'a Separated<T, P>) -> Vec<Pair<&'a T, &'a P>> {
    let i: &'a punctuated::Punctuated<T, P> = &**x;
    __vp::assume(!i.empty_or_trailing());
    let mut out = Vec::new();
    for v in i.pairs() { out.push(v); }
    out
}

//@ separated_into_pairs k=4
pub fn separated_into_pairs__imp<T, P>(x: Separated<T, P>) -> Vec<Pair<T, P>> {
    let mut out = Vec::new();
    for v in x.into_pairs() { out.push(v); }
    out
}
pub fn separated_into_pairs__spec<T, P>(x: Separated<T, P>) -> Vec<Pair<T, P>> {
    let x = x.into_inner();
    __vp::assume(!x.empty_or_trailing());
    let mut out = Vec::new();
    for v in x.into_pairs() { out.push(v); }
    out
}

//@ separated_pairs_mut k=4
pub fn separated_pairs_mut__imp<T: Default, P>(x: Separated<T, P>) -> (Vec<T>, punctuated::Punctuated<T, P>) {
    let mut p = x;
    let mut a = Vec::new();
    for v in p.pairs_mut() { a.push(core::mem::replace(v.into_value(), T::default())); }
    (a, p.into_inner())
}
pub fn separated_pairs_mut__spec<T: Default, P>(x: Separated<T, P>) -> (Vec<T>, punctuated::Punctuated<T, P>) {
    let mut p = x.into_inner();
    __vp::assume(!p.empty_or_trailing());
    let mut a = Vec::new();
    for v in p.pairs_mut() { a.push(core::mem::replace(v.into_value(), T::default())); }
    (a, p)
}

//@ separated_index k=4
pub fn separated_index__imp<'a, T, P>(x: &'a Separated<T, P>, i: usize) -> &'a T {
    &x[i]
}
pub fn separated_index__spec<'a, T, P>(x: &'a Separated<T, P>, i: usize) -> &'a T {
    let s: &'a punctuated::Punctuated<T, P> = &**x;
    __vp::assume(!s.empty_or_trailing());
    &s[i]
}

//@ separated_index_mut k=4
pub fn separated_index_mut__imp<T, P>(x: Separated<T, P>, i: usize, v: T) -> punctuated::Punctuated<T, P> {
    let mut p = x;
    p[i] = v;
    p.into_inner()
}
pub fn separated_index_mut__spec<T, P>(x: Separated<T, P>, i: usize, v: T) -> punctuated::Punctuated<T, P> {
    let mut p = x.into_inner();
    __vp::assume(!p.empty_or_trailing());
    p[i] = v;
    p
}

//@ separated_compares k=4
pub fn separated_compares__imp<T: PartialEq, P: PartialEq>(x: &Separated<T, P>, y: &Separated<T, P>) -> bool {
    x == y
}
pub fn separated_compares__spec<T: PartialEq, P: PartialEq>(x: &Separated<T, P>, y: &Separated<T, P>) -> bool {
    let a: &punctuated::Punctuated<T, P> = &**x;
    let b: &punctuated::Punctuated<T, P> = &**y;
    a == b
}

//@ any_absent
pub fn any_absent__imp<T>() -> (Vec<T>, Vec<T>, usize, bool) {
    let p = Any::<T>::new();
    let (n, e) = (p.len(), p.is_empty());
    (p.into_inner(), <Any<T> as Default>::default().into_inner(), n, e)
}
pub fn any_absent__spec<T>() -> (Vec<T>, Vec<T>, usize, bool) {
    (Vec::new(), Vec::new(), 0, true)
}

//@ any_from
pub fn any_from__imp<T>(x: Vec<T>, y: Vec<T>) -> (Vec<T>, Vec<T>) {
    (Any::from(x).into_inner(), Vec::from(Any::from(y)))
}
pub fn any_from__spec<T>(x: Vec<T>, y: Vec<T>) -> (Vec<T>, Vec<T>) {
    (x, y)
}

//@ any_views
pub fn any_views__imp<'a, T>(x: &'a Any<T>) -> (usize, bool, &'a Vec<T>, &'a [T], &'a Vec<T>, &'a [T]) {
    (x.len(), x.is_empty(), <Any<T> as AsRef<Vec<T>>>::as_ref(x), <Any<T> as AsRef<[T]>>::as_ref(x), <Any<T> as Borrow<Vec<T>>>::borrow(x), <Any<T> as Borrow<[T]>>::borrow(x))
}
pub fn any_views__spec<'a, T>(x: &'a Any<T>) -> (usize, bool, &'a Vec<T>, &'a [T], &'a Vec<T>, &'a [T]) {
    let i: &'a Vec<T> = &**x;
    (i.len(), i.is_empty(), i, i.as_slice(), i, i.as_slice())
}

//@ any_writes
pub fn any_writes__imp<T>(x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>) -> (Vec<T>, Vec<T>, Vec<T>, Vec<T>) {
    let mut p = Any::<T>::from(x);
    let x = core::mem::replace(<Any<T> as AsMut<Vec<T>>>::as_mut(&mut p), a);
    let a = core::mem::replace(<Any<T> as BorrowMut<Vec<T>>>::borrow_mut(&mut p), b);
    let b = core::mem::replace(p.deref_mut(), c);
    (x, a, b, p.into_inner())
}
pub fn any_writes__spec<T>(x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>) -> (Vec<T>, Vec<T>, Vec<T>, Vec<T>) {
    (x, a, b, c)
}

//@ any_write_slices k=4
pub fn any_write_slices__imp<T>(x: Vec<T>, a: T, b: T) -> Vec<T> {
    let mut p = Any::<T>::from(x);
    if let Some(x) = <Any<T> as AsMut<[T]>>::as_mut(&mut p).first_mut() { *x = a; }
    if let Some(x) = <Any<T> as BorrowMut<[T]>>::borrow_mut(&mut p).last_mut() { *x = b; }
    p.into_inner()
}
pub fn any_write_slices__spec<T>(x: Vec<T>, a: T, b: T) -> Vec<T> {
    let mut x = x;
    if let Some(x) = x.first_mut() { *x = a; }
    if let Some(x) = x.last_mut() { *x = b; }
    x
}

//@ any_get k=4
pub fn any_get__imp<'a, T>(x: &'a Any<T>, i: usize) -> Option<&'a T> {
    x.get(i)
}
pub fn any_get__spec<'a, T>(x: &'a Any<T>, i: usize) -> Option<&'a T> {
    let v: &'a Vec<T> = &**x;
    if i < v.len() { Some(&v[i]) } else { None }
}

//@ any_get_range
pub fn any_get_range__imp<'a, T, R: std::slice::SliceIndex<[T]>>(x: &'a Any<T>, i: R) -> Option<&'a R::Output> {
    x.get(i)
}
pub fn any_get_range__spec<'a, T, R: std::slice::SliceIndex<[T]>>(x: &'a Any<T>, i: R) -> Option<&'a R::Output> {
    let v: &'a Vec<T> = &**x;
    v.as_slice().get(i)
}

//@ any_get_mut k=4
pub fn any_get_mut__imp<T>(x: Vec<T>, i: usize, t: T) -> (Option<T>, Vec<T>) {
    let mut p = Any::<T>::from(x);
    let o = p.get_mut(i).map(|x| core::mem::replace(x, t));
    (o, p.into_inner())
}
pub fn any_get_mut__spec<T>(x: Vec<T>, i: usize, t: T) -> (Option<T>, Vec<T>) {
    let mut x = x;
    let o = if i < x.len() { Some(core::mem::replace(&mut x[i], t)) } else { None };
    (o, x)
}

//@ any_index k=4
pub fn any_index__imp<'a, T>(x: &'a Any<T>, i: usize) -> &'a T {
    &x[i]
}
pub fn any_index__spec<'a, T>(x: &'a Any<T>, i: usize) -> &'a T {
    let v: &'a Vec<T> = &**x;
    &v[i]
}

//@ any_index_mut k=4
pub fn any_index_mut__imp<T>(x: Vec<T>, i: usize, t: T) -> Vec<T> {
    let mut p = Any::<T>::from(x);
    p[i] = t;
    p.into_inner()
}
pub fn any_index_mut__spec<T>(x: Vec<T>, i: usize, t: T) -> Vec<T> {
    let mut x = x;
    x[i] = t;
    x
}

//@ any_collect k=4
pub fn any_collect__imp<T, I: Iterator<Item = T>>(it: I) -> Vec<T> {
    <Any<T> as FromIterator<T>>::from_iter(it).into_inner()
}
pub fn any_collect__spec<T, I: Iterator<Item = T>>(it: I) -> Vec<T> {
    let mut out = Vec::new();
    for x in it { out.push(x); }
    out
}

//@ any_extend k=4
pub fn any_extend__imp<T, I: Iterator<Item = T>>(x: Vec<T>, it: I) -> Vec<T> {
    let mut x = Any::from(x);
    x.extend(it);
    x.into_inner()
}
pub fn any_extend__spec<T, I: Iterator<Item = T>>(x: Vec<T>, it: I) -> Vec<T> {
    let mut x = x;
    for y in it { x.push(y); }
    x
}

//@ any_iterate k=4
pub fn any_iterate__imp<'a, T>(x: &'a Any<T>, out: &mut Vec<&'a T>, again: &mut Vec<&'a T>) {
    for v in x.iter() { out.push(v); }
    for v in x { again.push(v); }
}
pub fn any_iterate__spec<'a, T>(x: &'a Any<T>, out: &mut Vec<&'a T>, again: &mut Vec<&'a T>) {
    let i: &'a Vec<T> = &**x;
    for v in i.iter() { out.push(v); }
    for v in i.iter() { again.push(v); }
}

//@ any_iterate_mut k=4
pub fn any_iterate_mut__imp<T: Default>(x: Vec<T>, y: Vec<T>) -> (Vec<T>, Vec<T>, Vec<T>, Vec<T>) {
    let mut p = Any::from(x);
    let mut q = Any::from(y);
    let mut a = Vec::new();
    let mut b = Vec::new();
    for v in p.iter_mut() { a.push(core::mem::replace(v, T::default())); }
    for v in &mut q { b.push(core::mem::replace(v, T::default())); }
    (a, p.into_inner(), b, q.into_inner())
}
pub fn any_iterate_mut__spec<T: Default>(x: Vec<T>, y: Vec<T>) -> (Vec<T>, Vec<T>, Vec<T>, Vec<T>) {
    let (mut p, mut q) = (x, y);
    let mut a = Vec::new();
    let mut b = Vec::new();
    for v in p.iter_mut() { a.push(core::mem::replace(v, T::default())); }
    for v in q.iter_mut() { b.push(core::mem::replace(v, T::default())); }
    (a, p, b, q)
}

//@ any_into_iter k=4
pub fn any_into_iter__imp<T>(x: Vec<T>) -> Vec<T> {
    let mut out = Vec::new();
    for v in Any::from(x) { out.push(v); }
    out
}
pub fn any_into_iter__spec<T>(x: Vec<T>) -> Vec<T> {
    let mut out = Vec::new();
    for v in x { out.push(v); }
    out
}

//@ any_compares k=4
pub fn any_compares__imp<T: PartialEq>(x: &Any<T>, y: &Any<T>) -> bool {
    x == y
}
pub fn any_compares__spec<T: PartialEq>(x: &Any<T>, y: &Any<T>) -> bool {
    let a: &Vec<T> = &**x;
    let b: &Vec<T> = &**y;
    a == b
}

//@ assoc_from
pub fn assoc_from__imp<O, T>(x: T, y: T) -> (LeftAssoc<O, T>, RightAssoc<O, T>) {
    (LeftAssoc::from(x), RightAssoc::from(y))
}
pub fn assoc_from__spec<O, T>(x: T, y: T) -> (LeftAssoc<O, T>, RightAssoc<O, T>) {
    (LeftAssoc::Rhs(x), RightAssoc::Lhs(y))
}
