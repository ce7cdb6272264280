//@ @d@_new
pub fn @d@_new__imp<T>(x: T, span: Span) -> (token::@D@, T) {
    @D@::new(x, span).into_parts()
}
pub fn @d@_new__spec<T>(x: T, span: Span) -> (token::@D@, T) {
    (token::@D@(span), x)
}

//@ @d@_from
pub fn @d@_from__imp<T: Spanned>(x: T) -> (token::@D@, T) {
    <@D@<T> as From<T>>::from(x).into_parts()
}
pub fn @d@_from__spec<T: Spanned>(x: T) -> (token::@D@, T) {
    (token::@D@(x.span()), x)
}

//@ @d@_from_parts
pub fn @d@_from_parts__imp<T>(x: (token::@D@, T)) -> (token::@D@, T) {
    <@D@<T> as From<(token::@D@, T)>>::from(x).into_parts()
}
pub fn @d@_from_parts__spec<T>(x: (token::@D@, T)) -> (token::@D@, T) {
    x
}

//@ @d@_into
pub fn @d@_into__imp<T>(x: (token::@D@, T), y: (token::@D@, T)) -> (T, token::@D@) {
    (@D@::from(x).into_inner(), @D@::from(y).into_@d@s())
}
pub fn @d@_into__spec<T>(x: (token::@D@, T), y: (token::@D@, T)) -> (T, token::@D@) {
    (x.1, y.0)
}

//@ @d@_views
pub fn @d@_views__imp<'a, T>(x: &'a @D@<T>) -> (&'a T, &'a T, &'a token::@D@, &'a token::@D@) {
    (x.as_ref(), <@D@<T> as Deref>::deref(x), x.as_@d@s(), x.as_parts().0)
}
pub fn @d@_views__spec<'a, T>(x: &'a @D@<T>) -> (&'a T, &'a T, &'a token::@D@, &'a token::@D@) {
    let (t, v) = x.as_parts();
    (v, v, t, t)
}

//@ @d@_parts
pub fn @d@_parts__imp<T: Clone>(x: (token::@D@, T)) -> ((token::@D@, T), T) {
    let d = @D@::from(x);
    let (t, v) = d.as_parts();
    ((*t, v.clone()), d.into_inner())
}
pub fn @d@_parts__spec<T: Clone>(x: (token::@D@, T)) -> ((token::@D@, T), T) {
    ((x.0, x.1.clone()), x.1)
}

//@ @d@_writes
pub fn @d@_writes__imp<T>(x: (token::@D@, T), a: T, b: T) -> (T, T, (token::@D@, T)) {
    let mut d = @D@::from(x);
    let x = core::mem::replace(d.as_mut(), a);
    let a = core::mem::replace(<@D@<T> as DerefMut>::deref_mut(&mut d), b);
    (x, a, d.into_parts())
}
pub fn @d@_writes__spec<T>(x: (token::@D@, T), a: T, b: T) -> (T, T, (token::@D@, T)) {
    (x.1, a, (x.0, b))
}

//@ @d@_compares
pub fn @d@_compares__imp<T: PartialEq>(x: &@D@<T>, y: &@D@<T>) -> bool {
    x == y
}
pub fn @d@_compares__spec<T: PartialEq>(x: &@D@<T>, y: &@D@<T>) -> bool {
    x.as_parts().1 == y.as_parts().1
}

