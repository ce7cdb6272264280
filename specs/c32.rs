// The debugging form of a node is that of its contents.
parsel::define_keywords!{ pub mod vpkw { select => Select; r#fn => RawFn; } }
//@ ident_debug
pub fn ident_debug__imp<K>(a: &CustomIdent<K>, f: &mut Formatter<'_>) -> fmt::Result {
    <CustomIdent<K> as Debug>::fmt(a, f)
}
pub fn ident_debug__spec<K>(a: &CustomIdent<K>, f: &mut Formatter<'_>) -> fmt::Result {
    let t: Ident = a.token(); <Ident as Debug>::fmt(&t, f)
}

//@ kw_debug
pub fn kw_debug__imp(a: &vpkw::Select, f: &mut Formatter<'_>) -> fmt::Result {
    <vpkw::Select as Debug>::fmt(a, f)
}
pub fn kw_debug__spec(a: &vpkw::Select, f: &mut Formatter<'_>) -> fmt::Result {
    <str as Display>::fmt("select", f)
}

//@ kwraw_debug
pub fn kwraw_debug__imp(a: &vpkw::RawFn, f: &mut Formatter<'_>) -> fmt::Result {
    <vpkw::RawFn as Debug>::fmt(a, f)
}
pub fn kwraw_debug__spec(a: &vpkw::RawFn, f: &mut Formatter<'_>) -> fmt::Result {
    <str as Display>::fmt("r#fn", f)
}

//@ maybe_debug
pub fn maybe_debug__imp<P: Debug, T: Debug>(a: &Maybe<P, T>, f: &mut Formatter<'_>) -> fmt::Result {
    <Maybe<P, T> as Debug>::fmt(a, f)
}
pub fn maybe_debug__spec<P: Debug, T: Debug>(a: &Maybe<P, T>, f: &mut Formatter<'_>) -> fmt::Result {
    let o: Option<&(P, T)> = a.as_parts(); <Option<&(P, T)> as Debug>::fmt(&o, f)
}

//@ punctuated_debug
pub fn punctuated_debug__imp<T: Debug, P: Debug>(a: &Punctuated<T, P>, f: &mut Formatter<'_>) -> fmt::Result {
    <Punctuated<T, P> as Debug>::fmt(a, f)
}
pub fn punctuated_debug__spec<T: Debug, P: Debug>(a: &Punctuated<T, P>, f: &mut Formatter<'_>) -> fmt::Result {
    <punctuated::Punctuated<T, P> as Debug>::fmt(a.as_ref(), f)
}

//@ separated_debug
pub fn separated_debug__imp<T: Debug, P: Debug>(a: &Separated<T, P>, f: &mut Formatter<'_>) -> fmt::Result {
    <Separated<T, P> as Debug>::fmt(a, f)
}
pub fn separated_debug__spec<T: Debug, P: Debug>(a: &Separated<T, P>, f: &mut Formatter<'_>) -> fmt::Result {
    <punctuated::Punctuated<T, P> as Debug>::fmt(a.as_ref(), f)
}

//@ any_debug
pub fn any_debug__imp<T: Debug>(a: &Any<T>, f: &mut Formatter<'_>) -> fmt::Result {
    <Any<T> as Debug>::fmt(a, f)
}
pub fn any_debug__spec<T: Debug>(a: &Any<T>, f: &mut Formatter<'_>) -> fmt::Result {
    let x: &Vec<T> = a.as_ref(); <Vec<T> as Debug>::fmt(x, f)
}

//@ lit_debug
pub fn lit_debug__imp(a: &Lit, f: &mut Formatter<'_>) -> fmt::Result {
    <Lit as Debug>::fmt(a, f)
}
pub fn lit_debug__spec(a: &Lit, f: &mut Formatter<'_>) -> fmt::Result {
    match a { Lit::Bool(x) => <LitBool as Debug>::fmt(x, f), Lit::Byte(x) => <LitByte as Debug>::fmt(x, f), Lit::Int(x) => <LitInt as Debug>::fmt(x, f), Lit::Uint(x) => <LitUint as Debug>::fmt(x, f), Lit::Float(x) => <LitFloat as Debug>::fmt(x, f), Lit::Char(x) => <LitChar as Debug>::fmt(x, f), Lit::Str(x) => <LitStr as Debug>::fmt(x, f), Lit::ByteStr(x) => <LitByteStr as Debug>::fmt(x, f) }
}

//@ left_debug rec=1
pub fn left_debug__imp<O: Debug, X: Debug>(a: &LeftAssoc<O, X>, f: &mut Formatter<'_>) -> fmt::Result {
    <LeftAssoc<O, X> as Debug>::fmt(a, f)
}
pub fn left_debug__spec<O: Debug, X: Debug>(a: &LeftAssoc<O, X>, f: &mut Formatter<'_>) -> fmt::Result {
    match a { LeftAssoc::Binary { lhs, op, rhs } => { let l: &LeftAssoc<O, X> = &**lhs; f.debug_struct(&format!("Binary<{:?}>", op)).field("lhs", &l).field("rhs", rhs).finish() } LeftAssoc::Rhs(x) => <X as Debug>::fmt(x, f) }
}

//@ right_debug rec=1
pub fn right_debug__imp<O: Debug, X: Debug>(a: &RightAssoc<O, X>, f: &mut Formatter<'_>) -> fmt::Result {
    <RightAssoc<O, X> as Debug>::fmt(a, f)
}
pub fn right_debug__spec<O: Debug, X: Debug>(a: &RightAssoc<O, X>, f: &mut Formatter<'_>) -> fmt::Result {
    match a { RightAssoc::Binary { lhs, op, rhs } => { let r: &RightAssoc<O, X> = &**rhs; f.debug_struct(&format!("Binary<{:?}>", op)).field("lhs", lhs).field("rhs", &r).finish() } RightAssoc::Lhs(x) => <X as Debug>::fmt(x, f) }
}

//@ either_debug
pub fn either_debug__imp<L: Debug, R: Debug>(a: &Either<L, R>, f: &mut Formatter<'_>) -> fmt::Result {
    <Either<L, R> as Debug>::fmt(a, f)
}
pub fn either_debug__spec<L: Debug, R: Debug>(a: &Either<L, R>, f: &mut Formatter<'_>) -> fmt::Result {
    match a { Either::Left(x) => <L as Debug>::fmt(x, f), Either::Right(x) => <R as Debug>::fmt(x, f) }
}

