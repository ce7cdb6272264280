// Equality, hashing, ordering and cloning of nodes are those of their contents, whatever the spans.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Two<A, B> { First(A), Second(B) }
#[derive(PartialEq, Eq, Hash)]
pub enum Chain<A, B, C, D> { Node { x: A, y: B, z: C }, Leaf(D) }
#[derive(Hash)]
pub enum Kinds<'a> { Bool(&'a LitBool), Byte(&'a LitByte), Int(&'a LitInt), Uint(&'a LitUint), Float(&'a LitFloat), Char(&'a LitChar), Str(&'a LitStr), ByteStr(&'a LitByteStr) }
parsel::define_keywords!{ pub mod kw31 { select => Select; } }

//@ maybe_eq
pub fn maybe_eq__imp<P: PartialEq, T: PartialEq>(a: &Maybe<P, T>, b: &Maybe<P, T>) -> bool {
    <Maybe<P, T> as PartialEq>::eq(a, b)
}
pub fn maybe_eq__spec<P: PartialEq, T: PartialEq>(a: &Maybe<P, T>, b: &Maybe<P, T>) -> bool {
    match (a.as_parts(), b.as_parts()) { (None, None) => true, (Some((p, t)), Some((q, u))) => *p == *q && *t == *u, _ => false }
}

//@ maybe_ne
pub fn maybe_ne__imp<P: PartialEq, T: PartialEq>(a: &Maybe<P, T>, b: &Maybe<P, T>) -> bool {
    <Maybe<P, T> as PartialEq>::ne(a, b)
}
pub fn maybe_ne__spec<P: PartialEq, T: PartialEq>(a: &Maybe<P, T>, b: &Maybe<P, T>) -> bool {
    !{ match (a.as_parts(), b.as_parts()) { (None, None) => true, (Some((p, t)), Some((q, u))) => *p == *q && *t == *u, _ => false } }
}

//@ maybe_hash hash=weak
pub fn maybe_hash__imp<P: Hash, T: Hash, H: Hasher>(a: &Maybe<P, T>, h: &mut H) {
    <Maybe<P, T> as Hash>::hash(a, h)
}
pub fn maybe_hash__spec<P: Hash, T: Hash, H: Hasher>(a: &Maybe<P, T>, h: &mut H) {
    Option::hash(&a.as_parts(), h)
}

//@ maybe_clone
pub fn maybe_clone__imp<P: Clone, T: Clone>(a: &Maybe<P, T>) -> Maybe<P, T> {
    <Maybe<P, T> as Clone>::clone(a)
}
pub fn maybe_clone__spec<P: Clone, T: Clone>(a: &Maybe<P, T>) -> Maybe<P, T> {
    Maybe::from(match a.as_parts() { None => None, Some((p, t)) => Some((p.clone(), t.clone())) })
}

//@ paren_eq
pub fn paren_eq__imp<T: PartialEq>(a: &Paren<T>, b: &Paren<T>) -> bool {
    <Paren<T> as PartialEq>::eq(a, b)
}
pub fn paren_eq__spec<T: PartialEq>(a: &Paren<T>, b: &Paren<T>) -> bool {
    **a == **b
}

//@ paren_ne
pub fn paren_ne__imp<T: PartialEq>(a: &Paren<T>, b: &Paren<T>) -> bool {
    <Paren<T> as PartialEq>::ne(a, b)
}
pub fn paren_ne__spec<T: PartialEq>(a: &Paren<T>, b: &Paren<T>) -> bool {
    !{ **a == **b }
}

//@ paren_hash hash=weak
pub fn paren_hash__imp<T: Hash, H: Hasher>(a: &Paren<T>, h: &mut H) {
    <Paren<T> as Hash>::hash(a, h)
}
pub fn paren_hash__spec<T: Hash, H: Hasher>(a: &Paren<T>, h: &mut H) {
    T::hash(&**a, h)
}

//@ paren_clone
pub fn paren_clone__imp<T: Clone>(a: Paren<T>, b: Paren<T>) -> (T, token::Paren) {
    let c = <Paren<T> as Clone>::clone(&a); let (t, _) = <Paren<T> as Clone>::clone(&b).into_parts(); (c.into_inner(), t)
}
pub fn paren_clone__spec<T: Clone>(a: Paren<T>, b: Paren<T>) -> (T, token::Paren) {
    let x = (*a).clone(); (x, b.into_parens())
}

//@ bracket_eq
pub fn bracket_eq__imp<T: PartialEq>(a: &Bracket<T>, b: &Bracket<T>) -> bool {
    <Bracket<T> as PartialEq>::eq(a, b)
}
pub fn bracket_eq__spec<T: PartialEq>(a: &Bracket<T>, b: &Bracket<T>) -> bool {
    **a == **b
}

//@ bracket_ne
pub fn bracket_ne__imp<T: PartialEq>(a: &Bracket<T>, b: &Bracket<T>) -> bool {
    <Bracket<T> as PartialEq>::ne(a, b)
}
pub fn bracket_ne__spec<T: PartialEq>(a: &Bracket<T>, b: &Bracket<T>) -> bool {
    !{ **a == **b }
}

//@ bracket_hash hash=weak
pub fn bracket_hash__imp<T: Hash, H: Hasher>(a: &Bracket<T>, h: &mut H) {
    <Bracket<T> as Hash>::hash(a, h)
}
pub fn bracket_hash__spec<T: Hash, H: Hasher>(a: &Bracket<T>, h: &mut H) {
    T::hash(&**a, h)
}

//@ bracket_clone
pub fn bracket_clone__imp<T: Clone>(a: Bracket<T>, b: Bracket<T>) -> (T, token::Bracket) {
    let c = <Bracket<T> as Clone>::clone(&a); let (t, _) = <Bracket<T> as Clone>::clone(&b).into_parts(); (c.into_inner(), t)
}
pub fn bracket_clone__spec<T: Clone>(a: Bracket<T>, b: Bracket<T>) -> (T, token::Bracket) {
    let x = (*a).clone(); (x, b.into_brackets())
}

//@ brace_eq
pub fn brace_eq__imp<T: PartialEq>(a: &Brace<T>, b: &Brace<T>) -> bool {
    <Brace<T> as PartialEq>::eq(a, b)
}
pub fn brace_eq__spec<T: PartialEq>(a: &Brace<T>, b: &Brace<T>) -> bool {
    **a == **b
}

//@ brace_ne
pub fn brace_ne__imp<T: PartialEq>(a: &Brace<T>, b: &Brace<T>) -> bool {
    <Brace<T> as PartialEq>::ne(a, b)
}
pub fn brace_ne__spec<T: PartialEq>(a: &Brace<T>, b: &Brace<T>) -> bool {
    !{ **a == **b }
}

//@ brace_hash hash=weak
pub fn brace_hash__imp<T: Hash, H: Hasher>(a: &Brace<T>, h: &mut H) {
    <Brace<T> as Hash>::hash(a, h)
}
pub fn brace_hash__spec<T: Hash, H: Hasher>(a: &Brace<T>, h: &mut H) {
    T::hash(&**a, h)
}

//@ brace_clone
pub fn brace_clone__imp<T: Clone>(a: Brace<T>, b: Brace<T>) -> (T, token::Brace) {
    let c = <Brace<T> as Clone>::clone(&a); let (t, _) = <Brace<T> as Clone>::clone(&b).into_parts(); (c.into_inner(), t)
}
pub fn brace_clone__spec<T: Clone>(a: Brace<T>, b: Brace<T>) -> (T, token::Brace) {
    let x = (*a).clone(); (x, b.into_braces())
}

pub fn items_same<T: PartialEq>(a: &Vec<T>, b: &Vec<T>) -> bool {
    let mut same = a.len() == b.len();
    let mut i = 0;
    while same && i < a.len() {
        same = a[i] == b[i];
        i += 1;
    }
    same
}

//@ punctuated_items_eq seqeq=1
pub fn punctuated_items_eq__imp<T: PartialEq, P: PartialEq>(a: Punctuated<T, P>, b: Punctuated<T, P>) -> bool {
    <Punctuated<T, P> as PartialEq>::eq(&a, &b)
}
pub fn punctuated_items_eq__spec<T: PartialEq, P: PartialEq>(a: Punctuated<T, P>, b: Punctuated<T, P>) -> bool {
    let (x, y) = (a.into_inner(), b.into_inner()); let t = x.trailing_punct() == y.trailing_punct(); let (x, y): (Vec<_>, Vec<_>) = (x.into_pairs().map(|p| p.into_tuple()).collect(), y.into_pairs().map(|p| p.into_tuple()).collect()); (t && items_same(&x, &y))
}

//@ punctuated_items_ne seqeq=1
pub fn punctuated_items_ne__imp<T: PartialEq, P: PartialEq>(a: Punctuated<T, P>, b: Punctuated<T, P>) -> bool {
    <Punctuated<T, P> as PartialEq>::ne(&a, &b)
}
pub fn punctuated_items_ne__spec<T: PartialEq, P: PartialEq>(a: Punctuated<T, P>, b: Punctuated<T, P>) -> bool {
    let (x, y) = (a.into_inner(), b.into_inner()); let t = x.trailing_punct() == y.trailing_punct(); let (x, y): (Vec<_>, Vec<_>) = (x.into_pairs().map(|p| p.into_tuple()).collect(), y.into_pairs().map(|p| p.into_tuple()).collect()); !(t && items_same(&x, &y))
}

//@ punctuated_hash hash=weak
pub fn punctuated_hash__imp<T: Hash, P: Hash, H: Hasher>(a: &Punctuated<T, P>, h: &mut H) {
    <Punctuated<T, P> as Hash>::hash(a, h)
}
pub fn punctuated_hash__spec<T: Hash, P: Hash, H: Hasher>(a: &Punctuated<T, P>, h: &mut H) {
    punctuated::Punctuated::hash(a.as_ref(), h)
}

//@ punctuated_clone
pub fn punctuated_clone__imp<T: Clone, P: Clone>(a: &Punctuated<T, P>) -> punctuated::Punctuated<T, P> {
    <Punctuated<T, P> as Clone>::clone(a).into_inner()
}
pub fn punctuated_clone__spec<T: Clone, P: Clone>(a: &Punctuated<T, P>) -> punctuated::Punctuated<T, P> {
    a.as_ref().clone()
}

//@ separated_items_eq seqeq=1
pub fn separated_items_eq__imp<T: PartialEq, P: PartialEq>(a: Separated<T, P>, b: Separated<T, P>) -> bool {
    <Separated<T, P> as PartialEq>::eq(&a, &b)
}
pub fn separated_items_eq__spec<T: PartialEq, P: PartialEq>(a: Separated<T, P>, b: Separated<T, P>) -> bool {
    let (x, y) = (a.into_inner(), b.into_inner()); let t = x.trailing_punct() == y.trailing_punct(); let (x, y): (Vec<_>, Vec<_>) = (x.into_pairs().map(|p| p.into_tuple()).collect(), y.into_pairs().map(|p| p.into_tuple()).collect()); (t && items_same(&x, &y))
}

//@ separated_items_ne seqeq=1
pub fn separated_items_ne__imp<T: PartialEq, P: PartialEq>(a: Separated<T, P>, b: Separated<T, P>) -> bool {
    <Separated<T, P> as PartialEq>::ne(&a, &b)
}
pub fn separated_items_ne__spec<T: PartialEq, P: PartialEq>(a: Separated<T, P>, b: Separated<T, P>) -> bool {
    let (x, y) = (a.into_inner(), b.into_inner()); let t = x.trailing_punct() == y.trailing_punct(); let (x, y): (Vec<_>, Vec<_>) = (x.into_pairs().map(|p| p.into_tuple()).collect(), y.into_pairs().map(|p| p.into_tuple()).collect()); !(t && items_same(&x, &y))
}

//@ separated_hash hash=weak
pub fn separated_hash__imp<T: Hash, P: Hash, H: Hasher>(a: &Separated<T, P>, h: &mut H) {
    <Separated<T, P> as Hash>::hash(a, h)
}
pub fn separated_hash__spec<T: Hash, P: Hash, H: Hasher>(a: &Separated<T, P>, h: &mut H) {
    punctuated::Punctuated::hash(a.as_ref(), h)
}

//@ separated_clone
pub fn separated_clone__imp<T: Clone, P: Clone>(a: &Separated<T, P>) -> punctuated::Punctuated<T, P> {
    <Separated<T, P> as Clone>::clone(a).into_inner()
}
pub fn separated_clone__spec<T: Clone, P: Clone>(a: &Separated<T, P>) -> punctuated::Punctuated<T, P> {
    a.as_ref().clone()
}

//@ any_hash hash=weak
pub fn any_hash__imp<T: Hash, H: Hasher>(a: &Any<T>, h: &mut H) {
    <Any<T> as Hash>::hash(a, h)
}
pub fn any_hash__spec<T: Hash, H: Hasher>(a: &Any<T>, h: &mut H) {
    let x: &Vec<T> = a.as_ref(); x.hash(h)
}

//@ any_items_eq seqeq=1
pub fn any_items_eq__imp<T: PartialEq>(a: &Any<T>, b: &Any<T>) -> bool {
    <Any<T> as PartialEq>::eq(a, b)
}
pub fn any_items_eq__spec<T: PartialEq>(a: &Any<T>, b: &Any<T>) -> bool {
    items_same(AsRef::<Vec<T>>::as_ref(a), AsRef::<Vec<T>>::as_ref(b))
}

//@ any_items_ne seqeq=1
pub fn any_items_ne__imp<T: PartialEq>(a: &Any<T>, b: &Any<T>) -> bool {
    <Any<T> as PartialEq>::ne(a, b)
}
pub fn any_items_ne__spec<T: PartialEq>(a: &Any<T>, b: &Any<T>) -> bool {
    !items_same(AsRef::<Vec<T>>::as_ref(a), AsRef::<Vec<T>>::as_ref(b))
}

//@ any_clone
pub fn any_clone__imp<T: Clone>(a: &Any<T>) -> Vec<T> {
    <Any<T> as Clone>::clone(a).into_inner()
}
pub fn any_clone__spec<T: Clone>(a: &Any<T>) -> Vec<T> {
    let x: &Vec<T> = a.as_ref(); x.clone()
}

//@ either_eq
pub fn either_eq__imp<L: PartialEq, R: PartialEq>(a: &Either<L, R>, b: &Either<L, R>) -> bool {
    <Either<L, R> as PartialEq>::eq(a, b)
}
pub fn either_eq__spec<L: PartialEq, R: PartialEq>(a: &Either<L, R>, b: &Either<L, R>) -> bool {
    match (a, b) { (Either::Left(x), Either::Left(y)) => *x == *y, (Either::Right(x), Either::Right(y)) => *x == *y, _ => false }
}

//@ either_ne
pub fn either_ne__imp<L: PartialEq, R: PartialEq>(a: &Either<L, R>, b: &Either<L, R>) -> bool {
    <Either<L, R> as PartialEq>::ne(a, b)
}
pub fn either_ne__spec<L: PartialEq, R: PartialEq>(a: &Either<L, R>, b: &Either<L, R>) -> bool {
    !{ match (a, b) { (Either::Left(x), Either::Left(y)) => *x == *y, (Either::Right(x), Either::Right(y)) => *x == *y, _ => false } }
}

//@ either_hash hash=weak
pub fn either_hash__imp<L: Hash, R: Hash, H: Hasher>(a: &Either<L, R>, h: &mut H) {
    <Either<L, R> as Hash>::hash(a, h)
}
pub fn either_hash__spec<L: Hash, R: Hash, H: Hasher>(a: &Either<L, R>, h: &mut H) {
    match a { Either::Left(x) => Two::First::<&L, &R>(x), Either::Right(x) => Two::Second(x) }.hash(h)
}

//@ either_clone
pub fn either_clone__imp<L: Clone, R: Clone>(a: &Either<L, R>) -> Either<L, R> {
    <Either<L, R> as Clone>::clone(a)
}
pub fn either_clone__spec<L: Clone, R: Clone>(a: &Either<L, R>) -> Either<L, R> {
    match a { Either::Left(x) => Either::Left(x.clone()), Either::Right(x) => Either::Right(x.clone()) }
}

//@ either_cmp
pub fn either_cmp__imp<L: Ord, R: Ord>(a: &Either<L, R>, b: &Either<L, R>) -> Ordering {
    <Either<L, R> as Ord>::cmp(a, b)
}
pub fn either_cmp__spec<L: Ord, R: Ord>(a: &Either<L, R>, b: &Either<L, R>) -> Ordering {
    match (a, b) { (Either::Left(x), Either::Left(y)) => L::cmp(x, y), (Either::Right(x), Either::Right(y)) => R::cmp(x, y), (Either::Left(_), Either::Right(_)) => Ordering::Less, (Either::Right(_), Either::Left(_)) => Ordering::Greater }
}

//@ either_partial_cmp
pub fn either_partial_cmp__imp<L: PartialOrd, R: PartialOrd>(a: &Either<L, R>, b: &Either<L, R>) -> Option<Ordering> {
    <Either<L, R> as PartialOrd>::partial_cmp(a, b)
}
pub fn either_partial_cmp__spec<L: PartialOrd, R: PartialOrd>(a: &Either<L, R>, b: &Either<L, R>) -> Option<Ordering> {
    match (a, b) { (Either::Left(x), Either::Left(y)) => L::partial_cmp(x, y), (Either::Right(x), Either::Right(y)) => R::partial_cmp(x, y), (Either::Left(_), Either::Right(_)) => Some(Ordering::Less), (Either::Right(_), Either::Left(_)) => Some(Ordering::Greater) }
}

pub fn leftassoc_same<O: PartialEq, X: PartialEq>(a: &LeftAssoc<O, X>, b: &LeftAssoc<O, X>) -> bool {
    match (a, b) { (LeftAssoc::Binary { lhs: x, op: o, rhs: y }, LeftAssoc::Binary { lhs: u, op: p, rhs: v }) => leftassoc_same(x, u) && *o == *p && *y == *v, (LeftAssoc::Rhs(x), LeftAssoc::Rhs(u)) => *x == *u, _ => false }
}

//@ leftassoc_eq rec=1
pub fn leftassoc_eq__imp<O: PartialEq, X: PartialEq>(a: &LeftAssoc<O, X>, b: &LeftAssoc<O, X>) -> bool {
    <LeftAssoc<O, X> as PartialEq>::eq(a, b)
}
pub fn leftassoc_eq__spec<O: PartialEq, X: PartialEq>(a: &LeftAssoc<O, X>, b: &LeftAssoc<O, X>) -> bool {
    leftassoc_same(a, b)
}

//@ leftassoc_ne rec=1
pub fn leftassoc_ne__imp<O: PartialEq, X: PartialEq>(a: &LeftAssoc<O, X>, b: &LeftAssoc<O, X>) -> bool {
    <LeftAssoc<O, X> as PartialEq>::ne(a, b)
}
pub fn leftassoc_ne__spec<O: PartialEq, X: PartialEq>(a: &LeftAssoc<O, X>, b: &LeftAssoc<O, X>) -> bool {
    !leftassoc_same(a, b)
}

pub fn leftassoc_feed<O: Hash, X: Hash, H: Hasher>(a: &LeftAssoc<O, X>, h: &mut H) {
    match a { LeftAssoc::Binary { lhs, op, rhs } => { 0isize.hash(h); leftassoc_feed(lhs, h); op.hash(h); rhs.hash(h) } LeftAssoc::Rhs(x) => { 1isize.hash(h); x.hash(h) } }
}

//@ leftassoc_hash rec=1 hash=weak
pub fn leftassoc_hash__imp<O: Hash, X: Hash, H: Hasher>(a: &LeftAssoc<O, X>, h: &mut H) {
    <LeftAssoc<O, X> as Hash>::hash(a, h)
}
pub fn leftassoc_hash__spec<O: Hash, X: Hash, H: Hasher>(a: &LeftAssoc<O, X>, h: &mut H) {
    leftassoc_feed(a, h)
}

//@ leftassoc_clone
pub fn leftassoc_clone__imp<O: Clone, X: Clone>(a: &LeftAssoc<O, X>) -> LeftAssoc<O, X> {
    <LeftAssoc<O, X> as Clone>::clone(a)
}
pub fn leftassoc_clone__spec<O: Clone, X: Clone>(a: &LeftAssoc<O, X>) -> LeftAssoc<O, X> {
    match a { LeftAssoc::Binary { lhs, op, rhs } => LeftAssoc::Binary { lhs: lhs.clone(), op: op.clone(), rhs: rhs.clone() }, LeftAssoc::Rhs(x) => LeftAssoc::Rhs(x.clone()) }
}

pub fn rightassoc_same<O: PartialEq, X: PartialEq>(a: &RightAssoc<O, X>, b: &RightAssoc<O, X>) -> bool {
    match (a, b) { (RightAssoc::Binary { lhs: x, op: o, rhs: y }, RightAssoc::Binary { lhs: u, op: p, rhs: v }) => *x == *u && *o == *p && rightassoc_same(y, v), (RightAssoc::Lhs(x), RightAssoc::Lhs(u)) => *x == *u, _ => false }
}

//@ rightassoc_eq rec=1
pub fn rightassoc_eq__imp<O: PartialEq, X: PartialEq>(a: &RightAssoc<O, X>, b: &RightAssoc<O, X>) -> bool {
    <RightAssoc<O, X> as PartialEq>::eq(a, b)
}
pub fn rightassoc_eq__spec<O: PartialEq, X: PartialEq>(a: &RightAssoc<O, X>, b: &RightAssoc<O, X>) -> bool {
    rightassoc_same(a, b)
}

//@ rightassoc_ne rec=1
pub fn rightassoc_ne__imp<O: PartialEq, X: PartialEq>(a: &RightAssoc<O, X>, b: &RightAssoc<O, X>) -> bool {
    <RightAssoc<O, X> as PartialEq>::ne(a, b)
}
pub fn rightassoc_ne__spec<O: PartialEq, X: PartialEq>(a: &RightAssoc<O, X>, b: &RightAssoc<O, X>) -> bool {
    !rightassoc_same(a, b)
}

pub fn rightassoc_feed<O: Hash, X: Hash, H: Hasher>(a: &RightAssoc<O, X>, h: &mut H) {
    match a { RightAssoc::Binary { lhs, op, rhs } => { 0isize.hash(h); lhs.hash(h); op.hash(h); rightassoc_feed(rhs, h) } RightAssoc::Lhs(x) => { 1isize.hash(h); x.hash(h) } }
}

//@ rightassoc_hash rec=1 hash=weak
pub fn rightassoc_hash__imp<O: Hash, X: Hash, H: Hasher>(a: &RightAssoc<O, X>, h: &mut H) {
    <RightAssoc<O, X> as Hash>::hash(a, h)
}
pub fn rightassoc_hash__spec<O: Hash, X: Hash, H: Hasher>(a: &RightAssoc<O, X>, h: &mut H) {
    rightassoc_feed(a, h)
}

//@ rightassoc_clone
pub fn rightassoc_clone__imp<O: Clone, X: Clone>(a: &RightAssoc<O, X>) -> RightAssoc<O, X> {
    <RightAssoc<O, X> as Clone>::clone(a)
}
pub fn rightassoc_clone__spec<O: Clone, X: Clone>(a: &RightAssoc<O, X>) -> RightAssoc<O, X> {
    match a { RightAssoc::Binary { lhs, op, rhs } => RightAssoc::Binary { lhs: lhs.clone(), op: op.clone(), rhs: rhs.clone() }, RightAssoc::Lhs(x) => RightAssoc::Lhs(x.clone()) }
}

//@ lit_eq
pub fn lit_eq__imp(a: &Lit, b: &Lit) -> bool {
    <Lit as PartialEq>::eq(a, b)
}
pub fn lit_eq__spec(a: &Lit, b: &Lit) -> bool {
    match (a, b) { (Lit::Bool(x), Lit::Bool(y)) => *x == *y, (Lit::Byte(x), Lit::Byte(y)) => *x == *y, (Lit::Int(x), Lit::Int(y)) => *x == *y, (Lit::Uint(x), Lit::Uint(y)) => *x == *y, (Lit::Float(x), Lit::Float(y)) => *x == *y, (Lit::Char(x), Lit::Char(y)) => *x == *y, (Lit::Str(x), Lit::Str(y)) => *x == *y, (Lit::ByteStr(x), Lit::ByteStr(y)) => *x == *y, _ => false }
}

//@ lit_ne
pub fn lit_ne__imp(a: &Lit, b: &Lit) -> bool {
    <Lit as PartialEq>::ne(a, b)
}
pub fn lit_ne__spec(a: &Lit, b: &Lit) -> bool {
    !{ match (a, b) { (Lit::Bool(x), Lit::Bool(y)) => *x == *y, (Lit::Byte(x), Lit::Byte(y)) => *x == *y, (Lit::Int(x), Lit::Int(y)) => *x == *y, (Lit::Uint(x), Lit::Uint(y)) => *x == *y, (Lit::Float(x), Lit::Float(y)) => *x == *y, (Lit::Char(x), Lit::Char(y)) => *x == *y, (Lit::Str(x), Lit::Str(y)) => *x == *y, (Lit::ByteStr(x), Lit::ByteStr(y)) => *x == *y, _ => false } }
}

//@ lit_hash hash=weak
pub fn lit_hash__imp<H: Hasher>(a: &Lit, h: &mut H) {
    <Lit as Hash>::hash(a, h)
}
pub fn lit_hash__spec<H: Hasher>(a: &Lit, h: &mut H) {
    match a { Lit::Bool(x) => Kinds::Bool(x), Lit::Byte(x) => Kinds::Byte(x), Lit::Int(x) => Kinds::Int(x), Lit::Uint(x) => Kinds::Uint(x), Lit::Float(x) => Kinds::Float(x), Lit::Char(x) => Kinds::Char(x), Lit::Str(x) => Kinds::Str(x), Lit::ByteStr(x) => Kinds::ByteStr(x) }.hash(h)
}

//@ lit_clone
pub fn lit_clone__imp(a: &Lit) -> Lit {
    <Lit as Clone>::clone(a)
}
pub fn lit_clone__spec(a: &Lit) -> Lit {
    match a { Lit::Bool(x) => Lit::Bool(x.clone()), Lit::Byte(x) => Lit::Byte(x.clone()), Lit::Int(x) => Lit::Int(x.clone()), Lit::Uint(x) => Lit::Uint(x.clone()), Lit::Float(x) => Lit::Float(x.clone()), Lit::Char(x) => Lit::Char(x.clone()), Lit::Str(x) => Lit::Str(x.clone()), Lit::ByteStr(x) => Lit::ByteStr(x.clone()) }
}

//@ bool_clone_span
pub fn bool_clone_span__imp(a: &LitBool) -> Span {
    <LitBool as Clone>::clone(a).span()
}
pub fn bool_clone_span__spec(a: &LitBool) -> Span {
    a.span()
}

//@ byte_clone
pub fn byte_clone__imp(a: &LitByte) -> Literal {
    <LitByte as Clone>::clone(a).token()
}
pub fn byte_clone__spec(a: &LitByte) -> Literal {
    a.token()
}

//@ byte_clone_span
pub fn byte_clone_span__imp(a: &LitByte) -> Span {
    <LitByte as Clone>::clone(a).span()
}
pub fn byte_clone_span__spec(a: &LitByte) -> Span {
    a.span()
}

//@ int_clone
pub fn int_clone__imp(a: &LitInt) -> Literal {
    <LitInt as Clone>::clone(a).token()
}
pub fn int_clone__spec(a: &LitInt) -> Literal {
    a.token()
}

//@ int_clone_span
pub fn int_clone_span__imp(a: &LitInt) -> Span {
    <LitInt as Clone>::clone(a).span()
}
pub fn int_clone_span__spec(a: &LitInt) -> Span {
    a.span()
}

//@ uint_clone
pub fn uint_clone__imp(a: &LitUint) -> Literal {
    <LitUint as Clone>::clone(a).token()
}
pub fn uint_clone__spec(a: &LitUint) -> Literal {
    a.token()
}

//@ uint_clone_span
pub fn uint_clone_span__imp(a: &LitUint) -> Span {
    <LitUint as Clone>::clone(a).span()
}
pub fn uint_clone_span__spec(a: &LitUint) -> Span {
    a.span()
}

//@ float_clone
pub fn float_clone__imp(a: &LitFloat) -> Literal {
    <LitFloat as Clone>::clone(a).token()
}
pub fn float_clone__spec(a: &LitFloat) -> Literal {
    a.token()
}

//@ float_clone_span
pub fn float_clone_span__imp(a: &LitFloat) -> Span {
    <LitFloat as Clone>::clone(a).span()
}
pub fn float_clone_span__spec(a: &LitFloat) -> Span {
    a.span()
}

//@ char_clone
pub fn char_clone__imp(a: &LitChar) -> Literal {
    <LitChar as Clone>::clone(a).token()
}
pub fn char_clone__spec(a: &LitChar) -> Literal {
    a.token()
}

//@ char_clone_span
pub fn char_clone_span__imp(a: &LitChar) -> Span {
    <LitChar as Clone>::clone(a).span()
}
pub fn char_clone_span__spec(a: &LitChar) -> Span {
    a.span()
}

//@ str_clone
pub fn str_clone__imp(a: &LitStr) -> Literal {
    <LitStr as Clone>::clone(a).token()
}
pub fn str_clone__spec(a: &LitStr) -> Literal {
    a.token()
}

//@ str_clone_span
pub fn str_clone_span__imp(a: &LitStr) -> Span {
    <LitStr as Clone>::clone(a).span()
}
pub fn str_clone_span__spec(a: &LitStr) -> Span {
    a.span()
}

//@ bytestr_clone
pub fn bytestr_clone__imp(a: &LitByteStr) -> Literal {
    <LitByteStr as Clone>::clone(a).token()
}
pub fn bytestr_clone__spec(a: &LitByteStr) -> Literal {
    a.token()
}

//@ bytestr_clone_span
pub fn bytestr_clone_span__imp(a: &LitByteStr) -> Span {
    <LitByteStr as Clone>::clone(a).span()
}
pub fn bytestr_clone_span__spec(a: &LitByteStr) -> Span {
    a.span()
}

//@ empty_eq
pub fn empty_eq__imp(a: &Empty, b: &Empty) -> bool {
    a == b
}
pub fn empty_eq__spec(a: &Empty, b: &Empty) -> bool {
    true
}

//@ empty_cmp
pub fn empty_cmp__imp(a: &Empty, b: &Empty) -> (Ordering, Option<Ordering>) {
    (a.cmp(b), a.partial_cmp(b))
}
pub fn empty_cmp__spec(a: &Empty, b: &Empty) -> (Ordering, Option<Ordering>) {
    (Ordering::Equal, Some(Ordering::Equal))
}

//@ eof_eq
pub fn eof_eq__imp(a: &Eof, b: &Eof) -> bool {
    a == b
}
pub fn eof_eq__spec(a: &Eof, b: &Eof) -> bool {
    true
}

//@ eof_cmp
pub fn eof_cmp__imp(a: &Eof, b: &Eof) -> (Ordering, Option<Ordering>) {
    (a.cmp(b), a.partial_cmp(b))
}
pub fn eof_cmp__spec(a: &Eof, b: &Eof) -> (Ordering, Option<Ordering>) {
    (Ordering::Equal, Some(Ordering::Equal))
}

//@ noteof_eq
pub fn noteof_eq__imp(a: &NotEof, b: &NotEof) -> bool {
    a == b
}
pub fn noteof_eq__spec(a: &NotEof, b: &NotEof) -> bool {
    true
}

//@ noteof_cmp
pub fn noteof_cmp__imp(a: &NotEof, b: &NotEof) -> (Ordering, Option<Ordering>) {
    (a.cmp(b), a.partial_cmp(b))
}
pub fn noteof_cmp__spec(a: &NotEof, b: &NotEof) -> (Ordering, Option<Ordering>) {
    (Ordering::Equal, Some(Ordering::Equal))
}

//@ ident_clone
pub fn ident_clone__imp<K: KeywordList + Clone>(a: &CustomIdent<K>) -> (Ident, Span) {
    let c = <CustomIdent<K> as Clone>::clone(a); (c.token(), c.span())
}
pub fn ident_clone__spec<K: KeywordList + Clone>(a: &CustomIdent<K>) -> (Ident, Span) {
    (a.token(), a.span())
}

//@ kw_clone
pub fn kw_clone__imp(a: &kw31::Select) -> Span {
    a.clone().span()
}
pub fn kw_clone__spec(a: &kw31::Select) -> Span {
    a.span()
}

