//@ punctuated_parse k=6
pub fn punctuated_parse__imp<T: Parse, P: Parse>(input: ParseStream<'_>) -> Result<punctuated::Punctuated<T, P>> {
    <parsel::ast::Punctuated<T, P> as Parse>::parse(input).map(parsel::ast::Punctuated::into_inner)
}
pub fn punctuated_parse__spec<T: Parse, P: Parse>(input: ParseStream<'_>) -> Result<punctuated::Punctuated<T, P>> {
    let mut items = punctuated::Punctuated::new();
    loop {
        if input.is_empty() {
            return Ok(items);
        }
        let start = input.cursor();
        match <T as Parse>::parse(input) {
            Ok(x) => items.push_value(x),
            Err(e) => return Err(e),
        }
        if input.is_empty() {
            return Ok(items);
        }
        match <P as Parse>::parse(input) {
            Ok(p) => items.push_punct(p),
            Err(e) => return Err(e),
        }
        // a round that consumes nothing would be repeated for ever: how that ends is another property
        __vp::assume(start != input.cursor());
    }
}

//@ many_parse k=6
pub fn many_parse__imp<T: Parse>(input: ParseStream<'_>) -> Result<punctuated::Punctuated<T, NotEof>> {
    <Many<T> as Parse>::parse(input).map(parsel::ast::Punctuated::into_inner)
}
pub fn many_parse__spec<T: Parse>(input: ParseStream<'_>) -> Result<punctuated::Punctuated<T, NotEof>> {
    let mut items = punctuated::Punctuated::new();
    loop {
        if input.is_empty() {
            return Ok(items);
        }
        let start = input.cursor();
        match <T as Parse>::parse(input) {
            Ok(x) => items.push_value(x),
            Err(e) => return Err(e),
        }
        if input.is_empty() {
            return Ok(items);
        }
        items.push_punct(NotEof);
        __vp::assume(start != input.cursor());
    }
}

//@ punctuated_print k=6
pub fn punctuated_print__imp<T: ToTokens, P: ToTokens>(x: &parsel::ast::Punctuated<T, P>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn punctuated_print__spec<T: ToTokens, P: ToTokens>(x: &parsel::ast::Punctuated<T, P>, tokens: &mut TokenStream) {
    let inner: &punctuated::Punctuated<T, P> = x.as_ref();
    for pair in inner.pairs() {
        match pair {
            Pair::Punctuated(t, p) => {
                t.to_tokens(tokens);
                p.to_tokens(tokens);
            }
            Pair::End(t) => t.to_tokens(tokens),
        }
    }
}

//@ punctuated_collect k=4
pub fn punctuated_collect__imp<T, P: Default, I: Iterator<Item = T>>(it: I) -> punctuated::Punctuated<T, P> {
    <parsel::ast::Punctuated<T, P> as FromIterator<T>>::from_iter(it).into_inner()
}
pub fn punctuated_collect__spec<T, P: Default, I: Iterator<Item = T>>(it: I) -> punctuated::Punctuated<T, P> {
    let mut out = punctuated::Punctuated::new();
    for x in it {
        out.push(x);
    }
    out
}

//@ punctuated_extend k=4
pub fn punctuated_extend__imp<T, P: Default, I: Iterator<Item = T>>(x: parsel::ast::Punctuated<T, P>, it: I) -> punctuated::Punctuated<T, P> {
    let mut x = x;
    <parsel::ast::Punctuated<T, P> as Extend<T>>::extend(&mut x, it);
    x.into_inner()
}
pub fn punctuated_extend__spec<T, P: Default, I: Iterator<Item = T>>(x: parsel::ast::Punctuated<T, P>, it: I) -> punctuated::Punctuated<T, P> {
    let mut x = x.into_inner();
    for y in it {
        x.push(y);
    }
    x
}

//@ punctuated_collect_pairs k=4
pub fn punctuated_collect_pairs__imp<T, P, I: Iterator<Item = Pair<T, P>>>(it: I) -> punctuated::Punctuated<T, P> {
    <parsel::ast::Punctuated<T, P> as FromIterator<Pair<T, P>>>::from_iter(it).into_inner()
}
pub fn punctuated_collect_pairs__spec<T, P, I: Iterator<Item = Pair<T, P>>>(it: I) -> punctuated::Punctuated<T, P> {
    let mut out = punctuated::Punctuated::new();
    let mut ended = false;
    for x in it {
        assert!(!ended);
        match x {
            Pair::Punctuated(t, p) => {
                out.push_value(t);
                out.push_punct(p);
            }
            Pair::End(t) => {
                out.push_value(t);
                ended = true;
            }
        }
    }
    out
}

//@ punctuated_extend_pairs k=4
pub fn punctuated_extend_pairs__imp<T, P: Default, I: Iterator<Item = Pair<T, P>>>(x: parsel::ast::Punctuated<T, P>, it: I) -> punctuated::Punctuated<T, P> {
    let mut x = x;
    <parsel::ast::Punctuated<T, P> as Extend<Pair<T, P>>>::extend(&mut x, it);
    x.into_inner()
}
pub fn punctuated_extend_pairs__spec<T, P: Default, I: Iterator<Item = Pair<T, P>>>(x: parsel::ast::Punctuated<T, P>, it: I) -> punctuated::Punctuated<T, P> {
    let mut x = x.into_inner();
    if !x.empty_or_trailing() {
        x.push_punct(P::default());
    }
    let mut ended = false;
    for y in it {
        assert!(!ended);
        match y {
            Pair::Punctuated(t, p) => {
                x.push_value(t);
                x.push_punct(p);
            }
            Pair::End(t) => {
                x.push_value(t);
                ended = true;
            }
        }
    }
    x
}
