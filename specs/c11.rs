//@ separated_parse k=6
pub fn separated_parse__imp<T: Parse, P: Parse>(input: ParseStream<'_>) -> Result<punctuated::Punctuated<T, P>> {
    <Separated<T, P> as Parse>::parse(input).map(Separated::into_inner)
}
pub fn separated_parse__spec<T: Parse, P: Parse>(input: ParseStream<'_>) -> Result<punctuated::Punctuated<T, P>> {
    let mut items = punctuated::Punctuated::new();
    match <T as Parse>::parse(input) {
        Ok(x) => items.push_value(x),
        Err(e) => return Err(e),
    }
    loop {
        let start = input.cursor();
        let fork = input.fork();
        let sep = match <P as Parse>::parse(&fork) {
            Ok(sep) => sep,
            Err(_) => return Ok(items),
        };
        input.advance_to(&fork);
        match <T as Parse>::parse(input) {
            Ok(x) => {
                items.push_punct(sep);
                items.push_value(x);
            }
            Err(e) => return Err(e),
        }
        // a round that consumes nothing would be repeated for ever: how that ends is another property
        __vp::assume(start != input.cursor());
    }
}

//@ separated_print k=6
pub fn separated_print__imp<T: ToTokens, P: ToTokens>(x: &Separated<T, P>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn separated_print__spec<T: ToTokens, P: ToTokens>(x: &Separated<T, P>, tokens: &mut TokenStream) {
    let inner: &punctuated::Punctuated<T, P> = x.as_ref();
    for pair in inner.pairs() {
        match pair {
            Pair::Punctuated(t, p) => {
                t.to_tokens(tokens);
                p.to_tokens(tokens);
            }
            Pair::End(t) => t.to_tokens(tokens),
        }
    }
}
