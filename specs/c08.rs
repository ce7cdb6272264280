//@ maybe_parse
pub fn maybe_parse__imp<P: Parse, T: Parse>(input: ParseStream<'_>) -> Result<Option<(P, T)>> {
    <Maybe<P, T> as Parse>::parse(input).map(Maybe::into_parts)
}
pub fn maybe_parse__spec<P: Parse, T: Parse>(input: ParseStream<'_>) -> Result<Option<(P, T)>> {
    let fork = input.fork();
    match <P as Parse>::parse(&fork) {
        Ok(prefix) => {
            input.advance_to(&fork);
            match <T as Parse>::parse(input) {
                Ok(body) => Ok(Some((prefix, body))),
                Err(e) => Err(e),
            }
        }
        Err(_) => Ok(None),
    }
}

//@ maybe_print
pub fn maybe_print__imp<P: ToTokens, T: ToTokens>(x: &Maybe<P, T>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn maybe_print__spec<P: ToTokens, T: ToTokens>(x: &Maybe<P, T>, tokens: &mut TokenStream) {
    match x.as_parts() {
        Some((p, t)) => {
            p.to_tokens(tokens);
            t.to_tokens(tokens);
        }
        None => {}
    }
}
