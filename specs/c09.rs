//@ paren_parse
pub fn paren_parse__imp<T: Parse>(input: ParseStream<'_>) -> Result<(token::Paren, T)> {
    <Paren<T> as Parse>::parse(input).map(Paren::into_parts)
}
pub fn paren_parse__spec<T: Parse>(input: ParseStream<'_>) -> Result<(token::Paren, T)> {
    let content;
    let delim = syn::parenthesized!(content in input);
    match <T as Parse>::parse(&content) {
        Ok(x) => Ok((delim, x)),
        Err(e) => Err(e),
    }
}

//@ paren_print
pub fn paren_print__imp<T: ToTokens>(x: &Paren<T>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn paren_print__spec<T: ToTokens>(x: &Paren<T>, tokens: &mut TokenStream) {
    let (delim, inner) = x.as_parts();
    let mut content = TokenStream::new();
    inner.to_tokens(&mut content);
    let mut g = proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, content);
    g.set_span(delim.span.join());
    tokens.append(g);
}

//@ paren_new
pub fn paren_new__imp<T>(x: T, s: Span) -> (token::Paren, T) {
    Paren::new(x, s).into_parts()
}
pub fn paren_new__spec<T>(x: T, s: Span) -> (token::Paren, T) {
    (token::Paren(s), x)
}

//@ bracket_parse
pub fn bracket_parse__imp<T: Parse>(input: ParseStream<'_>) -> Result<(token::Bracket, T)> {
    <Bracket<T> as Parse>::parse(input).map(Bracket::into_parts)
}
pub fn bracket_parse__spec<T: Parse>(input: ParseStream<'_>) -> Result<(token::Bracket, T)> {
    let content;
    let delim = syn::bracketed!(content in input);
    match <T as Parse>::parse(&content) {
        Ok(x) => Ok((delim, x)),
        Err(e) => Err(e),
    }
}

//@ bracket_print
pub fn bracket_print__imp<T: ToTokens>(x: &Bracket<T>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn bracket_print__spec<T: ToTokens>(x: &Bracket<T>, tokens: &mut TokenStream) {
    let (delim, inner) = x.as_parts();
    let mut content = TokenStream::new();
    inner.to_tokens(&mut content);
    let mut g = proc_macro2::Group::new(proc_macro2::Delimiter::Bracket, content);
    g.set_span(delim.span.join());
    tokens.append(g);
}

//@ bracket_new
pub fn bracket_new__imp<T>(x: T, s: Span) -> (token::Bracket, T) {
    Bracket::new(x, s).into_parts()
}
pub fn bracket_new__spec<T>(x: T, s: Span) -> (token::Bracket, T) {
    (token::Bracket(s), x)
}

//@ brace_parse
pub fn brace_parse__imp<T: Parse>(input: ParseStream<'_>) -> Result<(token::Brace, T)> {
    <Brace<T> as Parse>::parse(input).map(Brace::into_parts)
}
pub fn brace_parse__spec<T: Parse>(input: ParseStream<'_>) -> Result<(token::Brace, T)> {
    let content;
    let delim = syn::braced!(content in input);
    match <T as Parse>::parse(&content) {
        Ok(x) => Ok((delim, x)),
        Err(e) => Err(e),
    }
}

//@ brace_print
pub fn brace_print__imp<T: ToTokens>(x: &Brace<T>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn brace_print__spec<T: ToTokens>(x: &Brace<T>, tokens: &mut TokenStream) {
    let (delim, inner) = x.as_parts();
    let mut content = TokenStream::new();
    inner.to_tokens(&mut content);
    let mut g = proc_macro2::Group::new(proc_macro2::Delimiter::Brace, content);
    g.set_span(delim.span.join());
    tokens.append(g);
}

//@ brace_new
pub fn brace_new__imp<T>(x: T, s: Span) -> (token::Brace, T) {
    Brace::new(x, s).into_parts()
}
pub fn brace_new__spec<T>(x: T, s: Span) -> (token::Brace, T) {
    (token::Brace(s), x)
}
