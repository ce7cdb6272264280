//@ custom_parse err=span
pub fn custom_parse__imp<K: Default + KeywordList>(input: ParseStream<'_>) -> Result<Ident> {
    <CustomIdent<K> as Parse>::parse(input).map(|c| c.token())
}
pub fn custom_parse__spec<K: Default + KeywordList>(input: ParseStream<'_>) -> Result<Ident> {
    let word = match <Ident as IdentExt>::parse_any(input) {
        Ok(w) => w,
        Err(e) => return Err(e),
    };
    let mut i = 0;
    while i < K::KEYWORDS.len() {
        if word == *K::KEYWORDS[i] {
            return Err(Error::new(word.span(), ""));
        }
        i += 1;
    }
    Ok(word)
}

//@ custom_try_from err=span
pub fn custom_try_from__imp<K: Default + KeywordList>(word: Ident) -> Result<Ident> {
    <CustomIdent<K> as TryFrom<Ident>>::try_from(word).map(|c| c.token())
}
pub fn custom_try_from__spec<K: Default + KeywordList>(word: Ident) -> Result<Ident> {
    let mut i = 0;
    while i < K::KEYWORDS.len() {
        if word == *K::KEYWORDS[i] {
            return Err(Error::new(word.span(), ""));
        }
        i += 1;
    }
    Ok(word)
}

//@ word_parse err=span
pub fn word_parse__imp(input: ParseStream<'_>) -> Result<Ident> {
    <Word as Parse>::parse(input).map(|c| c.token())
}
pub fn word_parse__spec(input: ParseStream<'_>) -> Result<Ident> {
    <Ident as IdentExt>::parse_any(input)
}

//@ word_try_from err=span
pub fn word_try_from__imp(word: Ident) -> Result<Ident> {
    <Word as TryFrom<Ident>>::try_from(word).map(|c| c.token())
}
pub fn word_try_from__spec(word: Ident) -> Result<Ident> {
    Ok(word)
}

//@ custom_into_ident
pub fn custom_into_ident__imp<K>(c: CustomIdent<K>) -> (Ident, Span, Ident) {
    (c.token(), c.span(), Ident::from(c))
}
pub fn custom_into_ident__spec<K>(c: CustomIdent<K>) -> (Ident, Span, Ident) {
    let t = c.token();
    (t.clone(), t.span(), t)
}

//@ custom_span_change
pub fn custom_span_change__imp<K>(mut c: CustomIdent<K>, span: Span) -> Ident {
    c.set_span(span);
    c.token()
}
pub fn custom_span_change__spec<K>(c: CustomIdent<K>, span: Span) -> Ident {
    let mut t = c.token();
    t.set_span(span);
    t
}

//@ custom_print
pub fn custom_print__imp<K>(c: &CustomIdent<K>, tokens: &mut TokenStream) {
    c.to_tokens(tokens)
}
pub fn custom_print__spec<K>(c: &CustomIdent<K>, tokens: &mut TokenStream) {
    c.token().to_tokens(tokens)
}

//@ custom_show
pub fn custom_show__imp<K>(c: &CustomIdent<K>, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(c, f)
}
pub fn custom_show__spec<K>(c: &CustomIdent<K>, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&c.token(), f)
}

//@ custom_compares
pub fn custom_compares__imp<K>(c: &CustomIdent<K>, s: &String) -> (bool, bool) {
    (<CustomIdent<K> as PartialEq<String>>::eq(c, s), <CustomIdent<K> as PartialEq<&str>>::ne(c, &s.as_str()))
}
pub fn custom_compares__spec<K>(c: &CustomIdent<K>, s: &String) -> (bool, bool) {
    let same = c.token() == *s;
    (same, !same)
}

//@ word_new
pub fn word_new__imp(s: &str, span: Span) -> Ident {
    Word::new(s, span).token()
}
pub fn word_new__spec(s: &str, span: Span) -> Ident {
    Ident::new(s, span)
}

//@ word_here
pub fn word_here__imp(s: &str) -> (Ident, Ident) {
    (word(s).token(), ident(s))
}
pub fn word_here__spec(s: &str) -> (Ident, Ident) {
    let i = Ident::new(s, Span::call_site());
    (i.clone(), i)
}

//@ word_keywords
pub fn word_keywords__imp() -> usize {
    <AllowAll as KeywordList>::KEYWORDS.len()
}
pub fn word_keywords__spec() -> usize {
    0
}
