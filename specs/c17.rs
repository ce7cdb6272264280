//@ empty_parse
pub fn empty_parse__imp(input: ParseStream<'_>) -> Result<()> {
    <Empty as Parse>::parse(input).map(|_| ())
}
pub fn empty_parse__spec(input: ParseStream<'_>) -> Result<()> {
    Ok(())
}

//@ eof_parse err=any
pub fn eof_parse__imp(input: ParseStream<'_>) -> Result<()> {
    <Eof as Parse>::parse(input).map(|_| ())
}
pub fn eof_parse__spec(input: ParseStream<'_>) -> Result<()> {
    if input.is_empty() { Ok(()) } else { Err(input.error("")) }
}

//@ noteof_parse err=any
pub fn noteof_parse__imp(input: ParseStream<'_>) -> Result<()> {
    <NotEof as Parse>::parse(input).map(|_| ())
}
pub fn noteof_parse__spec(input: ParseStream<'_>) -> Result<()> {
    if input.is_empty() { Err(input.error("")) } else { Ok(()) }
}
//@ empty_consumes
pub fn empty_consumes__imp(input: ParseStream<'_>) -> bool {
    <Empty as Parse>::parse(input).is_ok()
}
pub fn empty_consumes__spec(input: ParseStream<'_>) -> bool {
    true
}
//@ eof_consumes
pub fn eof_consumes__imp(input: ParseStream<'_>) -> bool {
    <Eof as Parse>::parse(input).is_ok()
}
pub fn eof_consumes__spec(input: ParseStream<'_>) -> bool {
    input.is_empty()
}
//@ noteof_consumes
pub fn noteof_consumes__imp(input: ParseStream<'_>) -> bool {
    <NotEof as Parse>::parse(input).is_ok()
}
pub fn noteof_consumes__spec(input: ParseStream<'_>) -> bool {
    !input.is_empty()
}
//@ empty_print
pub fn empty_print__imp(x: &Empty, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn empty_print__spec(x: &Empty, tokens: &mut TokenStream) {}
//@ eof_print
pub fn eof_print__imp(x: &Eof, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn eof_print__spec(x: &Eof, tokens: &mut TokenStream) {}
//@ noteof_print
pub fn noteof_print__imp(x: &NotEof, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn noteof_print__spec(x: &NotEof, tokens: &mut TokenStream) {}
//@ empty_show
pub fn empty_show__imp(x: &Empty, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(x, f)
}
pub fn empty_show__spec(x: &Empty, f: &mut Formatter<'_>) -> fmt::Result {
    Ok(())
}
//@ eof_show
pub fn eof_show__imp(x: &Eof, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(x, f)
}
pub fn eof_show__spec(x: &Eof, f: &mut Formatter<'_>) -> fmt::Result {
    Ok(())
}
//@ noteof_show
pub fn noteof_show__imp(x: &NotEof, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(x, f)
}
pub fn noteof_show__spec(x: &NotEof, f: &mut Formatter<'_>) -> fmt::Result {
    Ok(())
}
