// Parsing from a string is parsing all of its tokens; displaying is formatting the tokens.
use parsel::util::TokenStreamFormatter;
//@ maybe_text opaque=parsel::ast::Maybe
pub fn maybe_text__imp<P, T>(s: &str) -> Result<Maybe<P, T>> where P: Parse, T: Parse {
    <Maybe<P, T> as FromStr>::from_str(s)
}
pub fn maybe_text__spec<P, T>(s: &str) -> Result<Maybe<P, T>> where P: Parse, T: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Maybe<P, T>>(all)
}
//@ maybe_show opaque=parsel::ast::Maybe opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn maybe_show__imp<P, T>(x: &Maybe<P, T>, f: &mut Formatter<'_>) -> fmt::Result where P: ToTokens, T: ToTokens {
    <Maybe<P, T> as Display>::fmt(x, f)
}
pub fn maybe_show__spec<P, T>(x: &Maybe<P, T>, f: &mut Formatter<'_>) -> fmt::Result where P: ToTokens, T: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ paren_text opaque=parsel::ast::Paren
pub fn paren_text__imp<T>(s: &str) -> Result<Paren<T>> where T: Parse {
    <Paren<T> as FromStr>::from_str(s)
}
pub fn paren_text__spec<T>(s: &str) -> Result<Paren<T>> where T: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Paren<T>>(all)
}
//@ paren_show opaque=parsel::ast::Paren opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn paren_show__imp<T>(x: &Paren<T>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens {
    <Paren<T> as Display>::fmt(x, f)
}
pub fn paren_show__spec<T>(x: &Paren<T>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ bracket_text opaque=parsel::ast::Bracket
pub fn bracket_text__imp<T>(s: &str) -> Result<Bracket<T>> where T: Parse {
    <Bracket<T> as FromStr>::from_str(s)
}
pub fn bracket_text__spec<T>(s: &str) -> Result<Bracket<T>> where T: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Bracket<T>>(all)
}
//@ bracket_show opaque=parsel::ast::Bracket opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn bracket_show__imp<T>(x: &Bracket<T>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens {
    <Bracket<T> as Display>::fmt(x, f)
}
pub fn bracket_show__spec<T>(x: &Bracket<T>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ brace_text opaque=parsel::ast::Brace
pub fn brace_text__imp<T>(s: &str) -> Result<Brace<T>> where T: Parse {
    <Brace<T> as FromStr>::from_str(s)
}
pub fn brace_text__spec<T>(s: &str) -> Result<Brace<T>> where T: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Brace<T>>(all)
}
//@ brace_show opaque=parsel::ast::Brace opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn brace_show__imp<T>(x: &Brace<T>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens {
    <Brace<T> as Display>::fmt(x, f)
}
pub fn brace_show__spec<T>(x: &Brace<T>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ punctuated_text opaque=parsel::ast::Punctuated
pub fn punctuated_text__imp<T, P>(s: &str) -> Result<Punctuated<T, P>> where T: Parse, P: Parse {
    <Punctuated<T, P> as FromStr>::from_str(s)
}
pub fn punctuated_text__spec<T, P>(s: &str) -> Result<Punctuated<T, P>> where T: Parse, P: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Punctuated<T, P>>(all)
}
//@ punctuated_show opaque=parsel::ast::Punctuated opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn punctuated_show__imp<T, P>(x: &Punctuated<T, P>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens, P: ToTokens {
    <Punctuated<T, P> as Display>::fmt(x, f)
}
pub fn punctuated_show__spec<T, P>(x: &Punctuated<T, P>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens, P: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ separated_text opaque=parsel::ast::Separated
pub fn separated_text__imp<T, P>(s: &str) -> Result<Separated<T, P>> where T: Parse, P: Parse {
    <Separated<T, P> as FromStr>::from_str(s)
}
pub fn separated_text__spec<T, P>(s: &str) -> Result<Separated<T, P>> where T: Parse, P: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Separated<T, P>>(all)
}
//@ separated_show opaque=parsel::ast::Separated opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn separated_show__imp<T, P>(x: &Separated<T, P>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens, P: ToTokens {
    <Separated<T, P> as Display>::fmt(x, f)
}
pub fn separated_show__spec<T, P>(x: &Separated<T, P>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens, P: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ any_text opaque=parsel::ast::Any
pub fn any_text__imp<T>(s: &str) -> Result<Any<T>> where T: Parse {
    <Any<T> as FromStr>::from_str(s)
}
pub fn any_text__spec<T>(s: &str) -> Result<Any<T>> where T: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Any<T>>(all)
}
//@ any_show opaque=parsel::ast::Any opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn any_show__imp<T>(x: &Any<T>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens {
    <Any<T> as Display>::fmt(x, f)
}
pub fn any_show__spec<T>(x: &Any<T>, f: &mut Formatter<'_>) -> fmt::Result where T: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ left_text opaque=parsel::ast::LeftAssoc
pub fn left_text__imp<P, T>(s: &str) -> Result<LeftAssoc<P, T>> where P: Parse, T: Parse {
    <LeftAssoc<P, T> as FromStr>::from_str(s)
}
pub fn left_text__spec<P, T>(s: &str) -> Result<LeftAssoc<P, T>> where P: Parse, T: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LeftAssoc<P, T>>(all)
}
//@ left_show opaque=parsel::ast::LeftAssoc opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn left_show__imp<P, T>(x: &LeftAssoc<P, T>, f: &mut Formatter<'_>) -> fmt::Result where P: ToTokens, T: ToTokens {
    <LeftAssoc<P, T> as Display>::fmt(x, f)
}
pub fn left_show__spec<P, T>(x: &LeftAssoc<P, T>, f: &mut Formatter<'_>) -> fmt::Result where P: ToTokens, T: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ right_text opaque=parsel::ast::RightAssoc
pub fn right_text__imp<P, T>(s: &str) -> Result<RightAssoc<P, T>> where P: Parse, T: Parse {
    <RightAssoc<P, T> as FromStr>::from_str(s)
}
pub fn right_text__spec<P, T>(s: &str) -> Result<RightAssoc<P, T>> where P: Parse, T: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<RightAssoc<P, T>>(all)
}
//@ right_show opaque=parsel::ast::RightAssoc opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn right_show__imp<P, T>(x: &RightAssoc<P, T>, f: &mut Formatter<'_>) -> fmt::Result where P: ToTokens, T: ToTokens {
    <RightAssoc<P, T> as Display>::fmt(x, f)
}
pub fn right_show__spec<P, T>(x: &RightAssoc<P, T>, f: &mut Formatter<'_>) -> fmt::Result where P: ToTokens, T: ToTokens {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
//@ either_text opaque=parsel::ast::Either
pub fn either_text__imp<L, R>(s: &str) -> Result<Either<L, R>> where L: Parse, R: Parse {
    <Either<L, R> as FromStr>::from_str(s)
}
pub fn either_text__spec<L, R>(s: &str) -> Result<Either<L, R>> where L: Parse, R: Parse {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Either<L, R>>(all)
}
//@ either_show 
pub fn either_show__imp<L, R>(x: &Either<L, R>, f: &mut Formatter<'_>) -> fmt::Result where L: Display, R: Display {
    <Either<L, R> as Display>::fmt(x, f)
}
pub fn either_show__spec<L, R>(x: &Either<L, R>, f: &mut Formatter<'_>) -> fmt::Result where L: Display, R: Display {
    match x { Either::Left(l) => l.fmt(f), Either::Right(r) => r.fmt(f) }
}
//@ empty_text opaque=parsel::ast::Empty
pub fn empty_text__imp(s: &str) -> Result<Empty> {
    <Empty as FromStr>::from_str(s)
}
pub fn empty_text__spec(s: &str) -> Result<Empty> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Empty>(all)
}
//@ empty_show 
pub fn empty_show__imp(x: &Empty, f: &mut Formatter<'_>) -> fmt::Result {
    <Empty as Display>::fmt(x, f)
}
pub fn empty_show__spec(x: &Empty, f: &mut Formatter<'_>) -> fmt::Result {
    Ok(())
}
//@ eof_text opaque=parsel::ast::Eof
pub fn eof_text__imp(s: &str) -> Result<Eof> {
    <Eof as FromStr>::from_str(s)
}
pub fn eof_text__spec(s: &str) -> Result<Eof> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Eof>(all)
}
//@ eof_show 
pub fn eof_show__imp(x: &Eof, f: &mut Formatter<'_>) -> fmt::Result {
    <Eof as Display>::fmt(x, f)
}
pub fn eof_show__spec(x: &Eof, f: &mut Formatter<'_>) -> fmt::Result {
    Ok(())
}
//@ not_eof_text opaque=parsel::ast::NotEof
pub fn not_eof_text__imp(s: &str) -> Result<NotEof> {
    <NotEof as FromStr>::from_str(s)
}
pub fn not_eof_text__spec(s: &str) -> Result<NotEof> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<NotEof>(all)
}
//@ not_eof_show 
pub fn not_eof_show__imp(x: &NotEof, f: &mut Formatter<'_>) -> fmt::Result {
    <NotEof as Display>::fmt(x, f)
}
pub fn not_eof_show__spec(x: &NotEof, f: &mut Formatter<'_>) -> fmt::Result {
    Ok(())
}
//@ lit_bool_text opaque=parsel::ast::LitBool
pub fn lit_bool_text__imp(s: &str) -> Result<LitBool> {
    <LitBool as FromStr>::from_str(s)
}
pub fn lit_bool_text__spec(s: &str) -> Result<LitBool> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LitBool>(all)
}
//@ lit_bool_show 
pub fn lit_bool_show__imp(x: &LitBool, f: &mut Formatter<'_>) -> fmt::Result {
    <LitBool as Display>::fmt(x, f)
}
pub fn lit_bool_show__spec(x: &LitBool, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ lit_byte_text opaque=parsel::ast::LitByte
pub fn lit_byte_text__imp(s: &str) -> Result<LitByte> {
    <LitByte as FromStr>::from_str(s)
}
pub fn lit_byte_text__spec(s: &str) -> Result<LitByte> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LitByte>(all)
}
//@ lit_byte_show 
pub fn lit_byte_show__imp(x: &LitByte, f: &mut Formatter<'_>) -> fmt::Result {
    <LitByte as Display>::fmt(x, f)
}
pub fn lit_byte_show__spec(x: &LitByte, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ lit_int_text opaque=parsel::ast::LitInt
pub fn lit_int_text__imp(s: &str) -> Result<LitInt> {
    <LitInt as FromStr>::from_str(s)
}
pub fn lit_int_text__spec(s: &str) -> Result<LitInt> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LitInt>(all)
}
//@ lit_int_show 
pub fn lit_int_show__imp(x: &LitInt, f: &mut Formatter<'_>) -> fmt::Result {
    <LitInt as Display>::fmt(x, f)
}
pub fn lit_int_show__spec(x: &LitInt, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ lit_uint_text opaque=parsel::ast::LitUint
pub fn lit_uint_text__imp(s: &str) -> Result<LitUint> {
    <LitUint as FromStr>::from_str(s)
}
pub fn lit_uint_text__spec(s: &str) -> Result<LitUint> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LitUint>(all)
}
//@ lit_uint_show 
pub fn lit_uint_show__imp(x: &LitUint, f: &mut Formatter<'_>) -> fmt::Result {
    <LitUint as Display>::fmt(x, f)
}
pub fn lit_uint_show__spec(x: &LitUint, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ lit_float_text opaque=parsel::ast::LitFloat
pub fn lit_float_text__imp(s: &str) -> Result<LitFloat> {
    <LitFloat as FromStr>::from_str(s)
}
pub fn lit_float_text__spec(s: &str) -> Result<LitFloat> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LitFloat>(all)
}
//@ lit_float_show 
pub fn lit_float_show__imp(x: &LitFloat, f: &mut Formatter<'_>) -> fmt::Result {
    <LitFloat as Display>::fmt(x, f)
}
pub fn lit_float_show__spec(x: &LitFloat, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ lit_char_text opaque=parsel::ast::LitChar
pub fn lit_char_text__imp(s: &str) -> Result<LitChar> {
    <LitChar as FromStr>::from_str(s)
}
pub fn lit_char_text__spec(s: &str) -> Result<LitChar> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LitChar>(all)
}
//@ lit_char_show 
pub fn lit_char_show__imp(x: &LitChar, f: &mut Formatter<'_>) -> fmt::Result {
    <LitChar as Display>::fmt(x, f)
}
pub fn lit_char_show__spec(x: &LitChar, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ lit_str_text opaque=parsel::ast::LitStr
pub fn lit_str_text__imp(s: &str) -> Result<LitStr> {
    <LitStr as FromStr>::from_str(s)
}
pub fn lit_str_text__spec(s: &str) -> Result<LitStr> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LitStr>(all)
}
//@ lit_str_show 
pub fn lit_str_show__imp(x: &LitStr, f: &mut Formatter<'_>) -> fmt::Result {
    <LitStr as Display>::fmt(x, f)
}
pub fn lit_str_show__spec(x: &LitStr, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ lit_bytestr_text opaque=parsel::ast::LitByteStr
pub fn lit_bytestr_text__imp(s: &str) -> Result<LitByteStr> {
    <LitByteStr as FromStr>::from_str(s)
}
pub fn lit_bytestr_text__spec(s: &str) -> Result<LitByteStr> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<LitByteStr>(all)
}
//@ lit_bytestr_show 
pub fn lit_bytestr_show__imp(x: &LitByteStr, f: &mut Formatter<'_>) -> fmt::Result {
    <LitByteStr as Display>::fmt(x, f)
}
pub fn lit_bytestr_show__spec(x: &LitByteStr, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ lit_text opaque=parsel::ast::Lit
pub fn lit_text__imp(s: &str) -> Result<Lit> {
    <Lit as FromStr>::from_str(s)
}
pub fn lit_text__spec(s: &str) -> Result<Lit> {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<Lit>(all)
}
//@ lit_show 
pub fn lit_show__imp(x: &Lit, f: &mut Formatter<'_>) -> fmt::Result {
    <Lit as Display>::fmt(x, f)
}
pub fn lit_show__spec(x: &Lit, f: &mut Formatter<'_>) -> fmt::Result {
    match x {
        Lit::Bool(l) => Display::fmt(&l.token(), f),
        Lit::Byte(l) => Display::fmt(&l.token(), f),
        Lit::Int(l) => Display::fmt(&l.token(), f),
        Lit::Uint(l) => Display::fmt(&l.token(), f),
        Lit::Float(l) => Display::fmt(&l.token(), f),
        Lit::Char(l) => Display::fmt(&l.token(), f),
        Lit::Str(l) => Display::fmt(&l.token(), f),
        Lit::ByteStr(l) => Display::fmt(&l.token(), f),
    }
}
//@ custom_text opaque=parsel::ast::CustomIdent
pub fn custom_text__imp<K>(s: &str) -> Result<CustomIdent<K>> where K: Default + KeywordList {
    <CustomIdent<K> as FromStr>::from_str(s)
}
pub fn custom_text__spec<K>(s: &str) -> Result<CustomIdent<K>> where K: Default + KeywordList {
    let all = <TokenStream as FromStr>::from_str(s)?;
    parse2::<CustomIdent<K>>(all)
}
//@ custom_show 
pub fn custom_show__imp<K>(x: &CustomIdent<K>, f: &mut Formatter<'_>) -> fmt::Result {
    <CustomIdent<K> as Display>::fmt(x, f)
}
pub fn custom_show__spec<K>(x: &CustomIdent<K>, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&x.token(), f)
}
//@ tokens_any opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn tokens_any__imp(t: TokenStream, f: &mut Formatter<'_>) -> fmt::Result { parsel::util::format_tokens(t, f) }
pub fn tokens_any__spec(t: TokenStream, f: &mut Formatter<'_>) -> fmt::Result { if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) } }
//@ tokens_pretty opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn tokens_pretty__imp<W: fmt::Write>(t: TokenStream, w: W) -> fmt::Result { parsel::util::format_tokens_pretty(t, w) }
pub fn tokens_pretty__spec<W: fmt::Write>(t: TokenStream, w: W) -> fmt::Result { TokenStreamFormatter::pretty(w).write(t) }
//@ node_pretty opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn node_pretty__imp<T: ToTokens, W: fmt::Write>(x: &T, w: W) -> fmt::Result { parsel::util::format_ast_node_pretty(x, w) }
pub fn node_pretty__spec<T: ToTokens, W: fmt::Write>(x: &T, w: W) -> fmt::Result { TokenStreamFormatter::pretty(w).write(x.to_token_stream()) }
//@ tokens_compact opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn tokens_compact__imp<W: fmt::Write>(t: TokenStream, w: W) -> fmt::Result { parsel::util::format_tokens_compact(t, w) }
pub fn tokens_compact__spec<W: fmt::Write>(t: TokenStream, w: W) -> fmt::Result { TokenStreamFormatter::compact(w).write(t) }
//@ node_compact opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn node_compact__imp<T: ToTokens, W: fmt::Write>(x: &T, w: W) -> fmt::Result { parsel::util::format_ast_node_compact(x, w) }
pub fn node_compact__spec<T: ToTokens, W: fmt::Write>(x: &T, w: W) -> fmt::Result { TokenStreamFormatter::compact(w).write(x.to_token_stream()) }
//@ node_any opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn node_any__imp<T: ToTokens>(x: &T, f: &mut Formatter<'_>) -> fmt::Result { parsel::util::format_ast_node(x, f) }
pub fn node_any__spec<T: ToTokens>(x: &T, f: &mut Formatter<'_>) -> fmt::Result {
    let t = x.to_token_stream();
    if f.alternate() { TokenStreamFormatter::compact(f).write(t) } else { TokenStreamFormatter::pretty(f).write(t) }
}
