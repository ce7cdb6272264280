// The formatting helpers are the formatter itself.
use parsel::util::{self, TokenStreamFormatter};
//@ node_method opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn node_method__imp<S: AsRef<str>, W: fmt::Write, T: ToTokens>(f: &mut TokenStreamFormatter<S, W>, x: &T) -> fmt::Result {
    f.write_ast_node(x)
}
pub fn node_method__spec<S: AsRef<str>, W: fmt::Write, T: ToTokens>(f: &mut TokenStreamFormatter<S, W>, x: &T) -> fmt::Result {
    f.write(x.to_token_stream())
}
//@ node_pretty opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn node_pretty__imp<W: fmt::Write, T: ToTokens>(x: &T, w: &mut W) -> fmt::Result {
    util::format_ast_node_pretty(x, w)
}
pub fn node_pretty__spec<W: fmt::Write, T: ToTokens>(x: &T, w: &mut W) -> fmt::Result {
    TokenStreamFormatter::pretty(w).write(x.to_token_stream())
}
//@ node_compact opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn node_compact__imp<W: fmt::Write, T: ToTokens>(x: &T, w: &mut W) -> fmt::Result {
    util::format_ast_node_compact(x, w)
}
pub fn node_compact__spec<W: fmt::Write, T: ToTokens>(x: &T, w: &mut W) -> fmt::Result {
    TokenStreamFormatter::compact(w).write(x.to_token_stream())
}
//@ tokens_pretty opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn tokens_pretty__imp<W: fmt::Write>(x: TokenStream, w: &mut W) -> fmt::Result {
    util::format_tokens_pretty(x, w)
}
pub fn tokens_pretty__spec<W: fmt::Write>(x: TokenStream, w: &mut W) -> fmt::Result {
    TokenStreamFormatter::pretty(w).write(x)
}
//@ tokens_compact opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn tokens_compact__imp<W: fmt::Write>(x: TokenStream, w: &mut W) -> fmt::Result {
    util::format_tokens_compact(x, w)
}
pub fn tokens_compact__spec<W: fmt::Write>(x: TokenStream, w: &mut W) -> fmt::Result {
    TokenStreamFormatter::compact(w).write(x)
}
//@ tokens_flag opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn tokens_flag__imp(x: TokenStream, f: &mut Formatter<'_>) -> fmt::Result {
    util::format_tokens(x, f)
}
pub fn tokens_flag__spec(x: TokenStream, f: &mut Formatter<'_>) -> fmt::Result {
    if f.alternate() { TokenStreamFormatter::compact(f).write(x) } else { TokenStreamFormatter::pretty(f).write(x) }
}
//@ node_flag opaque_fns=parsel::util::TokenStreamFormatter::write$
pub fn node_flag__imp<T: ToTokens>(x: &T, f: &mut Formatter<'_>) -> fmt::Result {
    util::format_ast_node(x, f)
}
pub fn node_flag__spec<T: ToTokens>(x: &T, f: &mut Formatter<'_>) -> fmt::Result {
    if f.alternate() { TokenStreamFormatter::compact(f).write(x.to_token_stream()) } else { TokenStreamFormatter::pretty(f).write(x.to_token_stream()) }
}
