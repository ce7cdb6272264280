// The quoting macros parse the quoted tokens and return a failure through the caller's error type.
use parsel::{try_parse_quote, try_parse_quote_spanned};

//@ plain k=2
pub fn plain__imp<T: Parse>() -> Result<T> { let x: T = try_parse_quote!(a + 1); Ok(x) }
pub fn plain__spec<T: Parse>() -> Result<T> { parse2::<T>(quote::quote!(a + 1)) }
//@ nothing k=2
pub fn nothing__imp<T: Parse>() -> Result<T> { let x: T = try_parse_quote!(); Ok(x) }
pub fn nothing__spec<T: Parse>() -> Result<T> { parse2::<T>(TokenStream::new()) }
//@ interpolated k=2
pub fn interpolated__imp<T: Parse, A: ToTokens, B: ToTokens>(a: &A, b: B) -> Result<T> { Ok(try_parse_quote!(let #a = { #b };)) }
pub fn interpolated__spec<T: Parse, A: ToTokens, B: ToTokens>(a: &A, b: B) -> Result<T> { parse2::<T>(quote::quote!(let #a = { #b };)) }
//@ repeated k=2
pub fn repeated__imp<T: Parse, A: ToTokens>(a: &[A]) -> Result<T> { Ok(try_parse_quote!([#(#a),*])) }
pub fn repeated__spec<T: Parse, A: ToTokens>(a: &[A]) -> Result<T> { parse2::<T>(quote::quote!([#(#a),*])) }
//@ converted k=2
pub fn converted__imp<T: Parse, A: ToTokens, E: From<Error>>(a: &A) -> std::result::Result<T, E> { Ok(try_parse_quote!(f(#a, 1))) }
pub fn converted__spec<T: Parse, A: ToTokens, E: From<Error>>(a: &A) -> std::result::Result<T, E> {
    match parse2::<T>(quote::quote!(f(#a, 1))) { Ok(x) => Ok(x), Err(e) => Err(E::from(e)) }
}
//@ several k=2
pub fn several__imp<T: Parse, U: Parse, A: ToTokens>(a: &A) -> Result<(T, U)> { let t: T = try_parse_quote!(#a ;); let u: U = try_parse_quote!(# #a :: b); Ok((t, u)) }
pub fn several__spec<T: Parse, U: Parse, A: ToTokens>(a: &A) -> Result<(T, U)> {
    let t = match parse2::<T>(quote::quote!(#a ;)) { Ok(x) => x, Err(e) => return Err(e) };
    let u = match parse2::<U>(quote::quote!(# #a :: b)) { Ok(x) => x, Err(e) => return Err(e) };
    Ok((t, u))
}
//@ boxed k=2
pub fn boxed__imp<T: Parse>() -> std::result::Result<T, Box<dyn std::error::Error>> { Ok(try_parse_quote!(a b 'c "d" 1.5 (x, [y])))  }
pub fn boxed__spec<T: Parse>() -> std::result::Result<T, Box<dyn std::error::Error>> { match parse2::<T>(quote::quote!(a b 'c "d" 1.5 (x, [y]))) { Ok(x) => Ok(x), Err(e) => Err(e.into()) } }
//@ spanned k=2 opaque_fns=quote::__private::parse_spanned
pub fn spanned__imp<T: Parse>(s: Span) -> Result<T> { Ok(try_parse_quote_spanned!(s => a + 1)) }
pub fn spanned__spec<T: Parse>(s: Span) -> Result<T> { parse2::<T>(quote::quote_spanned!(s => a + 1)) }
//@ spanned_nothing k=2
pub fn spanned_nothing__imp<T: Parse>(s: Span) -> Result<T> { Ok(try_parse_quote_spanned!(s =>)) }
pub fn spanned_nothing__spec<T: Parse>(s: Span) -> Result<T> { let _ = s; parse2::<T>(TokenStream::new()) }
//@ spanned_interpolated k=2
pub fn spanned_interpolated__imp<T: Parse, A: ToTokens, B: ToTokens>(s: Span, a: &A, b: B) -> Result<T> { Ok(try_parse_quote_spanned!(s => let #a = { #b };)) }
pub fn spanned_interpolated__spec<T: Parse, A: ToTokens, B: ToTokens>(s: Span, a: &A, b: B) -> Result<T> { parse2::<T>(quote::quote_spanned!(s => let #a = { #b };)) }
//@ spanned_expr k=2
pub fn spanned_expr__imp<T: Parse, A: ToTokens>(x: &syn::Expr, a: &A) -> Result<T> { Ok(try_parse_quote_spanned!(Spanned::span(x) => (#a) . b)) }
pub fn spanned_expr__spec<T: Parse, A: ToTokens>(x: &syn::Expr, a: &A) -> Result<T> { let s = Spanned::span(x); parse2::<T>(quote::quote_spanned!(s => (#a) . b)) }
//@ spanned_converted k=2 opaque_fns=quote::__private::parse_spanned
pub fn spanned_converted__imp<T: Parse, A: ToTokens, E: From<Error>>(s: Span, a: &A) -> std::result::Result<T, E> { Ok(try_parse_quote_spanned!(s => f(#a, 1))) }
pub fn spanned_converted__spec<T: Parse, A: ToTokens, E: From<Error>>(s: Span, a: &A) -> std::result::Result<T, E> {
    match parse2::<T>(quote::quote_spanned!(s => f(#a, 1))) { Ok(x) => Ok(x), Err(e) => Err(E::from(e)) }
}
//@ spanned_repeated k=2
pub fn spanned_repeated__imp<T: Parse, A: ToTokens>(s: Span, a: &[A]) -> Result<T> { Ok(try_parse_quote_spanned!(s => [#(#a),*])) }
pub fn spanned_repeated__spec<T: Parse, A: ToTokens>(s: Span, a: &[A]) -> Result<T> { parse2::<T>(quote::quote_spanned!(s => [#(#a),*])) }
