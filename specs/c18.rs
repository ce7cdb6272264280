// Literals: value, kind and span through every construction, observation, conversion and printing.

//@ bool_made
pub fn bool_made__imp(v: bool, s: Span) -> (bool, Span, bool) {
    let x = LitBool::new(v, s);
    (x.value(), x.span(), x.into_inner())
}
pub fn bool_made__spec(v: bool, s: Span) -> (bool, Span, bool) {
    (v.clone(), s, v)
}

//@ bool_from_raw
pub fn bool_from_raw__imp(v: bool) -> (bool, Span) {
    let x = <LitBool as From<bool>>::from(v);
    (x.value(), x.span())
}
pub fn bool_from_raw__spec(v: bool) -> (bool, Span) {
    (v, Span::call_site())
}

//@ bool_into_raw
pub fn bool_into_raw__imp(x: LitBool) -> (bool, bool) {
    (x.clone().into_inner(), <bool>::from(x))
}
pub fn bool_into_raw__spec(x: LitBool) -> (bool, bool) {
    (x.value(), x.value())
}

//@ bool_default
pub fn bool_default__imp() -> (bool, Span) {
    let x = <LitBool as Default>::default();
    (x.value(), x.span())
}
pub fn bool_default__spec() -> (bool, Span) {
    (<bool as Default>::default(), Span::call_site())
}

//@ bool_set_span
pub fn bool_set_span__imp(mut x: LitBool, s: Span) -> (bool, Span) {
    x.set_span(s);
    (x.value(), LitBool::span(&x))
}
pub fn bool_set_span__spec(x: LitBool, s: Span) -> (bool, Span) {
    (x.value(), s)
}

//@ bool_copied
pub fn bool_copied__imp(x: &LitBool) -> (bool, Span) {
    let y = x.clone();
    (y.value(), y.span())
}
pub fn bool_copied__spec(x: &LitBool) -> (bool, Span) {
    (x.value(), x.span())
}

//@ bool_token
pub fn bool_token__imp(x: &LitBool) -> Ident {
    x.token()
}
pub fn bool_token__spec(x: &LitBool) -> Ident {
    Ident::new(if x.value() { "true" } else { "false" }, x.span())
}

//@ bool_tree
pub fn bool_tree__imp(x: LitBool) -> TokenTree {
    TokenTree::from(x)
}
pub fn bool_tree__spec(x: LitBool) -> TokenTree {
    TokenTree::Ident(x.token())
}

//@ bool_print
pub fn bool_print__imp(x: &LitBool, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn bool_print__spec(x: &LitBool, tokens: &mut TokenStream) {
    tokens.append(x.token())
}

//@ bool_from_syn
pub fn bool_from_syn__imp(l: syn::LitBool) -> (bool, Span) {
    let x = LitBool::from(l);
    (x.value(), x.span())
}
pub fn bool_from_syn__spec(l: syn::LitBool) -> (bool, Span) {
    (l.value, l.span)
}

//@ bool_parse err=span
pub fn bool_parse__imp(input: ParseStream<'_>) -> Result<(bool, Span)> {
    <LitBool as Parse>::parse(input).map(|x| (x.value(), x.span()))
}
pub fn bool_parse__spec(input: ParseStream<'_>) -> Result<(bool, Span)> {
    match <syn::LitBool as Parse>::parse(input) { Ok(l) => Ok((l.value, l.span)), Err(e) => Err(e) }
}

//@ bool_into_syn
pub fn bool_into_syn__imp(x: LitBool) -> syn::LitBool {
    syn::LitBool::from(x)
}
pub fn bool_into_syn__spec(x: LitBool) -> syn::LitBool {
    syn::LitBool::new(x.value(), x.span())
}

//@ byte_made
pub fn byte_made__imp(v: u8, s: Span) -> (u8, Span, u8) {
    let x = LitByte::new(v, s);
    (x.value(), x.span(), x.into_inner())
}
pub fn byte_made__spec(v: u8, s: Span) -> (u8, Span, u8) {
    (v.clone(), s, v)
}

//@ byte_from_raw
pub fn byte_from_raw__imp(v: u8) -> (u8, Span) {
    let x = <LitByte as From<u8>>::from(v);
    (x.value(), x.span())
}
pub fn byte_from_raw__spec(v: u8) -> (u8, Span) {
    (v, Span::call_site())
}

//@ byte_into_raw
pub fn byte_into_raw__imp(x: LitByte) -> (u8, u8) {
    (x.clone().into_inner(), <u8>::from(x))
}
pub fn byte_into_raw__spec(x: LitByte) -> (u8, u8) {
    (x.value(), x.value())
}

//@ byte_default
pub fn byte_default__imp() -> (u8, Span) {
    let x = <LitByte as Default>::default();
    (x.value(), x.span())
}
pub fn byte_default__spec() -> (u8, Span) {
    (<u8 as Default>::default(), Span::call_site())
}

//@ byte_set_span
pub fn byte_set_span__imp(mut x: LitByte, s: Span) -> (u8, Span) {
    x.set_span(s);
    (x.value(), LitByte::span(&x))
}
pub fn byte_set_span__spec(x: LitByte, s: Span) -> (u8, Span) {
    (x.value(), s)
}

//@ byte_copied
pub fn byte_copied__imp(x: &LitByte) -> (u8, Span) {
    let y = x.clone();
    (y.value(), y.span())
}
pub fn byte_copied__spec(x: &LitByte) -> (u8, Span) {
    (x.value(), x.span())
}

//@ byte_tree
pub fn byte_tree__imp(x: LitByte) -> TokenTree {
    TokenTree::from(x)
}
pub fn byte_tree__spec(x: LitByte) -> TokenTree {
    TokenTree::Literal(x.token())
}

//@ byte_print
pub fn byte_print__imp(x: &LitByte, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn byte_print__spec(x: &LitByte, tokens: &mut TokenStream) {
    tokens.append(x.token())
}

//@ byte_from_syn
pub fn byte_from_syn__imp(l: syn::LitByte) -> (u8, Span) {
    let x = LitByte::from(l);
    (x.value(), x.span())
}
pub fn byte_from_syn__spec(l: syn::LitByte) -> (u8, Span) {
    (l.value(), l.span())
}

//@ byte_parse err=span
pub fn byte_parse__imp(input: ParseStream<'_>) -> Result<(u8, Span)> {
    <LitByte as Parse>::parse(input).map(|x| (x.value(), x.span()))
}
pub fn byte_parse__spec(input: ParseStream<'_>) -> Result<(u8, Span)> {
    match <syn::LitByte as Parse>::parse(input) { Ok(l) => Ok((l.value(), l.span())), Err(e) => Err(e) }
}

//@ byte_into_syn
pub fn byte_into_syn__imp(x: LitByte) -> syn::LitByte {
    syn::LitByte::from(x)
}
pub fn byte_into_syn__spec(x: LitByte) -> syn::LitByte {
    syn::LitByte::new(x.value(), x.span())
}

//@ int_made
pub fn int_made__imp(v: i64, s: Span) -> (i64, Span, i64) {
    let x = LitInt::new(v, s);
    (x.value(), x.span(), x.into_inner())
}
pub fn int_made__spec(v: i64, s: Span) -> (i64, Span, i64) {
    (v.clone(), s, v)
}

//@ int_from_raw
pub fn int_from_raw__imp(v: i64) -> (i64, Span) {
    let x = <LitInt as From<i64>>::from(v);
    (x.value(), x.span())
}
pub fn int_from_raw__spec(v: i64) -> (i64, Span) {
    (v, Span::call_site())
}

//@ int_into_raw
pub fn int_into_raw__imp(x: LitInt) -> (i64, i64) {
    (x.clone().into_inner(), <i64>::from(x))
}
pub fn int_into_raw__spec(x: LitInt) -> (i64, i64) {
    (x.value(), x.value())
}

//@ int_default
pub fn int_default__imp() -> (i64, Span) {
    let x = <LitInt as Default>::default();
    (x.value(), x.span())
}
pub fn int_default__spec() -> (i64, Span) {
    (<i64 as Default>::default(), Span::call_site())
}

//@ int_set_span
pub fn int_set_span__imp(mut x: LitInt, s: Span) -> (i64, Span) {
    x.set_span(s);
    (x.value(), LitInt::span(&x))
}
pub fn int_set_span__spec(x: LitInt, s: Span) -> (i64, Span) {
    (x.value(), s)
}

//@ int_copied
pub fn int_copied__imp(x: &LitInt) -> (i64, Span) {
    let y = x.clone();
    (y.value(), y.span())
}
pub fn int_copied__spec(x: &LitInt) -> (i64, Span) {
    (x.value(), x.span())
}

//@ int_token
pub fn int_token__imp(x: &LitInt) -> Literal {
    x.token()
}
pub fn int_token__spec(x: &LitInt) -> Literal {
    { let mut t = Literal::i64_unsuffixed(x.value()); t.set_span(x.span()); t }
}

//@ int_tree
pub fn int_tree__imp(x: LitInt) -> TokenTree {
    TokenTree::from(x)
}
pub fn int_tree__spec(x: LitInt) -> TokenTree {
    TokenTree::Literal(x.token())
}

//@ int_print
pub fn int_print__imp(x: &LitInt, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn int_print__spec(x: &LitInt, tokens: &mut TokenStream) {
    tokens.append(x.token())
}

//@ int_from_syn err=span
pub fn int_from_syn__imp(l: syn::LitInt) -> Result<(i64, Span)> {
    <LitInt as TryFrom<syn::LitInt>>::try_from(l).map(|x| (x.value(), x.span()))
}
pub fn int_from_syn__spec(l: syn::LitInt) -> Result<(i64, Span)> {
    match l.base10_parse::<i64>() {
        Ok(v) => { Ok((v, l.span())) }
        Err(e) => Err(e),
    }
}

//@ int_parse err=span
pub fn int_parse__imp(input: ParseStream<'_>) -> Result<(i64, Span)> {
    <LitInt as Parse>::parse(input).map(|x| (x.value(), x.span()))
}
pub fn int_parse__spec(input: ParseStream<'_>) -> Result<(i64, Span)> {
    let l = match <syn::LitInt as Parse>::parse(input) { Ok(l) => l, Err(e) => return Err(e) };
    match l.base10_parse::<i64>() {
        Ok(v) => { Ok((v, l.span())) }
        Err(e) => Err(e),
    }
}

//@ int_into_syn
pub fn int_into_syn__imp(x: LitInt) -> syn::LitInt {
    syn::LitInt::from(x)
}
pub fn int_into_syn__spec(x: LitInt) -> syn::LitInt {
    syn::LitInt::from(x.token())
}

//@ uint_made
pub fn uint_made__imp(v: u64, s: Span) -> (u64, Span, u64) {
    let x = LitUint::new(v, s);
    (x.value(), x.span(), x.into_inner())
}
pub fn uint_made__spec(v: u64, s: Span) -> (u64, Span, u64) {
    (v.clone(), s, v)
}

//@ uint_from_raw
pub fn uint_from_raw__imp(v: u64) -> (u64, Span) {
    let x = <LitUint as From<u64>>::from(v);
    (x.value(), x.span())
}
pub fn uint_from_raw__spec(v: u64) -> (u64, Span) {
    (v, Span::call_site())
}

//@ uint_into_raw
pub fn uint_into_raw__imp(x: LitUint) -> (u64, u64) {
    (x.clone().into_inner(), <u64>::from(x))
}
pub fn uint_into_raw__spec(x: LitUint) -> (u64, u64) {
    (x.value(), x.value())
}

//@ uint_default
pub fn uint_default__imp() -> (u64, Span) {
    let x = <LitUint as Default>::default();
    (x.value(), x.span())
}
pub fn uint_default__spec() -> (u64, Span) {
    (<u64 as Default>::default(), Span::call_site())
}

//@ uint_set_span
pub fn uint_set_span__imp(mut x: LitUint, s: Span) -> (u64, Span) {
    x.set_span(s);
    (x.value(), LitUint::span(&x))
}
pub fn uint_set_span__spec(x: LitUint, s: Span) -> (u64, Span) {
    (x.value(), s)
}

//@ uint_copied
pub fn uint_copied__imp(x: &LitUint) -> (u64, Span) {
    let y = x.clone();
    (y.value(), y.span())
}
pub fn uint_copied__spec(x: &LitUint) -> (u64, Span) {
    (x.value(), x.span())
}

//@ uint_token
pub fn uint_token__imp(x: &LitUint) -> Literal {
    x.token()
}
pub fn uint_token__spec(x: &LitUint) -> Literal {
    { let mut t = Literal::u64_unsuffixed(x.value()); t.set_span(x.span()); t }
}

//@ uint_tree
pub fn uint_tree__imp(x: LitUint) -> TokenTree {
    TokenTree::from(x)
}
pub fn uint_tree__spec(x: LitUint) -> TokenTree {
    TokenTree::Literal(x.token())
}

//@ uint_print
pub fn uint_print__imp(x: &LitUint, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn uint_print__spec(x: &LitUint, tokens: &mut TokenStream) {
    tokens.append(x.token())
}

//@ uint_from_syn err=span
pub fn uint_from_syn__imp(l: syn::LitInt) -> Result<(u64, Span)> {
    <LitUint as TryFrom<syn::LitInt>>::try_from(l).map(|x| (x.value(), x.span()))
}
pub fn uint_from_syn__spec(l: syn::LitInt) -> Result<(u64, Span)> {
    match l.base10_parse::<u64>() {
        Ok(v) => { Ok((v, l.span())) }
        Err(e) => Err(e),
    }
}

//@ uint_parse err=span
pub fn uint_parse__imp(input: ParseStream<'_>) -> Result<(u64, Span)> {
    <LitUint as Parse>::parse(input).map(|x| (x.value(), x.span()))
}
pub fn uint_parse__spec(input: ParseStream<'_>) -> Result<(u64, Span)> {
    let l = match <syn::LitInt as Parse>::parse(input) { Ok(l) => l, Err(e) => return Err(e) };
    match l.base10_parse::<u64>() {
        Ok(v) => { Ok((v, l.span())) }
        Err(e) => Err(e),
    }
}

//@ uint_into_syn
pub fn uint_into_syn__imp(x: LitUint) -> syn::LitInt {
    syn::LitInt::from(x)
}
pub fn uint_into_syn__spec(x: LitUint) -> syn::LitInt {
    syn::LitInt::from(x.token())
}

//@ float_made
pub fn float_made__imp(v: NotNan<f64>, s: Span) -> (NotNan<f64>, Span, NotNan<f64>) {
    let x = LitFloat::new(v, s);
    (x.value(), x.span(), x.into_inner())
}
pub fn float_made__spec(v: NotNan<f64>, s: Span) -> (NotNan<f64>, Span, NotNan<f64>) {
    (v.clone(), s, v)
}

//@ float_from_raw
pub fn float_from_raw__imp(v: NotNan<f64>) -> (NotNan<f64>, Span) {
    let x = <LitFloat as From<NotNan<f64>>>::from(v);
    (x.value(), x.span())
}
pub fn float_from_raw__spec(v: NotNan<f64>) -> (NotNan<f64>, Span) {
    (v, Span::call_site())
}

//@ float_into_raw
pub fn float_into_raw__imp(x: LitFloat) -> (NotNan<f64>, NotNan<f64>) {
    (x.clone().into_inner(), <NotNan<f64>>::from(x))
}
pub fn float_into_raw__spec(x: LitFloat) -> (NotNan<f64>, NotNan<f64>) {
    (x.value(), x.value())
}

//@ float_default
pub fn float_default__imp() -> (NotNan<f64>, Span) {
    let x = <LitFloat as Default>::default();
    (x.value(), x.span())
}
pub fn float_default__spec() -> (NotNan<f64>, Span) {
    (<NotNan<f64> as Default>::default(), Span::call_site())
}

//@ float_set_span
pub fn float_set_span__imp(mut x: LitFloat, s: Span) -> (NotNan<f64>, Span) {
    x.set_span(s);
    (x.value(), LitFloat::span(&x))
}
pub fn float_set_span__spec(x: LitFloat, s: Span) -> (NotNan<f64>, Span) {
    (x.value(), s)
}

//@ float_copied
pub fn float_copied__imp(x: &LitFloat) -> (NotNan<f64>, Span) {
    let y = x.clone();
    (y.value(), y.span())
}
pub fn float_copied__spec(x: &LitFloat) -> (NotNan<f64>, Span) {
    (x.value(), x.span())
}

//@ float_token
pub fn float_token__imp(x: &LitFloat) -> Literal {
    x.token()
}
pub fn float_token__spec(x: &LitFloat) -> Literal {
    { let mut t = Literal::f64_unsuffixed(x.value().into_inner()); t.set_span(x.span()); t }
}

//@ float_tree
pub fn float_tree__imp(x: LitFloat) -> TokenTree {
    TokenTree::from(x)
}
pub fn float_tree__spec(x: LitFloat) -> TokenTree {
    TokenTree::Literal(x.token())
}

//@ float_print
pub fn float_print__imp(x: &LitFloat, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn float_print__spec(x: &LitFloat, tokens: &mut TokenStream) {
    tokens.append(x.token())
}

//@ float_from_syn err=span
pub fn float_from_syn__imp(l: syn::LitFloat) -> Result<(NotNan<f64>, Span)> {
    <LitFloat as TryFrom<syn::LitFloat>>::try_from(l).map(|x| (x.value(), x.span()))
}
pub fn float_from_syn__spec(l: syn::LitFloat) -> Result<(NotNan<f64>, Span)> {
    match l.base10_parse::<NotNan<f64>>() {
        Ok(v) => { if v.is_infinite() { return Err(Error::new(l.span(), "")); } Ok((v, l.span())) }
        Err(e) => Err(e),
    }
}

//@ float_parse err=span
pub fn float_parse__imp(input: ParseStream<'_>) -> Result<(NotNan<f64>, Span)> {
    <LitFloat as Parse>::parse(input).map(|x| (x.value(), x.span()))
}
pub fn float_parse__spec(input: ParseStream<'_>) -> Result<(NotNan<f64>, Span)> {
    let l = match <syn::LitFloat as Parse>::parse(input) { Ok(l) => l, Err(e) => return Err(e) };
    match l.base10_parse::<NotNan<f64>>() {
        Ok(v) => { if v.is_infinite() { return Err(Error::new(l.span(), "")); } Ok((v, l.span())) }
        Err(e) => Err(e),
    }
}

//@ float_into_syn
pub fn float_into_syn__imp(x: LitFloat) -> syn::LitFloat {
    syn::LitFloat::from(x)
}
pub fn float_into_syn__spec(x: LitFloat) -> syn::LitFloat {
    syn::LitFloat::from(x.token())
}

//@ char_made
pub fn char_made__imp(v: char, s: Span) -> (char, Span, char) {
    let x = LitChar::new(v, s);
    (x.value(), x.span(), x.into_inner())
}
pub fn char_made__spec(v: char, s: Span) -> (char, Span, char) {
    (v.clone(), s, v)
}

//@ char_from_raw
pub fn char_from_raw__imp(v: char) -> (char, Span) {
    let x = <LitChar as From<char>>::from(v);
    (x.value(), x.span())
}
pub fn char_from_raw__spec(v: char) -> (char, Span) {
    (v, Span::call_site())
}

//@ char_into_raw
pub fn char_into_raw__imp(x: LitChar) -> (char, char) {
    (x.clone().into_inner(), <char>::from(x))
}
pub fn char_into_raw__spec(x: LitChar) -> (char, char) {
    (x.value(), x.value())
}

//@ char_default
pub fn char_default__imp() -> (char, Span) {
    let x = <LitChar as Default>::default();
    (x.value(), x.span())
}
pub fn char_default__spec() -> (char, Span) {
    (<char as Default>::default(), Span::call_site())
}

//@ char_set_span
pub fn char_set_span__imp(mut x: LitChar, s: Span) -> (char, Span) {
    x.set_span(s);
    (x.value(), LitChar::span(&x))
}
pub fn char_set_span__spec(x: LitChar, s: Span) -> (char, Span) {
    (x.value(), s)
}

//@ char_copied
pub fn char_copied__imp(x: &LitChar) -> (char, Span) {
    let y = x.clone();
    (y.value(), y.span())
}
pub fn char_copied__spec(x: &LitChar) -> (char, Span) {
    (x.value(), x.span())
}

//@ char_token
pub fn char_token__imp(x: &LitChar) -> Literal {
    x.token()
}
pub fn char_token__spec(x: &LitChar) -> Literal {
    { let mut t = Literal::character(x.value()); t.set_span(x.span()); t }
}

//@ char_tree
pub fn char_tree__imp(x: LitChar) -> TokenTree {
    TokenTree::from(x)
}
pub fn char_tree__spec(x: LitChar) -> TokenTree {
    TokenTree::Literal(x.token())
}

//@ char_print
pub fn char_print__imp(x: &LitChar, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn char_print__spec(x: &LitChar, tokens: &mut TokenStream) {
    tokens.append(x.token())
}

//@ char_from_syn
pub fn char_from_syn__imp(l: syn::LitChar) -> (char, Span) {
    let x = LitChar::from(l);
    (x.value(), x.span())
}
pub fn char_from_syn__spec(l: syn::LitChar) -> (char, Span) {
    (l.value(), l.span())
}

//@ char_parse err=span
pub fn char_parse__imp(input: ParseStream<'_>) -> Result<(char, Span)> {
    <LitChar as Parse>::parse(input).map(|x| (x.value(), x.span()))
}
pub fn char_parse__spec(input: ParseStream<'_>) -> Result<(char, Span)> {
    match <syn::LitChar as Parse>::parse(input) { Ok(l) => Ok((l.value(), l.span())), Err(e) => Err(e) }
}

//@ char_into_syn
pub fn char_into_syn__imp(x: LitChar) -> syn::LitChar {
    syn::LitChar::from(x)
}
pub fn char_into_syn__spec(x: LitChar) -> syn::LitChar {
    syn::LitChar::new(x.value(), x.span())
}

//@ str_made
pub fn str_made__imp(v: String, s: Span) -> (String, Span, String) {
    let x = LitStr::new(v, s);
    (x.value(), x.span(), x.into_inner())
}
pub fn str_made__spec(v: String, s: Span) -> (String, Span, String) {
    (v.clone(), s, v)
}

//@ str_from_raw
pub fn str_from_raw__imp(v: String) -> (String, Span) {
    let x = <LitStr as From<String>>::from(v);
    (x.value(), x.span())
}
pub fn str_from_raw__spec(v: String) -> (String, Span) {
    (v, Span::call_site())
}

//@ str_into_raw
pub fn str_into_raw__imp(x: LitStr) -> (String, String) {
    (x.clone().into_inner(), <String>::from(x))
}
pub fn str_into_raw__spec(x: LitStr) -> (String, String) {
    (x.value(), x.value())
}

//@ str_default
pub fn str_default__imp() -> (String, Span) {
    let x = <LitStr as Default>::default();
    (x.value(), x.span())
}
pub fn str_default__spec() -> (String, Span) {
    (<String as Default>::default(), Span::call_site())
}

//@ str_set_span
pub fn str_set_span__imp(mut x: LitStr, s: Span) -> (String, Span) {
    x.set_span(s);
    (x.value(), LitStr::span(&x))
}
pub fn str_set_span__spec(x: LitStr, s: Span) -> (String, Span) {
    (x.value(), s)
}

//@ str_copied
pub fn str_copied__imp(x: &LitStr) -> (String, Span) {
    let y = x.clone();
    (y.value(), y.span())
}
pub fn str_copied__spec(x: &LitStr) -> (String, Span) {
    (x.value(), x.span())
}

//@ str_token
pub fn str_token__imp(x: &LitStr) -> Literal {
    x.token()
}
pub fn str_token__spec(x: &LitStr) -> Literal {
    { let mut t = Literal::string(&x.value()); t.set_span(x.span()); t }
}

//@ str_tree
pub fn str_tree__imp(x: LitStr) -> TokenTree {
    TokenTree::from(x)
}
pub fn str_tree__spec(x: LitStr) -> TokenTree {
    TokenTree::Literal(x.token())
}

//@ str_print
pub fn str_print__imp(x: &LitStr, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn str_print__spec(x: &LitStr, tokens: &mut TokenStream) {
    tokens.append(x.token())
}

//@ str_from_syn
pub fn str_from_syn__imp(l: syn::LitStr) -> (String, Span) {
    let x = LitStr::from(l);
    (x.value(), x.span())
}
pub fn str_from_syn__spec(l: syn::LitStr) -> (String, Span) {
    (l.value(), l.span())
}

//@ str_parse err=span
pub fn str_parse__imp(input: ParseStream<'_>) -> Result<(String, Span)> {
    <LitStr as Parse>::parse(input).map(|x| (x.value(), x.span()))
}
pub fn str_parse__spec(input: ParseStream<'_>) -> Result<(String, Span)> {
    match <syn::LitStr as Parse>::parse(input) { Ok(l) => Ok((l.value(), l.span())), Err(e) => Err(e) }
}

//@ str_into_syn
pub fn str_into_syn__imp(x: LitStr) -> syn::LitStr {
    syn::LitStr::from(x)
}
pub fn str_into_syn__spec(x: LitStr) -> syn::LitStr {
    syn::LitStr::new(&x.value(), x.span())
}

//@ bytestr_made
pub fn bytestr_made__imp(v: Vec<u8>, s: Span) -> (Vec<u8>, Span, Vec<u8>) {
    let x = LitByteStr::new(v, s);
    (x.value(), x.span(), x.into_inner())
}
pub fn bytestr_made__spec(v: Vec<u8>, s: Span) -> (Vec<u8>, Span, Vec<u8>) {
    (v.clone(), s, v)
}

//@ bytestr_from_raw
pub fn bytestr_from_raw__imp(v: Vec<u8>) -> (Vec<u8>, Span) {
    let x = <LitByteStr as From<Vec<u8>>>::from(v);
    (x.value(), x.span())
}
pub fn bytestr_from_raw__spec(v: Vec<u8>) -> (Vec<u8>, Span) {
    (v, Span::call_site())
}

//@ bytestr_into_raw
pub fn bytestr_into_raw__imp(x: LitByteStr) -> (Vec<u8>, Vec<u8>) {
    (x.clone().into_inner(), <Vec<u8>>::from(x))
}
pub fn bytestr_into_raw__spec(x: LitByteStr) -> (Vec<u8>, Vec<u8>) {
    (x.value(), x.value())
}

//@ bytestr_default
pub fn bytestr_default__imp() -> (Vec<u8>, Span) {
    let x = <LitByteStr as Default>::default();
    (x.value(), x.span())
}
pub fn bytestr_default__spec() -> (Vec<u8>, Span) {
    (<Vec<u8> as Default>::default(), Span::call_site())
}

//@ bytestr_set_span
pub fn bytestr_set_span__imp(mut x: LitByteStr, s: Span) -> (Vec<u8>, Span) {
    x.set_span(s);
    (x.value(), LitByteStr::span(&x))
}
pub fn bytestr_set_span__spec(x: LitByteStr, s: Span) -> (Vec<u8>, Span) {
    (x.value(), s)
}

//@ bytestr_copied
pub fn bytestr_copied__imp(x: &LitByteStr) -> (Vec<u8>, Span) {
    let y = x.clone();
    (y.value(), y.span())
}
pub fn bytestr_copied__spec(x: &LitByteStr) -> (Vec<u8>, Span) {
    (x.value(), x.span())
}

//@ bytestr_token
pub fn bytestr_token__imp(x: &LitByteStr) -> Literal {
    x.token()
}
pub fn bytestr_token__spec(x: &LitByteStr) -> Literal {
    { let mut t = Literal::byte_string(&x.value()); t.set_span(x.span()); t }
}

//@ bytestr_tree
pub fn bytestr_tree__imp(x: LitByteStr) -> TokenTree {
    TokenTree::from(x)
}
pub fn bytestr_tree__spec(x: LitByteStr) -> TokenTree {
    TokenTree::Literal(x.token())
}

//@ bytestr_print
pub fn bytestr_print__imp(x: &LitByteStr, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn bytestr_print__spec(x: &LitByteStr, tokens: &mut TokenStream) {
    tokens.append(x.token())
}

//@ bytestr_from_syn
pub fn bytestr_from_syn__imp(l: syn::LitByteStr) -> (Vec<u8>, Span) {
    let x = LitByteStr::from(l);
    (x.value(), x.span())
}
pub fn bytestr_from_syn__spec(l: syn::LitByteStr) -> (Vec<u8>, Span) {
    (l.value(), l.span())
}

//@ bytestr_parse err=span
pub fn bytestr_parse__imp(input: ParseStream<'_>) -> Result<(Vec<u8>, Span)> {
    <LitByteStr as Parse>::parse(input).map(|x| (x.value(), x.span()))
}
pub fn bytestr_parse__spec(input: ParseStream<'_>) -> Result<(Vec<u8>, Span)> {
    match <syn::LitByteStr as Parse>::parse(input) { Ok(l) => Ok((l.value(), l.span())), Err(e) => Err(e) }
}

//@ bytestr_into_syn
pub fn bytestr_into_syn__imp(x: LitByteStr) -> syn::LitByteStr {
    syn::LitByteStr::from(x)
}
pub fn bytestr_into_syn__spec(x: LitByteStr) -> syn::LitByteStr {
    syn::LitByteStr::new(&x.value(), x.span())
}

//@ float_from_f64
pub fn float_from_f64__imp(v: f64) -> Option<(NotNan<f64>, Span)> {
    LitFloat::try_from(v).ok().map(|x| (x.value(), x.span()))
}
pub fn float_from_f64__spec(v: f64) -> Option<(NotNan<f64>, Span)> {
    match NotNan::try_from(v) { Ok(v) => Some((v, Span::call_site())), Err(_) => None }
}

//@ float_into_f64
pub fn float_into_f64__imp(x: LitFloat) -> f64 {
    f64::from(x)
}
pub fn float_into_f64__spec(x: LitFloat) -> f64 {
    x.value().into_inner()
}

//@ str_from_ref
pub fn str_from_ref__imp(v: &str) -> (String, Span) {
    let x = LitStr::from(v);
    (x.value(), x.span())
}
pub fn str_from_ref__spec(v: &str) -> (String, Span) {
    (v.to_owned(), Span::call_site())
}

//@ str_from_box
pub fn str_from_box__imp(v: Box<str>) -> (String, Span) {
    let x = LitStr::from(v);
    (x.value(), x.span())
}
pub fn str_from_box__spec(v: Box<str>) -> (String, Span) {
    (v.into_string(), Span::call_site())
}

//@ str_from_cow
pub fn str_from_cow__imp(v: Cow<'_, str>) -> (String, Span) {
    let x = LitStr::from(v);
    (x.value(), x.span())
}
pub fn str_from_cow__spec(v: Cow<'_, str>) -> (String, Span) {
    (v.into_owned(), Span::call_site())
}

//@ bytestr_from_ref
pub fn bytestr_from_ref__imp(v: &[u8]) -> (Vec<u8>, Span) {
    let x = LitByteStr::from(v);
    (x.value(), x.span())
}
pub fn bytestr_from_ref__spec(v: &[u8]) -> (Vec<u8>, Span) {
    (v.to_vec(), Span::call_site())
}

//@ bytestr_from_box
pub fn bytestr_from_box__imp(v: Box<[u8]>) -> (Vec<u8>, Span) {
    let x = LitByteStr::from(v);
    (x.value(), x.span())
}
pub fn bytestr_from_box__spec(v: Box<[u8]>) -> (Vec<u8>, Span) {
    (v.into_vec(), Span::call_site())
}

//@ bytestr_from_cow
pub fn bytestr_from_cow__imp(v: Cow<'_, [u8]>) -> (Vec<u8>, Span) {
    let x = LitByteStr::from(v);
    (x.value(), x.span())
}
pub fn bytestr_from_cow__spec(v: Cow<'_, [u8]>) -> (Vec<u8>, Span) {
    (v.into_owned(), Span::call_site())
}

//@ str_into_box
pub fn str_into_box__imp(x: LitStr) -> Box<str> {
    <Box<str>>::from(x)
}
pub fn str_into_box__spec(x: LitStr) -> Box<str> {
    x.value().into_boxed_str()
}

//@ str_into_cow
pub fn str_into_cow__imp(x: LitStr) -> String {
    <Cow<'static, str>>::from(x).into_owned()
}
pub fn str_into_cow__spec(x: LitStr) -> String {
    x.value()
}

//@ bytestr_into_box
pub fn bytestr_into_box__imp(x: LitByteStr) -> Box<[u8]> {
    <Box<[u8]>>::from(x)
}
pub fn bytestr_into_box__spec(x: LitByteStr) -> Box<[u8]> {
    x.value().into_boxed_slice()
}

//@ bytestr_into_cow
pub fn bytestr_into_cow__imp(x: LitByteStr) -> Vec<u8> {
    <Cow<'static, [u8]>>::from(x).into_owned()
}
pub fn bytestr_into_cow__spec(x: LitByteStr) -> Vec<u8> {
    x.value()
}

//@ str_views
pub fn str_views__imp(x: &LitStr) -> (&str, &str, &str) {
    (AsRef::<str>::as_ref(x), Deref::deref(x), Borrow::<str>::borrow(x))
}
pub fn str_views__spec(x: &LitStr) -> (&str, &str, &str) {
    let s: &String = x.borrow();
    (s.as_str(), s.as_str(), s.as_str())
}

//@ str_view_value
pub fn str_view_value__imp(x: &LitStr) -> String {
    AsRef::<str>::as_ref(x).to_owned()
}
pub fn str_view_value__spec(x: &LitStr) -> String {
    x.value()
}

//@ bytestr_views
pub fn bytestr_views__imp(x: &LitByteStr) -> (&[u8], &[u8], &[u8]) {
    (AsRef::<[u8]>::as_ref(x), Deref::deref(x), Borrow::<[u8]>::borrow(x))
}
pub fn bytestr_views__spec(x: &LitByteStr) -> (&[u8], &[u8], &[u8]) {
    let s: &Vec<u8> = x.borrow();
    (s.as_slice(), s.as_slice(), s.as_slice())
}

//@ bytestr_view_value
pub fn bytestr_view_value__imp(x: &LitByteStr) -> Vec<u8> {
    AsRef::<[u8]>::as_ref(x).to_owned()
}
pub fn bytestr_view_value__spec(x: &LitByteStr) -> Vec<u8> {
    x.value()
}

//@ bytestr_as_mut
pub fn bytestr_as_mut__imp(x: &mut LitByteStr) -> usize {
    AsMut::<[u8]>::as_mut(x).len()
}
pub fn bytestr_as_mut__spec(x: &mut LitByteStr) -> usize {
    x.value().len()
}

//@ bytestr_deref_mut
pub fn bytestr_deref_mut__imp(x: &mut LitByteStr) -> usize {
    DerefMut::deref_mut(x).len()
}
pub fn bytestr_deref_mut__spec(x: &mut LitByteStr) -> usize {
    x.value().len()
}

//@ bytestr_borrow_mut
pub fn bytestr_borrow_mut__imp(x: &mut LitByteStr) -> usize {
    BorrowMut::<[u8]>::borrow_mut(x).len()
}
pub fn bytestr_borrow_mut__spec(x: &mut LitByteStr) -> usize {
    x.value().len()
}

//@ lit_span
pub fn lit_span__imp(x: &Lit) -> Span {
    x.span()
}
pub fn lit_span__spec(x: &Lit) -> Span {
    match x {
        Lit::Bool(l) => l.span(),
        Lit::Byte(l) => l.span(),
        Lit::Int(l) => l.span(),
        Lit::Uint(l) => l.span(),
        Lit::Float(l) => l.span(),
        Lit::Char(l) => l.span(),
        Lit::Str(l) => l.span(),
        Lit::ByteStr(l) => l.span(),
    }
}

//@ lit_set_span
pub fn lit_set_span__imp(x: Lit, s: Span) -> Lit {
    let mut x = x;
    x.set_span(s);
    x
}
pub fn lit_set_span__spec(x: Lit, s: Span) -> Lit {
    let mut x = x;
    match &mut x {
        Lit::Bool(l) => l.set_span(s),
        Lit::Byte(l) => l.set_span(s),
        Lit::Int(l) => l.set_span(s),
        Lit::Uint(l) => l.set_span(s),
        Lit::Float(l) => l.set_span(s),
        Lit::Char(l) => l.set_span(s),
        Lit::Str(l) => l.set_span(s),
        Lit::ByteStr(l) => l.set_span(s),
    }
    x
}

//@ lit_print
pub fn lit_print__imp(x: &Lit, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn lit_print__spec(x: &Lit, tokens: &mut TokenStream) {
    match x {
        Lit::Bool(l) => tokens.append(l.token()),
        Lit::Byte(l) => tokens.append(l.token()),
        Lit::Int(l) => tokens.append(l.token()),
        Lit::Uint(l) => tokens.append(l.token()),
        Lit::Float(l) => tokens.append(l.token()),
        Lit::Char(l) => tokens.append(l.token()),
        Lit::Str(l) => tokens.append(l.token()),
        Lit::ByteStr(l) => tokens.append(l.token()),
    }
}

//@ lit_copied
pub fn lit_copied__imp(x: &Lit) -> Lit {
    x.clone()
}
pub fn lit_copied__spec(x: &Lit) -> Lit {
    match x {
        Lit::Bool(l) => Lit::Bool(l.clone()),
        Lit::Byte(l) => Lit::Byte(l.clone()),
        Lit::Int(l) => Lit::Int(l.clone()),
        Lit::Uint(l) => Lit::Uint(l.clone()),
        Lit::Float(l) => Lit::Float(l.clone()),
        Lit::Char(l) => Lit::Char(l.clone()),
        Lit::Str(l) => Lit::Str(l.clone()),
        Lit::ByteStr(l) => Lit::ByteStr(l.clone()),
    }
}

//@ lit_into_syn
pub fn lit_into_syn__imp(x: Lit) -> syn::Lit {
    syn::Lit::from(x)
}
pub fn lit_into_syn__spec(x: Lit) -> syn::Lit {
    match x {
        Lit::Bool(l) => syn::Lit::Bool(l.into()),
        Lit::Byte(l) => syn::Lit::Byte(l.into()),
        Lit::Int(l) => syn::Lit::Int(l.into()),
        Lit::Uint(l) => syn::Lit::Int(l.into()),
        Lit::Float(l) => syn::Lit::Float(l.into()),
        Lit::Char(l) => syn::Lit::Char(l.into()),
        Lit::Str(l) => syn::Lit::Str(l.into()),
        Lit::ByteStr(l) => syn::Lit::ByteStr(l.into()),
    }
}

//@ lit_from_syn err=span
pub fn lit_from_syn__imp(x: syn::Lit) -> Result<Lit> {
    Lit::try_from(x)
}
pub fn lit_from_syn__spec(x: syn::Lit) -> Result<Lit> {
    match x {
        syn::Lit::Bool(l) => Ok(Lit::Bool(l.into())),
        syn::Lit::Byte(l) => Ok(Lit::Byte(l.into())),
        syn::Lit::Char(l) => Ok(Lit::Char(l.into())),
        syn::Lit::Str(l) => Ok(Lit::Str(l.into())),
        syn::Lit::ByteStr(l) => Ok(Lit::ByteStr(l.into())),
        syn::Lit::Float(l) => match LitFloat::try_from(l) { Ok(v) => Ok(Lit::Float(v)), Err(e) => Err(e) },
        syn::Lit::Int(l) => {
            if l.base10_digits().starts_with('-') {
                match LitInt::try_from(l) { Ok(v) => Ok(Lit::Int(v)), Err(e) => Err(e) }
            } else {
                match LitUint::try_from(l) { Ok(v) => Ok(Lit::Uint(v)), Err(e) => Err(e) }
            }
        }
        l => Err(Error::new(l.span(), "")),
    }
}

//@ lit_parse err=span
pub fn lit_parse__imp(input: ParseStream<'_>) -> Result<Lit> {
    <Lit as Parse>::parse(input)
}
pub fn lit_parse__spec(input: ParseStream<'_>) -> Result<Lit> {
    let x = match <syn::Lit as Parse>::parse(input) { Ok(x) => x, Err(e) => return Err(e) };
    match x {
        syn::Lit::Bool(l) => Ok(Lit::Bool(l.into())),
        syn::Lit::Byte(l) => Ok(Lit::Byte(l.into())),
        syn::Lit::Char(l) => Ok(Lit::Char(l.into())),
        syn::Lit::Str(l) => Ok(Lit::Str(l.into())),
        syn::Lit::ByteStr(l) => Ok(Lit::ByteStr(l.into())),
        syn::Lit::Float(l) => match LitFloat::try_from(l) { Ok(v) => Ok(Lit::Float(v)), Err(e) => Err(e) },
        syn::Lit::Int(l) => {
            if l.base10_digits().starts_with('-') {
                match LitInt::try_from(l) { Ok(v) => Ok(Lit::Int(v)), Err(e) => Err(e) }
            } else {
                match LitUint::try_from(l) { Ok(v) => Ok(Lit::Uint(v)), Err(e) => Err(e) }
            }
        }
        l => Err(Error::new(l.span(), "")),
    }
}

//@ lit_from_bool
pub fn lit_from_bool__imp(x: LitBool) -> Lit {
    Lit::from(x)
}
pub fn lit_from_bool__spec(x: LitBool) -> Lit {
    Lit::Bool(x)
}

//@ lit_from_raw_bool
pub fn lit_from_raw_bool__imp(x: bool) -> Lit {
    Lit::from(x)
}
pub fn lit_from_raw_bool__spec(x: bool) -> Lit {
    Lit::Bool(LitBool::new(x, Span::call_site()))
}

//@ lit_from_byte
pub fn lit_from_byte__imp(x: LitByte) -> Lit {
    Lit::from(x)
}
pub fn lit_from_byte__spec(x: LitByte) -> Lit {
    Lit::Byte(x)
}

//@ lit_from_raw_byte
pub fn lit_from_raw_byte__imp(x: u8) -> Lit {
    Lit::from(x)
}
pub fn lit_from_raw_byte__spec(x: u8) -> Lit {
    Lit::Byte(LitByte::new(x, Span::call_site()))
}

//@ lit_from_int
pub fn lit_from_int__imp(x: LitInt) -> Lit {
    Lit::from(x)
}
pub fn lit_from_int__spec(x: LitInt) -> Lit {
    Lit::Int(x)
}

//@ lit_from_raw_int
pub fn lit_from_raw_int__imp(x: i64) -> Lit {
    Lit::from(x)
}
pub fn lit_from_raw_int__spec(x: i64) -> Lit {
    Lit::Int(LitInt::new(x, Span::call_site()))
}

//@ lit_from_uint
pub fn lit_from_uint__imp(x: LitUint) -> Lit {
    Lit::from(x)
}
pub fn lit_from_uint__spec(x: LitUint) -> Lit {
    Lit::Uint(x)
}

//@ lit_from_raw_uint
pub fn lit_from_raw_uint__imp(x: u64) -> Lit {
    Lit::from(x)
}
pub fn lit_from_raw_uint__spec(x: u64) -> Lit {
    Lit::Uint(LitUint::new(x, Span::call_site()))
}

//@ lit_from_float
pub fn lit_from_float__imp(x: LitFloat) -> Lit {
    Lit::from(x)
}
pub fn lit_from_float__spec(x: LitFloat) -> Lit {
    Lit::Float(x)
}

//@ lit_from_raw_float
pub fn lit_from_raw_float__imp(x: NotNan<f64>) -> Lit {
    Lit::from(x)
}
pub fn lit_from_raw_float__spec(x: NotNan<f64>) -> Lit {
    Lit::Float(LitFloat::new(x, Span::call_site()))
}

//@ lit_from_char
pub fn lit_from_char__imp(x: LitChar) -> Lit {
    Lit::from(x)
}
pub fn lit_from_char__spec(x: LitChar) -> Lit {
    Lit::Char(x)
}

//@ lit_from_raw_char
pub fn lit_from_raw_char__imp(x: char) -> Lit {
    Lit::from(x)
}
pub fn lit_from_raw_char__spec(x: char) -> Lit {
    Lit::Char(LitChar::new(x, Span::call_site()))
}

//@ lit_from_str
pub fn lit_from_str__imp(x: LitStr) -> Lit {
    Lit::from(x)
}
pub fn lit_from_str__spec(x: LitStr) -> Lit {
    Lit::Str(x)
}

//@ lit_from_raw_str
pub fn lit_from_raw_str__imp(x: String) -> Lit {
    Lit::from(x)
}
pub fn lit_from_raw_str__spec(x: String) -> Lit {
    Lit::Str(LitStr::new(x, Span::call_site()))
}

//@ lit_from_bytestr
pub fn lit_from_bytestr__imp(x: LitByteStr) -> Lit {
    Lit::from(x)
}
pub fn lit_from_bytestr__spec(x: LitByteStr) -> Lit {
    Lit::ByteStr(x)
}

//@ lit_from_raw_bytestr
pub fn lit_from_raw_bytestr__imp(x: Vec<u8>) -> Lit {
    Lit::from(x)
}
pub fn lit_from_raw_bytestr__spec(x: Vec<u8>) -> Lit {
    Lit::ByteStr(LitByteStr::new(x, Span::call_site()))
}

//@ lit_from_strref
pub fn lit_from_strref__imp(x: &str) -> Lit {
    Lit::from(x)
}
pub fn lit_from_strref__spec(x: &str) -> Lit {
    Lit::Str(LitStr::new(x.to_owned(), Span::call_site()))
}

//@ lit_from_strbox
pub fn lit_from_strbox__imp(x: Box<str>) -> Lit {
    Lit::from(x)
}
pub fn lit_from_strbox__spec(x: Box<str>) -> Lit {
    Lit::Str(LitStr::new(x.into_string(), Span::call_site()))
}

//@ lit_from_strcow
pub fn lit_from_strcow__imp(x: Cow<'_, str>) -> Lit {
    Lit::from(x)
}
pub fn lit_from_strcow__spec(x: Cow<'_, str>) -> Lit {
    Lit::Str(LitStr::new(x.into_owned(), Span::call_site()))
}

//@ lit_from_bytesref
pub fn lit_from_bytesref__imp(x: &[u8]) -> Lit {
    Lit::from(x)
}
pub fn lit_from_bytesref__spec(x: &[u8]) -> Lit {
    Lit::ByteStr(LitByteStr::new(x.to_vec(), Span::call_site()))
}

//@ lit_from_bytesbox
pub fn lit_from_bytesbox__imp(x: Box<[u8]>) -> Lit {
    Lit::from(x)
}
pub fn lit_from_bytesbox__spec(x: Box<[u8]>) -> Lit {
    Lit::ByteStr(LitByteStr::new(x.into_vec(), Span::call_site()))
}

//@ lit_from_bytescow
pub fn lit_from_bytescow__imp(x: Cow<'_, [u8]>) -> Lit {
    Lit::from(x)
}
pub fn lit_from_bytescow__spec(x: Cow<'_, [u8]>) -> Lit {
    Lit::ByteStr(LitByteStr::new(x.into_owned(), Span::call_site()))
}

//@ lit_from_f64
pub fn lit_from_f64__imp(x: f64) -> Option<Lit> {
    Lit::try_from(x).ok()
}
pub fn lit_from_f64__spec(x: f64) -> Option<Lit> {
    match NotNan::try_from(x) { Ok(v) => Some(Lit::Float(LitFloat::new(v, Span::call_site()))), Err(_) => None }
}
