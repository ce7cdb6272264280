//@ any_parse k=6
pub fn any_parse__imp<T: Parse>(input: ParseStream<'_>) -> Result<Vec<T>> {
    <Any<T> as Parse>::parse(input).map(Any::into_inner)
}
pub fn any_parse__spec<T: Parse>(input: ParseStream<'_>) -> Result<Vec<T>> {
    let mut items = Vec::new();
    loop {
        let fork = input.fork();
        match <T as Parse>::parse(&fork) {
            Ok(x) => {
                // an item that consumes nothing would be found again for ever: how that ends is another property
                __vp::assume(fork.cursor() != input.cursor());
                input.advance_to(&fork);
                items.push(x);
            }
            Err(_) => return Ok(items),
        }
    }
}

//@ any_print k=6
pub fn any_print__imp<T: ToTokens>(x: &Any<T>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn any_print__spec<T: ToTokens>(x: &Any<T>, tokens: &mut TokenStream) {
    let v: &Vec<T> = x.as_ref();
    let mut i = 0;
    while i < v.len() {
        v[i].to_tokens(tokens);
        i += 1;
    }
}
