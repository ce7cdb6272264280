//@ left_parse k=6
pub fn left_parse__imp<O: Parse, R: Parse>(input: ParseStream<'_>) -> Result<LeftAssoc<O, R>> {
    <LeftAssoc<O, R> as Parse>::parse(input)
}
pub fn left_parse__spec<O: Parse, R: Parse>(input: ParseStream<'_>) -> Result<LeftAssoc<O, R>> {
    let mut tree = match <R as Parse>::parse(input) {
        Ok(x) => LeftAssoc::Rhs(x),
        Err(e) => return Err(e),
    };
    loop {
        let start = input.cursor();
        let fork = input.fork();
        let op = match <O as Parse>::parse(&fork) {
            Ok(op) => op,
            Err(_) => return Ok(tree),
        };
        input.advance_to(&fork);
        match <R as Parse>::parse(input) {
            Ok(rhs) => tree = LeftAssoc::Binary { lhs: Box::new(tree), op, rhs },
            Err(e) => return Err(e),
        }
        __vp::assume(start != input.cursor());
    }
}

//@ right_parse k=6
pub fn right_parse__imp<O: Parse, L: Parse>(input: ParseStream<'_>) -> Result<RightAssoc<O, L>> {
    <RightAssoc<O, L> as Parse>::parse(input)
}
pub fn right_parse__spec<O: Parse, L: Parse>(input: ParseStream<'_>) -> Result<RightAssoc<O, L>> {
    let mut last = match <L as Parse>::parse(input) {
        Ok(x) => x,
        Err(e) => return Err(e),
    };
    let mut stack = Vec::new();
    loop {
        let start = input.cursor();
        let fork = input.fork();
        let op = match <O as Parse>::parse(&fork) {
            Ok(op) => op,
            Err(_) => break,
        };
        input.advance_to(&fork);
        match <L as Parse>::parse(input) {
            Ok(x) => {
                stack.push((last, op));
                last = x;
            }
            Err(e) => return Err(e),
        }
        __vp::assume(start != input.cursor());
    }
    let mut tree = RightAssoc::Lhs(last);
    while let Some((lhs, op)) = stack.pop() {
        tree = RightAssoc::Binary { lhs, op, rhs: Box::new(tree) };
    }
    Ok(tree)
}

//@ left_print opaque=parsel::ast::LeftAssoc
pub fn left_print__imp<O: ToTokens, R: ToTokens>(x: &LeftAssoc<O, R>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn left_print__spec<O: ToTokens, R: ToTokens>(x: &LeftAssoc<O, R>, tokens: &mut TokenStream) {
    match x {
        LeftAssoc::Binary { lhs, op, rhs } => {
            (**lhs).to_tokens(tokens);
            op.to_tokens(tokens);
            rhs.to_tokens(tokens);
        }
        LeftAssoc::Rhs(rhs) => rhs.to_tokens(tokens),
    }
}

//@ right_print opaque=parsel::ast::RightAssoc
pub fn right_print__imp<O: ToTokens, L: ToTokens>(x: &RightAssoc<O, L>, tokens: &mut TokenStream) {
    x.to_tokens(tokens)
}
pub fn right_print__spec<O: ToTokens, L: ToTokens>(x: &RightAssoc<O, L>, tokens: &mut TokenStream) {
    match x {
        RightAssoc::Binary { lhs, op, rhs } => {
            lhs.to_tokens(tokens);
            op.to_tokens(tokens);
            (**rhs).to_tokens(tokens);
        }
        RightAssoc::Lhs(lhs) => lhs.to_tokens(tokens),
    }
}

//@ left_leaf
pub fn left_leaf__imp<O, R>(x: R) -> LeftAssoc<O, R> {
    x.into()
}
pub fn left_leaf__spec<O, R>(x: R) -> LeftAssoc<O, R> {
    LeftAssoc::Rhs(x)
}

//@ right_leaf
pub fn right_leaf__imp<O, L>(x: L) -> RightAssoc<O, L> {
    x.into()
}
pub fn right_leaf__spec<O, L>(x: L) -> RightAssoc<O, L> {
    RightAssoc::Lhs(x)
}

//@ first_rest k=6
pub fn first_rest__imp<T, P>(x: Separated<T, P>) -> (T, Vec<(P, T)>) {
    __vp::assume(!x.empty_or_trailing());
    x.into_first_rest()
}
pub fn first_rest__spec<T, P>(x: Separated<T, P>) -> (T, Vec<(P, T)>) {
    let mut parts = x.into_inner().into_pairs();
    let mut rest = Vec::new();
    let (first, mut sep) = match parts.next() {
        Some(Pair::Punctuated(t, p)) => (t, p),
        Some(Pair::End(t)) => return (t, rest),
        None => panic!(),
    };
    loop {
        match parts.next() {
            Some(Pair::Punctuated(t, p)) => {
                rest.push((sep, t));
                sep = p;
            }
            Some(Pair::End(t)) => {
                rest.push((sep, t));
                return (first, rest);
            }
            None => panic!(),
        }
    }
}

//@ last_rest k=6
pub fn last_rest__imp<T, P>(x: Separated<T, P>) -> (T, Vec<(T, P)>) {
    __vp::assume(!x.empty_or_trailing());
    x.into_last_rest()
}
pub fn last_rest__spec<T, P>(x: Separated<T, P>) -> (T, Vec<(T, P)>) {
    let mut parts = x.into_inner().into_pairs();
    let mut rest = Vec::new();
    loop {
        match parts.next() {
            Some(Pair::Punctuated(t, p)) => rest.push((t, p)),
            Some(Pair::End(t)) => return (t, rest),
            None => panic!(),
        }
    }
}
