//@ either_parse err=words tie=1
pub fn either_parse__imp<L: Parse, R: Parse>(input: ParseStream<'_>) -> Result<Either<L, R>> {
    <Either<L, R> as Parse>::parse(input)
}
pub fn either_parse__spec<L: Parse, R: Parse>(input: ParseStream<'_>) -> Result<Either<L, R>> {
    let a = input.fork();
    let e1 = match <L as Parse>::parse(&a) {
        Ok(x) => {
            input.advance_to(&a);
            return Ok(Either::Left(x));
        }
        Err(e) => e,
    };
    let b = input.fork();
    let e2 = match <R as Parse>::parse(&b) {
        Ok(x) => {
            input.advance_to(&b);
            return Ok(Either::Right(x));
        }
        Err(e) => e,
    };
    if e1.span().end() > e2.span().end() { Err(e1) } else { Err(e2) }
}

