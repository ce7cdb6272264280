// Source ranges and spans. Texts are made of symbolic characters, each a line feed, a carriage return or anything else.
use parsel::util::{SpannedExt, SpanDisplay};
use core::ops::Range;
pub fn within(source: &str, loc: LineColumn) -> bool {
    let mut line = 1;
    let mut col = 0;
    if loc.line < 1 || !(loc.column >= 0) { return false; }
    for c in source.chars() {
        if line == loc.line && c != '\n' { col += 1; }
        if c == '\n' { line += 1; }
    }
    loc.line <= line && loc.column <= col
}
pub fn ordered(a: LineColumn, b: LineColumn) -> bool {
    a.line < b.line || a.line == b.line && a.column <= b.column
}
pub fn offset(source: &str, loc: LineColumn, bytes: bool) -> usize {
    let mut line = 1;
    let mut col = 0;
    let mut n = 0;
    for c in source.chars() {
        if line == loc.line && col == loc.column { break; }
        n += if bytes { c.len_utf8() } else { 1 };
        if c == '\n' { line += 1; col = 0; } else { col += 1; }
    }
    n
}
//@ byte_range k=4
pub fn byte_range__imp(x: &syn::Expr, source: &str) -> Range<usize> {
    let source = __vp::text(source);
    let span = Spanned::span(x);
    __vp::assume(within(source, span.start()));
    __vp::assume(within(source, span.end()));
    __vp::assume(ordered(span.start(), span.end()));
    SpannedExt::byte_range(x, source)
}
pub fn byte_range__spec(x: &syn::Expr, source: &str) -> Range<usize> {
    let source = __vp::text(source);
    let span = Spanned::span(x);
    offset(source, span.start(), true)..offset(source, span.end(), true)
}
//@ char_range k=4
pub fn char_range__imp(x: &syn::Expr, source: &str) -> Range<usize> {
    let source = __vp::text(source);
    let span = Spanned::span(x);
    __vp::assume(within(source, span.start()));
    __vp::assume(within(source, span.end()));
    __vp::assume(ordered(span.start(), span.end()));
    SpannedExt::char_range(x, source)
}
pub fn char_range__spec(x: &syn::Expr, source: &str) -> Range<usize> {
    let source = __vp::text(source);
    let span = Spanned::span(x);
    offset(source, span.start(), false)..offset(source, span.end(), false)
}
//@ substring k=3
pub fn substring__imp<'s>(x: &syn::Expr, source: &'s str) -> &'s str {
    let source = __vp::text(source);
    let span = Spanned::span(x);
    __vp::assume(within(source, span.start()));
    __vp::assume(within(source, span.end()));
    __vp::assume(ordered(span.start(), span.end()));
    SpannedExt::source_substring(x, source)
}
pub fn substring__spec<'s>(x: &syn::Expr, source: &'s str) -> &'s str {
    let source = __vp::text(source);
    let span = Spanned::span(x);
    &source[offset(source, span.start(), true)..offset(source, span.end(), true)]
}
//@ span_of
pub fn span_of__imp(x: &syn::Expr) -> Span {
    SpannedExt::span(x)
}
pub fn span_of__spec(x: &syn::Expr) -> Span {
    Spanned::span(x)
}
//@ shown
pub fn shown__imp(x: &syn::Expr, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&SpannedExt::format_span(x), f)
}
pub fn shown__spec(x: &syn::Expr, f: &mut Formatter<'_>) -> fmt::Result {
    let s = Spanned::span(x);
    write!(f, "{}:{}..{}:{}", s.start().line, s.start().column + 1, s.end().line, s.end().column)
}
//@ from_span
pub fn from_span__imp(s: Span, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&SpanDisplay::from(s), f)
}
pub fn from_span__spec(s: Span, f: &mut Formatter<'_>) -> fmt::Result {
    write!(f, "{}:{}..{}:{}", s.start().line, s.start().column + 1, s.end().line, s.end().column)
}
//@ display_fmt
pub fn display_fmt__imp(s: Span, f: &mut Formatter<'_>) -> fmt::Result {
    Display::fmt(&SpanDisplay::new(s), f)
}
pub fn display_fmt__spec(s: Span, f: &mut Formatter<'_>) -> fmt::Result {
    write!(f, "{}:{}..{}:{}", s.start().line, s.start().column + 1, s.end().line, s.end().column)
}
