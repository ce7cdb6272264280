"""Compile-pass and compile-fail witnesses for the derives (C05, C06)."""
import os
import random

from . import corpus, pairs
from .corpus import Def, Field, Variant

HEAD = "#![allow(warnings)]\n"


def compile_sections(T, rep, sections, tag, head=HEAD):
    """sections: [(name, source)].  Every section must type-check; returns {name: error}."""
    bad = {}
    T.build_derive()
    T.build_parsel()
    for attempt in range(8):
        body = head
        line = body.count("\n") + 1
        ranges = []
        for n, s in sections:
            if n in bad:
                continue
            s = s.rstrip("\n") + "\n"
            ranges.append((n, line, line + s.count("\n") - 1))
            body += s
            line += s.count("\n")
        f = os.path.join(T.dir, tag + ".rs")
        with open(f, "w") as fh:
            fh.write(body)
        ok, ds = T.compile(f, name=tag)
        if ok:
            return bad
        found = {}
        for d in ds:
            if d.get("level") != "error":
                continue
            for l in pairs.outer_lines(d, f):
                for n, a, b in ranges:
                    if a <= l <= b:
                        found.setdefault(n, pairs.diag_text(d))
        if not found:
            errs = [pairs.diag_text(d) for d in ds if d.get("level") == "error"]
            bad["crate"] = "; ".join(errs[:3])
            return bad
        bad.update(found)
    return bad


def failing_sections(T, sections, tag, head=HEAD):
    """sections that must be rejected: returns {name: (rejected, messages)}"""
    out = {}
    todo = list(sections)
    body = head
    line = body.count("\n") + 1
    ranges = []
    for n, s in todo:
        s = s.rstrip("\n") + "\n"
        ranges.append((n, line, line + s.count("\n") - 1))
        body += s
        line += s.count("\n")
    f = os.path.join(T.dir, tag + ".rs")
    with open(f, "w") as fh:
        fh.write(body)
    ok, ds = T.compile(f, name=tag)
    msgs = {}
    for d in ds:
        if d.get("level") == "error":
            for l in pairs.outer_lines(d, f):
                for n, a, b in ranges:
                    if a <= l <= b:
                        msgs.setdefault(n, []).append(pairs.diag_text(d))
    for n, s in todo:
        if n not in msgs:
            f = os.path.join(T.dir, "%s_one.rs" % tag)
            with open(f, "w") as fh:
                fh.write(head + s)
            ok, ds = T.compile(f, name="one")
            if not ok:
                msgs[n] = [pairs.diag_text(d) for d in ds if d.get("level") == "error"]
        out[n] = msgs.get(n, [])
    return out


ALL = ["::parsel::Parse", "::parsel::ToTokens", "::parsel::FromStr", "::parsel::Display"]
NEED = {"::parsel::Parse": "::parsel::Parse", "::parsel::ToTokens": "::parsel::ToTokens", "::parsel::FromStr": "::core::str::FromStr", "::parsel::Display": "::core::fmt::Display"}


def nonrec(d):
    out = []
    for v in d.variants:
        for f in v.fields:
            if "recursive" in f.attr and "false" not in f.attr:
                continue
            if f.ty not in out:
                out.append(f.ty)
    return out


def applies(d, trait, assume):
    """a function that needs `trait` of the type and may assume only the listed predicates"""
    w = ([d.where] if d.where else []) + assume
    return "fn applies_%s%s()%s { fn need<T: %s>() {} need::<%s>() }\n" % (
        trait.split("::")[-1].lower(), d.gen(), " where " + ", ".join(w) if w else "", NEED[trait], d.use())


def bound_section(d, derives=ALL):
    """the derived impls apply under exactly the user's where-clauses and the bounds of the non-recursive fields"""
    s = "mod m_%s {\n%s\n" % (d.ident, d.source(derives))
    for tr in ("::parsel::Parse", "::parsel::ToTokens"):
        if tr in derives:
            s += applies(d, tr, ["%s: %s" % (t, NEED[tr]) for t in nonrec(d)])
    if "::parsel::FromStr" in derives:
        s += applies(d, "::parsel::FromStr", ["%s: ::parsel::Parse" % d.use()])
    if "::parsel::Display" in derives:
        s += applies(d, "::parsel::Display", ["%s: ::parsel::ToTokens" % d.use()])
    return s + "}\n"


SUPPORT = """
pub type Same<T> = T;
pub trait Is { type It; }
impl<T> Is for T { type It = T; }
#[macro_export] macro_rules! same { ($t:ty) => { $t } }
    macro_rules! not_impl {
        ($t:ty, $($tr:tt)+) => {
            const _: fn() = || {
                trait Ambiguous<A> { fn some() {} }
                impl<T: ?Sized> Ambiguous<()> for T {}
                struct Invalid;
                impl<T: ?Sized + $($tr)+> Ambiguous<Invalid> for T {}
                let _ = <$t as Ambiguous<_>>::some;
            };
        }
    }
pub mod sup {
    use ::parsel::syn::parse::ParseStream;
    pub struct Neither;
    pub struct OnlyParse;
    pub struct OnlyPrint;
    impl ::parsel::Parse for OnlyParse { fn parse(_: ParseStream<'_>) -> ::parsel::Result<Self> { ::core::result::Result::Ok(OnlyParse) } }
    impl ::parsel::ToTokens for OnlyPrint { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
    // applies to every parameter
    pub struct Always<T: ?Sized>(pub ::core::marker::PhantomData<T>);
    impl<T: ?Sized> ::parsel::Parse for Always<T> { fn parse(_: ParseStream<'_>) -> ::parsel::Result<Self> { ::core::result::Result::Ok(Always(::core::marker::PhantomData)) } }
    impl<T: ?Sized> ::parsel::ToTokens for Always<T> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
    // applies to marked parameters only
    pub trait Marked {}
    pub struct If<T>(pub ::core::marker::PhantomData<T>);
    impl<T: Marked> ::parsel::Parse for If<T> { fn parse(_: ParseStream<'_>) -> ::parsel::Result<Self> { ::core::result::Result::Ok(If(::core::marker::PhantomData)) } }
    impl<T: Marked> ::parsel::ToTokens for If<T> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
    // borrows something
    pub struct Life<'a, T>(pub T, pub ::core::marker::PhantomData<&'a ()>);
    impl<'a, T: ::parsel::Parse> ::parsel::Parse for Life<'a, T> { fn parse(i: ParseStream<'_>) -> ::parsel::Result<Self> { ::core::result::Result::Ok(Life(i.parse()?, ::core::marker::PhantomData)) } }
    impl<'a, T: ::parsel::ToTokens> ::parsel::ToTokens for Life<'a, T> { fn to_tokens(&self, t: &mut ::parsel::TokenStream) { self.0.to_tokens(t) } }
    pub trait Family { type Member; }
    pub fn parses<T: ::parsel::Parse>() {}
    pub fn prints<T: ::parsel::ToTokens>() {}
    pub fn reads<T: ::core::str::FromStr<Err = ::parsel::Error>>() {}
    pub fn shows<T: ::core::fmt::Display>() {}
}
"""

D4 = "#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]"
DP = "#[derive(::parsel::Parse, ::parsel::FromStr)]"
DT = "#[derive(::parsel::ToTokens, ::parsel::Display)]"

# exact applicability, each next to the twin that must not apply
BOUNDS = {
    "param_not_bounded": D4 + """ pub struct S<A>(crate::sup::Always<A>);
        fn f<A>() { crate::sup::parses::<S<A>>(); crate::sup::prints::<S<A>>(); crate::sup::reads::<S<A>>(); crate::sup::shows::<S<A>>(); }
        fn g() { crate::sup::parses::<S<crate::sup::Neither>>(); crate::sup::prints::<S<crate::sup::Neither>>(); }""",
    "param_unsized_phantom": D4 + """ pub struct S<A: ?Sized>{ x: crate::sup::Always<A> } fn g() { crate::sup::parses::<S<str>>(); crate::sup::prints::<S<[u8]>>(); }""",
    "enum_param_not_bounded": D4 + """ pub enum S<A, B>{ X(crate::sup::Always<A>), Y { b: crate::sup::Always<B> }, Z }
        fn f<A, B>() { crate::sup::parses::<S<A, B>>(); crate::sup::prints::<S<A, B>>(); crate::sup::reads::<S<A, B>>(); crate::sup::shows::<S<A, B>>(); }""",
    "parse_only_parses": D4 + """ pub struct S<A>{ x: A } fn f() { crate::sup::parses::<S<crate::sup::OnlyParse>>(); crate::sup::reads::<S<crate::sup::OnlyParse>>(); }
        not_impl!(S<crate::sup::OnlyParse>, ::parsel::ToTokens); not_impl!(S<crate::sup::OnlyParse>, ::core::fmt::Display);""",
    "print_only_prints": D4 + """ pub struct S<A>{ x: A } fn f() { crate::sup::prints::<S<crate::sup::OnlyPrint>>(); crate::sup::shows::<S<crate::sup::OnlyPrint>>(); }
        not_impl!(S<crate::sup::OnlyPrint>, ::parsel::Parse); not_impl!(S<crate::sup::OnlyPrint>, ::core::str::FromStr);""",
    "neither": D4 + """ pub struct S<A>(A, ::parsel::ast::LitInt); not_impl!(S<crate::sup::Neither>, ::parsel::Parse); not_impl!(S<crate::sup::Neither>, ::parsel::ToTokens);
        not_impl!(S<crate::sup::Neither>, ::core::str::FromStr); not_impl!(S<crate::sup::Neither>, ::core::fmt::Display); fn f() { crate::sup::parses::<S<::parsel::ast::LitInt>>(); crate::sup::prints::<S<::parsel::ast::LitInt>>(); }""",
    "every_variant_counts": D4 + """ pub enum S<A, B, C>{ X(A), Y { b: B }, Z(::parsel::ast::LitInt, C) }
        fn f() { crate::sup::parses::<S<crate::sup::OnlyParse, crate::sup::OnlyParse, crate::sup::OnlyParse>>(); }
        not_impl!(S<crate::sup::OnlyPrint, crate::sup::OnlyParse, crate::sup::OnlyParse>, ::parsel::Parse);
        not_impl!(S<crate::sup::OnlyParse, crate::sup::OnlyPrint, crate::sup::OnlyParse>, ::parsel::Parse);
        not_impl!(S<crate::sup::OnlyParse, crate::sup::OnlyParse, crate::sup::OnlyPrint>, ::parsel::Parse);
        not_impl!(S<crate::sup::OnlyPrint, crate::sup::OnlyPrint, crate::sup::OnlyParse>, ::parsel::ToTokens);""",
    "field_type_not_param": D4 + """ pub struct S<A>(crate::sup::If<A>); fn f<A: crate::sup::Marked>() { crate::sup::parses::<S<A>>(); crate::sup::prints::<S<A>>(); crate::sup::reads::<S<A>>(); crate::sup::shows::<S<A>>(); }
        not_impl!(S<crate::sup::Neither>, ::parsel::Parse); not_impl!(S<::parsel::ast::LitInt>, ::parsel::Parse); not_impl!(S<::parsel::ast::LitInt>, ::core::fmt::Display);""",
    "not_static": D4 + """ pub struct S<'a, A>(crate::sup::Life<'a, A>); fn f<'a, A: ::parsel::Parse + ::parsel::ToTokens>() { crate::sup::parses::<S<'a, A>>(); crate::sup::prints::<S<'a, A>>(); crate::sup::reads::<S<'a, A>>(); crate::sup::shows::<S<'a, A>>(); }""",
    "user_where": D4 + """ pub struct S<A> where A: ::core::clone::Clone { x: A, y: ::std::boxed::Box<A> }
        fn f<A: ::core::clone::Clone + ::parsel::Parse>() { crate::sup::parses::<S<A>>(); crate::sup::reads::<S<A>>(); }
        fn g<A: ::core::clone::Clone + ::parsel::ToTokens>() { crate::sup::prints::<S<A>>(); crate::sup::shows::<S<A>>(); }""",
    "user_inline_bound": D4 + """ pub enum S<A: ::core::marker::Copy, const N: usize = 3> { X(A), Y(A, A) } fn f<A: ::core::marker::Copy + ::parsel::Parse, const N: usize>() { crate::sup::parses::<S<A, N>>(); crate::sup::reads::<S<A, N>>(); }""",
    "assoc_type": D4 + """ pub struct S<F: crate::sup::Family>{ m: F::Member, n: <F as crate::sup::Family>::Member } fn f<F: crate::sup::Family>() where F::Member: ::parsel::Parse { crate::sup::parses::<S<F>>(); crate::sup::reads::<S<F>>(); }
        fn g<F: crate::sup::Family>() where F::Member: ::parsel::ToTokens { crate::sup::prints::<S<F>>(); crate::sup::shows::<S<F>>(); }""",
    "recursive_word": D4 + """ pub struct S { a: ::parsel::ast::LitInt, #[parsel(recursive)] b: ::parsel::ast::Maybe<::parsel::ast::token::Comma, ::std::boxed::Box<S>> }
        fn f() { crate::sup::parses::<S>(); crate::sup::prints::<S>(); crate::sup::reads::<S>(); crate::sup::shows::<S>(); }""",
    "recursive_true": D4 + """ pub struct S (::parsel::ast::LitInt, #[parsel(recursive = true)] ::parsel::ast::Maybe<::parsel::ast::token::Comma, ::std::boxed::Box<S>>);
        fn f() { crate::sup::parses::<S>(); crate::sup::prints::<S>(); crate::sup::reads::<S>(); crate::sup::shows::<S>(); }""",
    "recursive_paren_true": D4 + """ pub struct S (::parsel::ast::LitInt, #[parsel(recursive(true))] ::parsel::ast::Maybe<::parsel::ast::token::Comma, ::std::boxed::Box<S>>);
        fn f() { crate::sup::parses::<S>(); crate::sup::prints::<S>(); crate::sup::reads::<S>(); crate::sup::shows::<S>(); }""",
    "recursive_enum_named": D4 + """ pub enum S { X { a: ::parsel::ast::LitInt, #[parsel(recursive)] b: ::parsel::ast::Paren<::std::boxed::Box<S>> }, Y(#[parsel(recursive)] ::parsel::ast::Bracket<::std::boxed::Box<S>>, ::parsel::ast::Ident), Z(::parsel::ast::LitInt) }
        fn f() { crate::sup::parses::<S>(); crate::sup::prints::<S>(); crate::sup::reads::<S>(); crate::sup::shows::<S>(); }""",
    "recursive_mutual": D4 + """ pub struct S { #[parsel(recursive)] t: ::std::vec::Vec<()> , }""".replace("::std::vec::Vec<()>", "::parsel::ast::Any<T>") + D4 + """ pub enum T { A(#[parsel(recursive)] ::parsel::ast::Paren<S>), B(::parsel::ast::LitInt) }
        fn f() { crate::sup::parses::<S>(); crate::sup::prints::<T>(); crate::sup::reads::<T>(); crate::sup::shows::<S>(); }""",
    "recursive_generic": D4 + """ pub enum S<A> { X(A, #[parsel(recursive)] ::parsel::ast::Paren<::std::boxed::Box<S<A>>>), Y(A) }
        fn f<A: ::parsel::Parse>() { crate::sup::parses::<S<A>>(); crate::sup::reads::<S<A>>(); } fn g<A: ::parsel::ToTokens>() { crate::sup::prints::<S<A>>(); crate::sup::shows::<S<A>>(); }""",
    "recursive_same_type_twice": D4 + """ pub struct S { #[parsel(recursive)] a: ::parsel::ast::Paren<::parsel::ast::Any<S>>, #[parsel(recursive = true)] b: ::parsel::ast::Paren<::parsel::ast::Any<S>>, c: ::parsel::ast::LitInt }
        fn f() { crate::sup::parses::<S>(); crate::sup::prints::<S>(); }""",
    "recursive_with_other_attrs": D4 + """ pub struct S { #[doc = "x"] #[parsel(recursive)] #[allow(dead_code)] a: ::parsel::ast::Paren<::parsel::ast::Any<S>>, /// doc
        c: ::parsel::ast::LitInt } fn f() { crate::sup::parses::<S>(); crate::sup::prints::<S>(); }""",
    "not_recursive_explicit": D4 + """ pub struct S<A> { #[parsel(recursive = false)] a: A, b: ::parsel::ast::LitInt } fn f<A: ::parsel::Parse>() { crate::sup::parses::<S<A>>(); }
        not_impl!(S<crate::sup::Neither>, ::parsel::Parse); not_impl!(S<crate::sup::OnlyParse>, ::parsel::ToTokens);""",
    "recursive_alone_keeps_others": D4 + """ pub enum S<A, B> { X(A), Y(#[parsel(recursive)] ::std::boxed::Box<S<A, B>>, B) }
        fn f() { crate::sup::parses::<S<crate::sup::OnlyParse, crate::sup::OnlyParse>>(); crate::sup::prints::<S<crate::sup::OnlyPrint, crate::sup::OnlyPrint>>(); }
        not_impl!(S<crate::sup::Neither, crate::sup::OnlyParse>, ::parsel::Parse); not_impl!(S<crate::sup::OnlyParse, crate::sup::Neither>, ::parsel::Parse);
        not_impl!(S<crate::sup::Neither, crate::sup::OnlyPrint>, ::parsel::ToTokens); not_impl!(S<crate::sup::OnlyPrint, crate::sup::Neither>, ::parsel::ToTokens);""",
    "recursive_bound_elsewhere": D4 + """ pub struct S<A> where crate::sup::If<A>: ::parsel::Parse + ::parsel::ToTokens { #[parsel(recursive)] a: crate::sup::If<A> }
        fn f<A>() where crate::sup::If<A>: ::parsel::Parse + ::parsel::ToTokens { crate::sup::parses::<S<A>>(); crate::sup::prints::<S<A>>(); }""",
    "manual_parse_fromstr": """#[derive(::parsel::FromStr)] pub struct S<A>(A); impl<A: crate::sup::Marked + ::parsel::Parse> ::parsel::Parse for S<A> { fn parse(i: ::parsel::syn::parse::ParseStream<'_>) -> ::parsel::Result<Self> { i.parse().map(S) } }
        fn f<A: crate::sup::Marked + ::parsel::Parse>() { crate::sup::reads::<S<A>>(); } not_impl!(S<::parsel::ast::LitInt>, ::core::str::FromStr);""",
    "manual_print_display": """#[derive(::parsel::Display)] pub enum S<A> { X(A), Y } impl<A: crate::sup::Marked> ::parsel::ToTokens for S<A> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
        fn f<A: crate::sup::Marked>() { crate::sup::shows::<S<A>>(); } not_impl!(S<::parsel::ast::LitInt>, ::core::fmt::Display);""",
    "reference_fields": DT + """ pub struct S<'a, 'b, A: ?Sized, B>(&'a A, &'b mut B); fn f<'a, 'b, A: 'a + ?Sized + ::parsel::ToTokens, B: 'b + ::parsel::ToTokens>() { crate::sup::prints::<S<'a, 'b, A, B>>(); crate::sup::shows::<S<'a, 'b, A, B>>(); }
        not_impl!(S<'static, 'static, crate::sup::Neither, ::parsel::ast::LitInt>, ::parsel::ToTokens); not_impl!(S<'static, 'static, ::parsel::ast::LitInt, crate::sup::Neither>, ::parsel::ToTokens);""",
    "reference_enum": DT + """ pub enum S<'a, A> { X(&'a A), Y { y: &'a &'a A } } fn f<'a, A: 'a + ::parsel::ToTokens>() { crate::sup::prints::<S<'a, A>>(); crate::sup::shows::<S<'a, A>>(); }
        not_impl!(S<'static, crate::sup::Neither>, ::parsel::ToTokens);""",
    "qualified_only": D4 + """ pub struct S<F: crate::sup::Family>{ n: <F as crate::sup::Family>::Member } fn f<F: crate::sup::Family>() where F::Member: ::parsel::Parse { crate::sup::parses::<S<F>>(); crate::sup::reads::<S<F>>(); }
        fn g<F: crate::sup::Family>() where F::Member: ::parsel::ToTokens { crate::sup::prints::<S<F>>(); crate::sup::shows::<S<F>>(); }""",
    "projection_only": D4 + """ pub enum S<F: crate::sup::Family>{ X(F::Member), Y } fn f<F: crate::sup::Family>() where F::Member: ::parsel::Parse { crate::sup::parses::<S<F>>(); crate::sup::reads::<S<F>>(); }
        fn g<F: crate::sup::Family>() where F::Member: ::parsel::ToTokens { crate::sup::prints::<S<F>>(); crate::sup::shows::<S<F>>(); }""",
    "parenthesised_types": D4 + """ pub struct S<A, B>((A), ::std::boxed::Box<(B)>); fn f<A: ::parsel::Parse, B: ::parsel::Parse>() { crate::sup::parses::<S<A, B>>(); }
        not_impl!(S<crate::sup::Neither, ::parsel::ast::LitInt>, ::parsel::Parse); not_impl!(S<::parsel::ast::LitInt, crate::sup::Neither>, ::parsel::ToTokens);""",
    "type_macros": """macro_rules! id { ($t:ty) => { $t } } """ + D4 + """ pub struct S<A, B>(id!(A), id![::std::boxed::Box<B>]); fn f<A: ::parsel::Parse, B: ::parsel::Parse>() { crate::sup::parses::<S<A, B>>(); }
        fn g<A: ::parsel::ToTokens, B: ::parsel::ToTokens>() { crate::sup::prints::<S<A, B>>(); } not_impl!(S<crate::sup::Neither, ::parsel::ast::LitInt>, ::parsel::Parse);""",
    "type_fragments": """macro_rules! mk { ($n:ident, $p:ident, $t:ty, $u:ty) => { """ + D4 + """ pub struct $n<$p> { a: $t, b: $u, c: ::std::boxed::Box<$t> } } } mk!(S, A, A, ::parsel::ast::Paren<A>);
        fn f<A: ::parsel::Parse>() { crate::sup::parses::<S<A>>(); crate::sup::reads::<S<A>>(); } fn g<A: ::parsel::ToTokens>() { crate::sup::prints::<S<A>>(); } not_impl!(S<crate::sup::Neither>, ::parsel::Parse);""",
    "types_differing_in_arguments": D4 + """ pub struct S<A, B>(::std::boxed::Box<A>, ::std::boxed::Box<B>, ::parsel::ast::Either<A, B>, ::parsel::ast::Either<B, A>);
        not_impl!(S<crate::sup::Neither, ::parsel::ast::LitInt>, ::parsel::Parse); not_impl!(S<::parsel::ast::LitInt, crate::sup::Neither>, ::parsel::Parse);""",
    "same_name_types": """mod p { pub type T<A> = crate::sup::If<A>; } mod q { pub type T<A> = crate::sup::Always<A>; } """ + D4 + """ pub struct S<A, B>(q::T<A>, p::T<B>);
        fn f<A, B: crate::sup::Marked>() { crate::sup::parses::<S<A, B>>(); crate::sup::prints::<S<A, B>>(); } not_impl!(S<crate::sup::Neither, crate::sup::Neither>, ::parsel::Parse);""",
    "higher_ranked_where": D4 + """ pub struct S<A>(A) where for<'x> &'x A: ::parsel::ToTokens; fn f<A: ::parsel::Parse>() where for<'x> &'x A: ::parsel::ToTokens { crate::sup::parses::<S<A>>(); crate::sup::reads::<S<A>>(); }""",
    "many_predicates": D4 + """ pub struct S<A, B> where A: ::core::fmt::Debug, B: ::core::clone::Clone, A: ::core::marker::Send, B: ::core::marker::Sync, A: ::core::cmp::Eq { x: A, y: B }
        fn f<A: ::parsel::Parse, B: ::parsel::Parse>() where A: ::core::fmt::Debug, B: ::core::clone::Clone, A: ::core::marker::Send, B: ::core::marker::Sync, A: ::core::cmp::Eq { crate::sup::parses::<S<A, B>>(); crate::sup::reads::<S<A, B>>(); }
        fn g<A: ::parsel::ToTokens, B: ::parsel::ToTokens>() where A: ::core::fmt::Debug, B: ::core::clone::Clone, A: ::core::marker::Send, B: ::core::marker::Sync, A: ::core::cmp::Eq { crate::sup::prints::<S<A, B>>(); crate::sup::shows::<S<A, B>>(); }""",
    "trailing_predicate_comma": D4 + """ pub struct S<A> where A: ::core::clone::Clone, { x: A }
        fn f<A: ::core::clone::Clone + ::parsel::Parse>() { crate::sup::parses::<S<A>>(); crate::sup::reads::<S<A>>(); }
        fn g<A: ::core::clone::Clone + ::parsel::ToTokens>() { crate::sup::prints::<S<A>>(); crate::sup::shows::<S<A>>(); }""",
    "many_inline_bounds": D4 + """ pub enum S<'a, 'b: 'a, A: ::core::fmt::Debug + ::core::clone::Clone + 'a, B: 'b + ::core::marker::Send + ::core::cmp::Eq> { X(A, crate::sup::Life<'a, ::parsel::ast::LitInt>), Y(B, crate::sup::Always<&'b ()>) }
        fn f<'a, 'b: 'a, A: ::parsel::Parse + ::core::fmt::Debug + ::core::clone::Clone + 'a, B: ::parsel::Parse + 'b + ::core::marker::Send + ::core::cmp::Eq>() { crate::sup::parses::<S<'a, 'b, A, B>>(); crate::sup::reads::<S<'a, 'b, A, B>>(); }""",
    "decorated_fields": D4 + """ pub struct S<A, B, C>{ /** d */ #[allow(dead_code)] a: A, #[doc(hidden)] #[allow(dead_code)] #[cfg(all())] pub b: B, #[deprecated] #[doc = "x"] #[parsel(recursive = false)] c: C }
        not_impl!(S<crate::sup::Neither, crate::sup::OnlyParse, crate::sup::OnlyParse>, ::parsel::Parse); not_impl!(S<crate::sup::OnlyParse, crate::sup::Neither, crate::sup::OnlyParse>, ::parsel::Parse);
        not_impl!(S<crate::sup::OnlyParse, crate::sup::OnlyParse, crate::sup::Neither>, ::parsel::Parse);
        not_impl!(S<crate::sup::Neither, crate::sup::OnlyPrint, crate::sup::OnlyPrint>, ::parsel::ToTokens); not_impl!(S<crate::sup::OnlyPrint, crate::sup::Neither, crate::sup::OnlyPrint>, ::parsel::ToTokens);
        not_impl!(S<crate::sup::OnlyPrint, crate::sup::OnlyPrint, crate::sup::Neither>, ::parsel::ToTokens);""",
    "decorated_variants": D4 + """ pub enum S<A, B, C>{ /** d */ #[allow(dead_code)] X(/** d */ #[allow(dead_code)] A), #[doc(hidden)] #[cfg(all())] Y { #[doc(hidden)] #[deprecated] b: B }, #[deprecated] Z(#[doc = "x"] #[allow(dead_code)] C) }
        not_impl!(S<crate::sup::Neither, crate::sup::OnlyParse, crate::sup::OnlyParse>, ::parsel::Parse); not_impl!(S<crate::sup::OnlyParse, crate::sup::Neither, crate::sup::OnlyParse>, ::parsel::Parse);
        not_impl!(S<crate::sup::OnlyParse, crate::sup::OnlyParse, crate::sup::Neither>, ::parsel::Parse);
        not_impl!(S<crate::sup::Neither, crate::sup::OnlyPrint, crate::sup::OnlyPrint>, ::parsel::ToTokens); not_impl!(S<crate::sup::OnlyPrint, crate::sup::Neither, crate::sup::OnlyPrint>, ::parsel::ToTokens);
        not_impl!(S<crate::sup::OnlyPrint, crate::sup::OnlyPrint, crate::sup::Neither>, ::parsel::ToTokens);""",
    "unsized_tail_prints": """#[derive(::parsel::ToTokens)] pub struct S<A, B: ?Sized> { a: A, b: B } fn need<T: ?Sized + ::parsel::ToTokens>() {} fn g() { need::<S<::parsel::ast::LitInt, str>>(); }""",
    "derive_separately": DP + """ pub struct S<A>(A); """ + DT + """ pub struct U<A>(A); fn f() { crate::sup::parses::<S<crate::sup::OnlyParse>>(); crate::sup::prints::<U<crate::sup::OnlyPrint>>(); } not_impl!(S<crate::sup::OnlyPrint>, ::parsel::Parse); not_impl!(U<crate::sup::OnlyParse>, ::parsel::ToTokens);
        not_impl!(S<::parsel::ast::LitInt>, ::parsel::ToTokens); not_impl!(U<::parsel::ast::LitInt>, ::parsel::Parse);""",
}

LI = "::parsel::ast::LitInt"
ID = "::parsel::ast::Ident"
PRINT = "fn uses() { crate::sup::parses::<S>(); crate::sup::prints::<S>(); crate::sup::reads::<S>(); crate::sup::shows::<S>(); }"

PASSES = {
    "empty_named": D4 + " pub struct S {} " + PRINT,
    "empty_tuple": D4 + " pub struct S(); " + PRINT,
    "unit": D4 + " pub struct S; " + PRINT,
    "empty_enum": D4 + " pub enum S {} " + PRINT,
    "empty_variants": D4 + " pub enum S { A {}, B(), C } " + PRINT,
    "discriminants": D4 + " #[repr(u8)] pub enum S { A = 1, B = 5, C } " + PRINT,
    "named_tokens": D4 + " pub enum S { A { tokens: %s, input: %s }, B { error: %s, result: %s, err: %s }, C { ast_node: %s, cause: %s, self_: %s } } " % ((LI,) * 8) + PRINT,
    "tuple_after_named": D4 + " pub enum S { A { tokens: %s }, B(%s, %s, %s) } " % ((LI,) * 4) + PRINT,
    "struct_tokens": D4 + " pub struct S { tokens: %s, input: %s, error: %s, result: %s, formatter: %s, string: %s } " % ((LI,) * 6) + PRINT,
    "raw_idents": D4 + " pub struct r#type { r#fn: %s, r#match: %s } " % (LI, LI) + D4 + " pub enum S { r#struct(%s), r#enum { r#let: %s, r#impl: %s }, r#mod } " % (LI, LI, LI) + PRINT,
    "unicode_names": D4 + " pub struct Größe { länge: %s } " % LI + D4 + " pub enum S { Ärger(%s), Übung { ñ: %s } } " % (LI, LI) + PRINT,
    "shadowed_prelude": """pub struct Option; pub struct Result; pub struct Ok; pub struct Err; pub struct Some; pub struct None; pub struct Vec; pub struct Box; pub struct String; pub struct Into; pub struct From; pub struct Default; pub struct Iterator;
        pub trait Clone {} pub trait Copy {} pub trait Sized_ {} pub trait Fn {} pub trait FnOnce {} pub trait FnMut {} pub trait ToString {} pub trait ToOwned {} pub trait AsRef {} fn drop() {} pub struct Parse; pub struct ToTokens; pub struct FromStr; pub struct Display; pub struct Error; pub struct Ident; pub struct TokenStream; pub struct Formatter; pub struct Self_; type str_ = (); """
        + D4 + " pub struct N<A> { a: A, b: %s } " % LI + D4 + " pub enum S { A(%s), B { tokens: %s }, C } " % (LI, LI) + PRINT,
    "shadowed_primitives": "pub struct str; pub struct bool; pub struct usize; pub struct u8; pub struct char; " + D4 + " pub struct N { a: %s } " % LI + D4 + " pub enum S { A(%s), B { b: %s } } " % (LI, LI) + PRINT,
    "shadowed_crates": "pub mod parsel {} pub mod core {} pub mod std {} pub mod syn {} pub mod quote {} pub mod proc_macro2 {} pub mod alloc {} " + D4 + " pub struct N { a: %s } " % LI + D4 + " pub enum S { A(%s), B { b: %s } } " % (LI, LI) + PRINT,
    "shadowed_macros": "macro_rules! assert { () => {} } macro_rules! assert_eq { () => {} } macro_rules! assert_ne { () => {} } macro_rules! cfg { () => {} } macro_rules! column { () => {} } macro_rules! compile_error { () => {} } macro_rules! concat { () => {} } macro_rules! dbg { () => {} } macro_rules! debug_assert { () => {} } macro_rules! debug_assert_eq { () => {} } macro_rules! debug_assert_ne { () => {} } macro_rules! env { () => {} } macro_rules! eprint { () => {} } macro_rules! eprintln { () => {} } macro_rules! file { () => {} } macro_rules! format_args { () => {} } macro_rules! include { () => {} } macro_rules! include_bytes { () => {} } macro_rules! include_str { () => {} } macro_rules! line { () => {} } macro_rules! module_path { () => {} } macro_rules! option_env { () => {} } macro_rules! print { () => {} } macro_rules! println { () => {} } macro_rules! stringify { () => {} } macro_rules! thread_local { () => {} } macro_rules! todo { () => {} } macro_rules! unimplemented { () => {} } macro_rules! unreachable { () => {} } macro_rules! writeln { () => {} } macro_rules! quote_spanned { () => {} } macro_rules! parse_quote { () => {} } macro_rules! parse_quote_spanned { () => {} } macro_rules! try_parse_quote { () => {} } macro_rules! define_keywords { () => {} } macro_rules! format { () => {} } macro_rules! vec { () => {} } macro_rules! panic { () => {} } macro_rules! write { () => {} } macro_rules! matches { () => {} } macro_rules! quote { () => {} } "
                       + D4 + " pub struct N { a: %s } " % LI + D4 + " pub enum S { A(%s), B { b: %s } } " % (LI, LI) + PRINT,
    "evil_traits": """pub trait Evil { fn parse(&self) {} fn map_err(&self) {} fn to_tokens(&self) {} fn unwrap_or_else(&self) {} fn error(&self) {} fn fork(&self) {} fn advance_to(&self) {} fn span(&self) {} fn into(&self) {} fn fmt(&self) {} fn from_str(&self) {} fn to_string(&self) {} }
        impl<T: ?Sized> Evil for T {} """ + D4 + " pub struct N { a: %s } " % LI + D4 + " pub enum S { A(%s), B { b: %s } } " % (LI, LI) + PRINT,
    "evil_functions": "fn input() {} fn error() {} fn result() {} fn tokens() {} fn err() {} fn cause() {} fn ast_node() {} fn formatter() {} fn string() {} fn chain_error() {} fn try_parse_variant() {} fn parse_str() {} fn format_ast_node() {} "
                      + D4 + " pub struct N { a: %s } " % LI + D4 + " pub enum S { A(%s), B { b: %s } } " % (LI, LI) + PRINT,
    "evil_types": "type input = (); type error = (); type result = (); type tokens = (); type err = (); type cause = (); type ast_node = (); type formatter = (); type string = (); mod parse {} mod util {} "
                  + D4 + " pub struct N { a: %s } " % LI + D4 + " pub enum S { A(%s), B { b: %s } } " % (LI, LI) + PRINT,
    "inherent_methods": D4 + " pub enum S { A(%s), B { b: %s } } impl S { fn parse() {} fn to_tokens() {} fn fmt() {} fn from_str() {} fn span() {} fn into_token_stream() {} } " % (LI, LI) + PRINT,
    "generic_names": D4 + " pub struct N<Parse, ToTokens, Result, Self_, F, T, E, Error>(Parse, ToTokens, Result, Self_, F, T, E, Error); " + D4 + " pub enum M<T, F, Ok, Err> { A(T, F), B { o: Ok }, C(Err) } pub struct S; impl ::parsel::Parse for S { fn parse(_: ::parsel::syn::parse::ParseStream<'_>) -> ::parsel::Result<S> { ::core::result::Result::Ok(S) } } fn f() { crate::sup::parses::<M<S, S, S, S>>(); crate::sup::parses::<N<S, S, S, S, S, S, S, S>>(); }",
    "type_like_variant": D4 + " pub enum S { S(%s), Tree { s: %s } } " % (LI, LI) + PRINT,
    "variant_like_prelude": D4 + " pub enum S { Ok(%s), Err { e: %s }, Some(%s), None } " % (LI, LI, ID) + PRINT,
    "glob_variants": D4 + " pub enum S { Ok(%s), Err(%s), Some(%s), None } pub use self::S::*; " % (LI, ID, LI) + D4 + " pub enum T { X(%s), Y } " % LI + D4 + " pub struct U { x: %s } " % LI + PRINT,
    "own_result_alias": "type Result<T> = ::core::result::Result<T, ()>; type Error = (); type Option<T> = ::core::result::Result<T, ()>; " + D4 + " pub enum S { A(%s), B } " % LI + PRINT,
    "lifetimes": D4 + " pub struct N<'a, A>(crate::sup::Life<'a, A>, crate::sup::Life<'a, ::std::boxed::Box<A>>); " + D4 + " pub enum S<'a> { X(crate::sup::Life<'a, %s>), Y { y: crate::sup::Life<'a, %s> } } fn f<'a>() { crate::sup::parses::<S<'a>>(); crate::sup::prints::<S<'a>>(); crate::sup::parses::<N<'a, %s>>(); }" % (LI, ID, LI),
    "two_lifetimes": D4 + " pub struct S<'a, 'b, A>(crate::sup::Life<'a, A>, crate::sup::Life<'b, A>);",
    "const_generics": D4 + " pub struct N<const K: usize, A, const B: bool>(A, A); " + D4 + " pub enum S<const K: char> { X(%s), Y } fn f() { crate::sup::parses::<S<'x'>>(); crate::sup::prints::<N<3, %s, true>>(); }" % (LI, LI),
    "default_params": D4 + " pub struct N<A = %s, const K: usize = 4>(A); fn f() { crate::sup::parses::<N>(); crate::sup::prints::<N>(); crate::sup::reads::<N>(); crate::sup::shows::<N>(); }" % LI,
    "where_trailing_comma": D4 + " pub struct N<A>(A) where A: ::core::fmt::Debug,; ".replace(",;", ", ;") + D4 + " pub enum M<A> where A: ::core::fmt::Debug, for<'x> &'x A: ::core::marker::Sized { X(A), Y } fn f() { crate::sup::parses::<N<%s>>(); crate::sup::parses::<M<%s>>(); crate::sup::reads::<M<%s>>(); }" % (LI, LI, LI),
    "where_empty": D4 + " pub struct N<A>(A) where ; " + D4 + " pub enum M<A> where { X(A), Y } fn f() { crate::sup::parses::<N<%s>>(); crate::sup::prints::<M<%s>>(); crate::sup::reads::<M<%s>>(); }" % (LI, LI, LI),
    "visibilities": D4 + " pub(crate) struct N { pub a: %s, pub(crate) b: %s, pub(super) c: %s, d: %s } " % ((LI,) * 4) + D4 + " enum S { A(%s) } fn f() { crate::sup::parses::<N>(); crate::sup::parses::<S>(); crate::sup::prints::<S>(); }" % LI,
    "attributes": "/// doc\n" + D4 + " #[allow(dead_code)] #[doc(hidden)] pub enum S { /// doc\n A(/** doc */ %s), #[doc(hidden)] B { #[allow(dead_code)] b: %s }, #[cfg(all())] C, #[cfg(any())] D(Missing) } " % (LI, LI) + PRINT,
    "cfg_fields": D4 + " pub struct S { a: %s, #[cfg(any())] b: Missing, #[cfg(all())] c: %s } " % (LI, LI) + PRINT,
    "in_function": "pub fn f() { " + D4 + " pub struct S { a: %s } " % LI + D4 + " enum T { X(%s), Y { tokens: %s } } crate::sup::parses::<S>(); crate::sup::prints::<T>(); crate::sup::reads::<T>(); crate::sup::shows::<S>(); }" % (LI, LI),
    "from_macro": "macro_rules! mk { ($n:ident, $t:ty, $v:ident, $f:ident) => { " + D4 + " pub struct $n { $f: $t, other: $t } " + D4 + " pub enum S { $v($t), W { $f: $t, tokens: $t }, X } } } mk!(N, %s, Vv, input); " % LI + PRINT,
    "from_macro_hygiene": "macro_rules! mk2 { () => { " + D4 + " pub struct N { input: %s, tokens: %s } " % (LI, LI) + D4 + " pub enum S { A { input: %s, tokens: %s, error: %s }, B(%s) } } } mk2!(); " % ((LI,) * 4) + PRINT,
    "token_macro_types": D4 + " pub struct S { a: ::parsel::ast::Token![,], b: ::core::option::Option<::parsel::ast::Token![;]>, c: ::parsel::ast::Punctuated<%s, ::parsel::ast::Token![+]> } fn f() { crate::sup::parses::<S>(); crate::sup::prints::<S>(); }" % LI,
    "wrapped_types": D4 + " pub struct S { a: ::std::boxed::Box<%s>, b: (::parsel::ast::Paren<%s>), c: ::parsel::ast::Either<%s, %s>, d: ::parsel::ast::Any<%s> } " % (LI, LI, LI, ID, LI) + PRINT,
    "self_type": D4 + " pub enum S { Leaf(%s), Node(#[parsel(recursive)] ::parsel::ast::Paren<::std::boxed::Box<Self>>) } " % LI + PRINT,
    "repeated_type": D4 + " pub struct N<A>(A, A, A, ::std::boxed::Box<A>, ::std::boxed::Box<A>); " + D4 + " pub enum S { A(%s, %s), B { a: %s, b: %s }, C(%s) } " % ((LI,) * 5) + PRINT,
    "derive_one_each": "#[derive(::parsel::Parse)] pub struct A(%s); #[derive(::parsel::ToTokens)] pub struct B(%s); #[derive(::parsel::Parse, ::parsel::FromStr)] pub struct C(%s); #[derive(::parsel::ToTokens, ::parsel::Display)] pub struct D(%s); fn f() { crate::sup::parses::<A>(); crate::sup::prints::<B>(); crate::sup::reads::<C>(); crate::sup::shows::<D>(); }" % ((LI,) * 4),
    "imported_derives": "use ::parsel::{Parse, ToTokens, FromStr, Display}; #[derive(Parse, ToTokens, FromStr, Display, PartialEq, Eq, Hash, Clone, Debug)] pub struct S { a: %s } " % LI + PRINT,
    "glob_import_everything": "use ::parsel::*; use ::parsel::ast::*; use ::parsel::util::*; use ::parsel::syn::*; #[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)] pub enum S { A(%s), B { tokens: %s } } " % (LI, LI) + PRINT,
    "attr_spellings": D4 + " pub struct S { #[parsel(recursive = false)] a: %s, #[parsel(recursive(false))] b: %s, #[parsel()] c: %s, #[parsel(recursive = true)] d: ::parsel::ast::Paren<::parsel::ast::Any<S>>, #[parsel(recursive,)] e: ::parsel::ast::Any<S> } " % ((LI,) * 3) + PRINT,
}

FAILS = {
    "union_parse": "#[derive(::parsel::Parse)] pub union S { a: u8, b: u8 }",
    "union_print": "#[derive(::parsel::ToTokens)] pub union S { a: u8, b: u8 }",
}
for _d, _n in (("::parsel::Parse", "parse"), ("::parsel::ToTokens", "print")):
    for _k, _a in (("unknown", "#[parsel(unknown)]"), ("misspelt", "#[parsel(recursiv)]"), ("not_bool", "#[parsel(recursive = 3)]"), ("text", "#[parsel(recursive = \"yes\")]"),
                   ("namevalue", "#[parsel = true]"), ("twice", "#[parsel(recursive, recursive)]"), ("extra", "#[parsel(recursive, other)]"), ("literal", "#[parsel(\"recursive\")]"),
                   ("novalue", "#[parsel(recursive = )]"), ("nested", "#[parsel(recursive(maybe))]"), ("capital", "#[parsel(Recursive)]")):
        FAILS["%s_%s_named" % (_k, _n)] = "#[derive(%s)] pub struct S { a: %s, %s b: %s }" % (_d, LI, _a, LI)
        FAILS["%s_%s_tuple" % (_k, _n)] = "#[derive(%s)] pub struct S(%s %s, %s);" % (_d, _a, LI, LI)
        FAILS["%s_%s_variant" % (_k, _n)] = "#[derive(%s)] pub enum S { A(%s), B { b: %s, %s c: %s }, D }" % (_d, LI, LI, _a, LI)
        FAILS["%s_%s_variant_tuple" % (_k, _n)] = "#[derive(%s)] pub enum S { A(%s), B(%s, %s %s), D }" % (_d, LI, LI, _a, LI)


def wide(n):
    """definitions with many fields or variants, each with a parameter of its own: every one counts, and the marked one does not"""
    out = {}
    ps = ["P%d" % i for i in range(n)]
    gen = ", ".join(ps)
    typ = lambda i, bad, good: "S<%s>" % ", ".join("crate::sup::%s" % (bad if j == i else good) for j in range(n))
    named = lambda mark: ", ".join(("#[parsel(recursive)] " if i == mark else "") + "f%d: %s" % (i, p) for i, p in enumerate(ps))
    plain = lambda mark: ", ".join(("#[parsel(recursive)] " if i == mark else "") + p for i, p in enumerate(ps))
    shapes = {
        "struct_named": lambda m: "pub struct S<%s> { %s }" % (gen, named(m)),
        "struct_tuple": lambda m: "pub struct S<%s>(%s);" % (gen, plain(m)),
        "enum_named": lambda m: "pub enum S<%s> { A, B { %s } }" % (gen, named(m)),
        "enum_tuple": lambda m: "pub enum S<%s> { A, B(%s) }" % (gen, plain(m)),
        "enum_variants": lambda m: "pub enum S<%s> { %s }" % (gen, ", ".join(
            ("V%d(%s%s)" if i % 2 else "V%d { %sx: %s }") % (i, "#[parsel(recursive)] " if i == m else "", p) for i, p in enumerate(ps))),
    }
    for k, f in shapes.items():
        t = D4 + f(None)
        t += " fn p<%s>() { crate::sup::parses::<S<%s>>(); crate::sup::reads::<S<%s>>(); }" % (", ".join(p + ": ::parsel::Parse" for p in ps), gen, gen)
        t += " fn q<%s>() { crate::sup::prints::<S<%s>>(); crate::sup::shows::<S<%s>>(); }" % (", ".join(p + ": ::parsel::ToTokens" for p in ps), gen, gen)
        for i in range(n):
            t += "\n not_impl!(%s, ::parsel::Parse); not_impl!(%s, ::parsel::ToTokens);" % (typ(i, "OnlyPrint", "OnlyParse"), typ(i, "OnlyParse", "OnlyPrint"))
        out["wide_%s_%d" % (k, n)] = t
    # a marked field adds nothing wherever it stands; its own bound comes from the user here
    for k, f in shapes.items():
        for m in sorted({0, n // 2, n - 1}):
            w = f(m)
            wh = " where P%d: ::parsel::Parse + ::parsel::ToTokens" % m
            w = w[:-1] + wh + ";" if w.endswith(";") else w.replace("> {", ">" + wh + " {", 1)
            out["wide_%s_%d_marked_%d" % (k, n, m)] = D4 + w + " fn p<%s>() { crate::sup::parses::<S<%s>>(); crate::sup::reads::<S<%s>>(); crate::sup::prints::<S<%s>>(); crate::sup::shows::<S<%s>>(); }" % (
                (", ".join(p + ": ::parsel::Parse + ::parsel::ToTokens" for p in ps),) + (gen,) * 4)
    return out


def wrap(n, s):
    return (n, "pub mod w_%s { %s }" % (n, s.replace("\n", "\n")))
