"""Keyword lists to expand with the current `define_keywords!`, with references written from the property."""
import random

LISTS = [
    ("rust", "", [("fn", "Fn"), ("self", "SelfKw"), ("Self", "SelfTy"), ("struct", "Struct"), ("async", "Async"), ("true", "True"), ("foo", "Foo")], "Underscore"),
    ("empty", "pub", [], None),
    ("bare", "pub(crate)", [], "Under"),
    ("one", "pub(self)", [("select", "Select")], None),
    ("prefixes", "pub", [("ab", "Ab"), ("a", "A"), ("abc", "Abc"), ("A", "UpperA"), ("_a", "UnderA"), ("a_", "AUnder")], None),
    ("unsorted", "pub", [("zeta", "Zeta"), ("alpha", "Alpha"), ("mid", "Mid"), ("beta", "Beta"), ("omega", "Omega"), ("gamma", "Gamma")], "U"),
    ("raw", "pub", [("r#fn", "RawFn"), ("r", "R"), ("r#type", "RawType"), ("fn", "Fn")], None),
    ("case", "pub", [("Select", "Select"), ("SELECT", "SELECT"), ("select", "lower")], "Wild"),
    ("unicode", "pub", [("grün", "Green"), ("日本", "Japan"), ("été", "Ete")], None),
    ("names", "pub", [("str", "Str"), ("string", "String"), ("option", "Option"), ("result", "Result"), ("ok", "Ok"), ("err", "Err"), ("span", "Span"), ("ident", "Ident"), ("error", "Error"), ("default", "Default")], None),
]


def lists(seed, tier):
    out = list(LISTS)
    r = random.Random(seed)
    for i in range(2 if tier == "quick" else 12):
        words = []
        while len(words) < r.choice((1, 3, 9, 17)):
            w = "".join(r.choice("abcdefgxyz_AZ09") for _ in range(r.randint(1, 9)))
            if w[0].isdigit() or w == "_" or w in words:
                continue
            words.append(w)
        out.append(("rand%d" % i, "pub", [(w, "K%d" % j) for j, w in enumerate(words)], "Last" if r.random() < .5 else None))
    return out


def source(name, vis, words, under):
    m = "kw_" + name
    return "    ::parsel::define_keywords!{ %s mod %s { %s %s } }\n" % (vis, m, " ".join("%s => %s;" % w for w in words), "_ => %s;" % under if under else "")


def section(name, vis, words, under):
    m = "kw_" + name
    src = source(name, vis, words, under)
    allw = list(words) + ([("_", under)] if under else [])
    ident = lambda w: "Ident::new_raw(\"%s\", s)" % w[2:] if w.startswith("r#") else "Ident::new(\"%s\", s)" % w
    out = ""
    n = len(allw)
    out += "//@ %s_list err=span\n" % m + src
    out += "pub fn %s_list__imp() -> (usize%s) {\n    let l = <%s::Keywords as KeywordList>::KEYWORDS;\n    (l.len()%s)\n}\n" % (
        m, ", &'static str" * n + "," * (n == 0), m, "".join(", l[%d]" % i for i in range(n)) + "," * (n == 0))
    out += "pub fn %s_list__spec() -> (usize%s) {\n    (%d%s)\n}\n" % (m, ", &'static str" * n + "," * (n == 0), n, "".join(", \"%s\"" % w for w, _ in allw) + "," * (n == 0))
    # the custom identifiers of that list
    out += "//@ %s_custom err=span k=%d\n" % (m, n + 2)
    out += "pub fn %s_custom__imp(input: ParseStream<'_>) -> Result<Ident> {\n    <CustomIdent<%s::Keywords> as Parse>::parse(input).map(|c| c.token())\n}\n" % (m, m)
    out += "pub fn %s_custom__spec(input: ParseStream<'_>) -> Result<Ident> {\n    let word = match <Ident as IdentExt>::parse_any(input) { Ok(w) => w, Err(e) => return Err(e) };\n%s    Ok(word)\n}\n" % (
        m, "".join("    if word == \"%s\" { return Err(Error::new(word.span(), \"\")); }\n" % w for w, _ in allw))
    for w, t in allw:
        ty = "%s::%s" % (m, t)
        b = "%s_%s" % (m, t.lower() if t.lower() not in [x[1].lower() for x in allw if x[1] != t] else "up_" + t)
        out += "//@ %s_parse err=words\n" % b
        out += "pub fn %s_parse__imp(input: ParseStream<'_>) -> Result<(Span, Ident)> {\n    <%s as Parse>::parse(input).map(|k| (k.span(), k.token()))\n}\n" % (b, ty)
        out += ("pub fn %s_parse__spec(input: ParseStream<'_>) -> Result<(Span, Ident)> {\n    let word = match <Ident as IdentExt>::parse_any(input) { Ok(w) => w, Err(e) => return Err(e) };\n"
                "    let s = word.span();\n    if word == \"%s\" { Ok((s, %s)) } else { Err(Error::new(s, \"expected %s\")) }\n}\n" % (b, w, ident(w), w if w.isascii() and w != "_" else ""))
        out += "//@ %s_text opaque=witness::%s\n" % (b, ty)
        out += "pub fn %s_text__imp(s: &str) -> Result<%s> {\n    <%s as FromStr>::from_str(s)\n}\n" % (b, ty, ty)
        out += "pub fn %s_text__spec(s: &str) -> Result<%s> {\n    let all = <TokenStream as FromStr>::from_str(s)?;\n    syn::parse2::<%s>(all)\n}\n" % (b, ty, ty)
        out += "//@ %s_value\n" % b
        out += ("pub fn %s_value__imp(s: Span, r: Span) -> (&'static str, String, Span, Ident, Ident, TokenTree, Span, Ident, Ident) {\n"
                "    let mut k = <%s>::new(s);\n    let name = k.as_str();\n    let other = AsRef::<str>::as_ref(&k).to_owned();\n    let span = k.span();\n    let t = k.token();\n    let d = <%s as Default>::default().token();\n    let tt = TokenTree::from(k);\n    let same = k.token();\n"
                "    k.set_span(r);\n    (name, other, span, t, d, tt, k.span(), k.token(), same)\n}\n" % (b, ty, ty))
        out += ("pub fn %s_value__spec(s: Span, r: Span) -> (&'static str, String, Span, Ident, Ident, TokenTree, Span, Ident, Ident) {\n    let t = %s;\n    let d = { let s = Span::call_site(); %s };\n    let l = { let s = r; %s };\n"
                "    (\"%s\", \"%s\".to_owned(), s, t.clone(), d, TokenTree::Ident(t.clone()), r, l, t)\n}\n" % (b, ident(w), ident(w), ident(w), w, w))
        out += "//@ %s_print\n" % b
        out += "pub fn %s_print__imp(s: Span, tokens: &mut TokenStream) {\n    <%s>::new(s).to_tokens(tokens)\n}\n" % (b, ty)
        out += "pub fn %s_print__spec(s: Span, tokens: &mut TokenStream) {\n    tokens.append(%s)\n}\n" % (b, ident(w))
        out += "//@ %s_show\n" % b
        out += "pub fn %s_show__imp(s: Span, f: &mut Formatter<'_>) -> fmt::Result {\n    Display::fmt(&<%s>::new(s), f)\n}\n" % (b, ty)
        out += "pub fn %s_show__spec(s: Span, f: &mut Formatter<'_>) -> fmt::Result {\n    f.pad(\"%s\")\n}\n" % (b, w)
    return out


def text(seed, tier):
    return "".join(section(*l) for l in lists(seed, tier))
