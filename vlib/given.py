"""Literals with given values: the same comparisons as specs/c18.rs, on values that are easy to get wrong."""

TEXTS = ["", " ", " a ", "a b", "a\r\nb\n", "\n", "\r", "\t", "\0", "\x7f", "\\", "\\n", "\"", "'", "\"q\"", "r#type", "//", "{}", "%", "A", "Zz", "é", "e\u0301", "日本", "\U0001f600x", "\u2028", "\ufeffa",
         "\u00a0", "true", "-1", "1_000", "0x1F", "b", "x" * 40, "ab" * 150]
CHARS = ["\0", "\t", "\n", "\r", " ", "\"", "'", "\\", "a", "Z", "0", "\x7f", "é", "\u2028", "日", "\U0001f600", "\U0010ffff", "\ud7ff", "\ue000"]
BYTES = list(range(256))
INTS = [0, 1, -1, 9, 10, 255, 256, -128, 65535, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 10 ** 18]
UINTS = [0, 1, 9, 10, 255, 256, 65536, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
BSTRS = [[], [0], [255], [10], [13, 10], [34], [92, 39], [97, 98, 99], [195, 169], [255, 254, 0], [128] * 3, [32, 97, 32], list(range(0, 256, 5))]


def lit(x):
    out = ""
    for ch in x:
        o = ord(ch)
        out += "\\u{%x}" % o if o < 32 or o > 126 or ch in "\\\"'" else ch
    return out


def escaped(b):
    plain = {9: "\\t", 10: "\\n", 13: "\\r", 34: "\\\"", 39: "\\'", 92: "\\\\"}
    return plain.get(b) or (chr(b) if 32 <= b < 127 else "\\x%02x" % b)


def kinds():
    yield "bool", "LitBool", "bool", ["false", "true"], lambda v: v, lambda v: v, None
    yield "byte", "LitByte", "u8", ["%du8" % b for b in BYTES], lambda v: v, lambda v: v, None
    yield "int", "LitInt", "i64", [("i64::MIN" if i == -2 ** 63 else "%di64" % i) for i in INTS], lambda v: v, lambda v: v, lambda v: "Literal::i64_unsuffixed(%s)" % v
    yield "uint", "LitUint", "u64", ["%du64" % i for i in UINTS], lambda v: v, lambda v: v, lambda v: "Literal::u64_unsuffixed(%s)" % v
    yield "char", "LitChar", "char", ["'%s'" % lit(c) for c in CHARS if not "\ud800" <= c <= "\udfff"], lambda v: v, lambda v: v, lambda v: "Literal::character(%s)" % v
    yield "str", "LitStr", "String", ["\"%s\"" % lit(t) for t in TEXTS], lambda v: "String::from(%s)" % v, lambda v: "String::from(%s)" % v, lambda v: "Literal::string(%s)" % v
    yield ("bytestr", "LitByteStr", "Vec<u8>", ["[%s]" % ", ".join("%du8" % b for b in s) for s in BSTRS], lambda v: "<Vec<u8> as From<&[u8]>>::from(&%s)" % v,
           lambda v: "<Vec<u8> as From<&[u8]>>::from(&%s)" % v, lambda v: "Literal::byte_string(&%s)" % v)


def sections():
    out = ""
    for nm, ty, raw, vals, make, again, token in kinds():
        for i, v in enumerate(vals):
            n = "given_%s_%d" % (nm, i)
            out += "\n//@ %s_made\n" % n
            out += "pub fn %s_made__imp(s: Span, t: Span) -> (%s, %s, %s, Span, %s, Span) {\n" % (n, raw, raw, raw, raw)
            out += "    let x = %s::new(%s, s);\n    let mut y = <%s as From<%s>>::from(%s);\n    y.set_span(t);\n" % (ty, make(v), ty, raw, make(v))
            out += "    (x.value(), x.clone().into_inner(), <%s>::from(x.clone()), x.span(), y.value(), y.span())\n}\n" % raw
            out += "pub fn %s_made__spec(s: Span, t: Span) -> (%s, %s, %s, Span, %s, Span) {\n    (%s, %s, %s, s, %s, t)\n}\n" % ((n,) + (raw,) * 4 + (again(v),) * 4)
            if nm == "byte":
                token = lambda v: "<Literal as ::core::str::FromStr>::from_str(\"b'%s'\").unwrap()" % escaped(int(v[:-2])).replace("\\", "\\\\").replace("\"", "\\\"")
            if token:
                out += "\n//@ %s_token\n" % n
                out += "pub fn %s_token__imp(s: Span) -> Literal { %s::new(%s, s).token() }\n" % (n, ty, make(v))
                out += "pub fn %s_token__spec(s: Span) -> Literal { let mut t = %s; t.set_span(s); t }\n" % (n, token(v))
                out += "\n//@ %s_print\n" % n
                out += "pub fn %s_print__imp(s: Span, tokens: &mut TokenStream) { %s::new(%s, s).to_tokens(tokens) }\n" % (n, ty, make(v))
                out += "pub fn %s_print__spec(s: Span, tokens: &mut TokenStream) { let mut t = %s; t.set_span(s); tokens.append(t) }\n" % (n, token(v))
    return out


PAIRS = {"int": [(-1, 1), (0, 0), (-2 ** 63, 2 ** 63 - 1), (10, 9), (2 ** 53 + 1, 2 ** 53), (-5, -5), (256, 0), (2 ** 32, 0)],
         "uint": [(0, 1), (2 ** 64 - 1, 0), (2 ** 63, 2 ** 63), (10, 9), (2 ** 53 + 1, 2 ** 53), (2 ** 32, 0), (256, 0)],
         "byte": [(0, 255), (10, 9), (128, 127), (65, 97), (7, 7)],
         "char": [("a", "A"), ("é", "e"), ("\uffff", "\U00010000"), ("0", "0"), ("\n", "\r")],
         "str": [("", ""), ("", " "), ("a", "A"), ("a", "a "), ("b", "ab"), ("10", "9"), ("é", "e\u0301"), ("\r\n", "\n"), ("a\0", "a"), ("abc", "abc"), ("\uffff", "\U00010000"), ("abcdefgh1", "abcdefgh2")],
         "bytestr": [([], []), ([97, 98], [65, 66]), ([], [0]), ([1, 2], [1, 2]), ([1, 2], [2, 1]), ([255], [0, 0]), ([128], [127]), ([1] * 9, [1] * 10)]}
ORD = "::core::cmp::Ordering::"


def compared():
    """equality and order of given values, decided by the values alone"""
    out = ""
    for nm, ty, raw, vals, make, again, token in kinds():
        for i, (a, b) in enumerate(PAIRS.get(nm, ())):
            q = lambda v: ("i64::MIN" if v == -2 ** 63 else "%di64" % v) if nm == "int" else "%du64" % v if nm == "uint" else "%du8" % v if nm == "byte" else "'%s'" % lit(v) if nm == "char" else \
                "\"%s\"" % lit(v) if nm == "str" else "[%s]" % ", ".join("%du8" % x for x in v)
            n = "cmp_%s_%d" % (nm, i)
            o = "Less" if a < b else "Equal" if a == b else "Greater"
            r = "Greater" if a < b else "Equal" if a == b else "Less"
            t = lambda x: "true" if x else "false"
            B, O, P = "bool", "::core::cmp::Ordering", "::core::option::Option<::core::cmp::Ordering>"
            asked = [("x == y", B, t(a == b)), ("y != x", B, t(a != b)), ("x < y", B, t(a < b)), ("x.cmp(&y)", O, ORD + o), ("y.cmp(&x)", O, ORD + r),
                     ("x.partial_cmp(&y)", P, "::core::option::Option::Some(%s)" % (ORD + o)), ("x == z", B, t(a == b)), ("x != z", B, t(a != b)),
                     ("<%s as PartialOrd<%s>>::partial_cmp(&x, &z)" % (ty, raw), P, "::core::option::Option::Some(%s)" % (ORD + o))]
            bare = {"str": "str", "bytestr": "[u8]"}.get(nm)
            if bare:
                asked += [("<%s as PartialEq<%s>>::eq(&x, &z)" % (ty, bare), B, t(a == b)),
                          ("<%s as PartialOrd<%s>>::partial_cmp(&x, &z)" % (ty, bare), P, "::core::option::Option::Some(%s)" % (ORD + o))]
            sig = "(%s)" % ", ".join(x[1] for x in asked)
            out += "\n//@ %s\n" % n
            out += "pub fn %s__imp(s: Span, t: Span) -> %s {\n" % (n, sig)
            out += "    let x = %s::new(%s, s);\n    let y = %s::new(%s, t);\n    let z = %s;\n    (%s)\n}\n" % (ty, make(q(a)), ty, make(q(b)), make(q(b)), ", ".join(x[0] for x in asked))
            out += "pub fn %s__spec(s: Span, t: Span) -> %s {\n    (%s)\n}\n" % (n, sig, ", ".join(x[2] for x in asked))
    return out


def keywords():
    """keyword types of known words compared with known texts"""
    out = ""
    for nm, ty, word in (("select", "vpkw::Select", "select"), ("fn", "vpkw::RawFn", "fn"), ("under", "vpkw::Under", "_")):
        for i, t in enumerate([word, word.upper(), word.capitalize() + "x", word + "x", word[:-1], "", " " + word, "r#" + word, word + " ", "\u00e9" + word, word + "\0", "zz", "a"]):
            n = "kwtext_%s_%d" % (nm, i)
            P = "::core::option::Option<::core::cmp::Ordering>"
            out += "\n//@ %s\npub fn %s__imp(a: &%s) -> (bool, bool, %s) {\n    let t = \"%s\";\n" % (n, n, ty, P, lit(t))
            out += "    (<%s as PartialEq<&str>>::eq(a, &t), <%s as PartialEq<&str>>::ne(a, &t), <%s as PartialOrd<&str>>::partial_cmp(a, &t))\n}\n" % (ty, ty, ty)
            w = WORDS.get(nm, word)
            out += "pub fn %s__spec(_a: &%s) -> (bool, bool, %s) {\n    (%s, %s, ::core::option::Option::Some(%s))\n}\n" % (
                n, ty, P, "true" if w == t else "false", "false" if w == t else "true", ORD + ("Less" if w < t else "Equal" if w == t else "Greater"))
    return out


WORDS = {"fn": "r#fn"}
