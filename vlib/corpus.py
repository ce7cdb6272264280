"""Definitions to derive on, with reference parsers and printers written from the definition alone."""
import os
import random
import re

P = "::parsel::Parse"
TT = "::parsel::ToTokens"

LONG = ["a_very_long_name_that_goes_on_and_on_and_on_for_more_than_sixty_four_characters", "AVeryLongNameThatGoesOnAndOnAndOnForMoreThanSixtyFourCharactersInTotal", "länge", "Größe",
        "__hidden", "_", "x__", "V2", "field_0", "_0", "f_1_2", "node", "tree"]
AWKWARD = ["tokens", "input", "error", "result", "ast_node", "err", "cause", "formatter", "string", "fork", "value", "parsel", "r#type", "r#fn", "r#match", "r#struct",
           "self_", "this", "x", "_y", "parse", "to_tokens", "map_err", "farthest", "acc", "core", "std", "syn", "None_", "a1", "idx", "field", "enum_", "ctor", "message", "span",
           "r#async", "r#dyn", "crate_", "i", "e", "ok", "some", "iter", "body", "stream", "item"]
VNAMES = ["Alpha", "Ok", "Err", "Some", "None", "Beta", "Result", "Error", "Parse", "ToTokens", "Gamma", "Vec", "Box", "String", "Self_", "Input", "Tokens", "Delta", "Option", "Display",
          "r#type", "r#fn", "lower", "SCREAM", "X1", "Left", "Right", "Eof", "Default", "Clone"]
TNAMES = ["Node", "Tree", "Stmt", "Expr_", "Thing", "Input", "Tokens", "Item", "Pair_", "Decl", "r#final", "Ast", "lower_case", "E1", "X"]
CONCRETE = ["::parsel::ast::LitInt", "::parsel::ast::Ident", "::parsel::ast::token::Comma", "::parsel::ast::token::Struct", "::parsel::ast::Lit", "::parsel::ast::Word",
            "::parsel::ast::Empty", "::parsel::ast::Eof", "::parsel::ast::LitStr", "::parsel::TokenStream", "::parsel::ast::Token![;]", "::parsel::syn::Type"]
WRAP = ["Box<%s>", "::parsel::ast::Paren<%s>", "::parsel::ast::Maybe<%s>", "::parsel::ast::Any<%s>", "::parsel::ast::Many<%s>"]
WRAP2 = ["::parsel::ast::Separated<%s, %s>", "::parsel::ast::Punctuated<%s, %s>", "::parsel::ast::Either<%s, %s>", "::parsel::ast::Maybe<%s, %s>", "::parsel::ast::LeftAssoc<%s, %s>"]


class Field:
    def __init__(self, name, ty, attr="", vis=""):
        self.name = name
        self.ty = ty
        self.attr = attr
        self.vis = vis


class Variant:
    def __init__(self, name, kind, fields, attr="", disc=""):
        self.name = name
        self.kind = kind        # named | tuple | unit
        self.fields = fields
        self.attr = attr
        self.disc = disc        # explicit discriminant


class Def:
    def __init__(self, ident, kind, name, params, variants, where="", attrs="", consts="", lts=()):
        self.ident = ident      # unique lower-case id of the section
        self.kind = kind        # struct | enum
        self.name = name
        self.params = params    # list of type parameter names
        self.variants = variants
        self.where = where
        self.attrs = attrs
        self.consts = consts
        self.lts = list(lts)    # lifetime parameters

    # ---- rendering
    def gen(self, bound=None):
        ps = self.lts + [("%s: %s" % (p, bound) if bound else p) for p in self.params]
        if self.consts:
            ps.append(self.consts)
        return "<%s>" % ", ".join(ps) if ps else ""

    def use(self):
        ps = self.lts + list(self.params)
        if self.consts:
            ps.append(re.match(r"const (\w+)", self.consts).group(1))
        return self.name + ("<%s>" % ", ".join(ps) if ps else "")

    def fields_src(self, v, body=True):
        if v.kind == "unit":
            return ""
        if v.kind == "named":
            return " { %s }" % ", ".join("%s%s%s: %s" % (f.attr + " " if f.attr else "", f.vis + " " if f.vis else "", f.name, f.ty) for f in v.fields)
        return "(%s)" % ", ".join("%s%s%s" % (f.attr + " " if f.attr else "", f.vis + " " if f.vis else "", f.ty) for f in v.fields)

    def source(self, derives):
        w = " where %s" % self.where if self.where else ""
        s = "#[derive(%s)] %s " % (", ".join(derives), self.attrs)
        if self.kind == "struct":
            v = self.variants[0]
            if v.kind == "named":
                return s + "pub struct %s%s%s%s" % (self.name, self.gen(), w, self.fields_src(v))
            return s + "pub struct %s%s%s%s;" % (self.name, self.gen(), self.fields_src(v), w)
        return s + "pub enum %s%s%s { %s }" % (self.name, self.gen(), w, ", ".join(
            (v.attr + " " if v.attr else "") + v.name + self.fields_src(v) + (" = " + v.disc if v.disc else "") for v in self.variants))

    def build(self, v, names):
        path = self.name if self.kind == "struct" else "%s::%s" % (self.name, v.name)
        if v.kind == "unit":
            return path
        if v.kind == "named":
            return "%s { %s }" % (path, ", ".join("%s: %s" % (f.name, n) for f, n in zip(v.fields, names)))
        return "%s(%s)" % (path, ", ".join(names))

    def label(self, v, f, i):
        parts = [self.name] if self.kind == "struct" else [self.name, v.name]
        parts.append(f.name if f.name else str(i))
        return " ".join(p.replace("r#", "") for p in parts)

    def whereb(self, tr, extra=None):
        w = [self.where] if self.where else []
        w += ["%s: %s" % (p, tr) for p in self.params]
        return " where %s" % ", ".join(w) if w else ""

    def fn(self, suffix, args, ret, body, tr):
        return "pub fn %s%s(%s)%s%s {\n%s}\n" % (self.ident + suffix, self.gen(), args, " -> " + ret if ret else "", self.whereb(tr), body)

    def parse_one(self, v, stream, fail):
        s = ""
        names = []
        for i, f in enumerate(v.fields):
            n = "field_value_%d" % i
            names.append(n)
            s += "    let %s = match <%s as %s>::parse(%s) { ::core::result::Result::Ok(v__) => v__, ::core::result::Result::Err(e__) => %s };\n" % (n, f.ty, P, stream, fail(v, f, i))
        return s, self.build(v, names)

    def parse_pair(self, chain):
        """chain: describe errors"""
        ret = "::parsel::Result<%s>" % self.use()
        args = "input: ::parsel::syn::parse::ParseStream<'_>"
        imp = self.fn("_parse__imp", args, ret, "    <%s as %s>::parse(input)\n" % (self.use(), P), P)

        def wrapped(v, f, i):
            if not chain:
                return "e__"
            return "::parsel::Error::new(e__.span(), format!(\"%s {}\", e__))" % self.label(v, f, i)
        if self.kind == "struct":
            b, x = self.parse_one(self.variants[0], "input", lambda v, f, i: "return ::core::result::Result::Err(%s)" % wrapped(v, f, i))
            body = b + "    ::core::result::Result::Ok(%s)\n" % x
        else:
            body = "    use ::parsel::syn::parse::discouraged::Speculative;\n    let mut best: ::core::option::Option<::parsel::Error> = ::core::option::Option::None;\n"
            for k, v in enumerate(self.variants):
                body += "    let attempt = 'variant: {\n    let fork = input.fork();\n"
                b, x = self.parse_one(v, "&fork", lambda v, f, i: "break 'variant ::core::result::Result::Err(%s)" % wrapped(v, f, i))
                body += b + "    input.advance_to(&fork);\n    let ok__: ::parsel::Result<%s> = ::core::result::Result::Ok(%s);\n    ok__\n    };\n" % (self.use(), x)
                body += """    match attempt {
        ::core::result::Result::Ok(v__) => return ::core::result::Result::Ok(v__),
        ::core::result::Result::Err(e__) => best = ::core::option::Option::Some(match best {
            ::core::option::Option::Some(b__) => if e__.span().end() > b__.span().end() { e__ } else { b__ },
            ::core::option::Option::None => e__,
        }),
    }
"""
            body += "    ::core::result::Result::Err(match best { ::core::option::Option::Some(b__) => b__, ::core::option::Option::None => input.error(\"\") })\n"
        out = imp + self.fn("_parse__spec", args, ret, body, P)
        if chain and self.kind == "enum" and any(v.fields for v in self.variants):
            # what each alternative reports by itself
            body = ""
            for k, v in enumerate(self.variants):
                b, x = self.parse_one(v, "input", lambda v, f, i: "return ::core::result::Result::Err(%s)" % wrapped(v, f, i))
                body += "    if which == %d {\n%s    return ::core::result::Result::Ok(%s);\n    }\n" % (k, b, x)
            out += self.fn("_parse__cand", args + ", which: u32", ret, body + "    ::core::result::Result::Err(input.error(\"\"))\n", P)
        return out

    def print_pair(self):
        args = "x: &%s, stream: &mut ::parsel::TokenStream" % self.use()
        imp = self.fn("_print__imp", args, "", "    <%s as %s>::to_tokens(x, stream)\n" % (self.use(), TT), TT)
        if self.kind == "struct":
            v = self.variants[0]
            body = ""
            for i, f in enumerate(v.fields):
                body += "    <%s as %s>::to_tokens(&x.%s, stream);\n" % (f.ty, TT, f.name or i)
        elif not self.variants:
            body = "    match *x {}\n"
        else:
            body = "    match x {\n"
            for v in self.variants:
                names = ["field_value_%d" % i for i in range(len(v.fields))]
                body += "        %s => {\n" % self.build(v, names)
                for n, f in zip(names, v.fields):
                    body += "            <%s as %s>::to_tokens(%s, stream);\n" % (f.ty, TT, n)
                body += "        }\n"
            body += "    }\n"
        return imp + self.fn("_print__spec", args, "", body, TT)

    def text_pair(self):
        """FromStr and Display, against the type's own parser and printer (whatever those are)"""
        args = "s: &str"
        ret = "::parsel::Result<%s>" % self.use()
        out = self.fn("_text__imp", args, ret, "    <%s as ::core::str::FromStr>::from_str(s)\n" % self.use(), P)
        out += self.fn("_text__spec", args, ret, "    ::parsel::parse2::<%s>(<::parsel::TokenStream as ::core::str::FromStr>::from_str(s)?)\n" % self.use(), P)
        args = "x: &%s, f: &mut ::core::fmt::Formatter<'_>" % self.use()
        ret = "::core::fmt::Result"
        out += "//@ %s_show opaque=parsel::ast::,witness::m_%s:: opaque_fns=parsel::util::TokenStreamFormatter::write$\n" % (self.ident, self.ident)
        out = out.replace("//@", "}\n//@") + "pub mod n_%s {\n    use super::m_%s::*;\n" % (self.ident, self.ident)
        out += self.fn("_show__imp", args, ret, "    <%s as ::core::fmt::Display>::fmt(x, f)\n" % self.use(), TT)
        out += self.fn("_show__spec", args, ret, """    let t = ::parsel::ToTokens::to_token_stream(x);
    if f.alternate() { ::parsel::util::TokenStreamFormatter::compact(f).write(t) } else { ::parsel::util::TokenStreamFormatter::pretty(f).write(t) }
""", TT)
        return out

    def section(self, which, opts, chain=False):
        derives = {"parse": ["::parsel::Parse"], "print": ["::parsel::ToTokens"], "text": ["::parsel::Parse", "::parsel::ToTokens", "::parsel::FromStr", "::parsel::Display"]}[which]
        name = "%s_%s" % (self.ident, which)
        if which == "print" and self.kind == "enum" and not self.variants:
            opts += " must=0"          # there is no value to print
        src = "//@ %s opaque=parsel::ast::,witness::m_%s:: %s\n" % (name, self.ident, opts)
        src += "pub mod m_%s {\n%s\n" % (self.ident, self.source(derives))
        src += self.parse_pair(chain) if which == "parse" else self.print_pair() if which == "print" else self.text_pair()
        return src + "}\n"


# ---------------------------------------------------------------------------------------------------------------
def source_constants(repo):
    """integers and words that occur in the derive's own source: sizes and names worth trying"""
    ints, words = set(), set()
    base = os.path.join(repo, "parsel_derive", "src")
    files = [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith(".rs")] + [os.path.join(repo, "parsel", "src", "util.rs")]
    for f in files:
        t = open(f).read()
        t = re.sub(r"//[^\n]*", "", t)
        t = re.sub(r"#!\[[^\]]*\]", "", t)
        for m in re.finditer(r"(?<![\w.\"])(\d{1,3})(?:usize|u8|u16|u32|u64|i32|i64)?(?![\w.\"])", t):
            n = int(m.group(1))
            if 2 <= n <= 260:
                ints.add(n)
        for ty, n in (("u8", 256), ("i8", 128)):          # sizes at which a conversion wraps
            if re.search(r"\b%s\b" % ty, t):
                ints.add(n)
        for m in re.finditer(r"\"([A-Za-z_]\w*)\"", t):
            words.add(m.group(1))
    return sorted(ints), sorted(words)


KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union".split())


def legal(w):
    return w if w not in KW else None


class Gen:
    def __init__(self, seed, repo):
        self.r = random.Random(seed)
        self.ints, self.words = source_constants(repo)
        self.n = 0

    def params(self, k):
        return (["A", "B", "C", "D", "F", "G", "H", "K"] + ["A%d" % i for i in range(8, k)])[:k]

    def ty(self, params, depth=0):
        r = self.r
        x = r.random()
        if params and x < 0.6:
            return r.choice(params)
        if x < 0.8 or not params or depth > 1:
            return r.choice(CONCRETE)
        if x < 0.93:
            return r.choice(WRAP) % self.ty(params, depth + 1)
        return r.choice(WRAP2) % (r.choice(params), r.choice(params))

    def fields(self, kind, n, params, names=None, simple=False, distinct=0):
        pool = list(AWKWARD)
        self.r.shuffle(pool)
        if names:
            pool = list(names) + [p for p in pool if p not in names]
        while len(pool) < n:
            pool.append("f%d" % len(pool))
        out = []
        for i in range(n):
            if distinct:
                t = params[(distinct - 1 + i) % len(params)]
            else:
                t = self.r.choice(params) if simple and params else self.ty(params)
            out.append(Field(pool[i] if kind == "named" else None, t))
        return out

    def variant(self, name, kind, n, params, **kw):
        if kind == "unit":
            n = 0
        return Variant(name, kind, self.fields(kind, n, params, **kw) if n else [])

    def fix(self, d):
        """every parameter must be used"""
        used = " ".join(f.ty for v in d.variants for f in v.fields)
        d.params = [p for p in d.params if re.search(r"\b%s\b" % p, used)]
        return d

    def ident(self):
        self.n += 1
        return "t%d" % self.n

    def struct(self, kind, n, np=3, name=None, **kw):
        ps = self.params(np)
        return self.fix(Def(self.ident(), "struct", name or "Node", ps, [self.variant(None, kind, n, ps, **kw)]))

    def enum(self, shapes, np=3, name=None, vnames=None, **kw):
        ps = self.params(np)
        pool = list(VNAMES)
        self.r.shuffle(pool)
        if vnames:
            pool = list(vnames) + [p for p in pool if p not in vnames]
        while len(pool) < len(shapes):
            pool.append("V%d" % len(pool))
        return self.fix(Def(self.ident(), "enum", name or "Tree", ps, [self.variant(pool[i], k, n, ps, **(dict(kw, distinct=i + 1) if kw.get("distinct") else kw)) for i, (k, n) in enumerate(shapes)]))


DECOR = ["/** documented */", "#[allow(dead_code)]", "#[doc(hidden)]", "#[cfg(all())]", "#[doc = \"text\"] #[allow(unused)]", "/** a */ /** b */ #[allow(dead_code)]", "#[rustfmt::skip]",
         "#[cfg_attr(all(), allow(dead_code))]", "#[deprecated]"]
VIS = ["", "pub", "pub(crate)", "pub(super)", "pub(self)"]


def decorated(g, kind):
    """attributes, documentation, visibilities and discriminants change nothing"""
    out = []
    n = len(DECOR)
    if kind == "struct":
        for k in ("named", "tuple"):
            for j in range(2):
                fs = [Field("f%d" % i if k == "named" else None, g.params(3)[(i + j) % 3], DECOR[i] if (i + j) % 2 or j else "", VIS[(i + j) % len(VIS)]) for i in range(n)]
                d = g.fix(Def(g.ident(), "struct", "Node", g.params(3), [Variant(None, k, fs)], attrs=DECOR[j]))
                out.append(d)
        out.append(g.fix(Def(g.ident(), "struct", "Node", g.params(2), [Variant(None, "named", [Field("a", "A", "#[parsel(recursive = false)] /** x */ #[allow(dead_code)]"), Field("b", "B", "/** x */ #[parsel()] #[doc(hidden)]")])])))
        return out
    for j in range(0, n, 3):
        at = DECOR[j:j + 3]
        vs = [Variant("V%d" % i, ("tuple", "named", "unit")[(i + j) % 3], [], a) for i, a in enumerate(at)] + [Variant("Last", "tuple", [])]
        for i, v in enumerate(vs):
            if v.kind != "unit":
                v.fields = [Field("f%d" % q if v.kind == "named" else None, g.params(3)[(i + q) % 3], at[q] if i % 2 and q < len(at) else "") for q in range(2)]
        out.append(g.fix(Def(g.ident(), "enum", "Tree", g.params(3), vs, attrs=at[0])))
    V = lambda nm, k, d, at="": Variant(nm, k, [Field("x" if k == "named" else None, g.params(3)[len(nm) % 3])] if k != "unit" else [], at, d)
    out.append(g.fix(Def(g.ident(), "enum", "Tree", g.params(3), [V("A1", "tuple", "3"), V("Bee", "named", ""), V("C", "unit", "7", DECOR[0])], attrs="#[repr(u8)]")))
    out.append(g.fix(Def(g.ident(), "enum", "Tree", g.params(3), [V("A1", "tuple", ""), V("Bee", "named", "1 << 4"), V("Ceee", "tuple", "-2"), V("D", "unit", "")], attrs="#[repr(i16)]")))
    for w in ("Other", "Unknown", "Default", "Error", "Eof", "Empty"):
        out.append(g.fix(Def(g.ident(), "enum", "Tree", g.params(3), [Variant("First", "tuple", [Field(None, "A")]), Variant(w, "tuple", [Field(None, "B")], "#[doc(hidden)]" if w != "Other" else ""), Variant("Last", "named", [Field("x", "C")])])))
    return out


# field types that can only be printed
PRINTED = ["&'a A", "&'a B", "&'b mut A", "&'a &'b B", "::std::rc::Rc<A>", "::std::borrow::Cow<'a, C>", "Box<dyn ::parsel::ToTokens + 'a>", "Option<A>", "::std::string::String", "&'static str", "u8",
           "bool", "::parsel::TokenStream", "::parsel::ast::Ident", "(A)", "(&'a C)", "Option<Box<B>>", "f64", "char"]


def printed(g):
    out = []
    for k in ("named", "tuple"):
        for j in range(0, len(PRINTED), 3):
            tys = PRINTED[j:j + 3] + ["C", PRINTED[(j * 5 + 7) % len(PRINTED)], "A"]
            mk = lambda ts, kk: Variant(None, kk, [Field("f%d" % i if kk == "named" else None, t) for i, t in enumerate(ts)])
            out.append(lts(g.fix(Def(g.ident(), "struct", "Node", g.params(3), [mk(tys, k)], where="C: Clone" if any("Cow" in t for t in tys) else ""))))
            e = [mk(tys[:3], k), mk(tys[3:], "tuple" if k == "named" else "named"), mk([], "unit")]
            for i, v in enumerate(e):
                v.name = "V%d" % i
            out.append(lts(g.fix(Def(g.ident(), "enum", "Tree", g.params(3), e, where="C: Clone" if any("Cow" in t for t in tys) else ""))))
    for n in (3, 4):
        ls = ["'%s" % c for c in "wxyz"[:n]]
        ps = g.params(n)
        out.append(Def(g.ident(), "struct", "Node", ps, [Variant(None, "tuple", [Field(None, "&%s %s" % x) for x in zip(ls, ps)] + [Field(None, "A")])], lts=ls))
        out.append(Def(g.ident(), "enum", "Tree", ps, [Variant("V%d" % i, "named", [Field("x", "&%s %s" % x), Field("y", "A")]) for i, x in enumerate(zip(ls, ps))], lts=ls))
    return out


def lts(d):
    used = " ".join(f.ty for v in d.variants for f in v.fields)
    d.lts = [l for l in ("'a", "'b") if re.search(l + r"\b", used)]
    return d


# the same types spelt in unusual ways
SPELT = ["(A)", "((B))", "(Box<A>)", "crate::Same<A>", "<crate::Same<B> as crate::Is>::It", "::parsel::ast::Paren<(A)>", "crate::same!(B)", "::std::boxed::Box<(B)>"]

def spelt(g, kind):
    out = []
    for j in range(0, len(SPELT), 2):
        tys = SPELT[j:j + 2] + ["C", SPELT[(j + 3) % len(SPELT)]]
        for k in ("named", "tuple"):
            v = Variant("One", k, [Field("f%d" % i if k == "named" else None, t) for i, t in enumerate(tys)])
            if kind == "struct":
                v.name = None
                out.append(g.fix(Def(g.ident(), "struct", "Node", g.params(3), [v])))
            else:
                out.append(g.fix(Def(g.ident(), "enum", "Tree", g.params(3), [v, Variant("Two", "tuple", [Field(None, tys[1])])])))
    return out


def structs(g, tier):
    out = decorated(g, "struct") + spelt(g, "struct")
    for n in range(0, 9):
        out.append(g.struct("named", n))
        out.append(g.struct("tuple", n))
    out.append(g.struct("unit", 0))
    sizes = {12, 16, 17, 24, 33} | {m + d for m in g.ints for d in (-1, 0, 1, 2) if 1 < m + d <= 262}
    if tier == "thorough":
        sizes |= {40, 64, 65, 100, 129, 257}
    for n in sorted(sizes):
        out.append(g.struct("named" if n % 2 else "tuple", n, simple=True))
        out.append(g.struct("tuple" if n % 2 else "named", n, np=n, distinct=1))
        if tier == "thorough":
            out.append(g.struct("tuple" if n % 2 else "named", n, simple=True))
    # every awkward name as a field, several at a time
    names = [w for w in AWKWARD] + [w for w in g.words if legal(w) and w not in AWKWARD]
    for i in range(0, len(names), 6):
        chunk = names[i:i + 6]
        out.append(g.struct("named", len(chunk), names=chunk))
    for nm in TNAMES + [w for w in g.words if legal(w)][:12]:
        out.append(g.struct(g.r.choice(["named", "tuple"]), 2, name=nm))
    # repeated types, generics with bounds, recursion
    A = ["A"]
    long = [w for w in LONG if w != "_"]
    for i in range(0, len(long), 4):
        out.append(g.struct("named", len(long[i:i + 4]), names=long[i:i + 4], name=long[i]))
    for nm in ("node", "Node", "value"):       # a field called like the type, in any case
        out.append(g.struct("named", 3, names=[nm, "x", nm.lower() + "s"], name=nm))
    for ty in CONCRETE:
        out.append(Def(g.ident(), "struct", "Node", [], [Variant(None, "tuple", [Field(None, ty)])]))
        out.append(Def(g.ident(), "struct", "Node", A, [Variant(None, "named", [Field("x", ty), Field("y", "A"), Field("z", ty)])]))
    out.append(Def(g.ident(), "struct", "Node", A, [Variant(None, "named", [Field("a", "A"), Field("b", "A"), Field("c", "A")])]))
    out.append(Def(g.ident(), "struct", "Node", A, [Variant(None, "tuple", [Field(None, "A"), Field(None, "A"), Field(None, "A"), Field(None, "A")])]))
    out.append(Def(g.ident(), "struct", "Node", ["A", "B"], [Variant(None, "named", [Field("a", "A"), Field("b", "Box<B>"), Field("c", "Box<A>"), Field("d", "B")])], where="A: Clone"))
    out.append(Def(g.ident(), "struct", "Node", ["A", "B"], [Variant(None, "tuple", [Field(None, "B"), Field(None, "A")])], where="A: Clone, B: ::core::fmt::Debug,".rstrip(",")))
    out.append(Def(g.ident(), "struct", "Node", ["A"], [Variant(None, "tuple", [Field(None, "A"), Field(None, "::parsel::ast::LitInt")])], consts="const N: usize"))
    for at in ("#[parsel(recursive)]", "#[parsel(recursive = true)]"):
        out.append(Def(g.ident(), "struct", "Node", ["A"], [Variant(None, "named", [Field("a", "A"), Field("rest", "::parsel::ast::Any<Node<A>>", at), Field("z", "::parsel::ast::LitInt")])]))
        out.append(Def(g.ident(), "struct", "Node", [], [Variant(None, "tuple", [Field(None, "::parsel::ast::Maybe<::parsel::ast::token::Comma, Box<Node>>", at), Field(None, "::parsel::ast::Ident")])]))
    out.append(Def(g.ident(), "struct", "Node", ["A"], [Variant(None, "named", [Field("a", "A", "#[parsel(recursive = false)]"), Field("b", "::parsel::ast::LitInt", "/// documented\n#[allow(dead_code)]")])], attrs="/// docs\n"))
    rnd = 12 if tier == "quick" else 150
    for _ in range(rnd):
        out.append(g.struct(g.r.choice(["named", "tuple"]), g.r.randint(1, 10), np=g.r.randint(0, 6), name=g.r.choice(TNAMES)))
    return out


def enums(g, tier, small=False):
    """small: few alternatives with several fields, for the comparison of errors"""
    out = []
    k3 = ["named", "tuple", "unit"]
    out += decorated(g, "enum") + spelt(g, "enum")
    out.append(g.enum([]))
    for k in k3:
        out.append(g.enum([(k, 1)]))
        out.append(g.enum([(k, 2)]))
    for a in k3:
        for b in k3:
            out.append(g.enum([(a, 1), (b, 2)]))
    for a in k3:
        for b in k3:
            for c in k3:
                out.append(g.enum([(a, g.r.randint(0, 2)), (b, g.r.randint(1, 2)), (c, g.r.randint(0, 2))]))
    out.append(g.enum([("tuple", 0), ("named", 0), ("unit", 0)]))
    out.append(g.enum([("tuple", 1), ("tuple", 0), ("tuple", 1)]))
    if not small:
        out.append(g.enum([("tuple", 3), ("named", 3)]))
        sizes = {5, 8, 12, 16, 17, 24} | {m + d for m in g.ints for d in (-1, 0, 1, 2) if 1 < m + d <= 262}
        if tier == "thorough":
            sizes |= {33, 64, 65, 129, 257}
        for n in sorted(sizes):
            out.append(g.enum([(g.r.choice(["tuple", "named"]), 1) for _ in range(n)], np=n, distinct=1))
        for n in (4, 6):
            out.append(g.enum([(g.r.choice(["tuple", "named"]), 1)] * (n - 1) + [("tuple", 6)], simple=True))
            out.append(g.enum([("named", 6)] + [(g.r.choice(["tuple", "named"]), 1)] * (n - 1), simple=True))
        big = {m + d for m in g.ints for d in (-1, 0, 1) if 1 < m + d <= 262} | {9, 12, 24, 40}
        if tier == "thorough":
            big |= {65, 101, 129, 257}
        for n in sorted(big):
            out.append(g.enum([("tuple", 1), ("named" if n % 2 else "tuple", n), ("tuple", 1)], simple=True))
            out.append(g.enum([("tuple" if n % 2 else "named", n)], np=n, distinct=1))
    else:
        out.append(g.enum([("tuple", 1)] * 4))
        out.append(g.enum([("named", 1)] * 4))
        out.append(g.enum([("tuple", 1), ("named", 1)] * 2))
        out.append(g.enum([("tuple", 3), ("named", 2)]))
        out.append(g.enum([("tuple", 1), ("named", 2), ("tuple", 2)]))
        if tier == "thorough":
            out.append(g.enum([("tuple", 1)] * 5))
            out.append(g.enum([("tuple", 2), ("named", 2), ("tuple", 2)]))
    long = [w for w in LONG if w != "_"]
    for i in range(0, len(long), 4):
        out.append(g.enum([("named", 2), ("tuple", 1)], name=long[i], vnames=long[i:i + 2], names=long[i:i + 2]))
    # variants and fields called like the type or like each other
    out.append(g.enum([("tuple", 2), ("named", 2)], name="Tree", vnames=["Tree", "Leaf"], names=["Tree", "Leaf"]))
    out.append(g.enum([("named", 1), ("named", 1), ("named", 1)], name="tree", vnames=["Tree", "tree", "TREE"], names=["tree"]))
    for ty in CONCRETE:
        out.append(Def(g.ident(), "enum", "Tree", [], [Variant("One", "tuple", [Field(None, ty)]), Variant("Two", "named", [Field("x", ty)])]))
    for i in range(0, len(VNAMES), 4):
        ch = VNAMES[i:i + 4]
        out.append(g.enum([(g.r.choice(["tuple", "named"] if j else ["tuple"]), 1) for j in range(len(ch))][:3 if small else 4], vnames=ch))
    names = AWKWARD + [w for w in g.words if legal(w) and w not in AWKWARD]
    for i in range(0, len(names), 4):
        ch = names[i:i + 4]
        d = g.enum([("named", len(ch)), ("tuple", 1)], name=g.r.choice(TNAMES), names=ch)
        out.append(d)
    for w in [w for w in g.words if legal(w)][:12]:
        out.append(g.enum([("tuple", 1), ("named", 1)], vnames=[w], name="Tree"))
    out.append(Def(g.ident(), "enum", "Tree", ["A"], [Variant("Leaf", "tuple", [Field(None, "A")]), Variant("Fork", "named", [Field("l", "Box<Tree<A>>", "#[parsel(recursive)]"), Field("r", "Box<Tree<A>>", "#[parsel(recursive = true)]")])]))
    out.append(Def(g.ident(), "enum", "Tree", ["A", "B"], [Variant("One", "tuple", [Field(None, "A"), Field(None, "B")]), Variant("Two", "tuple", [Field(None, "A"), Field(None, "B")])], where="A: Clone"))
    out.append(Def(g.ident(), "enum", "Tree", ["A"], [Variant("One", "tuple", [Field(None, "A")]), Variant("Two", "named", [Field("x", "A")]), Variant("Three", "unit", []), Variant("Four", "tuple", [Field(None, "A")])]))
    rnd = 10 if tier == "quick" else 120
    for _ in range(rnd):
        nv = g.r.randint(1, 3 if small else 5)
        out.append(g.enum([(g.r.choice(k3), g.r.randint(0, 2)) for _ in range(nv)], np=g.r.randint(0, 5), name=g.r.choice(TNAMES)))
    return out


# types of the standard library as fields: bounded like any other
STD = ["Vec<A>", "::std::vec::Vec<A>", "Option<A>", "::core::option::Option<A>", "Box<A>", "::std::boxed::Box<A>", "::std::rc::Rc<A>", "::std::sync::Arc<A>", "::core::marker::PhantomData<A>", "[A; 2]",
       "(A, A)", "(A,)", "::std::collections::HashMap<A, A>", "fn(A) -> A", "Result<A, A>", "Box<dyn Fn(A)>", "::std::cell::RefCell<A>", "::std::borrow::Cow<'static, str>", "&'static A", "*const A",
       "Box<[A]>", "Vec<Vec<A>>", "Option<Box<A>>", "::parsel::ast::Any<A>", "::parsel::ast::Maybe<A>", "::parsel::ast::Punctuated<A, A>"]


def std_types(g):
    out = []
    for i, ty in enumerate(STD):
        if "A" not in ty:
            continue
        w = "A: 'static" if "'static" in ty or "dyn" in ty else ""
        out.append(Def(g.ident(), "struct", "Node", ["A"], [Variant(None, "named" if i % 2 else "tuple", [Field("x" if i % 2 else None, ty)])], where=w))
        out.append(Def(g.ident(), "enum", "Tree", ["A"], [Variant("One", "tuple", [Field(None, ty)]), Variant("Two", "named", [Field("x", ty)])], where=w))
    return out
