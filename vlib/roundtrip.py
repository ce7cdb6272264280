"""What a parsed value prints is what it was parsed from (C28)."""
from . import interp, eqcheck, models as M

DELIM = {"syn::group::parse_parens": 0, "syn::group::parse_braces": 1, "syn::group::parse_brackets": 2}

BUILTIN = ["Paren<T>", "Bracket<T>", "Brace<T>", "Maybe<P, T>", "Punctuated<T, P>", "Separated<T, P>", "Any<T>", "Many<T>", "LeftAssoc<P, T>", "RightAssoc<P, T>", "Either<T, P>",
           "Empty", "Eof", "NotEof", "CustomIdent<K>", "Word",
           "Paren<Punctuated<T, P>>", "Maybe<P, Bracket<T>>", "Brace<Many<T>>", "LeftAssoc<P, Paren<T>>", "Either<Paren<T>, Maybe<P, T>>"]


def builtin_text():
    out = ""
    for i, t in enumerate(BUILTIN):
        out += ("//@ lib%d\npub fn lib%d__rt<T: Parse + ToTokens, P: Parse + ToTokens, K: Default + KeywordList>(input: ParseStream<'_>, tokens: &mut TokenStream) -> Result<()> {\n"
                "    let v = <%s as Parse>::parse(input)?;\n    v.to_tokens(tokens);\n    Ok(())\n}\n" % (i, i, t))
    return out


def derived_section(d):
    name = "%s_round" % d.ident
    src = "//@ %s\npub mod m_%s {\n%s\n" % (name, d.ident, d.source(["::parsel::Parse", "::parsel::ToTokens"]))
    src += d.fn("_round__rt", "input: ::parsel::syn::parse::ParseStream<'_>, stream: &mut ::parsel::TokenStream", "::parsel::Result<()>",
                "    let v__ = <%s as ::parsel::Parse>::parse(input)?;\n    <%s as ::parsel::ToTokens>::to_tokens(&v__, stream);\n    ::core::result::Result::Ok(())\n" % (d.use(), d.use()),
                "::parsel::Parse + ::parsel::ToTokens")
    return src + "}\n"


class Odd(Exception):
    """the printed form is not one whose meaning is known here"""


class Walk:
    """follow the printed items along the consumed tokens"""

    def __init__(self, facts):
        self.v = facts.v
        self.groups = [k[1][1] for k, x in facts.trace if k[0] == "b" and k[1][0] == "okp" and x and k[1][1][0] == "parse" and k[1][1][1] in DELIM]

    def same(self, a, b):
        if a == b:
            return True
        ca, cb = ("app", "cursor", (a,)), ("app", "cursor", (b,))
        return bool(self.v.get(("b", ("app", "poseq", tuple(sorted((ca, cb), key=repr))))))

    def group(self, v):
        """the delimiter and content of a group that is being printed, set_span and such left aside"""
        while True:
            if v[0] == "mut":
                v = v[1]
            elif v[0] == "app" and v[1].startswith("proc_macro2::Group::set_span"):
                v = v[2][0]
            elif v[0] == "app" and v[1].startswith("proc_macro2::Group::new") and v[2][0][0] == "agg" and v[2][1][0] == "ts":
                return v[2][0][2], v[2][1][1]
            else:
                return None

    def items(self, items, pos):
        for k, x in items:
            if k != "toks":
                raise Odd("prints %s" % k)
            while x[0] == "box":
                x = x[1]
            if x[0] == "ts":
                pos = self.items(x[1], pos)
                continue
            if x[0] == "val" and x[1][0] == "parse":
                if not self.same(x[1][2], pos):
                    raise Wrong("prints %s where the tokens from %s are due" % (eqcheck.show(x), eqcheck.show(pos)))
                pos = ("after", x[1])
                continue
            g = self.group(x)
            if g is None:
                raise Odd("prints %s" % eqcheck.show(x)[:150])
            d, inner = g
            at = [p for p in self.groups if self.same(p[2], pos)]
            if not at:
                raise Wrong("prints a group where none was parsed, at %s" % eqcheck.show(pos))
            if DELIM[at[-1][1]] != d:
                raise Wrong("prints a group with another delimiter than the one parsed at %s" % eqcheck.show(pos))
            self.items(inner, ("inside", at[-1]))
            pos = ("after", at[-1])
        return pos


class Wrong(Exception):
    pass


def one(s, rep, name, f, k, opaque, order=0):
    it = interp.Interp(s)
    it.one_order = order
    it.models.opaque_types = list(opaque)
    o = eqcheck.Opts()
    o.k = k
    paths = good = 0
    bad = why = None
    try:
        for kind, out, st in eqcheck.run(it, f["inst"], None, o):
            paths += 1
            if paths > 20000:
                why = "too many paths"
                break
            if kind == "unsup":
                why = str(out)
            if kind != "ret" or bad:
                continue
            val, muts = out
            if val[0] != "agg" or val[1] != M.RES:
                why = "result is not known: %s" % eqcheck.show(val)[:100]
                continue
            if val[2] != 0:
                continue
            ts, end = muts[1][1], muts[0][1]
            start = ("pos", "arg0")
            if ts[0] != "ts" or not ts[1] or ts[1][0] != ("toks", ("sym", "arg1")):
                bad = ("does not append to the given stream", st)
                continue
            try:
                w = Walk(st.facts)
                pos = w.items(ts[1][1:], start)
                if not w.same(pos, end):
                    raise Wrong("prints the tokens up to %s, but consumed those up to %s" % (eqcheck.show(pos), eqcheck.show(end)))
                good += 1
            except Wrong as e:
                bad = (str(e), st)
            except Odd as e:
                why = str(e)
    except (interp.Unsupported, RecursionError) as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:200])
    if not bad and not order and why and "too many" in why:
        # errors of many alternatives compared with each other: successful parses do not depend on which is furthest
        rep.count("types_with_one_order_of_errors", 1)
        return one(s, rep, name, f, k, opaque, 1)
    rep.functions |= {x for x in it.inlined if not x.startswith("witness::")}
    rep.opaque |= it.opaque_seen
    rep.count("paths", paths)
    rep.count("successful_parses_followed", good)
    if bad:
        rep.violation(name, bad[0], {"path": [eqcheck.show_fact(a, b) for a, b in bad[1].facts.trace][-20:]})
    elif why:
        rep.undecide(name, why)
    else:
        rep.ok(name, paths=paths, followed=good)
    return good


LIT_TEXT = "//@ litkind\npub fn litkind(input: ParseStream<'_>) -> Result<Lit> {\n    <Lit as Parse>::parse(input)\n}\n"


def literal_kind(s, rep, f):
    """a number keeps its kind: the printed form of a signed one starts with a minus sign exactly when it is negative, and the sign is what
    the general literal goes by"""
    it = interp.Interp(s)
    o = eqcheck.Opts()
    it.root = f["inst"]
    ret = it.ty(f["output"])
    names = [v["name"] for v in it.ty(ret["args"][0])["variants"]]
    n = 0
    for kind, out, st in eqcheck.run(it, f["inst"], None, o):
        if kind == "unsup":
            return rep.undecide("lit_kind", str(out))
        if kind != "ret" or out[0][0] != "agg" or out[0][1] != M.RES or out[0][2] != 0:
            continue
        lit = out[0][3][0]
        if lit[0] != "agg" or names[lit[2]] not in ("Int", "Uint"):
            continue
        n += 1
        path = {"path": [eqcheck.show_fact(a, b) for a, b in st.facts.trace]}
        sign = []
        for k, v in st.facts.trace:
            if "base10_digits" not in repr(k) or "base10_parse" in repr(k):
                continue
            if k[0] == "ivlt" and k[1][0] == "len" and k[2] == 1 and v:
                sign.append(False)         # no digits at all
            elif k[0] == "iveq" and k[1][0] == "elem" and k[1][2] == 0 and k[2] == 45:
                sign.append(v)
        if not sign or lit[3][0][0] != "agg":
            rep.undecide("lit_kind:" + names[lit[2]], "the kind is not decided by a leading minus sign")
            continue
        value = lit[3][0][3][0]
        lo, hi, ne = st.facts.interval(value)
        if names[lit[2]] == "Uint":
            if sign[-1]:
                rep.violation("lit_kind:Uint", "a number written with a minus sign becomes an unsigned literal", path)
            else:
                rep.ok("lit_kind:Uint")
        elif not sign[-1]:
            rep.violation("lit_kind:Int", "a number written without a minus sign becomes a signed literal, whose printed form is read back as an unsigned one", path)
        elif hi < 0 or 0 in ne:
            rep.ok("lit_kind:Int")
        else:
            rep.violation("lit_kind:Int", "a signed literal of value zero, read from `-0`, prints `0`, which is read back as an unsigned literal", path, key="lit_kind:negative_zero")
    rep.floor("number kinds of the general literal", n, 2)
