"""No path of any parser ends in a panic (C26)."""
import re

from . import interp, eqcheck, models as M

PARSE = ("syn::parse::Parse", "core::str::traits::FromStr")

# library functions a parser may rely on without risk: they return for every argument
TOTAL = re.compile(
    r"^(core|alloc|std)::(clone|cmp|convert|default|option|result|fmt|marker|borrow|iter|any)::"
    r"|is_infinite|is_nan|is_finite|starts_with|ends_with|::len$|::is_empty|::contains|::eq$|::ne$|::cmp$|::partial_cmp$|::hash$"
    r"|^proc_macro2::(imp::|fallback::)?(TokenStream as core::str::traits::FromStr)"
    r"|::(span|open|close|start|end|value|suffix|base10_digits|base10_parse|token|spacing|as_char|delimiter|stream|byte_range|span_open|span_close|set_span|peek|peek2|peek3|lookahead1|error|fork|advance_to|cursor|parse2|parse_any|peek_any|to_string|to_owned|into_owned|unraw|clone|call_site|mixed_site|def_site|join|resolved_at|located_at|new_opt|combine|to_compile_error|into_compile_error|into_iter|next)$"
    r"|^syn::error::|LexError|::join_spans|len_utf8|parse::Parser|^core::str::|^alloc::str::|^alloc::string::|^core::char::|^core::num::.*(from_str|checked_|saturating_|wrapping_|is_)|^core::f(32|64)::")

# library functions that do not return for some argument
PARTIAL = re.compile(
    r"Index(Mut)?::index$|proc_macro2::(imp::|fallback::)?Ident(>)?::(new|new_raw)|Literal(>)?::f(32|64)_|unwrap|expect|panic|parse_quote|::split_at(_mut)?$|::slice_error|(copy|clone)_from_slice|(Vec|VecDeque|String|Punctuated)(<.*>)?::(remove|swap_remove|insert|insert_str|drain|split_off|replace_range|splice|range|swap)$|String::truncate$"
    r"|str>::get_unchecked|<impl \[T\]>::(swap|copy_within|select_nth_unstable|repeat)|::ilog|::div_euclid$|::rem_euclid$|unreachable|process::|::abort|::exit$|push_value|push_punct|RefCell(<.*>)?::borrow(_mut)?$|from_utf8_unchecked|::rotate|NotNan(<.*>)?::from$")


# of these, the ones that a check of the place beforehand makes safe
GUARDABLE = re.compile(r"Index(Mut)?::index|::split_at|::insert(_str)?$|::drain|::split_off|::remove$|::swap_remove|::truncate|replace_range")
GUARD = re.compile(r"is_char_boundary|char_indices|::find|::rfind|position|floor_char|ceil_char|match_indices|::checked")


def strip(name):
    """without the trailing type arguments"""
    if not name.endswith(">"):
        return name
    d = 0
    for i in range(len(name) - 1, -1, -1):
        if name[i] == ">" and name[i - 1:i] != "-":
            d += 1
        elif name[i] == "<":
            d -= 1
            if d == 0:
                return name[:i] or name
    return name


def classify(name):
    full = name
    name = strip(name)
    n = re.sub(r"<.*", "", name) if not name.startswith("<") else name
    if full.endswith(" of a fixed word"):
        return "total"
    if PARTIAL.search(name):
        return "partial"
    if TOTAL.search(n) or TOTAL.search(name):
        return "total"
    return "unknown"


def positions(t, out):
    if isinstance(t, tuple):
        if t and t[0] == "parse":
            out.append(t)
        for x in t:
            if isinstance(x, tuple):
                positions(x, out)
    return out


def doubtful(trace):
    """the facts of a path may contradict each other in a way the models do not see: a peek that holds where a parser then fails (or the
    reverse), or two library answers about the same value"""
    peeks, parses, answers = {}, {}, {}
    same = {}

    def find(x):
        while same.get(x, x) != x:
            x = same[x]
        return x
    for k, v in trace:
        if k[0] == "b" and k[1][:2] == ("app", "poseq"):
            # comparisons of stream positions answer each other only around a cycle
            x, y = (find(z) for z in k[1][2])
            if x == y:
                return "several comparisons of the same positions"
            same[x] = y
            continue
        if k[0] == "b" and k[1][0] == "okp":
            t = k[1][1]
            if t[0] == "parse":
                parses.setdefault(t[2], []).append(v)
        for nm, args in app_terms(k):
            if nm.startswith("peek:"):
                peeks.setdefault(args[0], []).append(v)
            else:
                for a in (args if nm not in ("cursor", "is_empty") else ()):
                    if a[0] not in ("i", "sym", "str"):
                        answers.setdefault(a, set()).add((nm, args))
    for p in peeks:
        if p in parses or len(peeks[p]) > 1:
            return "a peek and a parser disagree at one place"
    for a, s in answers.items():
        if len(s) > 1:
            return "several library answers about one value %s" % (s,)
    return None


def app_terms(t):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if len(t) >= 3 and t[0] == "app" and isinstance(t[1], str):
                out.append((t[1], t[2]))
            for x in t:
                if isinstance(x, tuple):
                    go(x)
    go(t)
    return out


def sweep(s, rep, crate, k, opaque=()):
    n = 0
    for f in s.fns(crate):
        if f.get("trait") not in PARSE or not f["path"].endswith(("::parse", "::from_str")):
            continue
        n += 1
        name = "%s%s" % (f["self"] or f["path"], "" if f["path"].endswith("::parse") else " from_str")
        one(s, rep, name, f, k, opaque)
    return n


def one(s, rep, name, f, k, opaque):
    it = interp.Interp(s)
    it.models.opaque_types = list(opaque)
    o = eqcheck.Opts()
    o.k = k
    npaths = 0
    bad = why = None
    try:
        for kind, out, st in eqcheck.run(it, f["inst"], None, o):
            npaths += 1
            if kind == "panic":
                d = doubtful(st.facts.trace)
                if d:
                    why = "a panicking path may be impossible: %s" % d
                elif bad is None:
                    bad = ("panics: %s" % (out,), [eqcheck.show_fact(a, b) for a, b in st.facts.trace][-20:])
            elif kind == "unsup":
                why = str(out)
            if npaths > 20000:
                why = "too many paths"
                break
    except (interp.Unsupported, RecursionError) as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:200])
    rep.functions |= it.inlined
    rep.opaque |= it.opaque_seen
    rep.count("paths", npaths)
    if bad is None:
        for c in sorted(it.opaque_seen):
            q = classify(c)
            if q == "partial" and GUARDABLE.search(c) and any(GUARD.search(x) for x in it.opaque_seen):
                q = "unknown"
            if q == "partial":
                bad = ("calls %s, which panics for some arguments" % c, [])
            elif q == "unknown":
                why = why or "calls %s, of which it is not known that it always returns" % c
    if bad:
        rep.violation(name, bad[0], {"path": bad[1], "loc": f.get("loc")})
    elif why:
        rep.undecide(name, why)
    else:
        rep.ok(name, paths=npaths)


def unsafe(s, rep, what, floor):
    r = s.ask("unsafe")
    rep.floor("bodies searched in " + what, r["bodies"], floor)
    rep.count("bodies_searched_for_unsafe", r["bodies"])
    for x in r["found"]:
        rep.violation("unsafe:" + what, "%s at %s" % (x["what"], x["loc"]), x, key="unsafe:%s:%s" % (what, x["what"]))
    if not r["found"]:
        rep.ok("unsafe:" + what, bodies=r["bodies"])
