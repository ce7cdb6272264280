"""The checks, by property."""
import time
import glob
import os
import re

from .build import Tree, VERIF, BuildError
from .report import Report
from . import pairs, eqcheck, interp, corpus, compilew, sweep, keywords, fmtcheck, panics, effects, roundtrip, given

PAIR_RULE = ("Abstract interpretation of the compiler's MIR over provenance terms: every path of the named function (library calls looked into or modelled, component parsers and "
             "printers left symbolic) must give the same result, final stream position and written tokens as a reference written from the property; loops are unrolled to a bound.")
TRUST = ["rustc's MIR of the current working tree is what runs", "the models of std, syn and proc_macro2 operations in vlib/models.py",
         "component parsers and printers are functions of the stream position or value they are given", "loops beyond the stated bound behave like those within it"]

CHECKS = {}


def check(pid, level="other", assumptions=TRUST):
    def deco(f):
        CHECKS[pid] = (f, level, assumptions)
        return f
    return deco


def spec_text(name):
    return open(os.path.join(VERIF, "specs", name + ".rs")).read()


def simple(pid, files=None, level="other", floor=None):
    files = files or [pid.lower()]

    def f(T, rep, tier, seed):
        rep.rule = PAIR_RULE
        n = 0
        for fn in files:
            text = spec_text(fn)
            pairs.run_text(T, rep, text, tag="w_" + fn, kadd=3 if tier == "thorough" else 0)
        if floor:
            rep.floor("compared functions", len(rep.items), floor)
    CHECKS[pid] = (f, level, TRUST)


simple("C08", floor=2)
simple("C09", floor=9)
simple("C10", floor=7)
simple("C11", floor=2)
simple("C13", floor=2)
simple("C15", floor=8)
simple("C16", floor=28)
simple("C17", floor=12)
simple("C20", floor=10)
simple("C29", floor=12)
simple("C31", floor=60)
simple("C32", floor=8)


@check("C18")
def c18(T, rep, tier, seed):
    rep.rule = PAIR_RULE + " The literal types are also compared on given values that are easy to get wrong (vlib/given.py), with the text functions evaluated on the known text."
    k = 3 if tier == "thorough" else 0
    pairs.run_text(T, rep, spec_text("c18"), tag="w_c18", kadd=k)
    pairs.run_text(T, rep, given.sections(), tag="g_c18", kadd=k)
    rep.floor("compared functions", len(rep.items), 350)


@check("C19")
def c19(T, rep, tier, seed):
    rep.rule = PAIR_RULE + " Pairs of given literal values (vlib/given.py) are compared with the answers their values alone determine."
    k = 3 if tier == "thorough" else 0
    pairs.run_text(T, rep, spec_text("c19"), tag="w_c19", kadd=k)
    pairs.run_text(T, rep, "parsel::define_keywords!{ pub mod vpkw { select => Select; r#fn => RawFn; _ => Under; } }\n" + given.compared() + given.keywords(), tag="g_c19", kadd=k)
    rep.floor("compared functions", len(rep.items), 220)


@check("C22")
def c22(T, rep, tier, seed):
    rep.rule = PAIR_RULE
    k = 3 if tier == "thorough" else 0
    t = open(os.path.join(VERIF, "specs", "c22_delim.inc")).read()
    text = "".join(t.replace("@d@", d).replace("@D@", d.capitalize()).replace("as_%ss" % d, "as_%ss" % w).replace("into_%ss" % d, "into_%ss" % w) for d, w in (("paren", "paren"), ("bracket", "bracket"), ("brace", "brace")))
    pairs.run_text(T, rep, spec_text("c22") + text, tag="w_c22", kadd=k)
    pairs.run_text(T, rep, spec_text("c15"), tag="w_c15", kadd=k, only=["first_rest", "last_rest"])
    pairs.run_text(T, rep, spec_text("c10"), tag="w_c10", kadd=k, only=["punctuated_collect", "punctuated_extend", "punctuated_collect_pairs", "punctuated_extend_pairs"])
    pairs.run_text(T, rep, spec_text("c09"), tag="w_c09", only=["paren_new", "bracket_new", "brace_new"])
    rep.floor("compared functions", len(rep.items), 75)


@check("C14", assumptions=["rustc's MIR of the current working tree is what runs", "a component parser is a function of the stream position: called again at the same place it does the same",
                            "a component parser that succeeds either consumes something or leaves the stream where it was"])
def c14(T, rep, tier, seed):
    """every parser of the library, with component parsers that may succeed without consuming anything"""
    rep.rule = ("Abstract interpretation of every Parse impl of the library with symbolic component parsers, each of which may succeed with or without consuming input: on no path may a loop "
                "or recursion come round to the same stream position with the same decisions (a lasso in the abstract state graph), because it then repeats for ever.")
    s, _ = pairs.build_witness(T, rep, "")
    if s is None:
        return
    try:
        n = loops = 0
        for f in s.fns("parsel"):
            if f.get("trait") != "syn::parse::Parse" or not f["path"].endswith("::parse"):
                continue
            n += 1
            it = interp.Interp(s)
            it.models.progress = True
            o = eqcheck.Opts()
            o.k = 3 if tier == "thorough" else 2
            name = f["self"] or f["path"]
            npaths = cuts = 0
            bad = unsup = None
            try:
                for kind, out, st in eqcheck.run(it, f["inst"], None, o):
                    npaths += 1
                    cuts += kind == "cut"
                    if kind == "noprogress" and bad is None:
                        bad = (out, [eqcheck.show_fact(k, v) for k, v in st.facts.trace][-30:])
                    if kind == "unsup":
                        unsup = out
                    if bad:
                        break
            except interp.Unsupported as e:
                unsup = str(e)
            rep.functions |= it.inlined
            rep.opaque |= it.opaque_seen
            rep.count("paths", npaths)
            rep.count("paths_cut_at_bound", cuts)
            if cuts:
                loops += 1
                rep.samples.append({"parser": name, "paths": npaths, "paths_repeating_with_progress": cuts})
            if bad:
                rep.violation("%s::parse" % name, "repeats for ever in %s: an iteration can succeed without consuming input and is then taken again unchanged" % bad[0], {"path": bad[1], "loc": f.get("loc")})
            elif unsup:
                rep.undecide(name, unsup)
            else:
                rep.ok(name, paths=npaths, cut=cuts)
        rep.floor("Parse impls of the library", n, 20)
        rep.floor("parsers that repeat", loops, 5)
    finally:
        s.close()


@check("C12", assumptions=TRUST[:2] + ["caller code reaches a separated sequence only through the library's public functions (no unsafe code)"] + TRUST[3:])
def c12(T, rep, tier, seed):
    """an invariant of the type: every public function that makes, takes or changes a separated sequence"""
    rep.rule = ("Typestate invariant over every public function and trait method of the library whose signature mentions Separated: given sequences whose last element is present, on every path each "
                "sequence returned or left behind a mutable reference has one again, no path panics on it, and no mutable reference to the wrapped container leaves; fields are private (compile witness).")
    s, _ = pairs.build_witness(T, rep, "")
    if s is None:
        return
    try:
        n = sweep.separated(s, rep, tier)
    finally:
        s.close()
    rep.floor("functions over Separated", n, 28)
    if len(rep.viol) == 0:
        for nm, src in SEP_FAIL.items():
            res = compilew.failing_sections(T, [compilew.wrap("sep_" + nm, src)], "sepfail", compilew.HEAD)
            if not res["sep_" + nm]:
                rep.violation("witness:" + nm, "code that would break the invariant compiles: %s" % src, {"source": src})
            else:
                rep.ok("witness:" + nm)


SEP_FAIL = {
    "field": "use ::parsel::ast::Separated; pub fn f<T, P>(mut s: Separated<T, P>) { let _ = &mut s.inner; }",
    "construct": "use ::parsel::ast::Separated; pub fn f<T, P>(inner: ::parsel::syn::punctuated::Punctuated<T, P>) -> Separated<T, P> { Separated { inner } }",
    "deref_mut": "use ::parsel::ast::Separated; pub fn f<T, P>(s: &mut Separated<T, P>) { s.clear(); }",
    "as_mut": "use ::parsel::ast::Separated; pub fn f<T, P>(s: &mut Separated<T, P>) { let _: &mut ::parsel::syn::punctuated::Punctuated<T, P> = s.as_mut(); }",
    "default": "use ::parsel::ast::Separated; pub fn f<T, P>() -> Separated<T, P> { ::std::default::Default::default() }",
    "from": "use ::parsel::ast::Separated; pub fn f<T, P>(inner: ::parsel::syn::punctuated::Punctuated<T, P>) -> Separated<T, P> { inner.into() }",
}


DERIVE_RULE = PAIR_RULE + (" Programs: a corpus of struct and enum definitions (all shapes, awkward names, sizes and names taken from constants in the derive's own source, generics, "
                           "where-clauses, recursive fields, seeded random ones), each expanded by the derive of the current tree and compiled by the real compiler.")


def derive_check(pid, defs, which, opts, chain, floor):
    @check(pid, level="translation_validation")
    def f(T, rep, tier, seed):
        rep.rule = DERIVE_RULE
        g = corpus.Gen(seed, T.repo)
        ds = defs(g, tier)
        text = "".join(d.section(which, opts, chain) for d in ds)
        for d in ds[:3]:
            rep.samples.append({"program": d.source(["Parse" if which == "parse" else "ToTokens"] if which != "text" else ["FromStr", "Display"])})
        pairs.run_text(T, rep, text, tag="corpus")
        if os.path.exists(os.path.join(VERIF, "specs", pid.lower() + ".rs")):
            pairs.run_text(T, rep, spec_text(pid.lower()), tag="w_" + pid.lower())
        rep.counts["programs"] = len(ds)
        rep.counts["disagreements_checked"] = rep.counts.get("path_pairs_compared", 0)
        rep.floor("derived programs compared", sum(1 for i in rep.items), floor)


derive_check("C01", corpus.structs, "parse", "err=any", False, 60)
derive_check("C02", corpus.enums, "parse", "err=any blind=1", False, 60)
derive_check("C03", lambda g, t: corpus.structs(g, t) + corpus.enums(g, t, small=True), "parse", "err=words tie=1", True, 120)
derive_check("C04", lambda g, t: corpus.structs(g, t) + corpus.enums(g, t) + corpus.printed(g), "print", "", False, 120)
derive_check("C07", lambda g, t: corpus.structs(g, t) + corpus.enums(g, t, small=t == "quick"), "text", "", False, 250)


def corpus_defs(T, tier, seed):
    g = corpus.Gen(seed, T.repo)
    return corpus.structs(g, tier) + corpus.enums(g, tier) + corpus.std_types(g)


@check("C05", assumptions=["rustc's trait solver decides applicability", "definitions outside the corpus are bounded the same way"])
def c05(T, rep, tier, seed):
    rep.rule = ("Type-level witnesses against the derive of the current tree: a generic function that assumes exactly the allowed predicates must be able to use the derived impl (nothing more is "
                "required), and instantiations that lack one required predicate must not have it (ambiguity witness); each is one module that must type-check.")
    head = compilew.HEAD + compilew.SUPPORT
    secs = [compilew.wrap(n, s) for n, s in compilew.BOUNDS.items()]
    secs += [compilew.wrap(n, s) for n, s in compilew.wide(60 if tier == "thorough" else 20).items()]
    secs += [(d.ident, compilew.bound_section(d)) for d in corpus_defs(T, tier, seed)]
    bad = compilew.compile_sections(T, rep, secs, "bounds", head)
    for n, s in secs:
        if n in bad:
            rep.violation(n, "the derived impls do not apply exactly under the stated bounds: %s" % bad[n], {"source": s[:1500], "error": bad[n]})
        else:
            rep.ok(n)
            if len(rep.samples) < 4:
                rep.samples.append({"witness": n, "source": s[:600]})
    if "crate" in bad:
        rep.violation("crate", bad["crate"])
    rep.floor("bound witnesses", len(secs), 160)


@check("C06", assumptions=["rustc accepts exactly the well-formed expansions", "definitions outside the corpus compile the same way"])
def c06(T, rep, tier, seed):
    rep.rule = ("Compile witnesses against the derive of the current tree: every supported definition of the corpus (with all four derives, awkward names, shadowed prelude, crates, macros, traits and functions, "
                "macro-generated items) must type-check and be usable; every unsupported one must be rejected with an error that is not a macro panic.")
    head = compilew.HEAD + compilew.SUPPORT
    secs = [compilew.wrap(n, s) for n, s in compilew.PASSES.items()]
    secs.append(("no_prelude", "#[no_implicit_prelude] pub mod w_no_prelude { %s pub struct N<A> { a: A, tokens: %s } %s pub enum S { A(%s), B { b: %s }, C } %s }" % (
        compilew.D4, compilew.LI, compilew.D4, compilew.LI, compilew.LI, compilew.PRINT)))
    secs += [(d.ident, "pub mod m_%s { %s }" % (d.ident, d.source(compilew.ALL))) for d in corpus_defs(T, tier, seed)]
    bad = compilew.compile_sections(T, rep, secs, "passes", head)
    for n, s in secs:
        if n in bad:
            rep.violation("accept:" + n, "a supported definition does not compile: %s" % bad[n], {"source": s[:1500], "error": bad[n]})
        else:
            rep.ok("accept:" + n)
            if len(rep.samples) < 3:
                rep.samples.append({"accepted": n, "source": s[:500]})
    if "crate" in bad:
        rep.violation("crate", bad["crate"])
    rep.floor("accepted definitions", len(secs), 180)
    fails = [compilew.wrap(n, s) for n, s in compilew.FAILS.items()]
    res = compilew.failing_sections(T, fails, "fails", compilew.HEAD)
    for n, s in fails:
        m = res[n]
        if not m:
            rep.violation("reject:" + n, "an unsupported definition is accepted silently", {"source": s})
        elif any("panicked" in x for x in m):
            rep.violation("reject:" + n, "the macro panics instead of reporting an error: %s" % m[0], {"source": s, "messages": m[:4]})
        else:
            rep.ok("reject:" + n)
            if len(rep.samples) < 5:
                rep.samples.append({"rejected": n, "message": m[0]})
    rep.floor("rejected definitions", len(fails), 80)


@check("C21", level="translation_validation")
def c21(T, rep, tier, seed):
    rep.rule = PAIR_RULE + (" Programs: keyword lists (Rust keywords, empty, only `_`, prefixes of each other, unsorted, raw identifiers, letter case, non-ASCII words, awkward type names, seeded random ones), "
                            "each expanded by define_keywords! of the current tree and compiled by the real compiler.")
    ls = keywords.lists(seed, tier)
    for l in ls[:2]:
        rep.samples.append({"program": keywords.section(*l).split("\n")[1]})
    pairs.run_text(T, rep, keywords.text(seed, tier), tag="kw")
    rep.counts["programs"] = len(ls)
    rep.counts["disagreements_checked"] = rep.counts.get("path_pairs_compared", 0)
    rep.floor("keyword obligations", len(rep.items), 150)


@check("C25", assumptions=TRUST[:2] + ["Span::start and Span::end give the line and column proc_macro2 documents: lines end at line feeds, columns count characters",
                                          "longer texts behave like those up to the explored number of characters"])
def c25(T, rep, tier, seed):
    rep.rule = PAIR_RULE + (" Source texts are sequences of symbolic characters (each a line feed, a carriage return or any other of any UTF-8 length), the span's lines and columns are symbolic within the text; "
                            "the reference counts characters one by one.")
    pairs.run_text(T, rep, spec_text("c25"), tag="w_c25", kadd=1 if tier == "thorough" else 0)
    rep.floor("compared functions", len(rep.items), 7)


FMT_RULE = ("Abstract interpretation of the formatter over a symbolic token stream, writer and indentation string; formatting the content of a nested group is the induction hypothesis. "
            "Every path's written pieces are judged against the facts the path established about the stream (kind, spacing, delimiter, emptiness); no particular layout is required. ")


@check("C23", assumptions=TRUST[:2] + ["a writer appends what it is given", "longer streams repeat the formatter's loop with no further state than is seen with the number of tokens explored"])
def c23(T, rep, tier, seed):
    rep.rule = FMT_RULE + "Pieces must be the stream's tokens and delimiters once, in order, nested, with whitespace exactly where adjacent tokens need it; the helper functions must be the formatter's own methods."
    s, _ = pairs.build_witness(T, rep, fmtcheck.WITNESS, "w_fmt")
    if s is not None:
        try:
            fmtcheck.guard(fmtcheck.c23, s, rep, tier)
        finally:
            s.close()
    pairs.run_text(T, rep, spec_text("c23"), tag="w_c23")
    rep.floor("compared functions", len(rep.items), 9)


@check("C24", assumptions=TRUST[:2] + ["longer streams repeat the formatter's loop with no further state than is seen with the number of tokens explored"])
def c24(T, rep, tier, seed):
    rep.rule = FMT_RULE + "On success every field but the writer is as before; with a writer that may fail at each write, a failure is returned and nothing is written after it; indentation is accepted only on paths that imply it is all whitespace."
    s, _ = pairs.build_witness(T, rep, fmtcheck.WITNESS, "w_fmt")
    if s is not None:
        try:
            fmtcheck.guard(fmtcheck.c24, s, rep, tier)
        finally:
            s.close()


@check("C30", assumptions=TRUST[:2] + ["a writer appends what it is given", "longer streams repeat the formatter's loop with no further state than is seen with the number of tokens explored"])
def c30(T, rep, tier, seed):
    rep.rule = FMT_RULE.replace("; no particular layout is required", "") + "The whitespace of every path must be the layout by nesting depth: breaks inside non-empty groups, after groups and after commas and semicolons that are followed by more, each line indented once per enclosing group, single spaces elsewhere."
    s, _ = pairs.build_witness(T, rep, fmtcheck.WITNESS, "w_fmt")
    if s is not None:
        try:
            fmtcheck.guard(fmtcheck.c30, s, rep, tier)
        finally:
            s.close()


@check("C26", assumptions=TRUST[:2] + ["a component parser returns", "the library functions named as assumed calls return for every argument", "loops beyond the stated bound behave like those within it"])
def c26(T, rep, tier, seed):
    rep.rule = ("Abstract interpretation of every Parse and FromStr impl of the library, of derived parsers of the definition corpus and of generated keyword types, with component parsers that may succeed or fail "
                "at will: no path may end in a panic, and no library function that panics for some argument may be called. A search of the syntax tree of both crates and of expanded code finds no unsafe code.")
    k = 3 if tier == "thorough" else 2
    g = corpus.Gen(seed, T.repo)
    text = "".join(d.section("text", "", False) for d in corpus.structs(g, "quick") + corpus.enums(g, "quick", small=True))
    kws = keywords.lists(seed, tier)
    text += "".join(keywords.source(*l) for l in kws)
    s, _ = pairs.build_witness(T, rep, text, "w_panic")
    if s is not None:
        try:
            rep.floor("parsers of the library", panics.sweep(s, rep, "parsel", k), 40)
            rep.floor("derived and generated parsers", panics.sweep(s, rep, "witness", k, ["parsel::ast::", "witness::"]), 150)
            panics.unsafe(s, rep, "expanded code", 500)
        finally:
            s.close()
    for what, serve, floor in (("parsel", T.serve_parsel, 500), ("parsel_derive", T.serve_derive, 50)):
        s = serve()
        try:
            panics.unsafe(s, rep, what, floor)
        finally:
            s.close()


@check("C27", assumptions=TRUST[:1] + ["syn, quote, deluxe and the standard library compute on their arguments alone, except for the operations named as sources",
                                          "macro_rules macros expand deterministically"])
def c27(T, rep, tier, seed):
    rep.rule = ("Effect analysis of the derive crate's MIR: over every body reachable from the four derives (calls resolved with their type arguments, closures and attribute parsers included), no call reads the environment, "
                "time, threads, randomness, addresses, source positions or state kept between expansions, and nothing ordered is built from the iteration order of a randomly seeded hash table.")
    s = T.serve_derive()
    try:
        fs = s.fns("parsel_derive")
        entries = [f["inst"] for f in fs if re.match(r"parsel_derive::derive_\w+$", f["path"])]
        e = effects.Effects(s, rep, "parsel_derive")
        e.run(entries + [f["inst"] for f in fs if f.get("trait")])
        rep.count("calls_classified", e.calls)
        rep.floor("derive entry points", len(entries), 4)
        rep.floor("bodies of the derives", e.bodies, 25)
        rep.floor("calls of the derives", e.calls, 200)
    finally:
        s.close()


LEAVES = [k + s for k in ("bool", "byte", "int", "uint", "float", "char", "str", "bytestr", "lit") for s in ("_parse", "_print", "_token")]


@check("C28", assumptions=TRUST[:2] + ["what a component parser returns prints the tokens it consumed (the induction hypothesis)", "parsers are functions of the token stream, whatever its spans",
                                          "proc_macro2 writes literals that syn reads back with the same value; a negative number's token starts with a minus sign"] + TRUST[3:])
def c28(T, rep, tier, seed):
    rep.rule = ("Abstract interpretation of parsing followed by printing, for every structural type of the library (and compositions) and derived types of the definition corpus: on each successful path the printed items are "
                "followed along the consumed tokens, each component where it was parsed, groups with their delimiter, up to the final stream position. Printing is then the inverse of parsing by induction. "
                "Literals are compared with reference parsers and printers; the kind a number is given must be the one its printed form is given.")
    k = 3 if tier == "thorough" else 2
    g = corpus.Gen(seed, T.repo)
    defs = corpus.structs(g, tier) + corpus.enums(g, tier)
    text = roundtrip.builtin_text() + roundtrip.LIT_TEXT + "".join(roundtrip.derived_section(d) for d in defs)
    s, dropped = pairs.build_witness(T, rep, text, "w_round")
    n = 0
    if s is not None:
        try:
            for f in s.fns("witness"):
                if f["path"].endswith("::litkind"):
                    roundtrip.literal_kind(s, rep, f)
                if not f["path"].endswith("__rt"):
                    continue
                b = f["path"].split("::")[-1][:-4]
                name = roundtrip.BUILTIN[int(b[3:])] if b.startswith("lib") else b
                n += 1
                roundtrip.one(s, rep, name, f, k + 1 if b.startswith("lib") else k, [] if b.startswith("lib") else ["parsel::ast::", "witness::"])
        finally:
            s.close()
    rep.floor("types followed", n, 160)
    rep.floor("successful parses followed", rep.counts.get("successful_parses_followed", 0), 300)
    pairs.run_text(T, rep, spec_text("c18"), tag="w_lit", only=LEAVES)


def run(pid, tier, seed):
    f, level, assumptions = CHECKS[pid]
    rep = Report(pid, tier, seed, level, assumptions)
    interp.Interp.deadline = time.monotonic() + (600 if tier == "quick" else 3600)
    with Tree() as T:
        f(T, rep, tier, seed)
    return rep.finish()
