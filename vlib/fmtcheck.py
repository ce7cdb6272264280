"""Token formatting: every path of the formatter over a symbolic token stream, judged by what it writes.

The written text of a path is a sequence of pieces: literal text, token i of the stream, the indentation string, and
the formatted content of group i. Nested formatting is the induction hypothesis: it writes its own tokens and restores
the state. No particular layout is required.
"""
import re
import os
import time
import traceback

from . import interp, eqcheck
from . import models as M
from .interp import Unsupported

WITNESS = """
pub fn fmt_write<S: AsRef<str>, W: core::fmt::Write>(f: &mut parsel::util::TokenStreamFormatter<S, W>, t: proc_macro2::TokenStream) -> core::fmt::Result { f.write(t) }
pub fn fmt_pretty<W>(w: W) -> parsel::util::TokenStreamFormatter<&'static str, W> { parsel::util::TokenStreamFormatter::pretty(w) }
pub fn fmt_compact<W>(w: W) -> parsel::util::TokenStreamFormatter<&'static str, W> { parsel::util::TokenStreamFormatter::compact(w) }
pub fn fmt_with<S: AsRef<str>, W: core::fmt::Write>(s: S, w: W) -> parsel::Result<parsel::util::TokenStreamFormatter<S, W>> { parsel::util::TokenStreamFormatter::with_indent(s, w) }
"""
FORMATTER = "parsel::util::TokenStreamFormatter"
KINDS = {0: "group", 1: "ident", 2: "punct", 3: "literal"}
DELIMS = {0: ("(", ")"), 1: ("{", "}"), 2: ("[", "]"), 3: None}
STREAM = ("sym", "arg1")


class Layout:
    """which field of the formatter is what, by type"""
    def __init__(self, it, tid):
        t = it.ty(tid)
        self.n = len(t["variants"][0]["fields"])
        self.writer = self.indent = None
        self.scalars = []
        ps = [it.tstr(a) for a in t["args"] if isinstance(a, int)]
        for i, f in enumerate(t["variants"][0]["fields"]):
            ft = it.ty(f[1])
            s = it.tstr(f[1])
            if s == ps[1]:
                self.writer = i
            elif ft["k"] == "adt" and ft["path"] == "core::option::Option" and it.tstr(ft["args"][0]) == ps[0]:
                self.indent = i
            elif ft["k"] in ("uint", "int"):
                self.scalars.append(i)
        self.known = self.writer is not None and self.indent is not None


class Skip(Exception):
    pass


def field(v, i):
    return v[3][i] if v[0] == "agg" else ("proj", v, None, i)


def setup(s, name, writer_ok, k):
    fns = {x["path"].split("::")[-1]: x for x in s.fns("witness")}
    it = interp.Interp(s, k=k, max_paths=200000)
    inst = fns[name]["inst"]
    it.root = inst
    it.models.writer_ok = writer_ok
    return it, inst


def summary(it):
    """formatting the content of a group: writes it and leaves the formatter as it was (induction on nesting)"""
    def recur(st, c):
        inst = c.desc.get("inst")
        if inst is None or not any(fr.inst == inst for fr in st.frames):
            return None
        fmt = stream = None
        for a, t in zip(c.args, c.argtys):
            tt = it.ty(t)
            if tt["k"] == "ref" and it.ty(tt["e"])["k"] == "adt" and it.ty(tt["e"])["path"] == FORMATTER:
                fmt = (a, tt["e"])
            elif tt["k"] == "adt" and tt["path"] == "proc_macro2::TokenStream":
                stream = a
        rt = it.ty(c.retty)
        if fmt is None or stream is None or rt["k"] != "adt" or rt["path"] != "core::result::Result":
            return None
        ref = fmt[0]
        while True:
            v = st.read(ref[1], ref[2])
            if v[0] != "ref":
                break
            ref = v
        lay = Layout(it, fmt[1])
        w = ("ref", ref[1], ref[2] + (("f", None, lay.writer, FORMATTER, lay.n),))
        levels = tuple(a for a, t in zip(c.args, c.argtys) if it.ty(t)["k"] == "uint") or tuple(it.snap(st, st.read(ref[1], ref[2] + (("f", None, i, FORMATTER, lay.n),))) for i in lay.scalars)
        return it.models.wput(st, w, (("inner", it.snap(st, stream), len(st.frames) > 1 and inst == st.frames[1].inst, levels),))
    it.models.recur = recur


def payload(x):
    """element index of a token of the stream, through its payload"""
    if x[0] == "ts" and len(x[1]) == 1 and x[1][0][0] == "toks":
        x = x[1][0][1]
    if x[0] == "proj" and x[3] == 0:
        x = x[1]
    if x[0] == "elem" and x[1] == STREAM:
        return x[2]
    return None


def mentions(x, y):
    if x == y:
        return True
    return isinstance(x, tuple) and any(mentions(z, y) for z in x)


def tok(i):
    return ("elem", STREAM, i)


def pay(i, k):
    return ("proj", tok(i), k, 0)


def app1(facts, name, arg):
    """decided variant of a call on one term"""
    for (k, v) in facts.items():
        if k[0] == "var" and k[1][0] == "app" and k[1][1].startswith(name) and k[1][2] == (arg,):
            return v
    return None


# what turns the text of some token into another text
ALTERING = re.compile(r"^(replace|replacen|unraw|to_(ascii_)?(lower|upper)case|trim_\w*matches|strip_prefix|strip_suffix|repeat|escape_\w+|from_utf8_lossy)$")


def fname(n):
    """name of a function without its type arguments"""
    return n.replace("<impl str>", "").split("<")[0].split("::")[-1]


def altered(x):
    """element index of a token whose text is changed before it is written"""
    seen = False
    while payload(x) is None:
        if x[0] == "str" and len(x[1]) == 1 and x[1][0][0] == "disp":
            x = x[1][0][-1]
        elif x[0] == "app" and x[2] and all(y[0] in ("str", "i", "sym") and not mentions(y, STREAM) or y[0] == "i" for y in x[2][1:]):
            seen = seen or bool(ALTERING.search(fname(x[1])))
            x = x[2][0]
        elif x[0] == "proj" and seen is False:
            x = x[1]
        else:
            return None
    return payload(x) if seen else None


def events(parts, indent, layout=False):
    out = []
    for p in parts:
        if p[0] == "lit":
            for ch in p[1]:
                if ch.isspace():
                    out.append(("ws", ch))
                elif ch in "(){}[]":
                    out.append(("delim", ch))
                else:
                    out.append(("text", ch))
        elif p[0] == "inner":
            g = p[1]
            i = None
            if g[0] == "app" and g[1].startswith("proc_macro2::Group::stream"):
                i = payload(g[2][0])
            if i is None:
                raise Skip("formats a stream it does not hold: %s" % eqcheck.show(g))
            out.append(("inner", i, p[2], p[3]))
        elif p[0] in ("disp", "fwd"):
            x = p[-1]
            if mentions(x, indent):
                out.append(("indent",) if subject(x, ("proj", indent, 1, 0)) else ("indent", "in part"))
                continue
            i = payload(x)
            if i is not None:
                out.append(("tok", i))
                continue
            if x[0] == "app" and x[1].startswith("proc_macro2::Punct::as_char"):
                i = payload(x[2][0])
                if i is not None:
                    out.append(("tok", i))
                    continue
            i = altered(x)
            if i is not None and not layout:
                out.append(("text", eqcheck.show(x)))
                continue
            if i is not None:
                out.append(("tok", i))
                continue
            raise Skip("writes %s" % eqcheck.show(x))
        else:
            raise Skip("writes %r" % (p[0],))
    return out


def expected(n, facts):
    """the tokens of the stream as the facts of the path know them: [(event, kind, info)]"""
    out = []
    for i in range(n):
        k = facts.v.get(("var", tok(i)))
        if k is None:
            raise Skip("the kind of token %d is not looked at" % i)
        kind = KINDS[k]
        if kind == "group":
            g = pay(i, k)
            d = app1(facts.v, "proc_macro2::Group::delimiter", g)
            if d is None:
                raise Skip("the delimiter of group %d is not looked at" % i)
            empty = False
            for (t, iv) in facts.iv.items():
                if t[0] == "len" and t[1][0] == "app" and t[1][1].startswith("proc_macro2::Group::stream") and t[1][2] == (g,):
                    empty = facts.interval(t)[1] == 0
            ch = DELIMS[d]
            if ch is None:
                out.append(("inner", i, empty, True))
            else:
                out.append(("delim", ch[0]))
                out.append(("inner", i, empty, False))
                out.append(("delim", ch[1]))
        elif kind == "punct":
            sp = app1(facts.v, "proc_macro2::Punct::spacing", pay(i, k))
            out.append(("tok", i, sp))
        else:
            out.append(("tok", i, 0))
    return out


def judge(ev, exp, compact):
    """None, or what is wrong"""
    # sequence of tokens
    items = []
    gap = []
    for e in ev:
        if e[0] in ("ws", "indent"):
            gap.append(e)
        elif e[0] == "text":
            return "writes %r, which is no token" % e[1]
        else:
            items.append((e, gap))
            gap = []
    j = 0
    got = []
    prevempty = False
    for x in exp:
        if j < len(items) and items[j][0][:2] == x[:2]:
            got.append((x, items[j][1]))
            j += 1
        elif x[0] == "inner" and x[2]:
            # nothing of an empty group needs writing; whitespace may stand for it
            got.append((x, None))
        else:
            return "expected %s, found %s" % (nm(x), nm(items[j][0]) if j < len(items) else "nothing")
    if j < len(items):
        return "unexpected %s" % nm(items[j][0])
    if compact:
        for e in ev:
            if e[0] == "ws" and e[1] in "\n\r\x0b\x0c\x85\u2028\u2029":
                return "line break in compact mode"
            if e[0] == "indent":
                return "indentation in compact mode"
    prev = None
    through = False      # a group without delimiters lies between
    for x, g in got:
        if g is None:
            if x[3]:
                through = True
            continue
        if prev is not None:
            sure = any(e[0] == "ws" for e in g)
            if x[0] == "delim" or prev[0] == "delim":
                pass
            elif prev[0] == "tok" and x[0] == "tok" and not through:
                if prev[2] == 0 and not sure:
                    return "no whitespace between %s and %s" % (nm(prev), nm(x))
                if prev[2] == 1 and g:
                    return "joined punctuation %s is separated from %s" % (nm(prev), nm(x))
                if prev[2] is None:
                    return "%s is followed by %s whether or not they are joined" % (nm(prev), nm(x))
            elif prev[0] == "tok" and prev[2] != 0:
                pass             # joined to something within a group without delimiters: not defined
            elif not sure:
                return "no whitespace between %s and %s" % (nm(prev), nm(x))
        prev = x
        through = False
    return None


def nm(x):
    if x[0] == "tok":
        return "token %d" % x[1]
    if x[0] == "inner":
        return "the content of group %d" % x[1]
    if x[0] == "delim":
        return "delimiter %r" % x[1]
    return repr(x)


def drive(s, writer_ok, k, modes, levels, done=lambda mode: False):
    """(mode, level, kind, outcome, state, layout) of every path"""
    it, inst = setup(s, "fmt_write", writer_ok, k)
    tid = it.ty(s.body(inst)["locals"][1])["e"]
    lay = Layout(it, tid)
    if not lay.known:
        raise Unsupported("the formatter's writer or indentation field is not recognised")
    summary(it)
    f0 = ("sym", "arg0")
    o = eqcheck.Opts()
    o.k = k
    for mode in modes:
        for lvl in levels:
            if done(mode) or lvl is None and mode == "pretty":
                continue         # any level at all: without indentation to unroll
            f = interp.State().facts
            f.v[("var", field(f0, lay.indent))] = 1 if mode == "pretty" else 0
            for i in lay.scalars:
                f.set_interval(field(f0, i), *((0, None) if lvl is None else (lvl, lvl)))
            it.until = time.monotonic() + 100
            try:
                for kind, out, st in eqcheck.run(it, inst, f, o):
                    yield mode, lvl, kind, out, st, lay, it
                    if done(mode):
                        break
            except Unsupported as e:
                yield mode, lvl, "unsup", str(e), interp.State(), lay, it


def guard(f, s, rep, tier):
    try:
        f(s, rep, tier)
    except (Unsupported, RecursionError) as e:
        rep.undecide("formatter", "%s: %s" % (type(e).__name__, str(e)[:200]))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        rep.undecide("formatter", "analysis gap: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:160], os.path.basename(tb[-1].filename), tb[-1].lineno))


def final(out):
    for name, v in out[1]:
        if name == "argument 0":
            return v
    return ("sym", "arg0")


def trace(st):
    return [eqcheck.show_fact(a, b) for a, b in st.facts.trace][-40:]


def c23(s, rep, tier):
    """tokens once, in order, separated"""
    k = 3 if tier == "thorough" else 2
    levels = (0, 1, 2, None) if tier == "thorough" else (0, 1, None)
    stats = {}
    bad = {}
    skip = {}
    names = ("tokens once, in order, separated", "no line break in compact mode")
    for mode, lvl, kind, out, st, lay, it in drive(s, True, k, ("pretty", "compact"), levels, lambda m: m in bad):
        st_ = stats.setdefault(mode, [0, 0, {}])
        rep.functions |= it.inlined
        rep.opaque |= it.opaque_seen
        if kind == "cut":
            st_[1] += 1
            continue
        st_[0] += 1
        if kind == "unsup":
            skip.setdefault(mode, out)
            continue
        if kind == "panic":
            bad.setdefault(mode, ("panics: %s" % (out,), trace(st)))
            continue
        if kind != "ret":
            skip.setdefault(mode, str(out))
            continue
        res = out[0]
        if not (res[0] == "agg" and res[2] == 0):
            bad.setdefault(mode, ("fails although the writer does not: %s" % eqcheck.show(res), trace(st)))
            continue
        lo, hi, _ = st.facts.interval(("len", STREAM))
        w = field(final(out), lay.writer)
        parts = w[2] if w[0] == "w" else ()
        if w[0] not in ("w", "proj"):
            skip.setdefault(mode, "the writer is %s" % w[0])
            continue
        try:
            if lo != hi:
                # returns without having seen the rest of the stream
                bad.setdefault(mode, ("returns after %d token(s) without looking for more" % lo, trace(st)))
                continue
            ev = events(parts, field(("sym", "arg0"), lay.indent))
            exp = expected(lo, st.facts)
            why = judge(ev, exp, mode == "compact")
        except Skip as e:
            skip.setdefault(mode, str(e))
            continue
        for x in exp:
            key = x[0] + (":%s" % x[1] if x[0] == "delim" else "")
            st_[2][key] = st_[2].get(key, 0) + 1
        if why:
            bad.setdefault(mode, (why, trace(st), eqcheck.show(w)))
    for mode in ("pretty", "compact"):
        n, cuts, seen = stats.get(mode, [0, 0, {}])
        rep.count("paths", n)
        rep.count("paths_cut_at_bound", cuts)
        rep.samples.append({"mode": mode, "tokens_per_stream": k, "paths": n, "pieces": seen})
        name = "formatting a stream (%s)" % mode
        if mode in bad:
            b = bad[mode]
            rep.violation(name, b[0], {"path": b[1], "written": b[2] if len(b) > 2 else None}, key="format:" + mode)
        elif mode in skip:
            rep.undecide(name, skip[mode])
        else:
            rep.ok(name, paths=n)
            rep.floor("paths (%s)" % mode, n, 100)


def char_of(facts, i):
    """what a path knows about the character of punctuation i: (known value or None, excluded values)"""
    k = facts.v.get(("var", tok(i)))
    for t in facts.iv:
        if t[0] == "app" and t[1].startswith("proc_macro2::Punct::as_char") and t[2] == (pay(i, k),):
            lo, hi, ne = facts.interval(t)
            return (lo if lo == hi else None), (lambda c: c in ne or lo is not None and c < lo or hi is not None and c > hi)
    return None, (lambda c: False)


BREAKS = (ord(","), ord(";"))


def layout(ev, exp, mode, lvl, facts):
    """None, or how the whitespace differs from the layout by nesting depth"""
    if not exp:
        return "%r for an empty stream" % (ev,) if any(e[0] != "indent" for e in ev) else None
    items = []
    gap = []
    for e in ev:
        if e[0] in ("ws", "indent"):
            gap.append(e)
        else:
            items.append((e, gap))
            gap = []
    if any(e == ("indent", "in part") for e in ev):
        raise Skip("the indentation is written in a way that is not understood")
    if gap:
        return "whitespace at the end"
    if [e[:2] for e, g in items] != [x[:2] for x in exp if not (x[0] == "inner" and x[2])]:
        if [e[:2] for e, g in items] != [x[:2] for x in exp]:
            raise Skip("the tokens differ (see C23)")
    if any(x[0] == "inner" and x[3] for x in exp):
        raise Skip("invisible")
    nl = [("ws", "\n")]
    ind = lambda k: [("indent",)] * k if mode == "pretty" else []
    exp = [x for x in exp if not (x[0] == "inner" and x[2])]
    if len(exp) != len(items):
        return "the content of an empty group is formatted, whitespace included"
    prev = None
    pretty = mode == "pretty"
    for j, (x, (e, g)) in enumerate(zip(exp, items)):
        other = None
        if prev is None:
            w = ind(lvl)
        elif x[0] == "inner":
            w = nl if pretty else []
            if not known_nonempty(facts, x[1]):
                return "a group that may be empty is laid out over several lines" if g else None
            if pretty:
                if len(e[3]) != 1:
                    raise Skip("the nesting level is not kept in one number")
                if e[3][0] != interp.I(lvl + 1):
                    if not e[2] or not interp.is_int(e[3][0]):
                        raise Skip("the nesting level is kept in another way")
                    return "the content of a group at level %d is formatted at level %s" % (lvl, e[3][0][1])
                if not e[2]:
                    other = w + ind(lvl + 1)
        elif prev[0] == "inner":
            w = (nl if pretty else []) + ind(lvl)
        elif prev[0] == "delim" and prev[1] in "([{" and x[0] == "delim" and x[1] in ")]}":
            w = []
        elif prev[0] == "delim":
            w = nl + ind(lvl) if pretty else [("ws", " ")]
        elif prev[2] == 1:
            w = []
        elif prev[2] == 0:
            w = [("ws", " ")]
            if pretty and prev[3]:
                c, excl = char_of(facts, prev[1])
                if c in BREAKS:
                    w = nl + ind(lvl)
                elif c is None and not all(excl(b) for b in BREAKS):
                    return "%s is followed by the same whitespace whether or not it is a comma or semicolon" % nm(prev)
        else:
            return "%s is followed by %s whether or not they are joined" % (nm(prev), nm(x))
        if g != w and (other is None or g != other):
            return "%s before %s, expected %s" % (gapname(g), nm(x), gapname(w))
        prev = x
    return None


def gapname(g):
    if not g:
        return "nothing"
    n = sum(1 for e in g if e[0] == "indent")
    t = "".join(e[1] for e in g if e[0] == "ws")
    return " and ".join(([repr(t)] if t else []) + (["%d indentation(s)" % n] if n or "\n" in t else []))


def known_nonempty(facts, i):
    k = facts.v.get(("var", tok(i)))
    for t in facts.iv:
        if t[0] == "len" and t[1][0] == "app" and t[1][1].startswith("proc_macro2::Group::stream") and t[1][2] == (pay(i, k),):
            return facts.interval(t)[0] > 0
    return False


def c30(s, rep, tier):
    """line breaks and indentation by nesting depth"""
    th = tier == "thorough"
    runs = [(3 if th else 2, (0, 1, 3) if th else (0, 1)), (1, (2, 40, 300, 1030) if th else (2, 40, 300))]
    stats = {}
    bad = {}
    skip = {}
    for k, levels in runs:
        for mode, lvl, kind, out, st, lay, it in drive(s, True, k, ("pretty", "compact"), levels, lambda m: m in bad):
            st_ = stats.setdefault(mode, [0, 0, 0, {}])
            rep.functions |= it.inlined
            rep.opaque |= it.opaque_seen
            if kind == "cut":
                st_[1] += 1
                continue
            if kind == "unsup":
                skip.setdefault(mode, out)
                continue
            if kind != "ret" or not (out[0][0] == "agg" and out[0][2] == 0):
                continue             # C23
            lo, hi, _ = st.facts.interval(("len", STREAM))
            w = field(final(out), lay.writer)
            if lo != hi or w[0] not in ("w", "proj"):
                continue
            try:
                ev = events(w[2] if w[0] == "w" else (), field(("sym", "arg0"), lay.indent), True)
                exp = [x + (KINDS[st.facts.v[("var", tok(x[1]))]] == "punct",) if x[0] == "tok" else x for x in expected(lo, st.facts)]
                why = layout(ev, exp, mode, lvl, st.facts)
            except Skip as e:
                if str(e) == "invisible":
                    st_[2] += 1
                else:
                    skip.setdefault(mode, str(e))
                continue
            st_[0] += 1
            key = "level %d" % lvl
            st_[3][key] = st_[3].get(key, 0) + 1
            if why:
                bad.setdefault(mode, (why, trace(st), eqcheck.show(w)))
    for mode in ("pretty", "compact"):
        n, cuts, inv, seen = stats.get(mode, [0, 0, 0, {}])
        rep.count("paths", n)
        rep.count("paths_cut_at_bound", cuts)
        rep.count("paths_with_invisible_groups_left_open", inv)
        rep.samples.append({"mode": mode, "paths": n, "by_level": seen})
        name = "layout of a stream (%s)" % mode
        if mode in bad:
            rep.violation(name, bad[mode][0], {"path": bad[mode][1], "written": bad[mode][2]}, key="layout:" + mode)
        elif mode in skip:
            rep.undecide(name, skip[mode])
        else:
            rep.ok(name, paths=n)
            rep.floor("paths (%s)" % mode, n, 100)


def c24(s, rep, tier):
    k = 2
    skip = bad = None
    n = 0
    levels = (0, 1, 2, None) if tier == "thorough" else (0, 1, None)
    for mode, lvl, kind, out, st, lay, it in drive(s, True, k + (tier == "thorough"), ("pretty", "compact"), levels, lambda m: bad is not None):
        rep.functions |= it.inlined
        if kind == "cut":
            continue
        n += 1
        if kind == "unsup":
            skip = skip or out
        elif kind == "ret" and out[0][0] == "agg" and out[0][2] == 0 and bad is None:
            v = final(out)
            for i in lay.scalars + [lay.indent]:
                a, b = field(v, i), field(("sym", "arg0"), i)
                if a == b:
                    continue
                if i in lay.scalars and interp.is_int(a) and a[1] == lvl:
                    continue
                bad = ("ends with %s instead of %s" % (eqcheck.show(a), eqcheck.show(b)), trace(st))
    rep.count("paths", n)
    rep.floor("paths that format a stream", n, 200)
    if bad:
        rep.violation("state after formatting", bad[0], {"path": bad[1]})
    elif skip:
        rep.undecide("state after formatting", skip)
    else:
        rep.ok("state after formatting", paths=n)
    skip = bad = None
    n = fails = 0
    for mode, lvl, kind, out, st, lay, it in drive(s, False, k, ("pretty", "compact"), levels, lambda m: bad is not None):
        if kind == "cut":
            continue
        n += 1
        if kind == "unsup":
            skip = skip or out
            continue
        if bad is not None:
            continue
        failed = any(a[0] == "b" and isinstance(a[1], tuple) and a[1][0] == "wok" and not b for a, b in st.facts.v.items() if isinstance(a, tuple) and len(a) > 1)
        w = field(final(out), lay.writer) if kind == "ret" else None
        if kind == "panic":
            bad = ("panics: %s" % (out,), trace(st))
        elif not failed:
            if not (out[0][0] == "agg" and out[0][2] == 0):
                bad = ("fails although no write failed: %s" % eqcheck.show(out[0]), trace(st))
        else:
            fails += 1
            if not (out[0][0] == "agg" and out[0][2] == 1):
                bad = ("reports success although a write failed", trace(st))
            elif w[0] != "wfail":
                bad = ("goes on writing after a write failed", trace(st))
    rep.count("paths_with_failing_writer", fails)
    rep.floor("paths with a failing write", fails, 100)
    if bad:
        rep.violation("writer errors", bad[0], {"path": bad[1]})
    elif skip:
        rep.undecide("writer errors", skip)
    else:
        rep.ok("writer errors", paths=n, failing=fails)
    ctors(s, rep)


def ctors(s, rep):
    for name, pretty in (("fmt_pretty", True), ("fmt_compact", False)):
        it, inst = setup(s, name, True, 3)
        tid = s.body(inst)["locals"][0]
        lay = Layout(it, tid)
        what = "constructor " + name[4:]
        for kind, out, st in eqcheck.run(it, inst, None, eqcheck.Opts()):
            if kind != "ret" or out[0][0] != "agg":
                rep.undecide(what, str(out)[:200])
                break
            v = out[0]
            ind = field(v, lay.indent)
            if any(field(v, i) != interp.I(0) for i in lay.scalars):
                rep.violation(what, "does not start at nesting level 0", {"value": eqcheck.show(v)})
            elif field(v, lay.writer) != ("sym", "arg0"):
                rep.violation(what, "does not use the writer given", {"value": eqcheck.show(v)})
            elif ind[0] != "agg":
                rep.undecide(what, "indentation is %s" % eqcheck.show(ind))
            elif (ind[2] == 1) != pretty:
                rep.violation(what, "indentation is %s" % eqcheck.show(ind), {"value": eqcheck.show(v)})
            elif pretty and ind[3][0][0] == "str" and not all(p[0] == "lit" and p[1].isspace() for p in ind[3][0][1]):
                rep.violation(what, "indentation is not whitespace: %s" % eqcheck.show(ind), {"value": eqcheck.show(v)})
            elif pretty and ind[3][0][0] != "str":
                rep.undecide(what, "indentation is %s" % eqcheck.show(ind))
            else:
                rep.ok(what)
    it, inst = setup(s, "fmt_with", True, 3)
    what = "constructor with_indent"
    yes = set()
    no = set()
    unclear = None
    for kind, out, st in eqcheck.run(it, inst, None, eqcheck.Opts()):
        if kind == "cut":
            continue
        if kind != "ret" or out[0][0] != "agg":
            rep.undecide(what, str(out)[:200])
            return
        d = blank(st.facts, ("sym", "arg0"))
        if d is None and out[0][2] == 0 and uninformed(st.facts, ("sym", "arg0")):
            rep.violation(what, "accepts indentation that is not all whitespace", {"path": trace(st)})
            return
        if d is None:
            unclear = unclear or trace(st)[-3:]
            continue
        good = out[0][2] == 0
        (yes if good else no).add(d)
        if good and d is not True or not good and d is True:
            rep.violation(what, "accepts indentation that is not all whitespace" if good else "rejects whitespace", {"path": trace(st)})
            return
        if good:
            t = it.ty(s.body(inst)["locals"][0])
            lay = Layout(it, t["args"][0])
            v = out[0][3][0]
            ind = field(v, lay.indent)
            if ind != ("agg", "core::option::Option", 1, (("sym", "arg0"),)) and not (ind[0] == "agg" and ind[2] == 1 and ind[3] == (("sym", "arg0"),)):
                rep.violation(what, "does not keep the indentation given: %s" % eqcheck.show(ind), {})
                return
            if any(field(v, i) != interp.I(0) for i in lay.scalars) or field(v, lay.writer) != ("sym", "arg1"):
                rep.violation(what, "does not start at level 0 with the writer given: %s" % eqcheck.show(v), {})
                return
    if unclear is not None:
        rep.undecide(what, "does not ask whether all characters are whitespace in a way that is understood: %s" % unclear)
    elif yes and no:
        rep.ok(what)
    else:
        rep.violation(what, "%s every indentation" % ("accepts" if yes else "rejects"), {})


def subject(x, s):
    """x is the text of s: the value itself, read as a string slice"""
    while x != s:
        if x[0] == "app" and len(x[2]) == 1 and x[1].split("<")[0] in ("core::convert::AsRef::as_ref", "core::ops::deref::Deref::deref", "alloc::string::String::as_str"):
            x = x[2][0]
        elif x[0] == "str" and len(x[1]) == 1 and x[1][0][0] == "disp":
            x = x[1][0][1]
        else:
            return False
    return True


CUTS = re.compile(r"^(lines|split\w*|rsplit\w*|chars|char_indices|next)$")


def within(x, s):
    """x is a piece of the text of s"""
    while not subject(x, s):
        if x[0] == "elem" or x[0] == "proj":
            x = x[1]
        elif x[0] == "app" and x[2] and (CUTS.search(fname(x[1])) or fname(x[1]) in TRIM):
            x = x[2][0]
        else:
            return False
    return True


TRIM = ("trim", "trim_start", "trim_end", "trim_left", "trim_right")


REFUTING = re.compile(r"^(contains|starts_with|ends_with|is_empty|eq|is_ascii_punctuation|is_alphabetic|is_alphanumeric|is_ascii_alphabetic|is_ascii_alphanumeric|is_control|is_ascii_graphic)$")


def uninformed(facts, s):
    """nothing a path knows about s can imply that it is whitespace: only its length, and what it is not"""
    for k, v in list(facts.v.items()):
        if mentions(k, s):
            if not (k[0] == "b" and k[1][0] == "app" and v is False and REFUTING.search(fname(k[1][1])) and subject(k[1][2][0], s)):
                return False
    for t in facts.iv:
        if mentions(t, s):
            lo, hi, _ = facts.interval(t)
            if not (t[0] == "len" and (subject(t[1], s) or t[1][0] == "app" and t[1][1] == "chars" and subject(t[1][2][0], s)) and hi != 0):
                return False
    return not any(mentions(x, s) for x in facts.order)


def blank(facts, s):
    """what a path knows about 's consists of whitespace': True, False or None"""
    chars = {}
    n = None
    for t in facts.iv:
        if t[0] != "len":
            continue
        lo, hi, _ = facts.interval(t)
        x = t[1]
        if subject(x, s):
            if hi == 0:
                return True
        elif x[0] == "app" and fname(x[1]) in TRIM and subject(x[2][0], s):
            if hi == 0:
                return True
            if lo > 0:
                return False
        elif x[0] == "app" and x[1] == "chars" and subject(x[2][0], s):
            n = hi
        elif lo > 0 and x[0] == "app" and fname(x[1]) in TRIM and within(x[2][0], s):
            return False
    for (a, b, r) in facts.order:
        for x, y in ((a, b), (b, a)):
            if y == ("str", ()) and x[0] == "app" and fname(x[1]) in TRIM and subject(x[2][0], s):
                return r == "eq"
    for k, v in facts.v.items():
        if k[0] == "b" and k[1][0] == "app" and "is_whitespace" in k[1][1] and "ascii" not in k[1][1]:
            c = k[1][2][0]
            if c[0] == "elem" and c[1][0] == "app" and c[1][1] == "chars" and subject(c[1][2][0], s):
                chars[c[2]] = v
        if k[0] == "var" and k[1][0] == "app" and fname(k[1][1]) == "next" and k[1][2] and k[1][2][0][0] == "app":
            w = k[1][2][0]
            if fname(w[1]) == "split_whitespace" and subject(w[2][0], s):
                return v == 0
            if fname(w[1]) == "lines" and subject(w[2][0], s) and v == 0:
                return True
    if any(v is False for v in chars.values()):
        return False
    if n is not None and all(chars.get(i) for i in range(n if n < 50 else 0)) and n < 50:
        return True
    if chars or n is not None:
        return "partly"
    return None
