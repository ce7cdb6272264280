"""Decides that a function of the tree under test computes the same abstract outcome as a reference written
from the property, on every path: both are interpreted over provenance terms (vlib/interp.py), the reference under
the branch facts of each path of the analysed function."""
import random
import re
import time

from . import interp
from .interp import Interp, State, NeedSplit, Unsupported, PathEnd, INF, I, UNIT
from . import models as M


class Opts:
    def __init__(self):
        self.k = 3
        self.opaque = []
        self.opaque_fns = []
        self.err = "exact"        # exact | words | any
        self.tie = False
        self.pos = True
        self.writer_ok = True
        self.must = 1             # at least so many compared paths
        self.blind = False
        self.seqeq = False
        self.hash = "exact"       # weak: what is hashed has only to be determined by what the reference hashes
        self.rec = False          # recursive comparisons are the induction hypothesis


def parse_opts(text):
    """lines  //@ name key=value ..."""
    out = {}
    for m in re.finditer(r"^\s*//@ (\w+)(.*)$", text, re.M):
        o = Opts()
        for kv in m.group(2).split():
            k, _, v = kv.partition("=")
            if k == "k":
                o.k = int(v)
            elif k == "opaque":
                o.opaque = v.split(",")
            elif k == "opaque_fns":
                o.opaque_fns = v.split(",")
            elif k == "err":
                o.err = v
            elif k == "tie":
                o.tie = v != "0"
            elif k == "pos":
                o.pos = v != "0"
            elif k == "writer":
                o.writer_ok = v == "ok"
            elif k == "seqeq":
                o.seqeq = v != "0"
            elif k == "rec":
                o.rec = v != "0"
            elif k == "hash":
                o.hash = v
            elif k == "blind":
                o.blind = v != "0"
            elif k == "must":
                o.must = int(v)
            else:
                raise ValueError("option " + k)
        out[m.group(1)] = o
    return out


# library plumbing whose exact meaning is not modelled: a difference that involves one of these only on the
# analysed side is not evidence of a wrong outcome
PLUMBING = ("core::iter::", "alloc::vec::", "core::slice::", "alloc::slice::", "alloc::collections::", "std::collections::", "core::mem::", "core::array::",
            "alloc::string::", "alloc::str::", "core::str::iter", "alloc::rc::", "alloc::sync::", "core::cell::", "core::ptr::", "core::num::", "core::char::", "std::io::", "core::ops::",
            "core::convert::", "syn::punctuated::", "<fn pointer>", "core::fmt::", "core::str::", "alloc::boxed::", "alloc::fmt::", "core::any::", "transmute:", "cast:", "core::cmp::", "core::hint::", "core::intrinsics::")
CHANGING = re.compile(r"trim|lowercase|uppercase|::rev\b|reverse|skip|take\b|step_by|dedup|sort|retain|replace|repeat|truncate|drain|split_off|rotate|strip|wrapping|saturating|abs|round|floor|ceil|trunc|signum|::neg\b|::swap|clear|remove|filter|from_str_radix|to_degrees|sqrt|overflowing|utf8_lossy")


def apps(t, out):
    if isinstance(t, (tuple, list)):
        if len(t) >= 2 and t[0] == "app" and isinstance(t[1], str):
            out.add(t[1])
        for x in t:
            if isinstance(x, (tuple, list)):
                apps(x, out)
    return out


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 7:
        return "…"
    k = t[0]
    s = lambda x: show(x, d + 1)
    if k == "i":
        return str(t[1])
    if k == "sym":
        return str(t[1])
    if k == "pos":
        return "start of %s" % t[1]
    if k == "val":
        return "value(%s)" % s(t[1])
    if k == "err":
        return "error(%s)" % s(t[1])
    if k == "after":
        return "after(%s)" % s(t[1])
    if k == "fail":
        return "failing(%s)" % s(t[1])
    if k == "inside":
        return "inside(%s)" % s(t[1])
    if k == "parse":
        return "%s @ %s" % (t[1], s(t[2]))
    if k == "proj":
        return "%s.%s" % (s(t[1]), t[3] if t[2] is None else "%s:%s" % (t[2], t[3]))
    if k == "elem":
        return "%s[%s]" % (s(t[1]), t[2])
    if k == "agg":
        n = t[1].split("::")[-1] if isinstance(t[1], str) else "?"
        if t[1] == M.RES and t[2] is not None:
            n = ("Ok", "Err")[t[2]]
        elif t[1] == M.OPT and t[2] is not None:
            n = ("None", "Some")[t[2]]
        elif t[2] is not None:
            n += "#%s" % t[2]
        return "%s(%s)" % ("" if n == "tup" else n, ", ".join(s(x) for x in t[3]))
    if k in ("vec", "arr"):
        return "[%s]" % ", ".join(s(x) for x in t[1])
    if k == "ts":
        return "tokens[%s]" % ", ".join(s(x[1]) if x[0] == "toks" else repr(x) for x in t[1])
    if k == "str":
        return "text\"%s\"" % "".join(p[1] if p[0] == "lit" else "{%s}" % s(p[1]) for p in t[1])
    if k == "mkerr":
        return "new error at %s: %s" % (s(t[1]), s(("str", t[2])))
    if k == "app":
        return "%s(%s)" % (re.sub(r"<.*", "", t[1]), ", ".join(s(x) for x in t[2]))
    if k == "len":
        return "len(%s)" % s(t[1])
    if k == "not":
        return "!" + s(t[1])
    if k == "cmpop":
        return "%s(%s, %s)" % (t[1], s(t[2]), s(t[3]))
    if k == "w":
        return "written[%s]" % s(("str", t[2]))
    return "(%s)" % " ".join(s(x) if isinstance(x, tuple) else str(x) for x in t)


def show_fact(k, v):
    if k[0] == "b" and k[1][0] == "okp":
        return "%s %s" % (show(k[1][1]), "succeeds" if v else "fails")
    if k[0] == "b":
        return "%s is %s" % (show(k[1]), v)
    if k[0] == "var":
        return "%s is variant #%s" % (show(k[1]), v)
    if k[0] == "order":
        return "%s %s %s" % (show(k[1]), {-1: "<", 0: "=", 1: ">"}[v], show(k[2]))
    if k[0] == "iveq":
        return "%s %s %s" % (show(k[1]), "==" if v else "!=", k[2])
    if k[0] == "ivlt":
        return "%s %s %s" % (show(k[1]), "<" if v else ">=", k[2])
    return "%s = %s" % (k, v)


class Mismatch(Exception):
    def __init__(self, where, a, b):
        self.where = where
        self.a = a
        self.b = b


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "ok"          # ok | violation | undecided
        self.why = ""
        self.paths = 0              # paths of the analysed function
        self.compared = 0           # path pairs compared equal
        self.cuts = 0
        self.unsupported = []
        self.functions = set()
        self.opaque = set()
        self.detail = None
        self.cutwhy = {}

    def js(self):
        d = {"name": self.name, "status": self.status, "paths": self.paths, "compared": self.compared, "bounded_paths": self.cuts}
        if self.why:
            d["why"] = self.why[:300]
        return d


class Comparer:
    def __init__(self, it, opts):
        self.it = it
        self.o = opts
        self.tie = opts.tie
        self.cands = []         # the errors of the single alternatives, if the reference lists them

    def st(self, facts):
        s = State()
        s.facts = facts
        return s

    def norm(self, t, f):
        st = self.st(f)
        if t[0] in ("sym", "app", "proj", "val", "elem", "len", "lin"):
            return self.it.scalar(st, t)
        if t[0] in ("not", "cmpop"):
            try:
                return I(1 if self.it.truth(st, t) else 0)
            except NeedSplit:
                return t
        return t

    def boolish(self, t):
        return t[0] in ("not", "cmpop") or (t[0] == "i" and t[1] in (0, 1)) or t[0] in ("app", "proj", "val", "sym", "okp")

    def cmp(self, a, b, f, where):
        if a == b:
            return
        a = self.norm(a, f)
        b = self.norm(b, f)
        if a == b:
            return
        st = self.st(f)
        if (a[0] in ("not", "cmpop") or b[0] in ("not", "cmpop")) and self.boolish(a) and self.boolish(b):
            if self.it.truth(st, a) != self.it.truth(st, b):
                raise Mismatch(where, a, b)
            return
        ka, kb = a[0], b[0]
        if ka == "agg" and kb == "agg":
            if a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3]):
                if not (a[3] == () and b[3] == () and a[2] is None and b[2] is None):
                    raise Mismatch(where, a, b)
            iserr = a[1] == M.RES and a[2] == 1
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                if iserr:
                    self.cmperr(x, y, f, where + ".err")
                else:
                    self.cmp(x, y, f, where + "." + str(i))
            return
        if ka == "agg" or kb == "agg":
            g, t, flip = (a, b, False) if ka == "agg" else (b, a, True)
            if t[0] in ("sym", "app", "proj", "val", "elem", "mut", "const", "err"):
                if not g[3] and g[2] is None:
                    return          # a unit-like value carries no information
                if g[2] is not None:
                    v = f.v.get(("var", t))
                    if v is None:
                        raise NeedSplit(("var", t), self.variants(g, t))
                    if v != g[2]:
                        raise Mismatch(where, a, b)
                iserr = g[1] == M.RES and g[2] == 1
                for i, x in enumerate(g[3]):
                    y = ("proj", t, g[2], i)
                    (self.cmperr if iserr else self.cmp)(*((y, x) if flip else (x, y)), f, where + "." + str(i))
                return
            raise Mismatch(where, a, b)
        if ka in ("vec", "arr") and kb in ("vec", "arr"):
            if len(a[1]) != len(b[1]):
                raise Mismatch(where, a, b)
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                self.cmp(x, y, f, where + "[%d]" % i)
            return
        if ka in ("vec", "arr") or kb in ("vec", "arr"):
            g, t, flip = (a, b, False) if ka in ("vec", "arr") else (b, a, True)
            if t[0] in ("sym", "app", "proj", "val", "elem", "mut", "const"):
                lo, hi, ne = f.interval(("len", t))
                n = len(g[1])
                if n < lo or n > hi or n in ne:
                    raise Mismatch(where, a, b)
                if lo != hi:
                    raise NeedSplit(("iveq", ("len", t), n), [True, False])
                for i, x in enumerate(g[1]):
                    y = ("elem", t, i)
                    self.cmp(*((y, x) if flip else (x, y)), f, where + "[%d]" % i)
                return
            raise Mismatch(where, a, b)
        if ka in ("mkerr", "err") and kb in ("mkerr", "err"):
            return self.cmperr(a, b, f, where)
        if ka == kb == "app" and a[1] == b[1] and len(a[2]) == len(b[2]) or (ka == kb and ka in ("proj", "elem", "mut", "val", "after", "fail", "inside", "parse", "spanof", "len", "sliceit", "vecit", "pit", "it") and len(a) == len(b)):
            for x, y in zip(a[1:], b[1:]):
                if x == y:
                    continue
                if isinstance(x, tuple) and isinstance(y, tuple):
                    if x and y and isinstance(x[0], str) and isinstance(y[0], str):
                        self.cmp(x, y, f, where)
                    elif len(x) == len(y):
                        for p, q in zip(x, y):
                            if p != q:
                                if isinstance(p, tuple) and isinstance(q, tuple):
                                    self.cmp(p, q, f, where)
                                else:
                                    raise Mismatch(where, a, b)
                    else:
                        raise Mismatch(where, a, b)
                else:
                    raise Mismatch(where, a, b)
            return
        if ka == kb == "ts":
            a = ("ts", spread(a[1], f))
            b = ("ts", spread(b[1], f))
        if ka == kb == "ts" and len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                if x[0] != y[0]:
                    raise Mismatch(where, a, b)
                if x[0] == "toks":
                    self.cmp(x[1], y[1], f, where + "tok%d" % i)
                elif x != y:
                    raise Mismatch(where, a, b)
            return
        if ka == "str" or kb == "str" or self.charof(a) or self.charof(b):
            pa, pb = self.textparts(a, f), self.textparts(b, f)
            if self.parts_eq(pa, pb, f):
                return
            for p in pa + pb:
                if p[0] in ("fmtspec", "debug", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary") and not symbolic(p):
                    raise Unsupported("formatting of a known value")
        if ka == kb == "w":
            self.cmp(a[1], b[1], f, where)
            if self.parts_eq(a[2], b[2], f):
                return
        raise Mismatch(where, a, b)

    def variants(self, g, t):
        return VARCOUNT(self.it, g)

    def charof(self, t):
        return t[0] == "elem" and t[1][0] == "app" and t[1][1] == "chars"

    def textparts(self, t, f):
        """the parts of a text, those whose characters are known in number one by one"""
        if t[0] == "str":
            src = t[1]
        elif t[0] in ("i", "vec", "arr", "agg"):
            return ((t,),)
        else:
            src = (("disp", t),)
        out = []
        for p in src:
            x = p[1]
            n = None
            if p[0] == "disp" and len(p) == 2 and isinstance(x, tuple) and not self.charof(x):
                cs = ("app", "chars", (x,))
                lo, hi, _ = f.interval(("len", cs))
                if lo == hi:
                    n = lo
                elif f.interval(("len", x))[1] == 0:
                    n = 0
            if n is None:
                out.append(p)
            else:
                out.extend(("disp", ("elem", cs, i)) for i in range(n))
        return tuple(out)

    def parts_eq(self, p, q, f):
        if len(p) != len(q):
            return False
        for x, y in zip(p, q):
            if x == y:
                continue
            if x[0] != y[0] or x[0] == "lit" or len(x) != len(y):
                return False
            for u, v in zip(x[1:], y[1:]):
                if u == v:
                    continue
                if isinstance(u, tuple) and isinstance(v, tuple) and u and v and isinstance(u[0], str) and isinstance(v[0], str):
                    try:
                        self.cmp(u, v, f, "")
                    except Mismatch:
                        return False
                else:
                    return False
        return True

    def cmphash(self, a, b, f, where):
        """what is fed to the hasher is fixed by what the reference feeds to it"""
        def flat(t):
            out = []
            while True:
                u = t[1] if t[0] == "mut" and t[2] == 0 else t
                if u[0] != "app" or not u[1].startswith(("hashed:", "core::hash::Hasher::write")) or len(u[2]) != 2:
                    return out, t
                out.append(u[2][1])
                t = u[2][0]
        x, r = flat(a)
        y, q = flat(b)
        self.cmp(r, q, f, where)
        for t in x:
            self.known(t, y, f, where)

    def known(self, t, y, f, where):
        if t[0] in ("i", "str"):
            return
        if t[0] in ("agg", "vec", "arr"):
            for z in t[3] if t[0] == "agg" else t[1]:
                self.known(z, y, f, where)
            return
        u = t
        while True:
            for z in y:
                try:
                    self.cmp(u, z, f, where)
                    return
                except Mismatch:
                    pass
                if within(u, z):
                    return
            if u[0] in ("proj", "elem", "len"):
                u = u[1]
            else:
                break
        raise Mismatch(where, t, ("vec", tuple(y)))

    def cmperr(self, a, b, f, where):
        if a == b or self.o.err == "any":
            return
        if self.tie:
            # of errors that end equally far any one may be reported, but each only with its own message
            self.tie = False
            try:
                try:
                    return self.cmperr(a, b, f, where)
                except Mismatch as m:
                    # without a list of what the alternatives report: the very error of another alternative
                    own = not self.cands and self.endterm(a) != self.endterm(b)
                    for c in self.cands:
                        try:
                            self.cmperr(a, c, f, where)
                            own = True
                            break
                        except Mismatch:
                            pass
                    if not own:
                        raise m
                    if f.rel(self.endterm(a), self.endterm(b)) != 0:
                        raise m
                    return
            finally:
                self.tie = True
        if a[0] == "mkerr" and b[0] == "mkerr":
            self.cmp(a[1], b[1], f, where + ".span")
            self.cmpmsg(a[2], b[2], f, where)
            return
        if a[0] not in ("mkerr", "err") or b[0] not in ("mkerr", "err"):
            if a[0] != "agg" or b[0] != "agg":
                try:
                    return self.cmp(a, b, f, where) if (a[0] not in ("mkerr", "err") and b[0] not in ("mkerr", "err")) else self._mm(where, a, b)
                except RecursionError:
                    pass
        if a[0] == "agg" and b[0] == "agg":
            return self.cmp(a, b, f, where)
        raise Mismatch(where, a, b)

    def _mm(self, where, a, b):
        raise Mismatch(where, a, b)

    def endterm(self, e):
        return self.it.models.span_end(self.it.models.errspan(e))

    def cmpmsg(self, p, q, f, where):
        if self.o.err == "span":
            return
        if self.o.err != "words":
            if not self.parts_eq(p, q, f):
                raise Mismatch(where + ".message", ("str", p), ("str", q))
            return
        gp, gq = groups(p), groups(q)
        if len(gp) != len(gq):
            raise Mismatch(where + ".message", ("str", p), ("str", q))
        for x, y in zip(gp, gq):
            if isinstance(x, str) and isinstance(y, str):
                i = 0
                if "r#" not in y:
                    x = re.sub(r"\br#", "", x)
                for w in re.findall(r"[\w#]+", y):
                    m = re.compile(r"(?<![\w#])" + re.escape(w) + r"(?![\w#])").search(x, i)
                    if m is None:
                        raise Mismatch(where + ".message", ("str", p), ("str", q))
                    i = m.end()
            else:
                if not self.parts_eq((x,), (y,), f):
                    raise Mismatch(where + ".message", ("str", p), ("str", q))


def within(u, z):
    """u is one of the parts z is built from"""
    if u == z:
        return True
    if z[0] == "agg":
        return any(within(u, p) for p in z[3])
    if z[0] in ("vec", "arr"):
        return any(within(u, p) for p in z[1])
    return False


def groups(parts):
    out = [""]
    for p in parts:
        if p[0] == "lit":
            out[-1] += p[1]
        else:
            out.append(p)
            out.append("")
    return out


def VARCOUNT(it, g):
    n = it.enum_counts.get(g[1]) if hasattr(it, "enum_counts") else None
    return list(range(n or 2))


def init_args(it, st, body):
    args = []
    names = body.get("argnames") or []
    for i in range(body["argc"]):
        tid = body["locals"][i + 1]
        nm = names[i] if i < len(names) and names[i] else "arg%d" % i
        args.append(init_value(it, st, tid, nm))
    return args


def init_value(it, st, tid, nm):
    t = it.ty(tid)
    if t["k"] == "ref":
        e = it.ty(t["e"])
        if e["k"] == "adt" and e["path"] == "syn::parse::ParseBuffer":
            return ("ref", st.alloc(("pb", ("pos", nm))), ())
        if e["k"] == "adt" and e["path"] == "proc_macro2::TokenStream" and t["mut"]:
            return ("ref", st.alloc(("ts", (("toks", ("sym", nm)),))), ())
        return ("ref", st.derefcell(("sym", nm)), ())
    if t["k"] == "tuple":
        if not t["fields"]:
            return UNIT
        return ("agg", "tup", None, tuple(init_value(it, st, f, nm + "." + str(i)) for i, f in enumerate(t["fields"])))
    return ("sym", nm)


def run(it, inst, facts, opts, entry=True):
    """all outcomes of a function under given facts, then those with limits beyond the loop bound lowered into it"""
    it.sites = {}
    cut = False
    for o in run1(it, inst, facts, opts, entry):
        cut = cut or o[0] == "cut"
        yield o
    low = lowered(it) if cut else None
    if low:
        it.scale = low
        it.lowered_limits = low
        until, it.until = it.until, time.monotonic() + 15
        it.rng = random.Random(1)
        try:
            yield from run1(it, inst, facts, opts, entry, max(opts.k, 2 + max(v for m in low.values() for v in m.values())))
        finally:
            it.scale = {}
            it.until = until
            it.rng = None


def run1(it, inst, facts, opts, entry=True, k=None):
    """all outcomes of a function under given facts"""
    it.root = inst
    it.k = k or opts.k
    body = it.sv.body(inst)
    if "error" in body:
        raise Unsupported("no body: " + body["error"])
    st = State()
    st.entry_fresh = entry
    if facts is not None:
        st.facts = facts.copy()
    args = init_args(it, st, body)
    for a, i in zip(args, range(body["argc"])):
        if a[0] == "sym" and it.ty(body["locals"][i + 1])["k"] == "uint":
            st.facts.set_interval(a, lo=0)
    it.push(st, inst, args, None, None)
    tys = [it.ty(body["locals"][i + 1]) for i in range(body["argc"])]
    for kind, val, s in it.explore(st):
        if kind == "ret":
            v = it.snap(s, val)
            muts = []
            for i, (a, t) in enumerate(zip(args, tys)):
                if t["k"] != "ref":
                    continue
                e = it.ty(t["e"])
                if e["k"] == "adt" and e["path"] == "syn::parse::ParseBuffer":
                    x = s.read(a[1], a[2])
                    muts.append(("stream position", x[1]))
                elif t["mut"]:
                    muts.append(("argument %d" % i, it.snap(s, a)))
            yield kind, (v, muts), s
        else:
            yield kind, val, s


def lowered(it):
    """limits on counts that no explored path reached, each read as a small number: a new, finite question"""
    ref = lambda site: site[0].startswith("witness::")
    known = {c for site, e in it.sites.items() if ref(site) for c in e}
    todo = {}
    for site, e in it.sites.items():
        if ref(site):
            continue
        for c, o in e.items():
            # decided the same way at every count met so far, or decided for unknown counts
            if c not in known and (len(o) == 1 or len(o) == 3):
                todo.setdefault(site, []).append(c)
    vals = sorted({c for cs in todo.values() for c in cs})
    new = {}
    cur, last = 1, None
    for c in vals:
        cur += 1 if last is None else min(c - last, 2)
        new[c] = cur
        last = c
    return {s: {c: new[c] for c in cs} for s, cs in todo.items()}


def errors_of(it, inst, opts):
    out = []
    for kind, val, s in run1(it, inst, None, opts, entry=False):
        if kind == "unsup":
            raise Unsupported("reference: " + val)
        if kind == "ret" and val[0][0] == "agg" and val[0][1] == M.RES and val[0][2] == 1 and val[0][3][0] not in out:
            out.append(val[0][3][0])
    return out


def hypothesis(it):
    """a comparison within the same comparison, of smaller values: whatever it says, both sides get the same answer"""
    def recur(st, c):
        if not any(fr.inst == c.desc.get("inst") for fr in st.frames) or c.desc.get("inst") is None:
            return None
        ts = [it.ty(t) for t in c.argtys]
        if len(ts) == 2 and ts[1]["k"] == "ref" and ts[1]["mut"] and it.ty(c.retty)["k"] == "tuple":
            ref, v = it.models.wref(st, c.args[1])
            st.write(ref[1], ref[2], ("app", "hashed:recursively", (it.snap(st, v), it.snap(st, c.args[0]))))
            return UNIT
        if len(ts) != 2 or any(t["k"] != "ref" for t in ts) or it.ty(c.retty)["k"] != "bool":
            return None
        p = [f for f in (c.desc.get("path") or "").split("::")][-1]
        same = ("app", "eq", tuple(sorted((it.snap(st, a) for a in c.args), key=repr)))
        if p == "ne":
            return I(int(not it.truth(st, same)))
        return same
    return recur


def compare(it, name, iinst, sinst, opts, maxpairs=20000, cinst=None):
    res = Result(name)
    it.models.opaque_types = opts.opaque
    it.models.opaque_fns = opts.opaque_fns
    it.models.writer_ok = opts.writer_ok
    it.models.errblind = opts.blind
    it.models.seqeq = opts.seqeq
    it.models.recur = hypothesis(it) if opts.rec else None
    it.inlined = set()
    it.opaque_seen = set()
    cp = Comparer(it, opts)
    try:
        if cinst is not None:
            cp.cands = errors_of(it, cinst, opts)
            it.inlined = set()
        for kind, out, s in run1(it, iinst, None, opts):
            if kind == "cut":
                res.cuts += 1
                res.cutwhy[out] = res.cutwhy.get(out, 0) + 1
                continue
            res.paths += 1
            if kind == "unsup":
                res.unsupported.append(out)
                continue
            froot = it.root
            fset = set(it.inlined)
            for k2, out2, s2 in run1(it, sinst, s.facts, opts, entry=False):
                if k2 == "cut":
                    res.cuts += 1
                    continue
                if k2 == "unsup":
                    res.unsupported.append("reference: " + out2)
                    continue
                bad = None
                if kind == "panic" or k2 == "panic":
                    inside = under_test(s2) if kind == k2 and not str(out2).endswith("_failed") else None
                    if inside is not None:
                        # the reference only panics because it calls the code in question: no reason to
                        bad = Mismatch("outcome", ("panics", out), ("returns", "from %s" % inside))
                        bad_facts = s2.facts
                    elif kind != k2:
                        bad = Mismatch("outcome", ("panics" if kind == "panic" else "returns", out if kind == "panic" else show(out[0])),
                                       ("panics" if k2 == "panic" else "returns", out2 if k2 == "panic" else show(out2[0])))
                        bad_facts = s2.facts
                else:
                    bad, bad_facts = compare_out(cp, out, out2, s2.facts, opts)
                res.compared += 1
                if bad is not None:
                    ia = apps((out if kind == "ret" else ()), set())
                    sa = apps((out2 if k2 == "ret" else ()), set())
                    for (k, v) in s.facts.trace:
                        apps(k, ia)
                    for (k, v) in s2.facts.trace[len(s.facts.trace):]:
                        apps(k, sa)
                    # asking again what is already decided leaves no trace
                    sa |= s2.opq
                    foreign = sorted(n for n in (ia - sa) if n.startswith(PLUMBING) and not CHANGING.search(n) and not LAYOUT.search(n) and not (FLAG.match(n) and bad.where != "outcome"))
                    if foreign and not conclusive(bad, foreign, out if kind == "ret" else (), s.facts.trace, bad_facts.trace):
                        res.unsupported.append("differs through unmodelled %s" % ", ".join(foreign)[:200])
                        continue
                    both = piecewise(s.facts.trace, bad_facts.trace[len(s.facts.trace):])
                    if both:
                        res.unsupported.append("compares %s and %s piece by piece" % both)
                        continue
                    res.status = "violation"
                    res.detail = {
                        "where": bad.where,
                        "got": show(bad.a) if isinstance(bad.a, tuple) and bad.a[0] not in ("panics", "returns") else " ".join(map(str, bad.a)),
                        "expected": show(bad.b) if isinstance(bad.b, tuple) and bad.b[0] not in ("panics", "returns") else " ".join(map(str, bad.b)),
                        "path": [show_fact(k, v) for k, v in bad_facts.trace][-60:],
                        "got_full": show(out[0]) if kind == "ret" else "panics: %s" % (out,),
                        "expected_full": show(out2[0]) if k2 == "ret" else "panics: %s" % (out2,),
                    }
                    res.why = "%s: got %s, expected %s" % (bad.where, res.detail["got"][:200], res.detail["expected"][:200])
                    res.functions |= it.inlined
                    return res
                it.root = froot
            if res.compared > maxpairs:
                raise Unsupported("too many path pairs")
            it.root = iinst
    except Unsupported as e:
        res.unsupported.append(str(e))
    res.functions |= it.inlined
    res.opaque |= it.opaque_seen
    if res.unsupported:
        res.status = "undecided"
        res.why = "; ".join(sorted(set(res.unsupported)))[:400]
    elif res.compared < opts.must:
        res.status = "undecided"
        res.why = "only %d path pairs compared" % res.compared
    return res


PREDICATE = re.compile(r"^(core::num::|core::char::|core::str::<impl|core::str::|cast:|core::iter::traits::iterator::Iterator::(next|any|all|position)<core::str::)")
# walking over the tokens of a stream the caller handed in
STREAM = re.compile(r"^core::iter::traits::(collect::IntoIterator::into_iter<proc_macro2::TokenStream>|iterator::Iterator::next<proc_macro2::token_stream::IntoIter>)$")
FLAG = re.compile(r"^core::fmt::Formatter::(width|precision|fill|align|alternate|sign_plus|sign_minus|sign_aware_zero_pad|debug_\w+_hex)\b")
# not about any value at all: nothing an outcome may depend on
LAYOUT = re.compile(r"::capacity\b|^core::mem::(size_of|align_of|needs_drop|size_of_val|align_of_val)\b|^core::any::type_name")
TOKEN_KIND = re.compile(r"^proc_macro2::(Literal|Ident|Group|Punct)::(?!from_str)\w+")


def atoms(t, out):
    """what an expression of library plumbing is about"""
    if isinstance(t, tuple) and t:
        if t[0] == "app":
            if t[1].startswith(PLUMBING):
                for x in t[2]:
                    atoms(x, out)
            else:
                out.add(t)
        elif t[0] in ("sym", "proj", "val", "elem", "err", "parse", "after", "mut", "const"):
            out.add(t)
        elif t[0] not in ("i", "len"):
            for x in t:
                atoms(x, out)
    return out


def entry_stream(t):
    """every stream walked over in this term consists of tokens the caller decides about"""
    if not isinstance(t, tuple) or not t:
        return True
    if t[0] == "app" and STREAM.match(t[1]) and "into_iter<" in t[1]:
        a = t[2][0]
        return a[0] == "sym" or a[0] == "ts" and bool(a[1]) and all(p[0] == "toks" and p[1][0] in ("sym", "proj", "val", "elem") for p in a[1])
    return all(entry_stream(x) for x in t if isinstance(x, tuple))


def symbolic(t):
    """something unknown occurs in a term"""
    return isinstance(t, tuple) and (t[:1] and t[0] in ("sym", "proj", "elem", "val", "mut", "parse", "len") or any(symbolic(x) for x in t))


def part(t, whole):
    """a length or element of a sequence or text, which orders agree with (interp.Facts.contents)"""
    views = (whole, ("app", "chars", (whole,)))
    return t[0] in ("len", "elem") and t[1] in views


def piecewise(trace, later):
    """two values that the reference compares as a whole and the code in some part or image of theirs that says nothing certain about the whole"""
    for k, v in later:
        if k[0] == "order":
            a, b = k[1:3]
            if a[0] == "i" or b[0] == "i" or interp.Facts.position(a) and interp.Facts.position(b):
                continue
            for q, w in trace:
                if has(q, {a}) and has(q, {b}) and not (q[0] == "order" and (part(q[1], a) and part(q[2], b) or part(q[1], b) and part(q[2], a) or {q[1], q[2]} == {a, b})):
                    return show(a), show(b)
    return None


def has(t, what):
    return t in what or isinstance(t, tuple) and any(has(x, what) for x in t if isinstance(x, tuple))


def conclusive(bad, foreign, out, trace, full):
    """a difference is real although library plumbing is involved: tokens of different kinds are made, or the plumbing is
    only a test of some value's content (that the reference does not make, and whose own further decisions are about other things)"""
    a, b = bad.a, bad.b
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("app",) and a[1] != b[1] and TOKEN_KIND.match(a[1]) and TOKEN_KIND.match(b[1]):
        return True
    if any("value left by an earlier call" in apps(k, set()) for k, v in trace):
        return True
    if set(foreign) & apps(out, set()) or set(foreign) & apps(tuple(x for x in (a, b) if isinstance(x, tuple)), set()):
        return False
    # a text put together from the pieces of another one
    if any("Iterator::next<core::str::" in n or "Iterator::next<core::ascii::" in n for n in foreign) and any(x[0] in ("str", "elem") for x in (a, b) if isinstance(x, tuple) and x):
        return False
    if not all(PREDICATE.match(n) or STREAM.match(n) for n in foreign):
        return False
    if any(STREAM.match(n) for n in foreign) and not all(entry_stream(k) for k, v in trace):
        return False
    if len(trace) == len(full):
        return True
    about = set()
    for k, v in trace:
        if set(foreign) & apps(k, set()):
            atoms(k[1:], about)
    return bool(about) and not any(has(k, about) for k, v in full[len(trace):])


def under_test(st):
    """the function of the code in question that a path ended in"""
    for fr in reversed(st.frames):
        p = fr.body.get("path") or ""
        if "parsel::" in p or re.search(r"\bwitness::(vpkw|kw31)\b|\bwitness::vp\w*::", p):
            return p
    return None


def spread(parts, f):
    """the parts of a stream, those of known length token by token"""
    out = []
    for p in parts:
        n = None
        if p[0] == "toks" and not interp.onetoken(p):
            one = ("ts", (p,))
            lo, hi, _ = f.interval(("len", one))
            n = lo if lo == hi else None
        if n is None:
            x = p[1]
            if interp.onetoken(p) and x[0] == "proj" and x[1][0] == "elem":
                p = (p[0], x[1])
            out.append(p)
        else:
            out.extend(("toks", ("elem", one, i)) for i in range(n))
    return tuple(out)


def compare_out(cp, out, out2, facts, opts):
    work = [facts.copy()]
    n = 0
    while work:
        f = work.pop()
        n += 1
        if n > 3000:
            raise Unsupported("comparison splits")
        try:
            cp.cmp(out[0], out2[0], f, "result")
            v = out[0]
            okres = not (v[0] == "agg" and v[1] == M.RES and v[2] == 1)
            for (w, x), (_, y) in zip(out[1], out2[1]):
                if w == "stream position" and (not okres or not opts.pos):
                    continue
                (cp.cmphash if opts.hash == "weak" and w.startswith("argument") else cp.cmp)(x, y, f, w)
        except NeedSplit as e:
            for o in e.options:
                g = f.copy()
                g.assume(e.key, o)
                if e.key[0] not in ("order", "iveq", "ivlt") or g.consistent():
                    work.append(g)
        except Mismatch as m:
            return m, f
    return None, None
