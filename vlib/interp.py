"""Abstract interpreter over MIR.

Domain: provenance terms.  A value is either concrete structure (aggregates, constants, references to abstract
cells, concatenation lists) or an uninterpreted term saying where the value came from:
  ('sym', n)                 an input of the analysed function
  ('proj', t, variant, i)    a component of t
  ('parse', name, pos, xs)   the outcome of a component parser at stream position pos, with
  ('val'|'err'|'after'|'fail', pc)   its value / error / position after success / after failure
  ('app', name, args)        the result of an opaque pure call, ('mut', app, k) what it left behind a &mut argument
References are transparent in terms.  Branches on unknown terms split the abstract state and record a fact.
"""
import struct
import time
import itertools

INF = float("inf")


class NeedSplit(Exception):
    def __init__(self, key, options):
        self.key = key
        self.options = options


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


UNIT = ("agg", "tup", None, ())


def I(n):
    return ("i", int(n))


TRUE, FALSE = I(1), I(0)


def is_int(v):
    return v[0] == "i"


def agg(key, variant, *fields):
    return ("agg", key, variant, tuple(fields))


def S(text):
    return ("str", (("lit", text),)) if text else ("str", ())


def strparts(t):
    if t[0] == "str":
        return t[1]
    if t[0] == "app" and t[1] == "disp":
        return (("disp", t[2][0]),)
    return (("disp", t),)


def mkstr(parts):
    out = []
    for p in parts:
        if p[0] == "lit":
            if not p[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
                continue
        out.append(p)
    if len(out) == 1 and out[0][0] == "disp" and out[0][1][0] not in ("str",):
        return out[0][1]
    return ("str", tuple(out))


class Facts:
    __slots__ = ("v", "iv", "order", "trace", "assumed")

    def __init__(self):
        self.v = {}        # key -> decided value
        self.iv = {}       # int term -> (lo, hi, frozenset(excluded))
        self.order = ()    # ((a, b, rel)) with rel in lt, le, eq
        self.trace = ()
        self.assumed = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.v = dict(self.v)
        f.iv = dict(self.iv)
        f.order = self.order
        f.trace = self.trace
        f.assumed = self.assumed
        return f

    # ---- order domain over terms
    def rel(self, a, b):
        """-1, 0, 1 or None"""
        if a == b:
            return 0
        if not self.order:
            return None
        adj = {}
        for (x, y, r) in self.order:
            adj.setdefault(x, []).append((y, r))
        def reach(s, t):
            best = {s: 0}      # 0: <=, 1: <
            todo = [s]
            while todo:
                x = todo.pop()
                for (y, r) in adj.get(x, ()):
                    w = max(best[x], 1 if r == "lt" else 0)
                    if y not in best or best[y] < w:
                        best[y] = w
                        todo.append(y)
            return best.get(t)
        ab = reach(a, b)
        ba = reach(b, a)
        if ab is not None and ba is not None:
            return 0
        if ab == 1:
            return -1
        if ba == 1:
            return 1
        return None

    def assume_order(self, a, b, r):
        if r == 0:
            self.order = self.order + ((a, b, "le"), (b, a, "le"))
        elif r < 0:
            self.order = self.order + ((a, b, "lt"),)
        else:
            self.order = self.order + ((b, a, "lt"),)

    # ---- integer intervals
    def interval(self, t):
        x = self.iv.get(t)
        if x is None:
            return (0 if t[0] in ("len",) else -INF, INF, frozenset())
        return x

    def bounds(self, t):
        """(lo, hi) of an integer term"""
        if t[0] == "i":
            return t[1], t[1]
        lo, hi, ne = self.interval(t)
        if t[0] == "lin":
            a = b = t[2]
            for (x, k) in t[1]:
                l, h = self.bounds(x)
                if k < 0:
                    l, h = h, l
                a = a + k * l
                b = b + k * h
            lo, hi = max(lo, a), min(hi, b)
        return lo, hi

    def consistent(self):
        """the recorded orders do not contradict the intervals"""
        for (a, b, r) in self.order:
            l, _ = self.bounds(a)
            _, h = self.bounds(b)
            if l > h or (r == "lt" and l >= h):
                return False
            if r == "le" and not self.meet(a, b) and self.rel(a, b) == 0:
                return False
            if self.position(a) and self.position(b) and not self.lexicographic(a, b, r):
                return False
            if not self.contents(a, b, 0 if r == "le" and self.rel(a, b) == 0 else -1 if r == "lt" else None):
                return False
        return True

    def contents(self, a, b, r):
        """the order of two sequences or texts does not contradict what is known of their lengths and elements"""
        if r is None:
            return True
        for chars in (False, True):
            view = lambda t: ("app", "chars", (t,)) if chars else t
            ka, kb = view(a), view(b)
            def seq(t):
                if t[0] in ("vec", "arr") and not chars:
                    return t[1]
                c = constof(t)
                return None if c is None or c[0] != "str" else [I(x if isinstance(x, int) else ord(x)) for x in (c[1].decode() if chars else c[1])]
            ca, cb = seq(a), seq(b)
            if self.rel(("len", ka), ("len", kb)) is None and not any(("len", k) in self.iv or c is not None for k, c in ((ka, ca), (kb, cb))):
                continue
            la, ha = (len(ca),) * 2 if ca is not None else self.bounds(("len", ka))
            lb, hb = (len(cb),) * 2 if cb is not None else self.bounds(("len", kb))
            at = lambda c, k, i: ("elem", k, i) if c is None else c[i]
            can, i = set(), 0
            lr = self.rel(("len", ka), ("len", kb))
            while True:
                if la <= i and lb <= i and not lr:
                    can.add(0)
                if la <= i and hb > i and lr in (None, -1):
                    can.add(-1)
                if ha > i and lb <= i and lr in (None, 1):
                    can.add(1)
                if not (ha > i and hb > i):
                    break
                if i > 64 or (ca is not None and i >= len(ca)) or (cb is not None and i >= len(cb)):
                    can |= {-1, 0, 1}
                    break
                x, y = at(ca, ka, i), at(cb, kb, i)
                d = self.rel(x, y)
                if d is None:
                    (l, h), (l2, h2) = self.bounds(x), self.bounds(y)
                    d = -1 if h < l2 else 1 if l > h2 else 0 if l == h == l2 == h2 else None
                    if d is None:
                        if l < h2:
                            can.add(-1)
                        if h > l2:
                            can.add(1)
                        if not self.meet(x, y):
                            break
                        d = 0
                if d:
                    can.add(d)
                    break
                i += 1
            if la > hb or lb > ha or lr:
                can.discard(0)
            if r not in can:
                return False
        return True

    def meet(self, a, b):
        """two terms may have the same value"""
        (l, h), (l2, h2) = self.bounds(a), self.bounds(b)
        lo, hi = max(l, l2), min(h, h2)
        if lo == hi:
            return not any(t[0] != "i" and lo in self.interval(t)[2] for t in (a, b))
        return lo < hi

    @staticmethod
    def position(t):
        return t[0] == "app" and isinstance(t[1], str) and t[1].startswith(("proc_macro2::Span::start", "proc_macro2::Span::end"))

    def lexicographic(self, a, b, r):
        """positions in a source are ordered by line, then by column"""
        f = lambda t, i: ("proj", t, None, i)
        def le(x, y, strict):
            if self.rel(x, y) == 1 or (strict and self.rel(x, y) == 0):
                return False
            l, _ = self.bounds(x)
            _, h = self.bounds(y)
            return l < h or (l == h and not strict)
        def same(x, y):
            (l, h), (l2, h2) = self.bounds(x), self.bounds(y)
            return self.rel(x, y) == 0 or l == h == l2 == h2
        if not le(f(a, 0), f(b, 0), False):
            return False
        if self.rel(a, b) == 0:
            return all(self.meet(f(a, i), f(b, i)) and self.rel(f(a, i), f(b, i)) in (0, None) for i in (0, 1))
        return not same(f(a, 0), f(b, 0)) or le(f(a, 1), f(b, 1), r == "lt")

    def set_interval(self, t, lo=None, hi=None, ne=None):
        l, h, n = self.interval(t)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if ne is not None:
            n = n | ne
        while l in n:
            l += 1
        while h in n:
            h -= 1
        self.iv[t] = (l, h, n)

    def assume(self, key, val, note=None):
        if key[0] == "order":
            self.assume_order(key[1], key[2], val)
        elif key[0] == "ivlt":       # key: ('ivlt', t, c)  t < c ?
            if val:
                self.set_interval(key[1], hi=key[2] - 1)
            else:
                self.set_interval(key[1], lo=key[2])
        elif key[0] == "iveq":
            if val:
                self.set_interval(key[1], lo=key[2], hi=key[2])
            else:
                self.set_interval(key[1], ne=frozenset([key[2]]))
        else:
            self.v[key] = val
        self.trace = self.trace + ((key, val),)


class Frame:
    __slots__ = ("body", "inst", "bb", "si", "locals", "dest", "target", "uid", "root", "cont", "nsplit", "nparse")

    def copy(self):
        f = Frame.__new__(Frame)
        f.body = self.body
        f.inst = self.inst
        f.bb = self.bb
        f.si = self.si
        f.locals = self.locals      # list of cell ids, fixed after creation
        f.dest = self.dest
        f.target = self.target
        f.uid = self.uid
        f.root = self.root
        f.cont = self.cont
        f.nsplit = self.nsplit
        f.nparse = self.nparse
        return f


class State:
    __slots__ = ("frames", "cells", "n", "facts", "splits", "derefs", "uid", "steps", "opq", "entry_fresh", "nsplit", "loops", "nparse")

    def __init__(self):
        self.frames = []
        self.cells = {}
        self.n = 0
        self.facts = Facts()
        self.splits = {}
        self.derefs = {}
        self.uid = 0
        self.steps = 0
        self.opq = frozenset()     # opaque library functions met on this path
        self.entry_fresh = False
        self.nsplit = 0
        self.nparse = 0
        self.loops = {}

    def note_opaque(self, name):
        if name not in self.opq:
            self.opq = self.opq | {name}

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.cells = dict(self.cells)
        s.n = self.n
        s.facts = self.facts.copy()
        s.splits = dict(self.splits)
        s.derefs = dict(self.derefs)
        s.uid = self.uid
        s.steps = self.steps
        s.opq = self.opq
        s.entry_fresh = self.entry_fresh
        s.nsplit = self.nsplit
        s.nparse = self.nparse
        s.loops = dict(self.loops)
        return s

    def alloc(self, v):
        self.n += 1
        self.cells[self.n] = v
        return self.n

    def derefcell(self, t):
        c = self.derefs.get(t)
        if c is None:
            c = self.derefs[t] = self.alloc(t)
        return c

    # ---- memory
    def read(self, cell, path):
        v = self.cells[cell]
        for st in path:
            v = self.readstep(v, st)
        return v

    def readstep(self, v, st):
        k = v[0]
        if st[0] == "f":
            if k == "agg":
                if v[2] is not None and st[1] is not None and v[2] != st[1]:
                    raise Unsupported("variant mismatch %r %r" % (v[1:3], st[:3]))
                if st[2] < len(v[3]):
                    return v[3][st[2]]
                raise Unsupported("field of %r" % (v[1],))
            if k == "box":
                return ("boxp", v[1])
            if k == "boxp":
                return v
            if k == "upd":
                if v[2] == st[1:3]:
                    return v[3]
                return self.readstep(v[1], st)
            if k == "uninit":
                raise Unsupported("read of uninit")
            return ("proj", v, st[1], st[2])
        if st[0] == "i":
            if k in ("vec", "arr"):
                if st[1] < len(v[1]):
                    return v[1][st[1]]
                raise Unsupported("index out of range")
            return ("elem", v, st[1])
        if st[0] == "ss":
            if k in ("vec", "arr"):
                hi = len(v[1]) if st[2] is None else st[2]
                return ("vec", v[1][st[1]:hi])
            return ("app", "subslice", (v, st[1], st[2]))
        if st[0] == "id":
            return v
        raise Unsupported("step %r" % (st,))

    def write(self, cell, path, val):
        self.cells[cell] = self.writestep(self.cells[cell] if path else None, path, val)

    def writestep(self, v, path, val):
        if not path:
            return val
        st = path[0]
        if st[0] == "f":
            if v is not None and v[0] == "agg" and (v[2] == st[1] or v[2] is None or st[1] is None):
                f = list(v[3])
                f[st[2]] = self.writestep(f[st[2]], path[1:], val)
                return ("agg", v[1], v[2], tuple(f))
            key, n = st[3], st[4]
            if v is None or v[0] == "uninit" or (v[0] == "agg"):
                f = [("uninit",)] * n
            else:
                f = [self.readstep(v, ("f", st[1], i)) for i in range(n)]
            f[st[2]] = self.writestep(f[st[2]], path[1:], val)
            return ("agg", key, st[1], tuple(f))
        if st[0] == "i":
            if v[0] in ("vec", "arr"):
                e = list(v[1])
                e[st[1]] = self.writestep(e[st[1]], path[1:], val)
                return (v[0], tuple(e))
            t = ("len", v)
            lo, hi, ne = self.facts.interval(t)
            if lo != hi:
                raise NeedSplit(("iveq", t, lo), [True, False])
            if not 0 <= st[1] < lo:
                raise Unsupported("write into symbolic sequence")
            e = [("elem", v, j) for j in range(lo)]
            e[st[1]] = self.writestep(e[st[1]], path[1:], val)
            return ("vec", tuple(e))
        if st[0] == "id":
            return self.writestep(v, path[1:], val)
        raise Unsupported("write step %r" % (st,))


def onetoken(p):
    """a part of a token stream that is a single token"""
    x = p[1]
    while x[0] == "proj":
        x = x[1]
    return p[0] == "toks" and (x[0] == "elem" and x[1][0] == "ts" or x[0] == "app" and x[1].split("<")[0] in
                               ("proc_macro2::Ident::new", "proc_macro2::Ident::new_raw", "proc_macro2::Punct::new", "proc_macro2::Group::new"))


def strip_lt(s):
    # types are printed with erased regions; normalise the textual leftovers
    return s.replace("'{erased} ", "").replace("'_ ", "").replace("<'_>", "").replace("'?", "")


# calls whose number arguments limit or cut what is processed
def constlocals(body):
    """the variables of a function that are assigned once, from constants"""
    asg, mut = {}, set()
    for b in body["blocks"]:
        for s in b["s"]:
            if s[0] == "=":
                loc, pr = s[1]
                asg.setdefault(loc, []).append(None if pr else s[2])
                if s[2][0] in ("ref", "rawptr", "addr") and not s[2][2][1]:
                    mut.add(s[2][2][0]) if s[2][1] else None
            elif s[0] == "setd":
                asg.setdefault(s[1][0], []).append(None)
        t = b["t"]
        if t and t[0] == "call":
            asg.setdefault(t[3][0], []).append(("call", t) if not t[3][1] else None)
    out = set()
    ok = lambda o: o[0] == "k" or (o[0] in ("c", "m") and not o[1][1] and o[1][0] in out)
    while True:
        n = len(out)
        for loc, a in asg.items():
            if loc in out or loc in mut or len(a) != 1 or a[0] is None:
                continue
            r = a[0]
            if r[0] == "use" and ok(r[1]) or r[0] == "cast" and ok(r[2]) or r[0] == "bin" and ok(r[2]) and ok(r[3]):
                out.add(loc)
            elif r[0] == "call" and r[1][2] and all(ok(o) for o in r[1][2]):
                out.add(loc)
        if len(out) == n:
            return out


LIMITING = ("take", "skip", "step_by", "nth", "nth_back", "truncate", "split_at", "split_at_mut", "split_off", "chunks", "chunks_exact", "rchunks", "windows", "min", "max", "clamp",
            "saturating_sub", "checked_sub", "wrapping_sub", "drain", "get", "get_mut", "repeat", "repeat_n", "is_multiple_of", "checked_rem", "rem_euclid", "div_ceil", "abs_diff")


class Interp:
    deadline = float("inf")      # of the whole check: what is left then is undecided

    def __init__(self, server, k=3, max_steps=60000, max_paths=4000):
        self.until = float("inf")
        self.rng = None
        self.one_order = 0           # of comparisons of unknowns, follow one outcome only
        self.sv = server
        self.k = k
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.root = None
        self.constcache = {}
        self.enum_counts = {}
        self.opaque_seen = set()
        self.inlined = set()
        self.helpers = {}
        self.sites = {}         # constants that counts are compared with: site -> (value, outcomes)
        self.scale = {}         # ... read as these instead
        from . import models
        self.models = models.Models(self)

    # ---------------------------------------------------------------- types
    def ty(self, tid):
        t = self.sv.ty(tid, self.root)
        if t["k"] == "adt" and t["enum"]:
            self.enum_counts[t["path"]] = len(t["variants"])
        return t

    def tstr(self, tid):
        return strip_lt(self.ty(tid)["s"])

    def pointee(self, tid):
        t = self.ty(tid)
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t.get("box"):
            return t["args"][0]
        raise Unsupported("deref of " + t["s"])

    def fieldinfo(self, tid, variant):
        """(key, number of fields) of a struct-like type"""
        t = self.ty(tid)
        k = t["k"]
        if k == "adt":
            vs = t["variants"]
            v = vs[variant if variant is not None else 0]
            return t["path"], len(v["fields"])
        if k == "tuple":
            return "tup", len(t["fields"])
        if k == "closure":
            return "clo:%d" % tid, len(t["fields"])
        return t["s"], 1

    def is_pb_ref(self, tid):
        t = self.ty(tid)
        if t["k"] != "ref":
            return False
        e = self.ty(t["e"])
        return e["k"] == "adt" and e["path"] == "syn::parse::ParseBuffer"

    def is_pb_cursor(self, tid):
        t = self.ty(tid)
        while t["k"] == "ref":
            t = self.ty(t["e"])
        return t["k"] == "adt" and t["path"] == "syn::buffer::Cursor"

    # ---------------------------------------------------------------- places
    def place(self, st, fr, pl):
        """-> (cell, path, ty, variant)"""
        local, projs = pl
        cell, path = fr.locals[local], ()
        tid = fr.body["locals"][local]
        variant = None
        for p in projs:
            k = p[0]
            if k == "*":
                v = st.read(cell, path)
                if v[0] == "ref":
                    cell, path = v[1], v[2]
                elif v[0] in ("box", "boxp"):
                    cell, path = v[1], ()
                elif v[0] == "uninit":
                    raise Unsupported("deref of uninit")
                else:
                    cell, path = st.derefcell(v), ()
                tid = self.pointee(tid)
                variant = None
            elif k == "v":
                variant = p[1]
            elif k == "f":
                key, n = self.fieldinfo(tid, variant)
                tt = self.ty(tid)
                isenum = tt.get("enum")
                if p[1] == 0 and (tt.get("box") or tt.get("path") in ("core::ptr::unique::Unique", "core::ptr::non_null::NonNull")) and self.peekv(st, cell, path)[0] not in ("agg", "uninit"):
                    # the pointer inside a box denotes the box
                    tid = p[2]
                    variant = None
                    continue
                if tt.get("path") == "alloc::borrow::Cow" and self.peekv(st, cell, path)[0] not in ("agg", "uninit", "ref"):
                    # a text is the same text whether it is borrowed or owned
                    if variant == 0:
                        cell, path = st.alloc(("ref", st.derefcell(st.read(cell, path)), ())), ()
                    tid = p[2]
                    variant = None
                    continue
                path = path + (("f", variant if isenum else None, p[1], key, n),)
                tid = p[2]
                variant = None
            elif k == "i":
                ix = self.scalar(st, st.read(fr.locals[p[1]], ()))
                if not is_int(ix):
                    ix = self.concretize(st, ix)
                path = path + (("i", ix[1]),)
                t = self.ty(tid)
                tid = t["e"]
            elif k == "ci":
                if p[3]:
                    v = st.read(cell, path)
                    n = self.seqlen(st, v)
                    path = path + (("i", n - p[1]),)
                else:
                    path = path + (("i", p[1]),)
                tid = self.ty(tid)["e"]
            elif k == "ss":
                if p[3]:
                    n = self.seqlen(st, st.read(cell, path))
                    path = path + (("ss", p[1], n - p[2]),)
                else:
                    path = path + (("ss", p[1], p[2]),)
            else:
                raise Unsupported("projection %r" % (p,))
        return cell, path, tid, variant

    def peekv(self, st, cell, path):
        try:
            return st.read(cell, path)
        except Unsupported:
            return ("uninit",)

    def concretize(self, st, t):
        lo, hi, ne = st.facts.interval(t)
        if lo == -INF:
            lo = 0
        if lo == hi:
            return I(lo)
        raise NeedSplit(("iveq", t, lo), [True, False])

    def seqlen(self, st, v):
        """exact length of a sequence value, splitting on symbolic ones"""
        if v[0] in ("vec", "arr"):
            return len(v[1])
        t = ("len", v)
        lo, hi, ne = st.facts.interval(t)
        if lo == hi:
            return lo
        raise NeedSplit(("iveq", t, lo), [True, False])

    def token_at(self, st, v, i):
        """token i of a stream put together from parts of unknown length"""
        for p in v[1]:
            if onetoken(p):
                if i == 0:
                    return p[1]
                i -= 1
                continue
            one = ("ts", (p,))
            j = 0
            while self.has_index(st, one, j):
                if j == i:
                    return ("elem", one, j)
                j += 1
            i -= j
        return None

    def has_index(self, st, v, i):
        if v[0] in ("vec", "arr"):
            return i < len(v[1])
        if v[0] == "ts" and (len(v[1]) != 1 or onetoken(v[1][0])):
            return self.token_at(st, v, i) is not None
        t = ("len", v)
        lo, hi, ne = st.facts.interval(t)
        if i < lo:
            return True
        if hi <= i:
            return False
        raise NeedSplit(("ivlt", t, i + 1), [True, False])

    # ---------------------------------------------------------------- operands
    def operand(self, st, fr, op):
        k = op[0]
        if k in ("c", "m"):
            cell, path, tid, _ = self.place(st, fr, op[1])
            return st.read(cell, path)
        if k == "k":
            return self.const(st, op[1])
        if k == "rt":
            return FALSE
        raise Unsupported("operand %r" % (op,))

    # ---------------------------------------------------------------- thresholds
    def countconst(self, fr, op, v):
        """the value of a constant operand that may be a limit on a count, in code under analysis"""
        if not is_int(v) or not 3 <= v[1] <= 10 ** 7 or not self.isconst(fr.body, op):
            return None
        p = fr.body["path"]
        if "parsel::" not in p and "witness::" not in p:
            return None
        t = self.ty(op[1]["ty"] if op[0] == "k" else fr.body["locals"][op[1][0]])
        if t["k"] not in ("int", "uint") or t.get("bits", 64) < 16:
            return None
        return v[1]

    def isconst(self, body, op):
        """an operand that is a constant, or a variable assigned once, from constants"""
        if op[0] == "k":
            return True
        if op[0] not in ("c", "m") or op[1][1]:
            return False
        cl = body.get("_constlocals")
        if cl is None:
            cl = body["_constlocals"] = constlocals(body)
        return op[1][0] in cl

    def fits(self, fr, n, bits, frombits):
        """whether a count fits a smaller integer"""
        p = fr.body["path"]
        c = 1 << bits
        if bits not in (7, 8, 15, 16) or frombits < 32 or "parsel::" not in p and "witness::" not in p:
            return n < c
        site = (p, fr.bb, fr.si)
        self.sites.setdefault(site, {}).setdefault(c, set()).add((n > c) - (n < c))
        return n < self.scale.get(site, {}).get(c, c)

    def narrowed(self, fr, n, bits):
        """a count squeezed into a small integer: the size at which it wraps is a limit too"""
        p = fr.body["path"]
        if bits not in (7, 8, 15, 16) or not 0 <= n or "parsel::" not in p and "witness::" not in p:
            return n
        site, c = (p, fr.bb, fr.si), 1 << bits
        self.sites.setdefault(site, {}).setdefault(c, set()).add((n > c) - (n < c))
        if site in self.scale and c in self.scale[site]:
            s = self.scale[site][c]
            return n % s if bits in (8, 16) else (n + s) % (2 * s) - s
        return n

    def threshold(self, fr, op, v, other=None, always=False):
        """note a limit (and, in a scaled run, lower it)"""
        c = self.countconst(fr, op, v)
        if c is None:
            return v
        if other is not None and not is_int(other) and not (other[0] == "len" and other[1][0] != "str") and not (
                other[0] == "lin" and all(x[0][0] == "len" and x[0][1][0] != "str" for x in other[1])):
            return v
        site = (fr.body["path"], fr.bb, fr.si)
        e = self.sites.setdefault(site, {})
        o = e.setdefault(c, set())
        if always or other is None or not is_int(other):
            o.update((-1, 0, 1))
        else:
            o.add((other[1] > c) - (other[1] < c))
        if site in self.scale and c in self.scale[site]:
            return I(self.scale[site][c])
        return v

    def const(self, st, c):
        t = self.ty(c["ty"])
        if "fn" in c:
            return ("fndef", c["ty"])
        if "val" in c:
            return self.constval(st, c["val"], c["ty"])
        if "body" in c:
            return self.constbody(st, c["body"], c)
        if "param" in c:
            return ("sym", "const " + c["param"])
        if "uneval" in c:
            v = ("const", c["uneval"], tuple(self.tstr(a) if isinstance(a, int) else a for a in c.get("args", ())))
            return self.shape(st, v, c["ty"])
        v = ("const", c.get("opaque", "?"))
        return self.shape(st, v, c["ty"])

    def constbody(self, st, inst, c):
        if inst in self.constcache:
            r = self.constcache[inst]
        else:
            r = self._constbody(inst, c)
            self.constcache[inst] = r
        if r is None:
            return self.shape(st, ("const", c.get("cpath", "const#%d" % inst)), c["ty"])
        val, cells = r
        return self.import_val(st, val, cells, {})

    def _constbody(self, inst, c):
        s2 = State()
        try:
            self.push(s2, inst, [], None, None)
            outs = list(self.explore(s2, nested=True))
        except Unsupported:
            return None
        if len(outs) != 1 or outs[0][0] != "ret":
            return None
        return outs[0][1], outs[0][2].cells

    def import_val(self, st, v, cells, memo):
        k = v[0]
        if k == "ref":
            key = v[1]
            if key not in memo:
                memo[key] = st.alloc(("uninit",))
                st.cells[memo[key]] = self.import_val(st, cells[key], cells, memo)
            return ("ref", memo[key], v[2])
        if k == "agg":
            return ("agg", v[1], v[2], tuple(self.import_val(st, x, cells, memo) for x in v[3]))
        if k in ("vec", "arr"):
            return (k, tuple(self.import_val(st, x, cells, memo) for x in v[1]))
        return v

    def constval(self, st, v, tid):
        t = self.ty(tid)
        if "bits" in v:
            return self.frombits(int(v["bits"]), v.get("adt", tid))
        if "zst" in v:
            return self.zst(tid)
        if "ref" in v:
            if t["k"] not in ("ref", "ptr"):
                return ("const", repr(v))
            inner = self.constval(st, v["ref"], t["e"])
            return ("ref", st.alloc(inner), ())
        if "str" in v:
            return S(v["str"])
        if "bytes" in v:
            return ("arr", tuple(I(x) for x in v["bytes"]))
        if "array" in v:
            e = t.get("e")
            return ("arr", tuple(self.constval(st, x, e) for x in v["array"]))
        if "tuple" in v:
            return ("agg", "tup", None, tuple(self.constval(st, x, ft) for x, ft in zip(v["tuple"], t["fields"])))
        if "struct" in v:
            var = v.get("variant")
            ti = self.ty(v["adt"])
            vi = ti["variants"][var or 0]
            return ("agg", ti["path"], var if ti["enum"] else None, tuple(self.constval(st, x, f[1]) for x, f in zip(v["struct"], vi["fields"])))
        if "fnptr" in v:
            return ("fnval", repr(v["fnptr"].get("rpath")))
        return self.shape(st, ("const", repr(v)), tid)

    def frombits(self, n, tid):
        t = self.ty(tid)
        k = t["k"]
        if k == "int":
            b = t["bits"]
            if n >= 1 << (b - 1):
                n -= 1 << b
            return I(n)
        if k in ("uint", "bool", "char"):
            return I(n)
        if k == "float":
            return ("f", n)
        if k == "adt":
            if t["enum"]:
                for i, v in enumerate(t["variants"]):
                    d = int(v["d"])
                    if (d == n or d < 0 and n - d in (1 << 8, 1 << 16, 1 << 32, 1 << 64, 1 << 128)) and not v["fields"]:
                        return ("agg", t["path"], i, ())
                # a niche-encoded fieldless view or an Option<newtype>
                return ("const", "%s:%d" % (t["s"], n))
            fs = t["variants"][0]["fields"]
            out = []
            for f in fs:
                ft = self.ty(f[1])
                if ft["k"] == "adt" and not ft["enum"] and not ft["variants"][0]["fields"]:
                    out.append(("agg", ft["path"], None, ()))
                elif ft["k"] == "tuple" and not ft["fields"]:
                    out.append(UNIT)
                else:
                    out.append(self.frombits(n, f[1]))
            return ("agg", t["path"], None, tuple(out))
        return ("const", "%s:%d" % (t["s"], n))

    def zst(self, tid):
        t = self.ty(tid)
        k = t["k"]
        if k == "tuple":
            return ("agg", "tup", None, tuple(self.zst(f) for f in t["fields"]))
        if k == "fndef":
            return ("fndef", tid)
        if k == "closure":
            return ("agg", "clo:%d" % tid, None, tuple(self.zst(f) for f in t["fields"]))
        if k == "adt":
            if t["enum"]:
                if len(t["variants"]) == 1:
                    return ("agg", t["path"], 0, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
                return ("const", t["s"])
            return ("agg", t["path"], None, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
        if k == "array":
            return ("arr", ())
        return ("const", t["s"])

    # give an opaque term the shape its type demands (references become cells, unit becomes unit)
    def shape(self, st, term, tid):
        t = self.ty(tid)
        k = t["k"]
        if k == "ref" or k == "ptr":
            return ("ref", st.derefcell(term), ())
        if k == "tuple":
            if not t["fields"]:
                return UNIT
            return ("agg", "tup", None, tuple(self.shape(st, ("proj", term, None, i), f) for i, f in enumerate(t["fields"])))
        return term

    # ---------------------------------------------------------------- scalars
    def scalar(self, st, v):
        if v[0] in ("i", "f", "str", "agg", "ref"):
            return v
        lo, hi = st.facts.bounds(v)
        if lo == hi:
            return I(lo)
        b = st.facts.v.get(("b", v))
        if b is not None:
            return I(1 if b else 0)
        return v

    def truth(self, st, v):
        """decide a boolean value"""
        v = self.scalar(st, v)
        if is_int(v):
            return v[1] != 0
        if v[0] == "not":
            return not self.truth(st, v[1])
        if v[0] == "cmpop":
            return self.cmpop(st, v[1], v[2], v[3])
        key = ("b", v)
        r = st.facts.v.get(key)
        if r is None:
            raise NeedSplit(key, [True, False])
        return r

    def cmpop(self, st, op, a, b):
        a = self.scalar(st, a)
        b = self.scalar(st, b)
        if is_int(a) and is_int(b):
            x, y = a[1], b[1]
            return {"Eq": x == y, "Lt": x < y, "Le": x <= y}[op]
        if a == b:
            return op in ("Eq", "Le")
        if is_int(b) or is_int(a):
            if is_int(a):
                # c op t
                c, t = a[1], b
                if op == "Eq":
                    return self.iveq(st, t, c)
                if op == "Lt":            # c < t  <=> not t < c+1
                    return not self.ivlt(st, t, c + 1)
                return not self.ivlt(st, t, c)      # c <= t <=> not t < c
            t, c = a, b[1]
            if op == "Eq":
                return self.iveq(st, t, c)
            if op == "Lt":
                return self.ivlt(st, t, c)
            return self.ivlt(st, t, c + 1)
        r = self.order(st, a, b)
        return {"Eq": r == 0, "Lt": r < 0, "Le": r <= 0}[op]

    def lin_shift(self, t):
        if t[0] == "lin" and len(t[1]) == 1 and t[1][0][1] == 1:
            return t[1][0][0], t[2]
        return t, 0

    def ivlt(self, st, t, c):
        t, d = self.lin_shift(t)
        c -= d
        lo, hi = st.facts.bounds(t)
        if hi < c:
            return True
        if lo >= c:
            return False
        raise NeedSplit(("ivlt", t, c), [True, False])

    def iveq(self, st, t, c):
        t, d = self.lin_shift(t)
        c -= d
        ne = st.facts.interval(t)[2]
        lo, hi = st.facts.bounds(t)
        if c < lo or c > hi or c in ne:
            return False
        if lo == hi == c:
            return True
        raise NeedSplit(("iveq", t, c), [True, False])

    def order(self, st, a, b):
        r = st.facts.rel(a, b)
        if r is None:
            x, y = constof(a), constof(b)
            if x is not None and y is not None and x[0] == y[0]:
                return (x > y) - (x < y)
            if a[0] in ("vec", "arr") and b[0] in ("vec", "arr"):
                for x, y in zip(a[1], b[1]):
                    r = self.order(st, x, y)
                    if r:
                        return r
                return (len(a[1]) > len(b[1])) - (len(a[1]) < len(b[1]))
            if a[0] == "lin" or b[0] == "lin":
                d = linadd(a, b, -1)
                if d[0] == "i":
                    return (d[1] > 0) - (d[1] < 0)
                lo, hi = st.facts.bounds(d)
                if lo > 0 or hi < 0:
                    return 1 if lo > 0 else -1
            raise NeedSplit(("order", a, b), [-1, 0, 1])
        return r

    def binop(self, st, op, a, b):
        a = self.scalar(st, a)
        b = self.scalar(st, b)
        ov = op.endswith("WithOverflow")
        base = op[:-len("WithOverflow")] if ov else op.replace("Unchecked", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a[0] in ("i",) and b[0] in ("i",):
                x, y = a[1], b[1]
                return I({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[base])
            if "ref" in (a[0], b[0]) or "f" in (a[0], b[0]):
                if base in ("Eq", "Ne") and a[0] == b[0] == "f":
                    return ("app", "float" + base, (a, b))
                return ("app", "cmp" + base, (self.snap(st, a), self.snap(st, b)))
            if base == "Ne":
                return ("not", ("cmpop", "Eq") + tuple(sorted((a, b), key=repr)))
            if base == "Eq":
                return ("cmpop", "Eq") + tuple(sorted((a, b), key=repr))
            if base == "Gt":
                return ("cmpop", "Lt", b, a)
            if base == "Ge":
                return ("cmpop", "Le", b, a)
            return ("cmpop", base, a, b)
        if is_int(a) and is_int(b):
            x, y = a[1], b[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                     "Rem": lambda: abs(x) % abs(y) * (1 if x >= 0 else -1), "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y, "Shr": lambda: x >> y}[base]()
            except KeyError:
                r = None
                if base == "Cmp":
                    return agg("core::cmp::Ordering", 0 if x < y else (1 if x == y else 2))
            if r is not None:
                return agg("tup", None, I(r), FALSE) if ov else I(r)
        if base == "Cmp":
            r = self.cmp3(st, a, b)
            return agg("core::cmp::Ordering", r + 1)
        if base in ("BitAnd", "BitOr") and (is_int(a) or is_int(b)) and (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
            c, t = (a, b) if is_int(a) else (b, a)
            if base == "BitAnd":
                return FALSE if c == FALSE else t
            return t if c == FALSE else TRUE
        if base in ("Add", "Sub"):
            r = linadd(a, b, 1 if base == "Add" else -1)
        elif base == "Mul" and (is_int(a) or is_int(b)):
            r = linmul(a, b)
        elif base in ("BitAnd", "BitOr"):
            r = ("app", "op" + base, tuple(sorted((a, b), key=repr)))
        else:
            r = ("app", "op" + base, (a, b))
        return agg("tup", None, r, FALSE) if ov else r

    def cmp3(self, st, a, b):
        if self.cmpop(st, "Lt", a, b):
            return -1
        return 0 if self.cmpop(st, "Eq", a, b) else 1

    # ---------------------------------------------------------------- snapshots
    def snap(self, st, v, depth=0):
        k = v[0]
        if depth > 60:
            return ("deep",)
        if k == "ref":
            return self.snap(st, st.read(v[1], v[2]), depth + 1)
        if k in ("box", "boxp"):
            return self.snap(st, st.cells[v[1]], depth + 1)
        if k == "agg":
            fs = tuple(self.snap(st, x, depth + 1) for x in v[3])
            if v[1] == "alloc::borrow::Cow":
                return fs[0]
            # eta: a value rebuilt from all components of t is t
            if fs and all(f[0] == "proj" and f[1] == fs[0][1] and f[2] == v[2] and f[3] == i for i, f in enumerate(fs)):
                return fs[0][1]
            return ("agg", v[1], v[2], fs)
        if k in ("vec", "arr"):
            es = tuple(self.snap(st, x, depth + 1) for x in v[1])
            if es and all(e[0] == "elem" and e[1] == es[0][1] and e[2] == i for i, e in enumerate(es)):
                lo, hi, ne = st.facts.interval(("len", es[0][1]))
                if lo == hi == len(es):
                    return es[0][1]
            return ("vec", es)
        if k == "it":
            return ("it", v[1], tuple(self.snap(st, x, depth + 1) for x in v[2])) + tuple(v[3:])
        if k in ("sliceit",):
            base = self.snap(st, ("ref", v[1], v[2]), depth + 1)
            return ("sliceit", base, v[3], v[4])
        if k == "pit":
            return ("pit", self.snap(st, ("ref", v[1], v[2]), depth + 1), v[3], v[4])
        if k == "vecit":
            return ("vecit", self.snap(st, v[1], depth + 1), v[2], v[3])
        if k == "ts":
            return ("ts", tuple(self.snapt(st, x, depth + 1) for x in v[1]))
        if k == "str":
            return mkstr(tuple(self.snapt(st, x, depth + 1) for x in v[1]))
        if k in ("cmpop", "not"):
            try:
                return I(self.truth(st, v))
            except NeedSplit:
                return v
        if k in ("sym", "app", "proj", "val", "elem", "len", "lin"):
            lo, hi = st.facts.bounds(v)
            if lo == hi:
                return I(lo)
        return v

    def snapt(self, st, x, depth):
        return tuple(self.snap(st, y, depth) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in SNAPPABLE else y for y in x)

    # ---------------------------------------------------------------- execution
    def push(self, st, inst, args, dest, target, root=None, cont=None):
        if len(st.frames) > 90:
            same = [f for f in st.frames if f.inst == inst]
            if self.models.progress and len(same) > 10 and same[-10].nsplit == st.nsplit and same[-10].nparse != st.nparse:
                raise PathEnd("noprogress", same[-1].body["path"])
            raise Unsupported("call depth")
        body = self.sv.body(inst)
        if "error" in body:
            raise Unsupported("no body: %s" % body["error"])
        fr = Frame()
        fr.body = body
        fr.inst = inst
        fr.bb = 0
        fr.si = 0
        fr.locals = [st.alloc(("uninit",)) for _ in body["locals"]]
        sp = body["spread"]
        if sp is not None and len(args) != body["argc"]:
            # the spread argument collects the remaining arguments as a tuple
            fixed = sp - 1
            args = list(args[:fixed]) + [("agg", "tup", None, tuple(args[fixed:]))]
        if len(args) != body["argc"]:
            raise Unsupported("arity of %s" % body["path"])
        for i, a in enumerate(args):
            st.cells[fr.locals[i + 1]] = a
        fr.dest = dest
        fr.target = target
        st.uid += 1
        fr.uid = st.uid
        fr.nsplit = st.nsplit
        fr.nparse = st.nparse
        fr.root = root
        fr.cont = cont
        st.frames.append(fr)
        self.inlined.add(body["path"])

    def explore(self, st0, nested=False):
        """yield outcomes: ('ret', value, state) ('panic', msg, state) ('cut', why, state)"""
        work = [st0]
        npaths = 0
        while work:
            if time.monotonic() > min(self.until, Interp.deadline):
                raise Unsupported("too many paths for the time allowed")
            if self.rng is not None and self.rng.random() < 0.03:
                i = self.rng.randrange(len(work))     # not exhaustive: look at distant paths early
                work[i], work[-1] = work[-1], work[i]
            st = work.pop()
            try:
                self.exec(st)
            except NeedSplit as e:
                st.nsplit += 1
                opts = self.models.filter_options(st, e.key, e.options)
                if self.one_order and e.key[0] in ("order", "iveq", "ivlt"):
                    opts = list(opts)[self.one_order % len(opts):][:1]
                if self.rng is not None:
                    opts = list(opts)
                    self.rng.shuffle(opts)
                for o in reversed(opts):
                    s2 = st.copy()
                    s2.facts.assume(e.key, o)
                    if e.key[0] in ("order", "iveq", "ivlt") and not s2.facts.consistent():
                        continue
                    if self.models.bound(st, s2, e.key, o, self.k):
                        work.append(s2)
                    else:
                        npaths += 1
                        yield ("cut", "bound on %s" % (e.key[0],), s2)
                continue
            except PathEnd as e:
                npaths += 1
                if e.kind != "infeasible":
                    yield (e.kind, e.info, st)
                if npaths > self.max_paths:
                    raise Unsupported("too many paths")
                continue
            except Unsupported as e:
                if nested:
                    raise
                npaths += 1
                fr = st.frames[-1] if st.frames else None
                yield ("unsup", "%s (in %s)" % (e, fr.body["path"] if fr else "?"), st)
                if npaths > self.max_paths:
                    raise Unsupported("too many paths")
                continue
            raise AssertionError

    def exec(self, st):
        while True:
            fr = st.frames[-1]
            blk = fr.body["blocks"][fr.bb]
            stmts = blk["s"]
            while fr.si < len(stmts):
                self.stmt(st, fr, stmts[fr.si])
                fr.si += 1
            st.steps += 1
            if st.steps > self.max_steps:
                raise Unsupported("too many steps")
            self.term(st, fr, blk["t"])

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, fr, s[2], s[1])
            cell, path, tid, _ = self.place(st, fr, s[1])
            st.write(cell, path, v)
        elif k == "setd":
            cell, path, tid, _ = self.place(st, fr, s[1])
            t = self.ty(tid)
            v = st.read(cell, path)
            if v[0] == "agg":
                st.write(cell, path, ("agg", t["path"], s[2], v[3]))
            else:
                st.write(cell, path, ("agg", t["path"], s[2], ()))
        else:
            raise Unsupported("statement " + k)

    def goto(self, fr, bb, st=None):
        if st is not None and bb <= fr.bb:
            # a back edge taken after a decision on unknown data: count it against the bound
            k = (fr.uid, bb)
            n, last, np, rep = st.loops.get(k, (0, -1, 0, 0))
            if st.nsplit != last:
                n += 1
                rep = 0
                if n > self.k + 1:
                    raise PathEnd("cut", "loop bound in " + fr.body["path"])
            elif self.models.progress:
                # the same parse calls at the same place, decided by nothing new: repeated for ever
                rep = rep + 1 if st.nparse != np else 0
                if rep > 40:
                    raise PathEnd("noprogress", fr.body["path"])
            st.loops[k] = (n, st.nsplit, st.nparse, rep)
        fr.bb = bb
        fr.si = 0

    def variant_of(self, st, v, tid):
        """decide the variant of an enum value"""
        if v[0] == "agg":
            if v[2] is None:
                return 0
            return v[2]
        t = self.ty(tid)
        key = ("var", v)
        r = st.facts.v.get(key)
        if r is not None:
            return r
        opts = []
        for i, var in enumerate(t["variants"]):
            if any(self.uninhabited(f[1]) for f in var["fields"]):
                continue
            opts.append(i)
        if not opts:
            raise PathEnd("infeasible")
        if len(opts) == 1:
            return opts[0]
        raise NeedSplit(key, opts)

    def uninhabited(self, tid):
        t = self.ty(tid)
        if t["k"] == "never":
            return True
        return t["k"] == "adt" and t["enum"] and not t["variants"]

    def rvalue(self, st, fr, r, lhs):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            cell, path, tid, _ = self.place(st, fr, r[2])
            return ("ref", cell, path)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            if r[1] == "Offset":
                raise Unsupported("pointer offset")
            ka, kb = self.isconst(fr.body, r[2]), self.isconst(fr.body, r[3])
            if ka != kb:
                op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp", "Rem", "Div", "BitAnd", "Sub", "Shr"):
                    if kb:
                        b = self.threshold(fr, r[3], b, self.scalar(st, a))
                    else:
                        a = self.threshold(fr, r[2], a, self.scalar(st, b))
            return self.binop(st, r[1], a, b)
        if k == "un":
            a = self.scalar(st, self.operand(st, fr, r[2]))
            if r[1] == "Not":
                if is_int(a):
                    return I(1 - a[1]) if a[1] in (0, 1) else ("app", "opNot", (a,))
                return a[1] if a[0] == "not" else ("not", a)
            if r[1] == "Neg":
                return I(-a[1]) if is_int(a) else ("app", "opNeg", (a,))
            if r[1] == "PtrMetadata":
                v = self.snap_shallow(st, a)
                if v[0] in ("vec", "arr"):
                    return I(len(v[1]))
                return ("len", self.snap(st, v))
            return ("app", "op" + r[1], (a,))
        if k == "discr":
            cell, path, tid, _ = self.place(st, fr, r[1])
            v = st.read(cell, path)
            t = self.ty(tid)
            if t["k"] != "adt" or not t["enum"]:
                return ("app", "discr", (self.snap(st, v),))
            i = self.variant_of(st, v, tid)
            return self.discr_value(t, i)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            ki = r[1]
            if ki["k"] == "tuple":
                return ("agg", "tup", None, tuple(ops))
            if ki["k"] == "array":
                return ("arr", tuple(ops))
            if ki["k"] == "adt":
                t = self.ty(ki["ty"])
                if ki["union"] is not None:
                    return ops[0]
                if t["path"].startswith("core::ops::range::"):
                    ops = [self.threshold(fr, o, v, always=True) for o, v in zip(r[2], ops)]
                return ("agg", t["path"], ki["v"] if t["enum"] else None, tuple(ops))
            if ki["k"] == "closure":
                return ("agg", "clo:%d" % ki["ty"], None, tuple(ops))
            if ki["k"] == "rawptr":
                return ops[0]
            raise Unsupported("aggregate")
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1] == "IntToInt":
                v = self.scalar(st, v)
                t = self.ty(r[3])
                if is_int(v) and r[2][0] in ("c", "m") and not r[2][1][1] and t["k"] in ("int", "uint"):
                    f = self.ty(fr.body["locals"][r[2][1][0]])
                    if f["k"] in ("int", "uint") and f.get("bits", 64) >= 32:
                        v = I(self.narrowed(fr, v[1], t["bits"] - (t["k"] == "int")))
                elif v[0] in ("elem", "proj", "sym", "app", "char", "val") and t["k"] in ("int", "uint"):
                    f = self.optype(fr, r[2])
                    b = f and {"uint": f.get("bits"), "char": 21, "bool": 1}.get(f["k"])
                    if b and t["bits"] - (t["k"] == "int") >= b:
                        return v
            return self.cast(st, r[1], v, r[3])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if isinstance(r[2], int):
                if r[2] > 4096:
                    raise Unsupported("big array")
                return ("arr", (v,) * r[2])
            raise Unsupported("repeat")
        raise Unsupported("rvalue %s" % (r[:2],))

    def optype(self, fr, op):
        """the type of an operand, if it is easily told"""
        if op[0] not in ("c", "m"):
            return None
        local, proj = op[1]
        t = self.ty(fr.body["locals"][local])
        for e in proj:
            if e[0] == "*" and t["k"] in ("ref", "ptr"):
                t = self.ty(t["e"])
            elif e[0] == "f":
                t = self.ty(e[2])
            elif e[0] in ("i", "ci") and "e" in t:
                t = self.ty(t["e"])
            else:
                return None
        return t

    def discr_value(self, t, i):
        return I(int(t["variants"][i]["d"]))

    def snap_shallow(self, st, v):
        while v[0] == "ref":
            v = st.read(v[1], v[2])
        return v

    def cast(self, st, kind, v, tid):
        t = self.ty(tid)
        if kind.startswith("PointerCoercion"):
            if v[0] == "fndef" and t["k"] == "fnptr":
                return ("fnval", v[1])
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr", "Subtype"):
            return v
        if kind in ("Transmute", "BoxDerefTransmute"):
            if v[0] in ("box", "boxp") and t["k"] in ("ptr", "ref"):
                return ("ref", v[1], ())
            if v[0] in ("ref",):
                return v
            if t["k"] in ("ptr", "ref"):
                return ("ref", st.derefcell(v), ())
            if v[0] == "i" and t["k"] in ("int", "uint", "bool", "char"):
                return self.frombits(v[1] & ((1 << t.get("bits", 64)) - 1), tid)
            if v[0] == "i" and t["k"] == "adt" and t["enum"]:
                return self.frombits(v[1], tid)
            if v[0] == "agg" and t["k"] == "adt" and len(v[3]) == 1 and not t["enum"]:
                return ("agg", t["path"], None, v[3])
            return ("app", "transmute:" + self.tstr(tid), (self.snap(st, v),))
        if kind == "IntToInt":
            v = self.scalar(st, v)
            if v[0] == "agg" and not v[3]:
                return ("app", "discrcast", (v,))
            if is_int(v):
                b = t.get("bits") or (32 if t["k"] == "char" else 8)
                n = v[1] & ((1 << b) - 1)
                return self.frombits(n, tid)
            if t["k"] in ("uint", "int") and t["bits"] >= 64:
                return v
            return ("app", "cast:" + t["s"], (v,))
        if kind == "FloatToInt" and v[0] == "app" and v[1] in ("cast:f64", "cast:f32") and len(v[2]) == 1 and is_int(v[2][0]) and t.get("bits"):
            n = float(v[2][0][1])
            if v[1] == "cast:f32":
                n = struct.unpack("f", struct.pack("f", n))[0]
            lo, hi = (-(1 << t["bits"] - 1), (1 << t["bits"] - 1) - 1) if t["k"] == "int" else (0, (1 << t["bits"]) - 1)
            return I(min(max(int(n), lo), hi))
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            return ("app", "cast:" + t["s"], (v,))
        if kind in ("PointerExposeProvenance", "PointerExposeAddress"):
            # where a value lies in memory: no function of its content
            return ("app", "address", (self.snap(st, v),))
        raise Unsupported("cast " + kind)

    def term(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.goto(fr, t[1], st)
        elif k == "switch":
            v = self.operand(st, fr, t[1])
            v = self.scalar(st, v)
            tt = self.ty(t[4])
            if is_int(v):
                self.goto(fr, self.pick(self.switchval(fr, v, t, tt), t, tt), st)
                return
            if tt["k"] == "bool":
                b = self.truth(st, v)
                self.goto(fr, self.pick(1 if b else 0, t, tt), st)
                return
            # integer or char: decide equality with each listed value
            if v[0] in ("ref",):
                raise Unsupported("switch on pointer")
            for (val, bb) in t[2]:
                n = int(val)
                if tt["k"] == "int" and n >= 1 << (tt["bits"] - 1):
                    n -= 1 << tt["bits"]
                if self.iveq(st, v, n):
                    self.goto(fr, bb, st)
                    return
            self.goto(fr, t[3], st)
        elif k == "return":
            v = st.read(fr.locals[0], ())
            if v[0] == "uninit":
                v = UNIT
            st.frames.pop()
            self.ret(st, fr, v)
        elif k == "drop":
            self.goto(fr, t[2], st)
        elif k == "assert":
            if t[5] == "overflow" or t[4].startswith(("MisalignedPointer", "NullPointer", "NullReference", "InvalidEnum")):
                # compiler-inserted pointer validity checks hold for safe references
                self.goto(fr, t[3])
                return
            c = self.operand(st, fr, t[1])
            if self.truth(st, c) == t[2]:
                self.goto(fr, t[3])
            else:
                raise PathEnd("panic", "assert: " + t[4])
        elif k == "call":
            self.call(st, fr, t)
        elif k == "unreachable":
            raise PathEnd("infeasible")
        elif k in ("resume", "abort"):
            raise PathEnd("infeasible")
        else:
            raise Unsupported("terminator " + k)

    def switchval(self, fr, v, t, tt):
        """a count matched against listed values, the large ones possibly lowered"""
        p = fr.body["path"]
        if tt["k"] not in ("int", "uint") or tt.get("bits", 64) < 16 or "parsel::" not in p and "witness::" not in p:
            return v[1]
        site = (p, fr.bb, fr.si)
        for val, _ in t[2]:
            c = int(val)
            if 3 <= c <= 100000:
                self.sites.setdefault(site, {}).setdefault(c, set()).add((v[1] > c) - (v[1] < c))
                if site in self.scale and self.scale[site].get(c) == v[1]:
                    return c
        return v[1]

    def pick(self, n, t, tt):
        for (val, bb) in t[2]:
            x = int(val)
            if tt["k"] == "int" and x >= 1 << (tt["bits"] - 1):
                x -= 1 << tt["bits"]
            if x == n:
                return bb
        return t[3]

    def ret(self, st, fr, v):
        if fr.cont is not None:
            v = fr.cont(self, st, v)
        if not st.frames:
            raise PathEnd("ret", v)
        cell, path = fr.dest
        st.write(cell, path, v)
        caller = st.frames[-1]
        if fr.target is None:
            raise PathEnd("infeasible")
        self.goto(caller, fr.target, st)

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, t):
        f = self.operand_fn(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        if f["path"].split("::")[-1] in LIMITING:
            args = [self.threshold(fr, o, v, always=True) for o, v in zip(t[2], args)]
        dcell, dpath, dty, _ = self.place(st, fr, t[3])
        c = Call()
        c.args = args
        c.argtys = t[5]
        c.dest = (dcell, dpath)
        c.target = t[4]
        c.retty = t[6]
        c.line = t[7]
        c.desc = f
        self.dispatch(st, c)

    def operand_fn(self, st, fr, op):
        if op[0] == "k" and "fn" in op[1]:
            return op[1]["fn"]
        v = self.operand(st, fr, op)
        return self.fn_of_value(st, v)

    def fn_of_value(self, st, v):
        if v[0] in ("fndef", "fnval") and isinstance(v[1], int):
            return self.ty(v[1])["fn"]
        return {"path": "<fn pointer>", "args": [], "krate": "?", "value": v}

    def finish(self, st, c, v):
        """complete a call with value v"""
        if c.target is None:
            raise PathEnd("infeasible")
        st.write(c.dest[0], c.dest[1], v)
        self.goto(st.frames[-1], c.target, st)

    def dispatch(self, st, c):
        d = c.desc
        if d.get("ctor"):
            t = self.ty(c.retty)
            name = d["path"].split("::")[-1]
            vi = None
            if t["enum"]:
                vi = [i for i, v in enumerate(t["variants"]) if v["name"] == name][0]
            return self.finish(st, c, ("agg", t["path"], vi, tuple(c.args)))
        if d.get("trait") in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            if self.call_fn_trait(st, c):
                return
        if self.models.try_model(st, c):
            return
        inst = d.get("inst")
        if inst is not None and self.models.may_inline(d):
            return self.push(st, inst, c.args, c.dest, c.target)
        if d.get("shim") == "clone":
            return self.finish(st, c, self.deref_val(st, c.args[0]))
        self.models.opaque(st, c)

    def deref_val(self, st, v):
        if v[0] == "ref":
            return st.read(v[1], v[2])
        if v[0] in ("box", "boxp"):
            return st.cells[v[1]]
        return st.cells[st.derefcell(v)]

    def call_fn_trait(self, st, c):
        d = c.desc
        selfty = d["args"][0]
        t = self.ty(selfty)
        f = c.args[0]
        tup = c.args[1]
        if tup[0] == "agg":
            args = list(tup[3])
        else:
            tt = self.ty(c.argtys[1])
            args = [self.shape(st, ("proj", tup, None, i), ft) for i, ft in enumerate(tt["fields"])]
        tt = self.ty(c.argtys[1])
        argtys = list(tt["fields"]) if tt["k"] == "tuple" else []
        return self.call_value(st, c, f, selfty, args, argtys, d["name"])

    def call_value(self, st, c, f, fty, args, argtys, how):
        t = self.ty(fty)
        k = t["k"]
        if k == "closure":
            body = self.sv.body(t["inst"])
            envty = self.ty(body["locals"][1])
            if envty["k"] == "ref":
                env = f if how != "call_once" else ("ref", st.alloc(f), ())
            else:
                env = f if how == "call_once" else self.deref_val(st, f)
            self.push(st, t["inst"], [env] + args, c.dest, c.target)
            return True
        if k == "fndef":
            c2 = Call()
            c2.__dict__.update(c.__dict__)
            c2.desc = t["fn"]
            c2.args = args
            c2.argtys = argtys
            self.dispatch(st, c2)
            return True
        if k == "fnptr":
            fv = f if how == "call_once" else self.deref_val(st, f)
            d2 = self.fn_of_value(st, fv)
            c2 = Call()
            c2.__dict__.update(c.__dict__)
            c2.desc = d2
            c2.args = args
            c2.argtys = argtys
            self.dispatch(st, c2)
            return True
        if k in ("param", "alias"):
            c2 = Call()
            c2.__dict__.update(c.__dict__)
            c2.args = [f] + args
            c2.argtys = [c.argtys[0]] + argtys
            self.models.opaque(st, c2, name=("call", t["s"]))
            return True
        return False


class Call:
    pass


def linterms(a):
    if a[0] == "i":
        return {}, a[1]
    if a[0] == "lin":
        return dict(a[1]), a[2]
    return {a: 1}, 0


def mklin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1 and list(d.values())[0] == 1:
        return list(d.keys())[0]
    return ("lin", tuple(sorted(d.items(), key=repr)), c)


def constof(t):
    """a term whose value and order is known: number, text, list of numbers"""
    if t[0] == "i":
        return ("i", t[1])
    if t[0] == "str" and all(p[0] == "lit" for p in t[1]):
        return ("str", "".join(p[1] for p in t[1]).encode())
    if t[0] in ("vec", "arr") and all(x[0] == "i" for x in t[1]):
        return ("seq", tuple(x[1] for x in t[1]))
    return None


def linadd(a, b, sign):
    d, c = linterms(a)
    e, f = linterms(b)
    d = dict(d)
    for k, v in e.items():
        d[k] = d.get(k, 0) + sign * v
    return mklin(d, c + sign * f)


def linmul(a, b):
    if a[0] != "i":
        a, b = b, a
    d, c = linterms(b)
    return mklin({k: v * a[1] for k, v in d.items()}, c * a[1])


SNAPPABLE = {"ref", "box", "boxp", "agg", "vec", "arr", "it", "sliceit", "vecit", "pit", "ts", "str", "sym", "app", "proj", "val", "elem", "len", "lin", "err", "mut", "const", "i", "pb", "all", "cmpop", "not"}
