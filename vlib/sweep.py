"""Checks that sweep over every function of the library by abstract interpretation."""
from . import interp, eqcheck, models as M
from .interp import Unsupported

SEP = "parsel::ast::Separated"
SYNP = "syn::punctuated::Punctuated"


def mentions(it, tid, pred, depth=0, seen=None):
    """some type inside this one (through references, tuples, generic arguments) satisfies pred"""
    seen = set() if seen is None else seen
    if tid in seen or depth > 6:
        return False
    seen.add(tid)
    t = it.ty(tid)
    if pred(t):
        return True
    k = t["k"]
    if k in ("ref", "ptr", "slice", "array"):
        return mentions(it, t["e"], pred, depth + 1, seen)
    if k == "tuple":
        return any(mentions(it, f, pred, depth + 1, seen) for f in t["fields"])
    if k == "adt":
        return any(mentions(it, a, pred, depth + 1, seen) for a in t.get("args", ()) if isinstance(a, int))
    return False


def is_sep(t):
    return t["k"] == "adt" and t["path"] == SEP


def last_index(it, tid):
    """index of syn's `last` field"""
    t = it.ty(tid)
    inner = t["variants"][0]["fields"]
    for i, f in enumerate(inner):
        ft = it.ty(f[1])
        if ft["k"] == "adt" and ft["path"] == SYNP:
            for j, g in enumerate(ft["variants"][0]["fields"]):
                if g[0] == "last":
                    return i, j
    return None


def last_state(v, i, j, facts):
    """True / False / None: a separated sequence's value ends with an item"""
    inner = v[3][i] if v[0] == "agg" else ("proj", v, None, i)
    last = inner[3][j] if inner[0] == "agg" else ("proj", inner, None, j)
    if last[0] == "agg":
        return last[2] == 1
    r = facts.v.get(("var", last))
    if r is None:
        return None
    return r == 1


def sep_values(it, v, tid, out, depth=0):
    """the separated sequences inside a value"""
    t = it.ty(tid)
    if depth > 5:
        return
    if is_sep(t):
        out.append((v, tid))
    elif t["k"] == "ref":
        sep_values(it, v, t["e"], out, depth + 1)
    elif t["k"] == "tuple" and v[0] == "agg":
        for x, f in zip(v[3], t["fields"]):
            sep_values(it, x, f, out, depth + 1)
    elif t["k"] == "adt" and t["path"] == M.OPT and v[0] == "agg" and v[2] == 1:
        sep_values(it, v[3][0], t["args"][0], out, depth + 1)
    elif t["k"] == "adt" and t["path"] == M.RES and v[0] == "agg":
        sep_values(it, v[3][0], t["args"][v[2]], out, depth + 1)
    elif t["k"] == "adt" and t.get("box") and v[0] not in ("box", "boxp"):
        sep_values(it, v, t["args"][0], out, depth + 1)


def outside_value(v):
    """a value that a caller's own code produced or left behind"""
    r = repr(v)
    return "core::ops::function::Fn" in r or "<fn pointer>" in r or "core::ops::async_function" in r


def mut_container(it, tid, depth=0):
    """a mutable reference to a whole container handed out"""
    t = it.ty(tid)
    if depth > 6:
        return None
    if t["k"] == "ref":
        if t["mut"]:
            e = it.ty(t["e"])
            if e["k"] == "adt" and e["path"] in (SYNP, "alloc::vec::Vec", M.OPT, "parsel::ast::Punctuated"):
                return t["s"]
        return mut_container(it, t["e"], depth + 1)
    if t["k"] == "tuple":
        for f in t["fields"]:
            r = mut_container(it, f, depth + 1)
            if r:
                return r
    if t["k"] == "adt" and t["path"] in (M.OPT, M.RES, "core::pin::Pin", "alloc::boxed::Box"):
        for a in t["args"]:
            if isinstance(a, int):
                r = mut_container(it, a, depth + 1)
                if r:
                    return r
    return None


def separated(s, rep, tier):
    n = 0
    kinds = {"builds": 0, "modifies": 0, "reads": 0}
    for f in s.fns("parsel"):
        if f["kind"] == "Closure" or "inputs" not in f:
            continue
        if not (f.get("pub") or f.get("trait")):
            continue
        it = interp.Interp(s)
        it.root = f["inst"]
        ins, outt = f["inputs"], f["output"]
        takes = [mentions(it, t, is_sep) for t in ins]
        gives = mentions(it, outt, is_sep)
        if not any(takes) and not gives:
            continue
        n += 1
        name = f["path"] if not f.get("traitref") else "%s::%s" % (f["traitref"], f["path"].split("::")[-1])
        name = interp.strip_lt(name)
        o = eqcheck.Opts()
        # printing and string conversion neither build nor change a sequence by themselves
        it.models.opaque_fns = ["parsel::util::format_ast_node"]
        o.k = 5 if tier == "thorough" else 3
        # what goes in satisfies the invariant
        facts = interp.Facts()
        muts = []
        body = s.body(f["inst"])
        if "error" in body:
            rep.undecide(name, "no body")
            continue
        names = body.get("argnames") or []
        index_arg = False
        for i, t in enumerate(ins):
            ti = it.ty(t)
            nm = names[i] if i < len(names) and names[i] else "arg%d" % i
            e = ti
            mut = False
            tid = t
            while e["k"] == "ref":
                mut = mut or e["mut"]
                tid = e["e"]
                e = it.ty(tid)
            if is_sep(e):
                li = last_index(it, tid)
                if li is None:
                    rep.undecide(name, "Separated no longer wraps syn's Punctuated")
                    break
                facts.v[("var", ("proj", ("proj", ("sym", nm), None, li[0]), None, li[1]))] = 1
                if mut:
                    muts.append((i, tid))
            if ti["k"] in ("uint", "param", "alias") and i > 0:
                index_arg = True
        else:
            kinds["modifies" if muts else "builds" if gives else "reads"] += 1
            bad = unsup = None
            npaths = cuts = 0
            esc = mut_container(it, outt) if any(takes) else None
            # a closure given a mutable container, or a conversion to one, would let the invariant be broken outside
            if esc:
                rep.violation(name, "hands out mutable access to the inner sequence (%s), through which the invariant can be broken" % interp.strip_lt(esc), {"loc": f.get("loc")})
                continue
            try:
                for kind, out, st in eqcheck.run(it, f["inst"], facts, o):
                    npaths += 1
                    if kind == "cut":
                        cuts += 1
                        continue
                    path = [eqcheck.show_fact(k, v) for k, v in st.facts.trace][-40:]
                    if kind == "unsup":
                        unsup = out
                        continue
                    if kind == "panic":
                        if any(takes) and not index_arg and bad is None and "unmodelled" not in str(out):
                            bad = ("panics (%s) although the sequence is not empty and ends with an item" % (out,), path)
                        continue
                    val, ms = out
                    vals = []
                    sep_values(it, val, outt, vals)
                    where = ["the result"] * len(vals)
                    md = dict((int(w.split()[-1]), x) for w, x in ms if w.startswith("argument "))
                    for i, tid in muts:
                        if i in md:
                            vals.append((md[i], tid))
                            where.append("the modified sequence")
                    for (v, tid), w in zip(vals, where):
                        if v[0] != "agg":
                            continue        # a whole sequence from somewhere else was made through the checked functions
                        li = last_index(it, tid)
                        r = last_state(v, li[0], li[1], st.facts)
                        if r is False:
                            bad = bad or ("%s can be empty or end with a separator" % w, path)
                        elif r is None:
                            if outside_value(v):
                                bad = bad or ("%s was handed mutably to the caller's own code" % w, path)
                            else:
                                unsup = "cannot tell how %s ends: %s" % (w, eqcheck.show(v)[:160])
                    if bad:
                        break
            except Unsupported as e:
                unsup = str(e)
            rep.functions |= it.inlined
            rep.opaque |= it.opaque_seen
            rep.count("paths", npaths)
            rep.count("paths_cut_at_bound", cuts)
            if bad:
                rep.violation(name, bad[0], {"path": bad[1], "loc": f.get("loc")})
            elif unsup:
                rep.undecide(name, unsup)
            else:
                rep.ok(name, paths=npaths, cut=cuts)
    rep.counts["functions_by_role"] = kinds
    return n
