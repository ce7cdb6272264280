"""Runs reference comparisons: sections of Rust source `//@ name options` each holding name__imp and name__spec."""
import os
import re
import traceback

from . import eqcheck, interp
from .build import BuildError, VERIF

HEAD = "#![feature(try_trait_v2)]\n#![allow(warnings)]\n"


def header():
    return open(os.path.join(VERIF, "specs", "header.inc")).read()


def prelude():
    return open(os.path.join(VERIF, "vlib", "prelude.rs")).read()


def split_sections(text):
    """[(name or None, text)]; what precedes the first marker is shared"""
    out = [(None, [])]
    for line in text.split("\n"):
        m = re.match(r"\s*//@ (\w+)", line)
        if m:
            out.append((m.group(1), []))
        out[-1][1].append(line)
    return [(n, "\n".join(ls) + "\n") for n, ls in out]


def diag_text(d):
    sp = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
    c = d.get("code") or {}
    return "%s%s" % (d.get("message", "")[:300], " [%s]" % c.get("code") if c else "")


def outer_lines(d, fname):
    """lines of the witness file an error belongs to, through macro expansions"""
    ls = []
    for s in d.get("spans", []):
        if not s.get("is_primary"):
            continue
        while s is not None:
            if os.path.basename(s["file_name"]) == os.path.basename(fname):
                ls.append(s["line_start"])
            e = s.get("expansion")
            s = e["span"] if e else None
    if not ls:
        for s in d.get("spans", []):
            while s is not None:
                if os.path.basename(s["file_name"]) == os.path.basename(fname):
                    ls.append(s["line_start"])
                e = s.get("expansion")
                s = e["span"] if e else None
    return ls


def build_witness(T, rep, text, tag="w", extra_head=""):
    """serve a witness crate; sections that do not compile any more are violations and are left out"""
    sections = split_sections(text)
    dropped = set()
    T.build_derive()
    T.build_parsel()
    for attempt in range(12):
        body = HEAD + extra_head + header() + prelude()
        line = body.count("\n") + 1
        ranges = []
        for n, s in sections:
            if n in dropped:
                continue
            k = s.count("\n")
            ranges.append((n, line, line + k - 1))
            body += s
            line += k
        f = os.path.join(T.dir, "%s.rs" % tag)
        with open(f, "w") as fh:
            fh.write(body)
        try:
            return T.serve(f), dropped
        except BuildError as e:
            good, ds = T.compile(f)
            if good:
                raise
            bad = {}
            for d in ds:
                if d.get("level") != "error" or not d.get("spans"):
                    continue
                for l in outer_lines(d, f):
                    for n, a, b in ranges:
                        if a <= l <= b:
                            bad.setdefault(n, diag_text(d))
            names = [n for n in bad if n is not None]
            if not names:
                errs = [diag_text(d) for d in ds if d.get("level") == "error"]
                rep.violation("interface", "the public interface the property is stated over no longer type-checks: %s" % (errs[:3],), {"errors": errs[:10]})
                return None, dropped
            for n in names:
                rep.violation(n, "does not compile any more: %s" % bad[n], {"error": bad[n]}, key=n + ":compile")
                dropped.add(n)
    return None, dropped


def run_text(T, rep, text, tag="w", kadd=0, maxpairs=20000, only=None, need=None):
    opts = eqcheck.parse_opts(text)
    s, dropped = build_witness(T, rep, text, tag)
    if s is None:
        return
    try:
        fns = {x["path"].split("::")[-1]: x for x in s.fns("witness")}
        for n, o in opts.items():
            if n in dropped or (only and n not in only):
                continue
            if n + "__imp" not in fns:
                continue
            run_pair(s, rep, n, fns, o, kadd, maxpairs)
    finally:
        s.close()


def run_pair(s, rep, n, fns, o, kadd=0, maxpairs=20000):
    r = None
    while True:
        o2 = eqcheck.Opts()
        o2.__dict__.update(o.__dict__)
        o2.k = o.k + (kadd if o.k > 3 or kadd < 0 else 0)
        it = interp.Interp(s)
        try:
            cand = fns[n + "__cand"]["inst"] if n + "__cand" in fns else None
            r = eqcheck.compare(it, n, fns[n + "__imp"]["inst"], fns[n + "__spec"]["inst"], o2, maxpairs, cand)
            low = eqcheck.lowered(it) if r.status == "ok" and r.cuts else None
            if low:
                # limits that lie beyond the loop bound: decide the same question with every such limit lowered
                it = interp.Interp(s)
                it.scale = low
                o3 = eqcheck.Opts()
                o3.__dict__.update(o2.__dict__)
                o3.k = max(o2.k, 2 + max(v for m in low.values() for v in m.values()))
                r2 = eqcheck.compare(it, n, fns[n + "__imp"]["inst"], fns[n + "__spec"]["inst"], o3, maxpairs, cand)
                rep.count("limits_lowered", sum(len(m) for m in low.values()))
                if r2.status == "violation":
                    r2.why += " (with %s)" % ", ".join("the limit %d in %s reached at %d" % (c, site[0], m[c]) for site, m in low.items() for c in m)
                    r = r2
        except (interp.Unsupported, RecursionError) as e:
            rep.undecide(n, "%s: %s" % (type(e).__name__, str(e)[:200]))
            return None
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            rep.undecide(n, "analysis gap: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:160], os.path.basename(tb[-1].filename), tb[-1].lineno))
            return None
        # a smaller bound decides what a larger one cannot finish
        if r.status == "undecided" and "too many" in r.why and o2.k > 2 and kadd > -4:
            kadd -= 1
            continue
        break
    rep.functions |= {f for f in r.functions if not f.startswith("witness::")}
    rep.opaque |= r.opaque
    rep.count("paths", r.paths)
    rep.count("path_pairs_compared", r.compared)
    rep.count("paths_cut_at_bound", r.cuts)
    if len(rep.samples) < 6 and r.status == "ok":
        rep.samples.append({"obligation": n, "loop_bound": o2.k, "paths": r.paths, "pairs": r.compared, "functions": sorted(f for f in r.functions if not f.startswith("witness::"))[:12]})
    if r.status == "ok":
        rep.ok(n, paths=r.paths, pairs=r.compared, cut=r.cuts)
    elif r.status == "violation":
        rep.violation(n, r.why, dict(r.detail or {}, functions=sorted(r.functions)[:40]))
    else:
        rep.undecide(n, r.why)
    return r
