"""What the macros' own code may do while it expands an item (C27): nothing but compute on the item."""
import re

HASHCONT = re.compile(r"\bHash(Set|Map)<")
HASHITER = re.compile(r"(hash(::|_)(set|map)|hashbrown::\w+)::(Iter|IterMut|IntoIter|Drain|Keys|Values|ValuesMut|IntoKeys|IntoValues|Difference|Union|Intersection|SymmetricDifference|ExtractIf|RawIter)\b")
FIXED = re.compile(r"BuildHasherDefault")
SOURCES = [
    (re.compile(r"^std::(env|fs|net|time|os|process|backtrace)::"), "the environment"),
    (re.compile(r"^std::io::(stdio|Std|stdin)|^std::io::.*[Ss]tdin"), "the environment"),
    (re.compile(r"^std::thread::(local::LocalKey|.*LocalKey)"), "state kept between expansions"),
    (re.compile(r"^std::thread::"), "the thread it runs on"),
    (re.compile(r"^core::sync::atomic::|^<core::sync::atomic::|^core::sync::.*Atomic"), "state kept between expansions"),
    (re.compile(r"^std::sync::(poison::)?(mutex|rwlock|once::|mpsc|barrier|condvar|Mutex|RwLock|Once\b)"), "state kept between expansions"),
    (re.compile(r"^std::sync::.*OnceLock.*::set$"), "state kept between expansions"),
    (re.compile(r"RandomState.*::(build_hasher|hash_one)$|^std::hash::random::"), "a random hash seed"),
    (re.compile(r"^(rand|rand_core|getrandom|fastrand|uuid)\w*::"), "randomness"),
    (re.compile(r"^proc_macro::tracked_|^proc_macro::(env|path)::"), "the environment"),
    (re.compile(r"^proc_macro2?::(\w+::)*Span::(start|end|line|column|file|local_file|source_file|byte_range|subspan)$"), "where the item stands in its file"),
]
# order-free operations of a hash container
ORDERFREE = set("""new with_capacity default with_hasher with_capacity_and_hasher insert contains contains_key get get_mut get_key_value remove remove_entry take replace entry len is_empty
    capacity reserve shrink_to_fit clear clone eq ne is_subset is_superset is_disjoint get_or_insert_with or_insert or_insert_with or_default and_modify key index deref borrow as_ref as_mut drop
    hasher from extend from_iter try_insert clone_from into as_deref map_or is_some is_none unwrap expect write borrow_mut deref_mut bitand bitor bitxor sub retain
    branch from_residual from_output""".split())
MAKES = set("iter iter_mut into_iter drain keys values values_mut into_keys into_values difference union intersection symmetric_difference extract_if".split())
PASSES = set("map filter filter_map flat_map flatten cloned copied into_iter by_ref inspect chain fuse peekable size_hint clone iter quote_into_iter ext check".split())
COUNTS = set("count any all sum product max min max_by_key min_by_key max_by min_by eq_by drop size_hint is_empty len".split())
UNORDERED = re.compile(r"BTree(Set|Map)<|Hash(Set|Map)<")
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$")


class Effects:
    def __init__(self, s, rep, crate):
        self.s = s
        self.rep = rep
        self.crate = crate
        self.bodies = 0
        self.calls = 0

    def parts(self, j, fns, tys, casts):
        if isinstance(j, dict):
            if "fn" in j:
                fns.append(j["fn"])
            if isinstance(j.get("ty"), int):
                tys.add(j["ty"])
            for v in j.values():
                self.parts(v, fns, tys, casts)
        elif isinstance(j, list):
            if j and j[0] == "cast":
                casts.append(j)
            for v in j:
                self.parts(v, fns, tys, casts)

    def run(self, roots):
        seen = set()
        work = [(r, ()) for r in roots]
        s = self.s
        while work:
            i, chain = work.pop()
            if i in seen:
                continue
            seen.add(i)
            b = s.body(i)
            if "error" in b:
                continue
            self.bodies += 1
            self.rep.functions.add(b["path"])
            fns, tys, casts = [], set(b["locals"]), []
            for bb in b["blocks"]:
                if not bb["cleanup"]:
                    self.parts(bb["s"], fns, tys, casts)
                    self.parts(bb["t"], fns, tys, casts)
            here = chain + (b["path"],)
            sorts = any(SORT.search(d["path"]) for d in fns)
            before = len(self.rep.viol) + len(self.rep.undecided)
            for c in casts:
                if "PointerExpose" in repr(c[1]) or "PtrToInt" in repr(c[1]):
                    self.bad(b, here, "a memory address", repr(c[1]))
            for d in fns:
                self.calls += 1
                a = [s.ty(x, i) for x in d.get("args", ()) if isinstance(x, int)]
                for t in a:
                    if t["k"] == "closure":
                        work.append((t["inst"], here))
                if d.get("rkrate") == self.crate and d.get("inst") is not None:
                    work.append((d["inst"], here))
                    continue
                self.call(b, here, d, [t.get("s", "") for t in a], sorts)
            for t in tys:
                t = s.ty(t, i)
                if t["k"] == "closure":
                    work.append((t["inst"], here))
            if len(self.rep.viol) + len(self.rep.undecided) == before:
                self.rep.ok(b["path"], calls=len(fns))

    def bad(self, b, here, what, via):
        self.rep.violation(b["path"], "the expansion depends on %s (%s)" % (what, via), {"path": list(here), "loc": b.get("loc"), "via": via}, key="%s:%s" % (b["path"], via))

    def call(self, b, here, d, a, sorts):
        for p in (d["path"], d.get("rpath") or ""):
            p = re.sub(r"<[^<>]*>::", "", p) if not p.startswith("<") else p
            for rx, what in SOURCES:
                if rx.search(p):
                    return self.bad(b, here, what, d["path"])
        n = d["path"].split("::")[-1]
        if n in ("new_pointer",):
            return self.bad(b, here, "a memory address", d["path"])
        if n in ("new_debug", "debug_struct_field1_finish", "fmt") and any(re.search(r"\bSpan$|\bSpan>", x) for x in a):
            return self.bad(b, here, "where the item stands in its file", "formatting a Span")
        if any(FIXED.search(x) for x in a):
            return
        it = [x for x in a if HASHITER.search(x)]
        ct = [x for x in a if HASHCONT.search(x) and not HASHITER.search(x)]
        if not it and not ct:
            return
        what = "the iteration order of a hash table"
        if not it and (n in ORDERFREE or n in MAKES) and not (n in ("extend", "from_iter", "from", "into", "collect") and a and not UNORDERED.search(a[0])):
            return
        if it and (n in PASSES or n in COUNTS):
            return
        if n in ("collect", "extend", "from_iter", "from"):
            target = a[-1] if n == "collect" else a[0]
            if UNORDERED.match(re.sub(r"^[\w:]*::", "", target)):
                return
            if sorts:
                return self.rep.undecide(b["path"], "collects in hash order and sorts something afterwards")
            return self.bad(b, here, what, "%s into %s" % (d["path"], target))
        if it:
            if sorts:
                return self.rep.undecide(b["path"], "goes through a hash table and sorts something afterwards")
            return self.bad(b, here, what, d["path"])
        if n in ("new_debug", "new_display", "for_each", "fold", "next", "append_all", "append_separated", "append_terminated", "to_tokens"):
            return self.bad(b, here, what, d["path"])
        if (d.get("rkrate") or d.get("krate")) in ("core", "alloc") and n in ("call", "call_once", "call_mut", "map", "unwrap_or_default", "unwrap_or_else", "ok", "and_then", "transpose", "map_err", "take", "swap"):
            return
        self.rep.undecide(b["path"], "hands a hash table to %s" % d["path"])
