"""Models of library operations for the abstract interpreter, and the policy which bodies are looked into."""
import re

from .interp import (I, TRUE, FALSE, UNIT, S, agg, is_int, mkstr, NeedSplit, Unsupported, PathEnd, Call, linadd, constof)

OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"


def none():
    return agg(OPT, 0)


def some(x):
    return agg(OPT, 1, x)


def ok(x):
    return agg(RES, 0, x)


def err(x):
    return agg(RES, 1, x)


def norm(p):
    """drop generic arguments of path segments: Vec::<T, A>::push -> Vec::push"""
    if p is None:
        return ""
    out, i, depth = [], 0, 0
    while i < len(p):
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


ITER = "core::iter::traits::iterator::Iterator"
DITER = "core::iter::traits::double_ended::DoubleEndedIterator"
PB = "syn::parse::ParseBuffer"

# standard library modules whose bodies are plain value plumbing and are looked into
INLINE_CORE = ("core::mem::discriminant", "core::option::", "core::result::", "core::ops::range", "core::ops::deref", "core::ops::try_trait", "core::ops::control_flow",
               "core::ops::function", "core::convert::", "core::cmp::", "core::iter::", "core::borrow::", "core::clone::", "core::default::", "core::tuple::",
               "core::bool::", "core::array::equality", "alloc::borrow::", "core::ops::index", "core::cell::once")
NOINLINE_CORE = ("core::iter::adapters::zip", "core::iter::adapters::flatten", "core::option::expect_failed", "core::option::unwrap_failed")
INLINE_SYN = ("syn::punctuated::Punctuated::", "syn::punctuated::IntoPairs", "syn::punctuated::Pairs", "syn::punctuated::Pair", "syn::punctuated::printing", "syn::punctuated::do_extend",
              "syn::parse_str", "syn::parse2", "syn::parse::Parser::parse_str")
NOINLINE_SYN = ("syn::punctuated::Punctuated::iter", "syn::punctuated::Punctuated::iter_mut")

PANICS = ("core::panicking::", "std::panicking::", "std::rt::panic", "std::rt::begin_panic", "core::option::expect_failed", "core::option::unwrap_failed",
          "core::result::unwrap_failed", "core::slice::index::slice_", "alloc::raw_vec::handle_error", "core::str::slice_error_fail", "alloc::alloc::handle_alloc_error",
          "std::process::abort", "std::process::exit", "core::cell::panic_", "core::slice::index::RangeError", "core::unreachable")

# functions whose result is their (first) argument, seen through references
IDENTITY = {
    "alloc::string::String::as_str", "alloc::string::String::as_mut_str", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice",
    "alloc::string::String::into_boxed_str", "alloc::vec::Vec::into_boxed_slice", "alloc::boxed::Box::into_inner",
    "alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes",
    "alloc::slice::<impl [T]>::into_vec", "alloc::str::<impl str>::into_string", "alloc::boxed::Box::into_pin", "core::hint::must_use", "core::hint::black_box",
    "alloc::string::String::into_bytes", "core::str::<impl str>::as_str", "alloc::borrow::Cow::into_owned", "ordered_float::NotNan::into_inner",
    "core::slice::<impl [T]>::as_ref", "core::convert::identity", "core::str::<impl str>::as_ref", "core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_mut_slice",
    "core::num::nonzero::NonZero::get", "quote::__private::get_span",
}


# Unicode White_Space
WHITE = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


ASCII_TESTS = {
    "is_ascii": lambda b: b < 128, "is_ascii_graphic": lambda b: 33 <= b <= 126, "is_ascii_control": lambda b: b < 32 or b == 127,
    "is_ascii_alphabetic": lambda b: 65 <= b & ~32 <= 90, "is_ascii_digit": lambda b: 48 <= b <= 57, "is_ascii_uppercase": lambda b: 65 <= b <= 90,
    "is_ascii_lowercase": lambda b: 97 <= b <= 122, "is_ascii_alphanumeric": lambda b: 48 <= b <= 57 or 65 <= b & ~32 <= 90,
    "is_ascii_whitespace": lambda b: b in (9, 10, 12, 13, 32), "is_ascii_hexdigit": lambda b: 48 <= b <= 57 or 65 <= b & ~32 <= 70,
    "is_ascii_punctuation": lambda b: 33 <= b <= 47 or 58 <= b <= 64 or 91 <= b <= 96 or 123 <= b <= 126}


def escaped_byte(b):
    """what core::ascii::escape_default makes of a byte"""
    plain = {9: "\\t", 10: "\\n", 13: "\\r", 34: "\\\"", 39: "\\'", 92: "\\\\"}
    return plain.get(b) or (chr(b) if 32 <= b < 127 else "\\x%02x" % b)


def padded(spec, parts, kind):
    """a number in a known format with flags and width, None if that is not known"""
    if kind not in ("lower_hex", "upper_hex", "octal", "binary") or len(parts) != 1 or parts[0][0] != "lit":
        return None
    text, flags, width = parts[0][1], 0x20, 0
    for x in spec:
        if x[0] == "flags":
            flags = x[1]
        elif x[0] == "width" and not x[2]:
            width = x[1]
        else:
            return None
    if flags & (1 << 21 | 1 << 22) or flags & 0x1FFFFF != 0x20 or (flags >> 29 & 3) != 3:
        return None
    pre = {"lower_hex": "0x", "upper_hex": "0x", "octal": "0o", "binary": "0b"}[kind] if flags & 1 << 23 else ""
    if flags & 1 << 24:
        return pre + text.rjust(width - len(pre), "0")
    return (pre + text).rjust(width)


class Models:
    def __init__(self, it):
        self.it = it
        self.opaque_types = []        # type paths whose Parse/ToTokens/Display are assumed (modular reasoning)
        self.seqeq = False            # vectors are compared element by element
        self.opaque_fns = []          # normalised path prefixes never looked into
        self.errblind = False         # which of two errors is further does not matter
        self.progress = False         # successful component parses may consume nothing
        self.writer_ok = True         # writers succeed (errors are a separate property)
        self.recur = None             # summary of a recursive call, when one is being proved by induction
        self.exact = {
            PB + "::fork": self.m_fork,
            PB + "::is_empty": self.m_is_empty,
            PB + "::error": self.m_pberror,
            PB + "::cursor": self.m_cursor,
            PB + "::span": self.m_pbspan,
            PB + "::peek": self.m_peek,
            PB + "::peek2": self.m_peek,
            PB + "::peek3": self.m_peek,
            "syn::lit::LitInt::base10_parse": self.m_base10,
            "syn::lit::LitFloat::base10_parse": self.m_base10,
            "core::str::<impl str>::parse": self.m_numparse,
            "alloc::string::String::from_utf8_lossy": self.m_utf8lossy,
            "core::char::from_u32": self.m_charfrom,
            "core::char::methods::<impl char>::to_digit": self.m_todigit,
            "core::char::methods::<impl char>::from_digit": self.m_todigit,
            "core::char::methods::<impl char>::from_u32": self.m_charfrom,
            "core::char::convert::from_u32": self.m_charfrom,
            "syn::buffer::Cursor::eof": self.m_eof,
            "syn::buffer::Cursor::token_tree": self.m_cursortree,
            "syn::buffer::Cursor::ident": self.m_cursortree,
            "syn::buffer::Cursor::punct": self.m_cursortree,
            "syn::buffer::Cursor::literal": self.m_cursortree,
            "syn::buffer::Cursor::lifetime": self.m_cursortree,
            "syn::error::Error::new": self.m_errnew,
            "syn::error::Error::new_spanned": self.m_errnewspanned,
            "syn::error::Error::span": self.m_errspan,
            "proc_macro2::TokenStream::new": lambda st, c: ("ts", ()),
            "quote::__private::TokenStream::new": lambda st, c: ("ts", ()),
            "proc_macro2::TokenStream::is_empty": self.m_tsempty,
            "core::str::<impl str>::chars": self.m_chars,
            "core::str::<impl str>::bytes": self.m_bytes,
            "core::char::methods::<impl char>::len_utf8": self.m_lenutf8,
            "alloc::boxed::Box::new": self.m_boxnew,
            "alloc::boxed::Box::new_uninit": lambda st, c: ("box", st.alloc(("uninit",))),
            "alloc::boxed::box_assume_init_into_vec_unsafe": self.m_vecmacro,
            "core::mem::replace": self.m_replace,
            "core::mem::swap": self.m_swap,
            "core::mem::take": self.m_memtake,
            "core::mem::drop": lambda st, c: UNIT,
            "core::mem::forget": lambda st, c: UNIT,
            "alloc::vec::Vec::new": lambda st, c: ("vec", ()),
            "alloc::vec::Vec::with_capacity": lambda st, c: ("vec", ()),
            "alloc::vec::Vec::reserve": lambda st, c: UNIT,
            "alloc::vec::Vec::reserve_exact": lambda st, c: UNIT,
            "alloc::vec::Vec::shrink_to_fit": lambda st, c: UNIT,
            "alloc::string::String::reserve": lambda st, c: UNIT,
            "alloc::vec::Vec::push": self.m_push,
            "alloc::vec::Vec::pop": self.m_pop,
            "alloc::vec::Vec::len": self.m_len,
            "alloc::vec::Vec::is_empty": self.m_isempty_seq,
            "alloc::vec::Vec::clear": self.m_clear,
            "alloc::vec::Vec::insert": self.m_insert,
            "alloc::vec::Vec::remove": self.m_remove,
            "alloc::vec::Vec::swap_remove": self.m_swap_remove,
            "alloc::vec::Vec::truncate": self.m_truncate,
            "alloc::vec::Vec::append": self.m_append,
            "alloc::vec::Vec::extend_from_slice": self.m_extend_from_slice,
            "core::slice::<impl [T]>::reverse": self.m_reverse,
            "core::slice::<impl [T]>::swap": self.m_sliceswap,
            "core::slice::<impl [T]>::len": self.m_len,
            "core::slice::<impl [T]>::is_empty": self.m_isempty_seq,
            "core::slice::<impl [T]>::iter": self.m_sliceiter,
            "core::slice::<impl [T]>::iter_mut": self.m_sliceiter,
            "core::str::<impl str>::get": self.m_sliceget,
            "core::slice::<impl [T]>::contains": self.m_contains,
            "core::slice::<impl [T]>::binary_search": self.m_binary_search,
            "core::slice::<impl [T]>::get": self.m_sliceget,
            "core::slice::<impl [T]>::get_mut": self.m_sliceget,
            "core::slice::<impl [T]>::first": self.m_first,
            "alloc::slice::<impl [T]>::to_vec": self.m_tovec,
            "core::slice::<impl [T]>::first_mut": self.m_first,
            "core::slice::<impl [T]>::last": self.m_last,
            "core::slice::<impl [T]>::last_mut": self.m_last,
            "core::slice::<impl [T]>::split_first": self.m_split_first,
            "core::slice::<impl [T]>::starts_with": lambda st, c: self.helper(st, c, "slice_starts", [c.desc["args"][0]]),
            "core::slice::<impl [T]>::ends_with": lambda st, c: self.helper(st, c, "slice_ends", [c.desc["args"][0]]),
            "core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case": self.m_bytes_icase,
            "core::slice::<impl [T]>::split_last": self.m_split_last,
            "alloc::string::String::new": lambda st, c: S(""),
            "alloc::string::String::with_capacity": lambda st, c: S(""),
            "alloc::string::String::push_str": self.m_push_str,
            "alloc::str::<impl str>::repeat": self.m_repeat,
            "alloc::string::String::push": self.m_push_char,
            "alloc::string::String::is_empty": self.m_strempty,
            "core::str::<impl str>::is_empty": self.m_strempty,
            "core::str::<impl str>::len": self.m_strlen,
            "alloc::string::String::len": self.m_strlen,
            "alloc::fmt::format": self.m_format,
            "alloc::fmt::format::format_inner": self.m_format,
            "core::fmt::Arguments::new": self.m_argsnew,
            "core::fmt::Arguments::from_str": self.m_argsstr,
            "core::fmt::Arguments::from_str_nonconst": self.m_argsstr,
            "core::fmt::Arguments::new_const": self.m_argsstr,
            "core::fmt::Arguments::as_statically_known_str": lambda st, c: none(),
            "core::fmt::Arguments::as_str": lambda st, c: none(),
            "core::fmt::Formatter::write_str": self.m_wstr,
            "core::fmt::Formatter::write_fmt": self.m_wfmt,
            "core::fmt::Formatter::pad": self.m_wpad,
            "core::fmt::builders::DebugList::entries": self.m_dbgentries,
            "core::fmt::Formatter::alternate": self.m_alternate,
            "core::fmt::Formatter::width": self.m_flag,
            "core::fmt::Formatter::precision": self.m_flag,
            "core::fmt::Formatter::fill": self.m_flag,
            "core::fmt::Formatter::sign_plus": self.m_flag,
            "core::fmt::Formatter::sign_minus": self.m_flag,
            "core::fmt::Formatter::sign_aware_zero_pad": self.m_flag,
            "core::num::<impl usize>::saturating_sub": self.m_satsub,
            "core::num::<impl usize>::checked_sub": self.m_checked_sub,
            "core::num::<impl usize>::checked_add": lambda st, c: some(self.it.binop(st, "Add", c.args[0], c.args[1])),
            "core::num::<impl usize>::wrapping_add": lambda st, c: self.it.binop(st, "Add", c.args[0], c.args[1]),
            "core::num::<impl usize>::wrapping_sub": lambda st, c: self.it.binop(st, "Sub", c.args[0], c.args[1]),
            "core::num::<impl usize>::saturating_add": lambda st, c: self.it.binop(st, "Add", c.args[0], c.args[1]),
            "core::array::<impl [T; N]>::map": self.m_arrmap,
            "std::sync::once_lock::OnceLock::get_or_init": self.m_onceinit,
            "core::cell::once::OnceCell::get_or_init": self.m_onceinit,
            "alloc::boxed::Box::leak": lambda st, c: ("ref", c.args[0][1], ()) if c.args[0][0] == "box" else None,
            "std::collections::hash::set::HashSet::new": lambda st, c: ("vec", ()),
            "alloc::collections::btree::set::BTreeSet::new": lambda st, c: ("vec", ()),
            "std::collections::hash::set::HashSet::with_capacity": lambda st, c: ("vec", ()),
            "std::collections::hash::set::HashSet::contains": self.m_setop("set_contains"),
            "alloc::collections::btree::set::BTreeSet::contains": self.m_setop("set_contains"),
            "std::collections::hash::set::HashSet::insert": self.m_setop("set_insert"),
            "alloc::collections::btree::set::BTreeSet::insert": self.m_setop("set_insert"),
            "core::num::nonzero::NonZero::new": self.m_nonzero,
            "core::num::nonzero::NonZero::new_unchecked": lambda st, c: c.args[0],
            "proc_macro2::Ident::to_string": self.m_tostring,
            "syn::punctuated::Punctuated::iter": self.m_piter,
            "syn::punctuated::Punctuated::iter_mut": self.m_piter,
            "core::iter::adapters::zip::Zip::new": None,
            "core::io::cursor::Cursor::new": self.m_iocursor,
            "std::io::cursor::Cursor::new": self.m_iocursor,
            "core::io::cursor::Cursor::position": self.m_curpos,
            "std::io::cursor::Cursor::position": self.m_curpos,
            "core::str::converts::from_utf8": self.m_fromutf8,
            "alloc::string::String::from_utf8": self.m_fromutf8,
            "alloc::vec::from_elem": self.m_from_elem,
        }
        self.exact = {k: v for k, v in self.exact.items() if v is not None}
        for nm in ASCII_TESTS:
            for ty in ("core::num::<impl u8>::", "core::char::methods::<impl char>::"):
                self.exact[ty + nm] = self.m_ascii_test
        self.exact["core::ascii::escape_default"] = self.m_escape_byte
        for nm in ("strip_prefix", "strip_suffix", "starts_with", "ends_with", "contains", "eq_ignore_ascii_case", "trim_matches", "trim_start_matches", "trim_end_matches",
                   "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "is_ascii", "trim", "trim_start", "trim_end", "replace", "split_whitespace"):
            for o in ("core::str::<impl str>::", "alloc::str::<impl str>::"):
                self.exact[o + nm] = self.m_conststr
        for nm in ("join", "concat"):
            self.exact["alloc::slice::<impl [T]>::" + nm] = self.m_join
        for nm in ("char_indices", "lines", "split", "split_inclusive", "split_terminator", "find", "rfind", "match_indices"):
            self.exact["core::str::<impl str>::" + nm] = self.m_textiter
        for p in ("syn::group::parse_parens", "syn::group::parse_braces", "syn::group::parse_brackets"):
            self.exact[p] = self.m_group
        self.traitm = {
            ("syn::parse::discouraged::Speculative", "advance_to"): self.m_advance,
            ("syn::parse::Parse", "parse"): self.m_parse,
            ("quote::to_tokens::ToTokens", "to_tokens"): self.m_totokens,
            ("quote::to_tokens::ToTokens", "to_token_stream"): self.m_totokenstream,
            ("quote::to_tokens::ToTokens", "into_token_stream"): self.m_totokenstream,
            ("quote::ext::TokenStreamExt", "append"): self.m_tsappend,
            ("core::clone::Clone", "clone"): self.m_clone,
            ("core::clone::Clone", "clone_from"): self.m_clone_from,
            ("alloc::borrow::ToOwned", "to_owned"): self.m_toowned,
            ("alloc::string::ToString", "to_string"): self.m_tostring,
            ("core::default::Default", "default"): self.m_default,
            ("core::ops::deref::Deref", "deref"): self.m_deref,
            ("core::ops::deref::DerefMut", "deref_mut"): self.m_deref,
            ("core::convert::AsRef", "as_ref"): self.m_deref,
            ("core::convert::AsMut", "as_mut"): self.m_deref,
            ("core::borrow::Borrow", "borrow"): self.m_deref,
            ("core::borrow::BorrowMut", "borrow_mut"): self.m_deref,
            ("core::convert::From", "from"): lambda st, c: self.m_fromchar(st, c) or self.m_from(st, c),
            ("core::convert::TryFrom", "try_from"): self.m_tryfrom,
            ("core::cmp::PartialEq", "eq"): self.m_eq,
            ("core::cmp::PartialEq", "ne"): self.m_ne,
            ("core::cmp::PartialOrd", "lt"): self.m_pord,
            ("core::cmp::PartialOrd", "le"): self.m_pord,
            ("core::cmp::PartialOrd", "gt"): self.m_pord,
            ("core::cmp::PartialOrd", "ge"): self.m_pord,
            ("core::cmp::PartialOrd", "partial_cmp"): self.m_pord,
            ("core::cmp::Ord", "cmp"): self.m_pord,
            ("core::hash::Hash", "hash"): self.m_hash,
            ("core::hash::Hash", "hash_slice"): self.m_hash,
            ("core::iter::traits::collect::IntoIterator", "into_iter"): self.m_intoiter,
            ("core::iter::traits::collect::FromIterator", "from_iter"): self.m_fromiter,
            ("core::iter::traits::collect::Extend", "extend"): self.m_extend,
            ("core::iter::traits::collect::Extend", "extend_one"): self.m_extend_one,
            ("core::iter::traits::collect::Extend", "extend_one_unchecked"): self.m_extend_one,
            ("core::iter::traits::collect::Extend", "extend_reserve"): lambda st, c: None if self.local_impl(c) else UNIT,
            ("core::iter::traits::exact_size::ExactSizeIterator", "len"): self.m_iterlen,
            ("core::ops::index::Index", "index"): self.m_index,
            ("core::ops::index::IndexMut", "index_mut"): self.m_index,
            ("core::slice::index::SliceIndex", "index"): self.m_sliceindex,
            ("core::slice::index::SliceIndex", "index_mut"): self.m_sliceindex,
            ("core::slice::index::SliceIndex", "get"): self.m_sliceindex,
            ("core::slice::index::SliceIndex", "get_mut"): self.m_sliceindex,
            ("core::fmt::Write", "write_str"): self.m_wstr,
            ("core::fmt::Write", "write_char"): self.m_wchar,
            ("core::fmt::Write", "write_fmt"): self.m_wfmt,
            ("core::io::write::Write", "write_fmt"): self.m_iowfmt,
            ("std::io::Write", "write_fmt"): self.m_iowfmt,
            ("core::fmt::Display", "fmt"): self.m_fmt,
            ("core::fmt::Debug", "fmt"): self.m_fmt,
            ("core::ops::arith::AddAssign", "add_assign"): self.m_addassign,
            ("core::ops::arith::Add", "add"): self.m_add,

            ("core::ops::drop::Drop", "drop"): lambda st, c: None if self.local_impl(c) else UNIT,
        }
        for nm in ("new_display", "new_debug", "new_lower_hex", "new_upper_hex", "new_octal", "new_binary", "new_lower_exp", "new_upper_exp", "new_pointer"):
            self.exact["core::fmt::rt::Argument::" + nm] = self.m_fmtarg

    # ------------------------------------------------------------------ policy
    def bound(self, old, st, key, option, k):
        """lengths grow one by one up to the loop bound; a comparison with a larger constant is followed beyond it"""
        if key[0] not in ("iveq", "ivlt") or key[1][0] != "len":
            return True
        lo = st.facts.interval(key[1])[0]
        if lo <= k:
            return True
        was = old.facts.interval(key[1])[0]
        return lo == was or key[1][1][0] == "str" or k + 1 < lo <= 70 and lo > was + 1

    def filter_options(self, st, key, options):
        if self.errblind and key[0] == "order" and "Span::" in repr(key[1])[:200] and "Span::" in repr(key[2])[:200]:
            return options[:1]
        a = st.facts.assumed
        if a is not None:
            return a(st, key, options)
        return options

    def is_opaque_type(self, st, d):
        if not self.opaque_types or not d.get("args"):
            return False
        t = d["args"][0]
        if not isinstance(t, int):
            return False
        info = self.it.ty(t)
        while info["k"] == "ref":
            info = self.it.ty(info["e"])
        if info["k"] != "adt":
            return False
        if not any(info["path"] == p or info["s"].startswith(p) for p in self.opaque_types):
            return False
        # the analysed entry itself is looked into exactly once
        return not (st.entry_fresh and len(st.frames) == 1)

    def may_inline(self, d):
        k = d.get("rkrate")
        r = norm(d.get("rpath"))
        if any(r == p[:-1] if p.endswith("$") else r.startswith(p) for p in self.opaque_fns):
            return False
        if k in ("witness", "parsel"):
            return True
        if k == "syn":
            if any(r.startswith(p) for p in NOINLINE_SYN) and not r.startswith("syn::punctuated::Punctuated::iter_"):
                return False
            if r.startswith(INLINE_SYN):
                return True
            if r == PB + "::parse" or r == PB + "::call":
                return True
            if "syn::punctuated::" in r and r.startswith("<") and not r.startswith(("<syn::punctuated::Iter", "<syn::punctuated::PrivateIter")):
                return True
            if r.startswith("<alloc::boxed::Box<T> as syn::parse::Parse>"):
                return True
            if r == "syn::lit::value::<impl syn::lit::Lit>::span":
                return True
            if "::surround" in r and r.startswith("syn::token::"):
                return True
            if r == "syn::token::printing::delim" or r.startswith("<F as syn::parse::Parser>"):
                return r == "syn::token::printing::delim"
            if r.startswith("<syn::token::") and r.endswith((" as core::cmp::PartialEq>::eq", " as core::clone::Clone>::clone", " as core::hash::Hash>::hash")):
                return True
            if r.startswith("syn::group::Parens") or r.startswith("syn::parse::Nothing"):
                return True
            return False
        if k == "quote":
            return r.startswith(("<&", "<alloc::boxed::Box", "<core::option::Option", "quote::to_tokens::ToTokens", "<proc_macro2::TokenStream as quote::ext::TokenStreamExt>", "quote::__private::", "quote::runtime"))
        if k in ("core", "alloc", "std"):
            rr = r
            if rr == "core::str::<impl str>::parse":
                return True
            m = re.match(r"<(.*) as ([\w:]+)", r)
            if any(x in rr for x in NOINLINE_CORE):
                return False
            if m:
                # an impl in a plumbing module: judged by self type and trait
                selfp, trait = m.group(1), m.group(2)
                if any(x in selfp for x in ("slice::iter", "vec::", "string::", "alloc::rc", "collections", "str::", "char::", "io::", "fmt::", "hash::", "NonNull", "Unique", "mem::", "cell::")):
                    return False
                if trait.startswith(("core::fmt", "core::hash", "std::io", "core::slice", "core::str")):
                    return trait in ("core::fmt::Display", "core::fmt::Debug") and selfp.startswith("&") or trait == "core::hash::Hash" and selfp.startswith(("&", "core::option::Option", "alloc::boxed::Box"))
                if trait == "core::clone::Clone":
                    return True
                return trait.startswith(("core::", "alloc::borrow"))
            if rr.startswith(INLINE_CORE) or rr.startswith("core::hash::impls::<impl core::hash::Hash for &"):
                return True
            if re.match(r"core::(cmp|option|convert|iter|ops|tuple|array)::", rr):
                return True
            return False
        if k == "proc_macro2":
            return False
        return False

    # ------------------------------------------------------------------ dispatch
    def try_model(self, st, c):
        d = c.desc
        it = self.it
        if self.recur is not None:
            v = self.recur(st, c)
            if v is not None:
                it.finish(st, c, v)
                return True
        p = norm(d.get("path"))
        r = norm(d.get("rpath"))
        intr = d.get("intrinsic")
        if intr and self.intrinsic(st, c, intr):
            return True
        for x in (r, p):
            if x and x.startswith(PANICS):
                raise PathEnd("panic", x.split("::")[-1])
        h = self.exact.get(r) or self.exact.get(p)
        if h is not None:
            v = h(st, c)
            if v is not None:
                if v is not True:
                    it.finish(st, c, v)
                return True
        if r and r.startswith("core::num::<impl "):
            v = self.m_intmethod(st, c, r.split("::")[-1])
            if v is not None:
                it.finish(st, c, v)
                return True
        if r in IDENTITY or p in IDENTITY:
            it.finish(st, c, c.args[0])
            return True
        tr = d.get("trait")
        if tr is not None:
            h = self.traitm.get((tr, d.get("name")))
            if h is not None:
                v = h(st, c)
                if v is not None:
                    if v is not True:
                        it.finish(st, c, v)
                    return True
            if tr in (ITER, DITER):
                v = self.m_iterator(st, c)
                if v is not None:
                    if v is not True:
                        it.finish(st, c, v)
                    return True
            if d.get("definst") is not None and tr.startswith("core::iter::") and d.get("name") not in ("size_hint", "next_back"):
                it.push(st, d["definst"], list(c.args), c.dest, c.target)
                return True
        # local markers of the witness crates
        if p.startswith("witness::__vp::"):
            v = self.marker(st, c, p.split("::")[-1])
            if v is not None:
                if v is not True:
                    it.finish(st, c, v)
                return True
        return False

    def marker(self, st, c, name):
        it = self.it
        if name == "assume":
            if not it.truth(st, c.args[0]):
                raise PathEnd("infeasible")
            return UNIT
        if name == "text":
            return self.symtext(st, it.snap(st, c.args[0]))
        if name == "found_at":
            return ("app", "found_at", (it.snap(st, c.args[0]), c.args[1]))
        if name == "untrimmed":
            return ("app", "untrimmed", (it.snap(st, c.args[0]),))
        if name == "cut":
            raise PathEnd("cut", "explicit")
        return None

    def intrinsic(self, st, c, name):
        it = self.it
        fin = lambda v: (it.finish(st, c, v), True)[1]
        if name in ("black_box", "three_way_compare", "discriminant_value", "needs_drop", "unlikely", "likely", "cold_path", "assume", "size_of", "min_align_of", "align_of", "type_name", "type_id",
                    "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "transmute", "abort", "unreachable", "ub_checks", "contract_checks", "overflow_checks", "read_via_copy", "write_via_move", "typed_swap_nonoverlapping", "is_val_statically_known", "select_unpredictable", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "integer_max", "integer_min"):
            if name in ("integer_max", "integer_min"):
                less = it.truth(st, ("cmpop", "Lt", c.args[0], c.args[1]))
                return fin(c.args[1 if less == (name == "integer_max") else 0])
            if name in ("unlikely", "likely", "black_box"):
                return fin(c.args[0])
            if name in ("cold_path", "assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid"):
                return fin(UNIT)
            if name in ("ub_checks", "contract_checks", "needs_drop", "is_val_statically_known"):
                return fin(FALSE)
            if name == "overflow_checks":
                return fin(TRUE)
            if name == "select_unpredictable":
                return fin(c.args[1] if it.truth(st, c.args[0]) else c.args[2])
            if name == "saturating_sub":
                return fin(self.satsub(st, c.args[0], c.args[1]))
            if name in ("saturating_add", "wrapping_add"):
                return fin(it.binop(st, "Add", c.args[0], c.args[1]))
            if name == "wrapping_sub":
                return fin(it.binop(st, "Sub", c.args[0], c.args[1]))
            if name == "read_via_copy":
                return fin(it.deref_val(st, c.args[0]))
            if name == "write_via_move":
                r = c.args[0]
                st.write(r[1], r[2], c.args[1])
                return fin(UNIT)
            if name == "typed_swap_nonoverlapping":
                self.m_swap(st, c)
                return fin(UNIT)
            if name == "transmute":
                return fin(it.cast(st, "Transmute", c.args[0], c.retty))
            if name == "three_way_compare":
                r = it.cmp3(st, it.scalar(st, c.args[0]), it.scalar(st, c.args[1]))
                return fin(agg(ORD, r + 1))
            if name == "discriminant_value":
                t = it.ty(it.pointee(c.argtys[0]))
                v = it.deref_val(st, c.args[0])
                if t["k"] == "adt" and t["enum"]:
                    return fin(it.discr_value(t, it.variant_of(st, v, it.pointee(c.argtys[0]))))
                return fin(("app", "discr", (it.snap(st, v),)))
            if name in ("abort", "unreachable"):
                raise PathEnd("panic", name)
        return False

    def helper(self, st, c, name, tys, args=None):
        """run a library model written in Rust (prelude module __vp of the witness crate)"""
        it = self.it
        key = (name, tuple(tys))
        inst = it.helpers.get(key)
        if inst is None:
            inst = it.sv.ask("mk witness::__vp::%s %d %s" % (name, it.root, " ".join(str(t) for t in tys)))
            if inst is None or not isinstance(inst, int):
                raise Unsupported("no helper " + name)
            it.helpers[key] = inst
        it.push(st, inst, list(c.args if args is None else args), c.dest, c.target)
        return True

    def self_ty(self, c):
        a = c.desc.get("args") or []
        if a and isinstance(a[0], int):
            return self.it.ty(a[0])
        return None

    def local_impl(self, c):
        """the call resolves to an impl of the analysed crates"""
        return c.desc.get("rkrate") in ("parsel", "witness") and c.desc.get("inst") is not None

    # ------------------------------------------------------------------ opaque calls
    def appname(self, c):
        it = self.it
        d = c.desc
        if d.get("value") is not None:
            return "<fn pointer>"
        n = norm(d.get("path"))
        a = []
        for x in d.get("args", ()):
            if isinstance(x, int):
                t = it.ty(x)
                a.append(it.tstr(x) if t["k"] not in ("closure", "fndef") else "_")
        return n + "<" + ",".join(a) + ">"

    def fixed_word(self, st, c, name):
        """the text of a new identifier is a literal that proc_macro2 accepts"""
        w = self.it.snap(st, c.args[0]) if c.args else ("?",)
        if w[0] != "str" or any(p[0] != "lit" for p in w[1]):
            return False
        w = "".join(p[1] for p in w[1])
        if "new_raw" in name:
            return self.rawable(w)
        return w.isidentifier()

    def rawable(self, w):
        return w.isidentifier() and w not in ("_", "super", "self", "Self", "crate")

    def opaque(self, st, c, name=None):
        it = self.it
        d = c.desc
        if name is None:
            name = self.appname(c)
            it.opaque_seen.add(name + " of a fixed word" if "Ident::new" in name and self.fixed_word(st, c, name) else name)
        elif isinstance(name, tuple):
            name = "::".join(str(x) for x in name)
        pbi = [i for i, t in enumerate(c.argtys) if it.is_pb_ref(t)]
        if pbi:
            return it.finish(st, c, self.parse_prim(st, c, name, pbi[0]))
        extra = ()
        if d.get("value") is not None:
            extra = (it.snap(st, d["value"]),)
        args = extra + tuple(it.snap(st, a) for a in c.args)
        term = ("app", name, args)
        st.note_opaque(name)
        k = 0
        seen = set()
        for a, t in zip(c.args, c.argtys):
            k = self.havoc(st, term, a, t, k, seen, 0)
        if c.target is None:
            raise PathEnd("panic", name)
        it.finish(st, c, it.shape(st, term, c.retty))

    def havoc(self, st, term, v, tid, k, seen, depth):
        it = self.it
        if depth > 6:
            return k
        t = it.ty(tid)
        if t["k"] == "ref":
            if v[0] != "ref":
                return k
            if t["mut"]:
                key = (v[1], v[2])
                if key not in seen:
                    seen.add(key)
                    old = st.read(v[1], v[2])
                    k = self.havoc(st, term, old, t["e"], k, seen, depth + 1)
                    new = self.writer_after(st, old, ("mut", term, k))
                    if not self.has_inner_mut(t["e"]):
                        st.write(v[1], v[2], new)
                    k += 1
            return k
        if t["k"] == "adt" and v[0] == "agg" and not t["enum"] and v[3] and len(t["variants"]) == 1:
            for x, f in zip(v[3], t["variants"][0]["fields"]):
                k = self.havoc(st, term, x, f[1], k, seen, depth + 1)
        elif t["k"] == "tuple" and v[0] == "agg":
            for x, f in zip(v[3], t["fields"]):
                k = self.havoc(st, term, x, f, k, seen, depth + 1)
        return k

    def has_inner_mut(self, tid):
        # a struct that only forwards to inner &mut references keeps its own (reference) fields
        it = self.it
        t = it.ty(tid)
        if t["k"] == "adt" and not t["enum"] and len(t["variants"]) == 1:
            return any(it.ty(f[1])["k"] == "ref" and it.ty(f[1]).get("mut") for f in t["variants"][0]["fields"])
        return t["k"] == "ref" and t.get("mut")

    def writer_after(self, st, old, new):
        return new

    # ------------------------------------------------------------------ parsing
    def pbpos(self, st, ref):
        v = self.it.deref_val(st, ref)
        while v[0] == "ref":
            v = self.it.deref_val(st, v)
        if v[0] == "pb":
            return v[1]
        # a symbolic stream
        return ("posof", v)

    def pbset(self, st, ref, pos):
        while True:
            v = st.read(ref[1], ref[2])
            if v[0] != "ref":
                break
            ref = v
        st.write(ref[1], ref[2], ("pb", pos))

    def m_fork(self, st, c):
        return ("pb", self.pbpos(st, c.args[0]))

    def m_advance(self, st, c):
        self.pbset(st, c.args[0], self.pbpos(st, c.args[1]))
        return UNIT

    def m_is_empty(self, st, c):
        return ("app", "is_empty", (self.pbpos(st, c.args[0]),))

    def m_eof(self, st, c):
        v = self.it.snap(st, c.args[0])
        if v[0] == "app" and v[1] == "cursor":
            return ("app", "is_empty", v[2])
        return None

    def number(self, st, kind, lit, n):
        """reading the digits of a number literal: (whether it fits, its value, why it does not)"""
        f = "syn::lit::%s::base10_parse" % kind
        good = self.it.truth(st, ("app", f + "_fits<%s>" % n, (lit,)))
        return good, ("app", f + "<%s>" % n, (lit,)), ("app", f + "_error<%s>" % n, (lit,))

    def m_base10(self, st, c):
        """base10_parse: the digits as a number, an error at the literal otherwise"""
        it = self.it
        lit = it.snap(st, c.args[0])
        kind = norm(c.desc.get("rpath") or c.desc["path"]).split("::")[-2]
        a = [x for x in c.desc["args"] if isinstance(x, int)]
        good, v, e = self.number(st, kind, lit, it.tstr(a[-1]))
        if good:
            return ok(v)
        return err(("mkerr", ("app", "syn::lit::%s::span<>" % kind, (lit,)), (("disp", e),)))

    def m_numparse(self, st, c):
        it = self.it
        s = it.snap(st, c.args[0])
        if not (s[0] == "app" and s[1].split("<")[0] in ("syn::lit::LitInt::base10_digits", "syn::lit::LitFloat::base10_digits")):
            return None
        a = [x for x in c.desc["args"] if isinstance(x, int)]
        if it.ty(a[-1])["k"] not in ("int", "uint", "float"):
            return None
        good, v, e = self.number(st, s[1].split("::")[2], s[2][0], it.tstr(a[-1]))
        return ok(v) if good else err(e)

    def m_utf8lossy(self, st, c):
        v = self.it.snap(st, c.args[0])
        if v[0] == "str":
            return v
        if v[0] == "tbuf" and v[2] is None:
            return mkstr(v[1])
        return None

    def m_charfrom(self, st, c):
        """a character from its number"""
        v = self.it.scalar(st, self.it.snap(st, c.args[0]))
        if v[0] == "app" and v[1] == "cast:u32" and v[2][0][0] == "char":
            return some(v[2][0])
        if v[0] == "app" and v[1].startswith("op"):
            # a number that was computed: another character than any given one
            return some(("app", "char_of_number", (v,))) if self.it.truth(st, ("app", "is_char_number", (v,))) else none()
        return None

    def m_cursortree(self, st, c):
        """what a cursor points at: nothing exactly at the end"""
        v = self.it.snap(st, c.args[0])
        if v[0] == "app" and v[1] == "cursor":
            if self.it.truth(st, ("app", "is_empty", v[2])):
                return none()
            if norm(c.desc.get("rpath") or c.desc["path"]).endswith("token_tree"):
                return some(("app", "cursor_tree", (v,)))
        return None

    def m_cursor(self, st, c):
        return ("app", "cursor", (self.pbpos(st, c.args[0]),))

    def m_pbspan(self, st, c):
        return ("spanat", self.pbpos(st, c.args[0]))

    def m_peek(self, st, c):
        return ("app", "peek:" + c.desc["path"].split("::")[-1], (self.pbpos(st, c.args[0]), self.it.snap(st, c.args[1]) if len(c.args) > 1 else UNIT))

    def m_group(self, st, c):
        return self.parse_prim(st, c, norm(c.desc.get("rpath") or c.desc.get("path")), 0)

    def m_parse(self, st, c):
        if self.local_impl(c) and not self.is_opaque_type(st, c.desc):
            return None
        if c.desc.get("inst") is not None and self.may_inline(c.desc) and not self.is_opaque_type(st, c.desc):
            return None
        t = self.it.tstr(c.desc["args"][0])
        return self.parse_prim(st, c, "P:" + t, 0)

    def parse_prim(self, st, c, name, pbi):
        it = self.it
        pos = self.pbpos(st, c.args[pbi])
        extra = tuple(it.snap(st, a) for i, a in enumerate(c.args) if i != pbi)
        pc = ("parse", name, pos, extra)
        st.nparse += 1
        rt = it.ty(c.retty)
        if not (rt["k"] == "adt" and rt["path"] == RES):
            st.note_opaque(name)
            self.pbset(st, c.args[pbi], ("after", pc))
            return it.shape(st, ("val", pc), c.retty)
        if it.truth(st, ("okp", pc)):
            if not self.progress or not name.startswith("P:") or it.truth(st, ("app", "consumes", (pc,))):
                self.pbset(st, c.args[pbi], ("after", pc))
            return ok(self.shape_pb(st, ("val", pc), rt["args"][0], pc))
        self.pbset(st, c.args[pbi], ("fail", pc))
        return err(("err", pc))

    def shape_pb(self, st, term, tid, pc):
        it = self.it
        t = it.ty(tid)
        if t["k"] == "adt" and not t["enum"] and len(t["variants"]) == 1 and t["variants"][0]["fields"]:
            fs = t["variants"][0]["fields"]
            if any(it.ty(f[1])["k"] == "adt" and it.ty(f[1])["path"] == PB for f in fs):
                out = []
                for i, f in enumerate(fs):
                    ft = it.ty(f[1])
                    if ft["k"] == "adt" and ft["path"] == PB:
                        out.append(("pb", ("inside", pc)))
                    else:
                        out.append(("proj", term, None, i))
                return ("agg", t["path"], None, tuple(out))
        if t["k"] == "adt" and t["path"] == PB:
            return ("pb", ("inside", pc))
        return it.shape(st, term, tid)

    # ------------------------------------------------------------------ errors
    def m_pberror(self, st, c):
        return ("mkerr", ("spanat", self.pbpos(st, c.args[0])), self.display_parts(st, c.args[1], c.argtys[1]))

    def m_errnew(self, st, c):
        return ("mkerr", self.it.snap(st, c.args[0]), self.display_parts(st, c.args[1], c.argtys[1]))

    def m_errnewspanned(self, st, c):
        return ("mkerr", ("spanof", self.it.snap(st, c.args[0])), self.display_parts(st, c.args[1], c.argtys[1]))

    def m_errspan(self, st, c):
        e = self.it.snap(st, c.args[0])
        return self.errspan(e)

    def span_end(self, span):
        return ("app", "proc_macro2::Span::end<>", (span,))

    def errspan(self, e):
        if e[0] == "mkerr":
            return e[1]
        return ("app", "errspan", (e,))

    # ------------------------------------------------------------------ text
    def display_parts(self, st, v, tid, kind="disp"):
        """the pieces of text written by Display"""
        it = self.it
        t = it.ty(tid)
        while t["k"] == "ref" or t.get("box"):
            v = it.deref_val(st, v)
            tid = t["e"] if t["k"] == "ref" else t["args"][0]
            t = it.ty(tid)
        s = it.snap(st, v)
        return self.text_of(s, t, kind)

    def text_of(self, s, t, kind="disp"):
        if kind == "disp":
            if s[0] == "str":
                return s[1]
            if s[0] == "mkerr":
                return s[2]
            if s[0] == "fmtargs":
                return s[1]
            if s[0] == "i" and t["k"] in ("int", "uint"):
                return (("lit", str(s[1])),)
            if s[0] == "i" and t["k"] == "bool":
                return (("lit", "true" if s[1] else "false"),)
            if s[0] == "i" and t["k"] == "char":
                return (("lit", chr(s[1])),)
            if s[0] == "app" and s[1] == "disp":
                return (("disp", s[2][0]),)
            if s[0] == "vecit" and t.get("path") == "core::ascii::EscapeDefault" and s[1][0] == "vec" and s[2:] == (0, 0):
                return (("lit", "".join(chr(x[1]) for x in s[1][1])),)
            if s[0] == "ts" and len(s[1]) == 1 and s[1][0][0] == "toks":
                return (("disp", s),)
        if kind in ("lower_hex", "upper_hex", "octal", "binary") and s[0] == "i" and t["k"] == "uint":
            return (("lit", format(s[1], {"lower_hex": "x", "upper_hex": "X", "octal": "o", "binary": "b"}[kind])),)
        return ((kind, s),)

    def m_fmtarg(self, st, c):
        kind = c.desc["path"].split("::")[-1].split("_", 1)[1]
        kind = "disp" if kind == "display" else kind
        return ("agg", "fmtarg", None, (("fa", self.display_parts(st, c.args[0], c.argtys[0], kind), kind),))

    def m_argsstr(self, st, c):
        s = self.it.snap(st, c.args[0])
        return ("fmtargs", self.strparts(s))

    def strparts(self, s):
        if s[0] == "str":
            return s[1]
        if s[0] == "app" and s[1] == "disp":
            return (("disp", s[2][0]),)
        if s[0] == "vec" and all(x[0] == "i" for x in s[1]):
            try:
                return S(bytes(x[1] for x in s[1]).decode("utf8"))[1]
            except ValueError:
                pass
        return (("disp", s),)

    def m_argsnew(self, st, c):
        it = self.it
        tmpl = it.snap(st, c.args[0])
        args = it.snap(st, c.args[1]) if len(c.args) > 1 else ("vec", ())
        if tmpl[0] == "str":
            data = b"".join(p[1].encode() for p in tmpl[1])
        elif tmpl[0] == "vec" and all(x[0] == "i" for x in tmpl[1]):
            data = bytes(x[1] & 255 for x in tmpl[1])
        else:
            raise Unsupported("format template")
        if args[0] != "vec":
            raise Unsupported("format arguments")
        parts, i, nxt = [], 0, 0
        while i < len(data):
            b = data[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                parts.append(("lit", data[i:i + b].decode()))
                i += b
            elif b == 0x80:
                n = data[i] | data[i + 1] << 8
                i += 2
                parts.append(("lit", data[i:i + n].decode()))
                i += n
            else:
                spec = []
                ai = nxt
                if b & 1:
                    spec.append(("flags", int.from_bytes(data[i:i + 4], "little")))
                    i += 4
                if b & 2:
                    spec.append(("width", int.from_bytes(data[i:i + 2], "little"), bool(b & 16)))
                    i += 2
                if b & 4:
                    spec.append(("prec", int.from_bytes(data[i:i + 2], "little"), bool(b & 32)))
                    i += 2
                if b & 8:
                    ai = int.from_bytes(data[i:i + 2], "little")
                    i += 2
                nxt = ai + 1
                a = args[1][ai]
                fa = a[3][0]
                spec = tuple(x for x in spec if not (x[0] == "flags" and x[1] in (0, 0x20, 0xE0000020)))
                known = padded(spec, fa[1], fa[2]) if spec else None
                if known is not None:
                    parts.append(("lit", known))
                elif spec:
                    parts.append(("fmtspec", spec, fa[1], fa[2]))
                else:
                    parts.extend(fa[1])
        return ("fmtargs", mkstr_parts(parts))

    def m_format(self, st, c):
        s = self.it.snap(st, c.args[0])
        if s[0] == "fmtargs":
            return mkstr(s[1])
        return None

    def m_tostring(self, st, c):
        d = c.desc
        t = self.it.ty(c.argtys[0])
        if self.local_impl(c):
            return None
        # a local type with its own Display is formatted through it
        return mkstr(self.display_parts(st, c.args[0], c.argtys[0]))

    def m_repeat(self, st, c):
        n = self.it.snap(st, c.args[1])
        if not is_int(n) or n[1] > 2000:
            return None
        return mkstr(mkstr_parts(list(self.strparts(self.it.snap(st, c.args[0]))) * n[1]))

    def m_push_str(self, st, c):
        return self.append_text(st, c.args[0], self.strparts(self.it.snap(st, c.args[1])))

    def m_push_char(self, st, c):
        return self.append_text(st, c.args[0], self.text_of(self.it.snap(st, c.args[1]), {"k": "char"}))

    def append_text(self, st, ref, parts):
        v = self.it.deref_val(st, ref)
        base = self.strparts(self.it.snap(st, v))
        st.write(ref[1], ref[2], mkstr(mkstr_parts(list(base) + list(parts))))
        return UNIT

    def m_strempty(self, st, c):
        s = self.it.snap(st, c.args[0])
        if s[0] == "str":
            if not s[1]:
                return TRUE
            if any(p[0] == "lit" for p in s[1]):
                return FALSE
        return ("cmpop", "Eq", I(0), ("len", s))

    def m_conststr(self, st, c):
        if len(c.argtys) > 1 and self.it.ty(c.argtys[1])["k"] in ("closure", "fndef"):
            n = norm(c.desc.get("rpath") or c.desc["path"]).split("::")[-1]
            if n in ("contains", "trim_matches", "trim_start_matches", "trim_end_matches"):
                return self.helper(st, c, "str_contains" if n == "contains" else "str_trim", [c.argtys[1]])
            return None
        """operations on constant text"""
        out = []
        for a, t in zip(c.args, c.argtys):
            v = self.it.snap(st, a)
            if v[0] == "str" and all(p[0] == "lit" for p in v[1]):
                out.append("".join(p[1] for p in v[1]))
            elif is_int(v) and self.it.ty(t)["k"] == "char":
                out.append(chr(v[1]))
            elif v[0] == "app" and "::base10_digits" in v[1] and "::trim" in (c.desc.get("rpath") or c.desc["path"]):
                return c.args[0]       # digits have no white space around them
            elif v[0] == "app" and len(c.args) == 2 and norm(c.desc.get("rpath") or c.desc["path"]).endswith(("::starts_with", "::strip_prefix")):
                # starting with an ASCII character is having it as the first byte
                pat = self.it.snap(st, c.args[1])
                ch = chr(pat[1]) if is_int(pat) and self.it.ty(c.argtys[1])["k"] == "char" else pat[1][0][1] if pat[0] == "str" and len(pat[1]) == 1 and pat[1][0][0] == "lit" else ""
                if self.it.ty(c.argtys[1])["k"] in ("closure", "fndef") or len(ch) != 1 or ord(ch) > 127:
                    return None
                if norm(c.desc.get("rpath") or c.desc["path"]).endswith("::starts_with"):
                    return self.helper(st, c, "str_starts", [], [c.args[0], I(ord(ch))])
                hit = self.it.has_index(st, v, 0) and self.it.truth(st, ("cmpop", "Eq", ("elem", v, 0), I(ord(ch))))
                return some(("app", "text_after_byte", (v,))) if hit else none()
            elif norm(c.desc.get("rpath") or c.desc["path"]).endswith("::eq_ignore_ascii_case") and all(self.total(x) for x in c.argtys):
                # equal texts answer yes
                x, y = (self.cmpterm(st, p, q) for p, q in zip(c.args, c.argtys))
                return TRUE if self.it.truth(st, self.eqterm(x, y)) else None
            else:
                return None
        s, a = out[0], out[1] if len(out) > 1 else None
        n = norm(c.desc.get("rpath") or c.desc["path"]).split("::")[-1]
        b = lambda x: TRUE if x else FALSE
        if n == "strip_prefix":
            return some(S(s[len(a):])) if s.startswith(a) else none()
        if n == "strip_suffix":
            return some(S(s[:len(s) - len(a)])) if s.endswith(a) else none()
        if n == "starts_with":
            return b(s.startswith(a))
        if n == "ends_with":
            return b(s.endswith(a))
        if n == "contains":
            return b(a in s)
        if n in ("trim", "trim_start", "trim_end"):
            return S({"trim": s.strip, "trim_start": s.lstrip, "trim_end": s.rstrip}[n](WHITE))
        if n in ("trim_matches", "trim_start_matches", "trim_end_matches") and a:
            while n != "trim_end_matches" and s.startswith(a):
                s = s[len(a):]
            while n != "trim_start_matches" and s.endswith(a):
                s = s[:len(s) - len(a)]
            return S(s)
        if n == "replace" and a:
            return S(s.replace(a, out[2]))
        if n == "split_whitespace":
            return ("vecit", ("vec", tuple(S(x) for x in re.split("[%s]+" % WHITE, s) if x)), 0, 0)
        if n == "is_ascii":
            return b(s.isascii())
        lower = lambda x: "".join(chr(ord(q) + 32) if "A" <= q <= "Z" else q for q in x)
        if n == "eq_ignore_ascii_case":
            return b(lower(s) == lower(a))
        if not s.isascii():
            return None
        if n in ("to_lowercase", "to_ascii_lowercase"):
            return S(s.lower())
        if n in ("to_uppercase", "to_ascii_uppercase"):
            return S(s.upper())
        return None

    # texts of known characters: literal ones and symbolic ("char", text, index)
    def chars_of(self, s):
        if s[0] == "char":
            return [s]
        if s[0] != "str":
            return None
        out = []
        for p in s[1]:
            if p[0] == "lit":
                out.extend(I(ord(ch)) for ch in p[1])
            elif p[0] == "disp" and p[1][0] == "char":
                out.append(p[1])
            else:
                return None
        return out

    def of_chars(self, cs):
        return mkstr([("lit", chr(x[1])) if is_int(x) else ("disp", x) for x in cs])

    def utf8len(self, st, ch):
        if is_int(ch):
            return I(len(chr(ch[1]).encode()))
        t = ("app", "len_utf8", (ch,))
        if t not in st.facts.iv:
            st.facts.set_interval(t, 1, 4)
        return t

    def utf8sum(self, st, cs):
        n = I(0)
        for x in cs:
            n = linadd(n, self.utf8len(st, x), 1)
        return n

    def m_lenutf8(self, st, c):
        ch = self.it.snap(st, c.args[0])
        if is_int(ch) or ch[0] == "char":
            return self.utf8len(st, ch)
        return ("app", "len_utf8", (ch,))

    def symtext(self, st, s):
        """decide the length of a text and which of its characters are line feeds or carriage returns"""
        f = st.facts
        key = ("textlen", s)
        n = f.v.get(key)
        if n is None:
            raise NeedSplit(key, list(range(self.it.k + 1)))
        out = []
        for i in range(n):
            k = ("textch", s, i)
            o = f.v.get(k)
            if o is None:
                raise NeedSplit(k, ["other", "lf", "cr"])
            if o == "other":
                ch = ("char", s, i)
                f.set_interval(ch, 0, 0x10FFFF, frozenset([10, 13]))
                out.append(ch)
            else:
                out.append(I(10 if o == "lf" else 13))
        return self.of_chars(out)

    def m_chars(self, st, c):
        s = self.it.snap(st, c.args[0])
        cs = self.chars_of(s)
        if cs is not None:
            return ("vecit", ("vec", tuple(cs)), 0, 0)
        if s[0] == "app" and "::base10_digits" in s[1]:
            return ("vecit", s, 0, 0)      # ASCII: characters are bytes
        return ("vecit", ("app", "chars", (s,)), 0, 0)

    def m_bytes(self, st, c):
        s = self.it.snap(st, c.args[0])
        cs = self.chars_of(s)
        if cs is not None and all(is_int(x) for x in cs):
            return ("vecit", ("vec", tuple(I(b) for b in "".join(chr(x[1]) for x in cs).encode())), 0, 0)
        return ("vecit", s, 0, 0) if s[0] in ("app", "proj", "sym") else None

    def m_ascii_test(self, st, c):
        v = self.it.scalar(st, self.it.snap(st, c.args[0]))
        f = ASCII_TESTS[c.desc["path"].split("::")[-1]]
        return I(int(v[1] < 128 and f(v[1]))) if is_int(v) else None

    def m_escape_byte(self, st, c):
        v = self.it.scalar(st, self.it.snap(st, c.args[0]))
        return ("vecit", ("vec", tuple(I(b) for b in escaped_byte(v[1]).encode())), 0, 0) if is_int(v) else None

    def m_todigit(self, st, c):
        v = [self.it.scalar(st, self.it.snap(st, x)) for x in c.args]
        if not all(is_int(x) for x in v) or not 2 <= v[1][1] <= 36:
            return None
        n, r = v[0][1], v[1][1]
        digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:r]
        if norm(c.desc.get("rpath") or c.desc["path"]).endswith("from_digit"):
            return some(I(ord(digits[n]))) if n < r else none()
        ch = chr(n) if n < 128 else ""
        return some(I(digits.index(ch.lower()))) if ch and ch.lower() in digits else none()

    def m_fromchar(self, st, c):
        a = c.desc.get("args") or []
        if len(a) == 2 and all(isinstance(x, int) for x in a):
            t, u = self.it.ty(a[0]), self.it.ty(a[1])
            if t["k"] == "char" and u["s"] == "u8" or t["s"] == "u32" and u["k"] == "char":
                return c.args[0]
        return None

    def m_textiter(self, st, c):
        it = self.it
        s = it.snap(st, c.args[0])
        cs = self.chars_of(s)
        n = norm(c.desc.get("rpath") or c.desc["path"]).split("::")[-1]
        if cs is None:
            if n == "find" and it.ty(c.argtys[1])["k"] in ("closure", "fndef"):
                return self.helper(st, c, "str_find", [c.argtys[1]])
            return None
        if n == "char_indices":
            out = [agg("tup", None, self.utf8sum(st, cs[:i]), x) for i, x in enumerate(cs)]
            return ("vecit", ("vec", tuple(out)), 0, 0)
        if n == "lines":
            sep = I(10)
        else:
            if it.ty(c.argtys[1])["k"] != "char":
                return None
            sep = it.scalar(st, it.snap(st, c.args[1]))
            if not is_int(sep):
                return None
        hits = [i for i, x in enumerate(cs) if it.truth(st, ("cmpop", "Eq", x, sep))]
        if n == "find":
            return some(self.utf8sum(st, cs[:hits[0]])) if hits else none()
        if n == "rfind":
            return some(self.utf8sum(st, cs[:hits[-1]])) if hits else none()
        if n == "match_indices":
            return ("vecit", ("vec", tuple(agg("tup", None, self.utf8sum(st, cs[:i]), self.of_chars([cs[i]])) for i in hits)), 0, 0)
        out = []
        a = 0
        for i in hits:
            out.append(cs[a:i + 1] if n == "split_inclusive" else cs[a:i])
            a = i + 1
        if n == "split" or a < len(cs):
            out.append(cs[a:])
        if n == "lines":
            out = [o[:-1] if o and o[-1] == I(13) and i < len(hits) else o for i, o in enumerate(out)]
        return ("vecit", ("vec", tuple(self.of_chars(o) for o in out)), 0, 0)

    def textindex(self, st, v, t, ix, mode):
        """a slice of a text of known characters at character boundaries"""
        cs = self.chars_of(v)
        if cs is None or ix[0] != "agg":
            return None
        nm = t["path"].split("::")[-1]
        f = [self.it.scalar(st, self.it.snap(st, x)) for x in ix[3][:2]]

        def at(o):
            sums = [self.utf8sum(st, cs[:i]) for i in range(len(cs) + 1)]
            for i, n in enumerate(sums):
                if n == o:
                    return i
            for i, n in enumerate(sums):
                if self.it.truth(st, ("cmpop", "Eq", n, o)):
                    return i
            if mode == "opt":
                return None
            raise PathEnd("panic", "slice index")
        f = [at(o) for o in f]
        if any(x is None for x in f):
            return None
        lo, hi = {"Range": lambda: (f[0], f[1]), "RangeFrom": lambda: (f[0], len(cs)), "RangeTo": lambda: (0, f[0])}.get(nm, lambda: (None, None))()
        if lo is None:
            return None
        if lo > hi:
            if mode == "opt":
                return none()
            raise PathEnd("panic", "slice index")
        r = self.of_chars(cs[lo:hi])
        return some(r) if mode == "opt" else r

    def m_strlen(self, st, c):
        s = self.it.snap(st, c.args[0])
        cs = self.chars_of(s)
        if cs is not None:
            return self.utf8sum(st, cs)
        return ("len", s)

    # writers: a chain of written text
    def wref(self, st, ref):
        while True:
            v = st.read(ref[1], ref[2])
            if v[0] != "ref":
                return ref, v
            ref = v

    def wwrite(self, st, c, parts):
        return self.wput(st, c.args[0], parts)

    def wput(self, st, ref, parts):
        """append text to a writer"""
        ref, v = self.wref(st, ref)
        if v[0] == "str":
            st.write(ref[1], ref[2], mkstr(mkstr_parts(list(v[1]) + list(parts))))
            return ok(UNIT)
        if v[0] == "w":
            new = ("w", v[1], mkstr_parts(list(v[2]) + list(parts)))
        else:
            new = ("w", v, mkstr_parts(list(parts)))
        if not self.writer_ok:
            if not self.it.truth(st, ("wok", new)):
                st.write(ref[1], ref[2], ("wfail", new))
                return err(agg("core::fmt::Error", None))
        st.write(ref[1], ref[2], new)
        return ok(UNIT)

    # a byte cursor over a fixed buffer, written from its start: ("cur", buffer, text parts, capacity)
    def m_iocursor(self, st, c):
        if c.args[0][0] != "ref":
            return None
        ref, v = self.seqref(st, c.args[0])
        if v[0] not in ("arr", "vec"):
            return None
        return ("cur", ref, (), len(v[1]))

    def m_curpos(self, st, c):
        ref, v = self.wref(st, c.args[0])
        if v[0] != "cur":
            return None
        return ("len", mkstr(v[2]))

    def maxlen(self, parts):
        """an upper bound of the text's length in bytes, None if there is none"""
        n = 0
        for p in parts:
            if p[0] == "lit":
                n += len(p[1].encode())
            elif "core::ascii::escape_default" in repr(p)[:60]:
                n += 4
            elif p[0] == "chr" or (p[0] == "disp" and (p[1][0] == "chr" or p[1][:2] == ("app", "cast:char"))):
                n += 4
            else:
                return None
        return n

    def m_iowfmt(self, st, c):
        if self.local_impl(c):
            return None
        ref, v = self.wref(st, c.args[0])
        s = self.it.snap(st, c.args[1])
        if v[0] == "vec" and not v[1]:
            v = ("tbuf", (), None)
        if s[0] != "fmtargs" or v[0] not in ("cur", "tbuf"):
            return None
        if v[0] == "tbuf":
            st.write(ref[1], ref[2], ("tbuf", mkstr_parts(list(v[1]) + list(s[1])), v[2]))
            return ok(UNIT)
        parts = mkstr_parts(list(v[2]) + list(s[1]))
        n = self.maxlen(parts)
        if n is None or n > v[3]:
            return None
        st.write(ref[1], ref[2], ("cur", v[1], parts, v[3]))
        st.write(v[1][1], v[1][2], ("tbuf", parts, v[3]))
        return ok(UNIT)

    def m_fromutf8(self, st, c):
        v = self.it.snap(st, c.args[0])
        if v[0] == "str":
            return ok(v)
        if v[0] == "tbuf" and v[2] is None:
            return ok(mkstr(v[1]))
        if v[0] in ("vec", "arr") and all(is_int(x) and 0 <= x[1] < 256 for x in v[1]):
            try:
                return ok(S(bytes(x[1] for x in v[1]).decode("utf8")))
            except ValueError:
                return err(("app", "not UTF-8", (v,)))
        return None

    def m_wstr(self, st, c):
        if self.local_impl(c):
            return None
        return self.wwrite(st, c, self.strparts(self.it.snap(st, c.args[1])))

    def m_wchar(self, st, c):
        if self.local_impl(c):
            return None
        return self.wwrite(st, c, self.text_of(self.it.snap(st, c.args[1]), {"k": "char"}))

    def m_wfmt(self, st, c):
        if self.local_impl(c):
            return None
        s = self.it.snap(st, c.args[1])
        if s[0] != "fmtargs":
            return None
        return self.wwrite(st, c, s[1])

    def m_wpad(self, st, c):
        f = self.flagowner(st, c)
        if all(st.facts.v.get(("var", ("app", "core::fmt::Formatter::%s<>" % x, (f,)))) == 0 for x in ("width", "precision")):
            return self.m_wstr(st, c)
        return self.wwrite(st, c, (("pad", self.it.snap(st, c.args[1])),))

    def flagowner(self, st, c):
        ref, v = self.wref(st, c.args[0])
        if v[0] == "w":
            v = v[1]
        return self.it.snap(st, v)

    def m_flag(self, st, c):
        return ("app", "core::fmt::Formatter::%s<>" % c.desc["rpath"].split("::")[-1], (self.flagowner(st, c),))

    def m_alternate(self, st, c):
        ref, v = self.wref(st, c.args[0])
        if v[0] == "w":
            v = v[1]
        return ("app", "alternate", (self.it.snap(st, v),))

    def m_fmt(self, st, c):
        """Display::fmt / Debug::fmt of something not defined here: text forwarded with the formatter's own flags"""
        if c.desc.get("inst") is not None and (self.local_impl(c) or self.may_inline(c.desc)):
            return None
        which = c.desc["trait"].split("::")[-1]
        if which == "Debug":
            t = self.self_ty(c)
            if t["k"] == "adt" and t["path"] == "alloc::vec::Vec":
                return self.helper(st, c, "dbg_vec", [t["args"][0]])
            if t["k"] == "slice":
                return self.helper(st, c, "dbg_slice", [t["e"]])
        return self.wput(st, c.args[1], (("fwd", which, self.it.snap(st, c.args[0])),))

    def m_dbgentries(self, st, c):
        return self.helper(st, c, "dbg_entries", [a for a in c.desc["args"] if isinstance(a, int)])

    # ------------------------------------------------------------------ token streams
    def toks(self, v):
        if v[0] == "agg" and v[1] == "proc_macro2::TokenTree" and len(v[3]) == 1:
            v = v[3][0]
        if v[0] == "ts":
            return v[1]
        return (("toks", v),)

    def ts_append(self, st, ref, items):
        ref, v = self.wref(st, ref)
        if v[0] != "ts":
            v = ("ts", (("toks", v),))
        st.write(ref[1], ref[2], ("ts", v[1] + tuple(items)))
        return UNIT

    def m_totokens(self, st, c):
        if not self.is_opaque_type(st, c.desc):
            if c.desc.get("inst") is not None and (self.local_impl(c) or self.may_inline(c.desc)):
                return None
        return self.ts_append(st, c.args[1], self.toks(self.it.snap(st, c.args[0])))

    def m_totokenstream(self, st, c):
        return self.helper(st, c, c.desc["name"], [c.desc["args"][0]])

    def m_tsappend(self, st, c):
        # append<U: Into<TokenTree>>
        ut = self.it.ty(c.argtys[1])
        if ut["k"] == "adt" and ut["krate"] in ("parsel", "witness"):
            return self.helper(st, c, "append_into", [c.argtys[1]])
        return self.ts_append(st, c.args[0], self.toks(self.it.snap(st, c.args[1])))

    def streamed(self, v):
        """the parts of a stream, or of an untouched iterator over streams one after another"""
        if v[0] == "ts":
            return v[1]
        if v[0] == "vecit" and v[1][0] == "ts" and v[2] == v[3] == 0:
            return v[1][1]
        if v[0] == "agg" and v[1] == "core::iter::adapters::chain::Chain" and len(v[3]) == 2:
            out = ()
            for x in v[3]:
                if not (x[0] == "agg" and x[2] == 1):
                    return None
                p = self.streamed(x[3][0])
                if p is None:
                    return None
                out += tuple(p)
            return out
        return None

    def m_tsempty(self, st, c):
        s = self.it.snap(st, c.args[0])
        if s[0] == "ts":
            return I(int(self.it.token_at(st, s, 0) is None))
        return I(int(not self.it.has_index(st, s, 0)))

    # ------------------------------------------------------------------ boxes, memory
    def m_vecmacro(self, st, c):
        """`vec![a, b, c]`: an array written into a box"""
        b = c.args[0]
        if b[0] != "box":
            return None
        v = st.read(b[1], ())
        while v[0] == "agg":
            f = [x for x in v[3] if x[0] != "uninit" and not (x[0] == "agg" and not x[3])]
            if len(f) != 1:
                return None
            v = f[0]
        return ("vec", v[1]) if v[0] == "arr" else None

    def m_boxnew(self, st, c):
        return ("box", st.alloc(c.args[0]))

    def m_replace(self, st, c):
        r = c.args[0]
        if r[0] != "ref":
            return None
        old = st.read(r[1], r[2])
        st.write(r[1], r[2], c.args[1])
        return old

    def m_memtake(self, st, c):
        r = c.args[0]
        v = self.default_of(c.desc["args"][0]) if c.desc.get("args") and isinstance(c.desc["args"][0], int) else None
        if r[0] != "ref" or v is None:
            return None
        old = st.read(r[1], r[2])
        st.write(r[1], r[2], v)
        return old

    def m_swap(self, st, c):
        a, b = c.args[0], c.args[1]
        x = st.read(a[1], a[2])
        y = st.read(b[1], b[2])
        st.write(a[1], a[2], y)
        st.write(b[1], b[2], x)
        return UNIT

    def m_clone(self, st, c):
        if self.local_impl(c):
            return None
        t = self.self_ty(c)
        if t is not None and t["k"] == "adt" and t.get("box"):
            return ("box", st.alloc(self.it.snap(st, self.it.deref_val(st, c.args[0]))))
        if t is not None and t["k"] == "ref":
            return self.it.deref_val(st, c.args[0])
        v = self.it.deref_val(st, c.args[0])
        if t is not None and t["k"] in ("tuple", "adt", "array") and v[0] in ("agg", "vec", "arr"):
            # cloning a container of local types goes through their own Clone only when they define one by hand
            if t["k"] == "adt" and c.desc.get("inst") is not None and self.may_inline(c.desc):
                return None
        return self.unref(st, v)

    def unref(self, st, v):
        return v

    def m_clone_from(self, st, c):
        if self.local_impl(c):
            return None
        st.write(c.args[0][1], c.args[0][2], self.it.deref_val(st, c.args[1]))
        return UNIT

    def m_tovec(self, st, c):
        a = c.desc.get("args") or []
        if a and isinstance(a[0], int) and self.it.ty(a[0])["k"] in ("int", "uint", "bool", "char"):
            return self.it.snap(st, c.args[0])
        return None

    def m_toowned(self, st, c):
        return self.it.snap(st, c.args[0])

    def m_default(self, st, c):
        if self.local_impl(c):
            return None
        t = self.self_ty(c)
        v = self.default_of(c.desc["args"][0])
        if v is not None:
            return v
        if t["k"] == "adt" and c.desc.get("inst") is not None and self.may_inline(c.desc) and t["path"] != "syn::token":
            return None
        return self.it.shape(st, ("app", "default<%s>" % t["s"], ()), c.retty)

    def default_of(self, tid):
        it = self.it
        t = it.ty(tid)
        k = t["k"]
        if k in ("int", "uint", "bool", "char"):
            return I(0)
        if k == "float":
            return ("f", 0)
        if k == "tuple":
            fs = [self.default_of(f) for f in t["fields"]]
            if any(f is None for f in fs):
                return None
            return ("agg", "tup", None, tuple(fs))
        if k == "ref":
            e = it.ty(t["e"])
            return S("") if e["k"] == "str" else None
        if k == "array" and isinstance(t["len"], int) and t["len"] <= 64:
            d = self.default_of(t["e"])
            return None if d is None else ("arr", (d,) * t["len"])
        if k == "adt":
            if t["path"] == "alloc::string::String":
                return S("")
            if t["path"] == "alloc::vec::Vec":
                return ("vec", ())
            if t["path"] == OPT:
                return none()
            if t["path"] == "proc_macro2::TokenStream":
                return ("ts", ())
        return None

    TRANSPARENT = {"alloc::string::String", "alloc::vec::Vec", "alloc::borrow::Cow", "alloc::rc::Rc", "alloc::sync::Arc", "ordered_float::NotNan"}

    def m_deref(self, st, c):
        if self.local_impl(c):
            return None
        t = self.self_ty(c)
        tr = c.desc["trait"].split("::")[-1]
        if t is not None and t["k"] == "adt":
            if t["path"] == "alloc::borrow::Cow":
                v = self.it.snap(st, c.args[0])
                return ("ref", st.alloc(v), ())
            if t["path"] in self.TRANSPARENT:
                return c.args[0]
            if t.get("box"):
                v = self.it.deref_val(st, c.args[0])
                if v[0] in ("box", "boxp"):
                    return ("ref", v[1], ())
                return ("ref", st.derefcell(v), ())
        if t is not None and t["k"] in ("str", "slice", "array"):
            return c.args[0]
        if t is not None and t["k"] in ("param", "alias"):
            # a borrowed view is determined by the value it borrows from
            if tr in ("Borrow",):
                pass
        return None

    # conversions between containers of the same content
    STRLIKE = ("alloc::string::String", "alloc::vec::Vec", "alloc::borrow::Cow", "alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc")

    def strlike(self, tid):
        t = self.it.ty(tid)
        while t["k"] == "ref":
            t = self.it.ty(t["e"])
        if t["k"] in ("str", "slice", "array"):
            return True
        if t["k"] == "adt" and t.get("box"):
            return self.it.ty(t["args"][0])["k"] in ("str", "slice")
        return t["k"] == "adt" and t["path"] in self.STRLIKE

    def m_from(self, st, c):
        if self.local_impl(c):
            return None
        it = self.it
        if len(c.args) != 1:
            return None
        rt = it.ty(c.retty)
        at = it.ty(c.argtys[0])
        if it.tstr(c.retty) == it.tstr(c.argtys[0]):
            return c.args[0]
        if rt["k"] == "adt" and rt["path"] == "proc_macro2::TokenTree":
            names = [v["name"] for v in rt["variants"]]
            nm = at["path"].split("::")[-1] if at["k"] == "adt" else None
            if nm in names:
                return ("agg", rt["path"], names.index(nm), (c.args[0],))
        if rt["k"] == "adt" and rt["path"] == "proc_macro2::TokenStream" and at["k"] == "adt" and at["path"] == "proc_macro2::TokenTree":
            return ("ts", self.toks(it.snap(st, c.args[0])))
        if self.strlike(c.retty) and self.strlike(c.argtys[0]):
            return it.snap(st, c.args[0])
        if rt["k"] in ("int", "uint") and at["k"] in ("int", "uint", "bool", "char"):
            return c.args[0]
        if rt["k"] == "adt" and rt["path"] == "alloc::boxed::Box":
            return ("box", st.alloc(c.args[0]))
        return None

    def m_tryfrom(self, st, c):
        """conversion between integers: fits or does not"""
        it = self.it
        a = it.ty(c.argtys[0])
        r = it.ty(c.retty)
        if a["k"] not in ("int", "uint") or r["k"] != "adt" or r["path"] != "core::result::Result":
            return None
        t = it.ty(r["args"][0])
        v = it.scalar(st, c.args[0])
        if t["k"] not in ("int", "uint") or not is_int(v) or "bits" not in t or "bits" not in a:
            return None
        n, bits = v[1], t["bits"] - (t["k"] == "int")
        lo = -(1 << bits) if t["k"] == "int" else 0
        return self.okv(v) if lo <= n and (n < 0 or it.fits(st.frames[-1], n, bits, a["bits"])) else ("agg", RES, 1, (("app", "out of range", ()),))

    def okv(self, v):
        return ("agg", RES, 0, (v,))

    def m_intmethod(self, st, c, name):
        """methods of integers, of known arguments"""
        it = self.it
        if not c.args or not all(it.ty(t)["k"] in ("int", "uint") for t in c.argtys):
            return None
        a = [it.scalar(st, x) for x in c.args]
        if not all(is_int(x) for x in a):
            return None
        a = [x[1] for x in a]
        t = it.ty(c.argtys[0])
        bits = t.get("bits", 64)
        if a[0] < 0 or (len(a) > 1 and a[1] < 0):
            return None
        n = a[0]
        m = a[1] if len(a) > 1 else None
        top = (1 << (bits - (t["k"] == "int"))) - 1
        inr = lambda x: I(x) if x <= top else None
        if name == "is_power_of_two":
            return I(int(n > 0 and n & (n - 1) == 0))
        if name == "leading_zeros":
            return I(bits - n.bit_length())
        if name == "trailing_zeros":
            return I(bits if n == 0 else (n & -n).bit_length() - 1)
        if name == "count_ones":
            return I(bin(n).count("1"))
        if name == "count_zeros":
            return I(bits - bin(n).count("1"))
        if name == "ilog2":
            return I(n.bit_length() - 1) if n else None
        if name == "ilog10":
            return I(len(str(n)) - 1) if n else None
        if name == "next_power_of_two":
            return inr(1 if n < 2 else 1 << (n - 1).bit_length())
        if name == "isqrt":
            return I(int(n ** 0.5)) if n < 1 << 40 else None
        if m is None:
            return None
        if name == "pow":
            return inr(n ** m) if m < 128 else None
        if name == "abs_diff":
            return I(abs(n - m))
        if name == "is_multiple_of":
            return I(int(n == 0 if m == 0 else n % m == 0))
        if name == "div_ceil":
            return I(-(-n // m)) if m else None
        if name == "next_multiple_of":
            return inr(-(-n // m) * m) if m else None
        if name in ("div_euclid", "rem_euclid"):
            return I(n // m if name[0] == "d" else n % m) if m else None
        if name in ("midpoint",):
            return I((n + m) // 2)
        return None

    # ------------------------------------------------------------------ comparisons
    def total(self, tid):
        """types whose comparisons form one total order over their value"""
        it = self.it
        t = it.ty(tid)
        while t["k"] == "ref" or t.get("box"):
            t = it.ty(t["e"] if t["k"] == "ref" else t["args"][0])
        if t["k"] in ("int", "uint", "bool", "char", "str"):
            return True
        if t["k"] == "slice" or t["k"] == "array":
            return self.total(t["e"])
        if t["k"] == "adt":
            if t["path"] in ("alloc::string::String", "proc_macro2::LineColumn", "ordered_float::NotNan", "proc_macro2::location::LineColumn", "core::num::nonzero::NonZero"):
                return True
            if t["path"] == "alloc::vec::Vec":
                return self.total(t["args"][0])
            if t["path"] == "alloc::borrow::Cow":
                return True
        return False

    def plain_enum(self, tid):
        """the enum without fields (of a library) a comparison is about"""
        t = self.it.ty(tid)
        while t["k"] == "ref":
            tid = t["e"]
            t = self.it.ty(tid)
        if t["k"] == "adt" and t.get("enum") and t["path"] in ("proc_macro2::Spacing", "proc_macro2::Delimiter", "core::cmp::Ordering"):
            return tid
        return None

    def is_ident(self, tid):
        t = self.it.ty(tid)
        while t["k"] == "ref":
            t = self.it.ty(t["e"])
        return t["k"] == "adt" and t["path"] == "proc_macro2::Ident"

    def cmpterm(self, st, v, tid):
        s = self.it.snap(st, v)
        if self.is_ident(tid):
            return mkstr((("disp", s),)) if s[0] != "str" else s
        return s

    def isafter(self, a, b):
        """a stream position reached from b by parses that consumed something"""
        if a[0] != "app" or b[0] != "app":
            return False
        x = a[2][0]
        while x[0] == "after":
            x = x[1][2]
            if x == b[2][0]:
                return True
        return False

    def m_eq(self, st, c):
        if self.local_impl(c):
            return None
        it = self.it
        ta, tb = c.argtys
        if it.is_pb_cursor(ta):
            a, b = it.snap(st, c.args[0]), it.snap(st, c.args[1])
            if a == b:
                return TRUE
            if self.progress and (self.isafter(a, b) or self.isafter(b, a)):
                return FALSE
            return ("app", "poseq", tuple(sorted((a, b), key=repr)))
        if self.seqeq and c.desc.get("name", "eq") == "eq":
            x, y = it.ty(ta), it.ty(tb)
            x, y = (it.ty(z["e"]) if z["k"] == "ref" else z for z in (x, y))
            if x["k"] == y["k"] == "adt" and x["path"] == y["path"] == "alloc::vec::Vec":
                return self.helper(st, c, "seq_eq", [x["args"][0], y["args"][0]])
        e = self.plain_enum(ta)
        if e is not None and e == self.plain_enum(tb):
            a, b = it.snap(st, c.args[0]), it.snap(st, c.args[1])
            if a == b:
                return TRUE
            return I(int(it.variant_of(st, a, e) == it.variant_of(st, b, e)))
        ia, ib = self.is_ident(ta), self.is_ident(tb)
        if ia or ib or (self.total(ta) and self.total(tb)):
            a, b = self.cmpterm(st, c.args[0], ta), self.cmpterm(st, c.args[1], tb)
            return self.eqterm(a, b)
        a, b = it.snap(st, c.args[0]), it.snap(st, c.args[1])
        if self.eta_total(c, a, b):
            return self.eqterm(a, b)
        if c.desc.get("inst") is not None and self.may_inline(c.desc):
            return None
        st.note_opaque("eq")
        if a == b and c.desc.get("trait") == "core::cmp::PartialEq" and it.tstr(ta) == it.tstr(tb):
            return TRUE
        if it.tstr(ta) == it.tstr(tb):
            a, b = sorted((a, b), key=repr)
        return ("app", "eq", (a, b))

    def eta_total(self, c, a, b):
        """tuples that are exactly all components of a totally ordered value compare like it"""
        t = self.it.ty(c.argtys[0])
        while t["k"] == "ref":
            t = self.it.ty(t["e"])
        if t["k"] != "tuple":
            return False
        f = lambda x: x[0] == "app" and x[1].startswith("proc_macro2::Span::")
        return f(a) and f(b)

    def eqterm(self, a, b):
        if a == b:
            return TRUE
        if a[0] == "str" and b[0] == "str" and all(p[0] == "lit" for p in a[1] + b[1]):
            return FALSE
        if is_int(a) and is_int(b):
            return FALSE
        x, y = constof(a), constof(b)
        if x is not None and y is not None and x[0] == y[0]:
            return I(int(x == y))
        return ("cmpop", "Eq") + tuple(sorted((a, b), key=repr))

    def m_ne(self, st, c):
        if self.local_impl(c):
            return None
        it = self.it
        v = self.m_eq(st, c)
        if v is None:
            # ne of an inlined eq
            return self.helper(st, c, "ne", [self.nref(c.argtys[0]), self.nref(c.argtys[1])])
        if is_int(v):
            return I(1 - v[1])
        return ("not", v)

    def nref(self, tid):
        return self.it.ty(tid)["e"]

    def total_elems(self, st, c):
        """elements of a slice of totally ordered values and the value looked for, as comparable terms"""
        t = self.it.ty(c.argtys[0])
        while t["k"] == "ref":
            t = self.it.ty(t["e"])
        if t["k"] not in ("slice", "array"):
            return None
        if not (self.is_ident(t["e"]) or self.total(t["e"])):
            return None
        ref, es = self.expand(st, c.args[0])
        return [self.cmpterm(st, e, t["e"]) for e in es], self.cmpterm(st, c.args[1], c.argtys[1])

    def m_contains(self, st, c):
        r = self.total_elems(st, c)
        if r is None:
            return None
        return I(int(any(self.it.truth(st, self.eqterm(e, r[1])) for e in r[0])))

    def m_binary_search(self, st, c):
        """what it finds is equal; that it finds what is there is only certain in sorted data"""
        r = self.total_elems(st, c)
        if r is None:
            return None
        es, key = r
        if not es:
            return err(I(0))
        if len(es) == 1:
            return ok(I(0)) if self.it.truth(st, self.eqterm(es[0], key)) else err(("app", "insertion point", (("vec", tuple(es)), key)))
        if all(e[0] == "str" and all(p[0] == "lit" for p in e[1]) for e in es):
            txt = ["".join(p[1] for p in e[1]).encode() for e in es]
            eq = [i for i, e in enumerate(es) if self.it.truth(st, self.eqterm(e, key))]
            if len(eq) > 1 or (not eq and txt != sorted(txt)):
                return None
            if not eq:
                return err(("app", "insertion point", (("vec", tuple(es)), key)))
            size, base = len(txt), 0
            while size > 1:
                half = size // 2
                if txt[base + half] <= txt[eq[0]]:
                    base += half
                size -= half
            return ok(I(base)) if base == eq[0] else err(I(base + (txt[base] < txt[eq[0]])))
        if not all(e[0] == "elem" for e in es):
            return None
        t = ("app", "binary_search finds", (("vec", tuple(es)), key))
        if not self.it.truth(st, t):
            return err(("app", "insertion point", (("vec", tuple(es)), key)))
        for i, e in enumerate(es):
            if self.it.truth(st, self.eqterm(e, key)):
                return ok(I(i))
        raise PathEnd("infeasible")

    def m_pord(self, st, c):
        if self.local_impl(c):
            return None
        it = self.it
        name = c.desc["name"]
        ta, tb = c.argtys
        ia, ib = self.is_ident(ta), self.is_ident(tb)
        a, b = it.snap(st, c.args[0]), it.snap(st, c.args[1])
        if ia or ib or (self.total(ta) and self.total(tb)) or self.eta_total(c, a, b):
            a, b = self.cmpterm(st, c.args[0], ta), self.cmpterm(st, c.args[1], tb)
            if name in ("lt", "le", "gt", "ge"):
                if is_int(a) and is_int(b):
                    return it.binop(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name], a, b)
                return {"lt": ("cmpop", "Lt", a, b), "le": ("cmpop", "Le", a, b), "gt": ("cmpop", "Lt", b, a), "ge": ("cmpop", "Le", b, a)}[name]
            r = it.cmp3(st, a, b) if a != b else 0
            v = agg(ORD, r + 1)
            return some(v) if name == "partial_cmp" else v
        if c.desc.get("inst") is not None and self.may_inline(c.desc):
            return None
        return None

    def m_hash(self, st, c):
        if self.local_impl(c):
            return None
        it = self.it
        t = self.self_ty(c)
        if t["k"] not in ("param", "alias") and not self.total(c.desc["args"][0]) and not self.is_ident(c.desc["args"][0]):
            if c.desc.get("inst") is not None and self.may_inline(c.desc):
                return None
        ref, v = self.wref(st, c.args[1])
        def feed(state, x, tid):
            t = it.ty(tid)
            while x[0] == "ref" and t["k"] != "ref":
                x = st.read(x[1], x[2])
            while t["k"] == "ref":
                tid = t["e"]
                t = it.ty(tid)
                x = st.read(x[1], x[2]) if x[0] == "ref" else x
            if t["k"] == "tuple" and x[:2] == ("agg", "tup") and len(x[3]) == len(t["fields"]):
                # a tuple is hashed component by component
                for y, f in zip(x[3], t["fields"]):
                    state = feed(state, y, f)
                return state
            return ("app", "hashed:" + self.hashclass(tid), (state, self.cmpterm(st, x, tid)))
        st.write(ref[1], ref[2], feed(it.snap(st, v), c.args[0], c.desc["args"][0]))
        return UNIT

    def hashclass(self, tid):
        it = self.it
        t = it.ty(tid)
        while t["k"] == "ref" or t.get("box"):
            t = it.ty(t["e"] if t["k"] == "ref" else t["args"][0])
        if t["k"] == "str" or (t["k"] == "adt" and t["path"] in ("alloc::string::String", "proc_macro2::Ident")):
            return "str"
        if t["k"] == "slice":
            return "[" + self.hashclass(t["e"]) + "]"
        if t["k"] == "adt" and t["path"] == "alloc::vec::Vec":
            return "[" + self.hashclass(t["args"][0]) + "]"
        return t["s"]

    # ------------------------------------------------------------------ sequences
    def seqref(self, st, ref):
        """the cell and path of the sequence a reference denotes"""
        while True:
            v = st.read(ref[1], ref[2])
            if v[0] == "ref":
                ref = v
            elif v[0] in ("box", "boxp"):
                ref = ("ref", v[1], ())
            elif v[0] == "str" and all(p[0] == "lit" for p in v[1]):
                # a known text seen as its bytes
                v = ("arr", tuple(I(b) for b in constof(v)[1]))
                return ("ref", st.alloc(v), ()), v
            else:
                return ref, v

    def expand(self, st, ref):
        """make the elements of a sequence explicit (decides its length)"""
        ref, v = self.seqref(st, ref)
        if v[0] in ("vec", "arr"):
            return ref, list(v[1])
        if v[0] in ("str", "agg"):
            raise Unsupported("sequence view")
        n = self.it.seqlen(st, v)
        es = [("elem", v, i) for i in range(n)]
        st.write(ref[1], ref[2], ("vec", tuple(es)))
        return ref, es

    def m_push(self, st, c):
        ref, es = self.expand(st, c.args[0])
        st.write(ref[1], ref[2], ("vec", tuple(es) + (c.args[1],)))
        return UNIT

    def m_pop(self, st, c):
        ref, es = self.expand(st, c.args[0])
        if not es:
            return none()
        st.write(ref[1], ref[2], ("vec", tuple(es[:-1])))
        return some(es[-1])

    def m_clear(self, st, c):
        ref, v = self.seqref(st, c.args[0])
        st.write(ref[1], ref[2], ("vec", ()))
        return UNIT

    def cidx(self, st, v):
        v = self.it.scalar(st, v)
        if is_int(v):
            return v[1]
        if v[0] == "lin" or v[0] == "len":
            t, d = self.it.lin_shift(v)
            lo, hi, ne = st.facts.interval(t)
            if lo == hi:
                return lo + d
            raise NeedSplit(("iveq", t, max(lo, 0)), [True, False])
        return self.it.concretize(st, v)[1]

    def m_insert(self, st, c):
        ref, es = self.expand(st, c.args[0])
        i = self.symidx(st, c.args[1], len(es))
        if i is None or i > len(es):
            raise PathEnd("panic", "Vec::insert")
        es.insert(i, c.args[2])
        st.write(ref[1], ref[2], ("vec", tuple(es)))
        return UNIT

    def symidx(self, st, v, n):
        """decide an index: 0..n, or None when larger"""
        v = self.it.scalar(st, v)
        if is_int(v):
            return v[1]
        t, d = self.it.lin_shift(v)
        for i in range(0, n + 1):
            if self.it.iveq(st, v, i):
                return i
        return None

    def m_remove(self, st, c):
        ref, es = self.expand(st, c.args[0])
        i = self.symidx(st, c.args[1], len(es))
        if i is None or i >= len(es):
            raise PathEnd("panic", "Vec::remove")
        x = es.pop(i)
        st.write(ref[1], ref[2], ("vec", tuple(es)))
        return x

    def m_swap_remove(self, st, c):
        ref, es = self.expand(st, c.args[0])
        i = self.symidx(st, c.args[1], len(es))
        if i is None or i >= len(es):
            raise PathEnd("panic", "Vec::swap_remove")
        x = es[i]
        es[i] = es[-1]
        es.pop()
        st.write(ref[1], ref[2], ("vec", tuple(es)))
        return x

    def m_truncate(self, st, c):
        ref, es = self.expand(st, c.args[0])
        i = self.symidx(st, c.args[1], len(es))
        if i is not None and i < len(es):
            es = es[:i]
        st.write(ref[1], ref[2], ("vec", tuple(es)))
        return UNIT

    def m_append(self, st, c):
        ref, es = self.expand(st, c.args[0])
        ref2, es2 = self.expand(st, c.args[1])
        st.write(ref[1], ref[2], ("vec", tuple(es) + tuple(es2)))
        st.write(ref2[1], ref2[2], ("vec", ()))
        return UNIT

    def m_extend_from_slice(self, st, c):
        ref2, es2 = self.expand(st, c.args[1])
        ref, es = self.expand(st, c.args[0])
        st.write(ref[1], ref[2], ("vec", tuple(es) + tuple(es2)))
        return UNIT

    def m_from_elem(self, st, c):
        return None

    def m_reverse(self, st, c):
        ref, es = self.expand(st, c.args[0])
        st.write(ref[1], ref[2], ("vec", tuple(reversed(es))))
        return UNIT

    def m_sliceswap(self, st, c):
        ref, es = self.expand(st, c.args[0])
        i, j = self.symidx(st, c.args[1], len(es)), self.symidx(st, c.args[2], len(es))
        if i is None or j is None or i >= len(es) or j >= len(es):
            raise PathEnd("panic", "swap")
        es[i], es[j] = es[j], es[i]
        st.write(ref[1], ref[2], ("vec", tuple(es)))
        return UNIT

    def m_len(self, st, c):
        ref, v = self.seqref(st, c.args[0])
        if v[0] in ("vec", "arr"):
            return I(len(v[1]))
        return self.it.scalar(st, ("len", self.it.snap(st, v)))

    def m_isempty_seq(self, st, c):
        ref, v = self.seqref(st, c.args[0])
        if v[0] in ("vec", "arr"):
            return I(1 if not v[1] else 0)
        return ("cmpop", "Eq", I(0), ("len", self.it.snap(st, v)))

    def m_sliceiter(self, st, c):
        ref, v = self.seqref(st, c.args[0])
        return ("sliceit", ref[1], ref[2], 0, 0)

    def m_first(self, st, c):
        ref, v = self.seqref(st, c.args[0])
        if self.it.has_index(st, v, 0):
            return some(("ref", ref[1], ref[2] + (("i", 0),)))
        return none()

    def m_last(self, st, c):
        ref, v = self.seqref(st, c.args[0])
        if v[0] not in ("vec", "arr"):
            if not self.it.has_index(st, v, 0):
                return none()
        n = self.it.seqlen(st, v)
        if n == 0:
            return none()
        return some(("ref", ref[1], ref[2] + (("i", n - 1),)))

    def m_bytes_icase(self, st, c):
        v = [self.seqref(st, x)[1] for x in c.args]
        k = [constof(x) for x in v]
        if any(x is None or x[0] != "seq" for x in k):
            return None
        low = lambda x: [b + 32 if 65 <= b <= 90 else b for b in x[1]]
        return I(int(low(k[0]) == low(k[1])))

    def m_split_first(self, st, c):
        ref, v = self.seqref(st, c.args[0])
        if not self.it.has_index(st, v, 0):
            return none()
        ref, es = self.expand(st, c.args[0])
        return some(agg("tup", None, ("ref", ref[1], ref[2] + (("i", 0),)), ("ref", ref[1], ref[2] + (("ss", 1, None),))))

    def m_split_last(self, st, c):
        ref, es = self.expand(st, c.args[0])
        n = len(es)
        if n == 0:
            return none()
        return some(agg("tup", None, ("ref", ref[1], ref[2] + (("i", n - 1),)), ("ref", ref[1], ref[2] + (("ss", 0, n - 1),))))

    def m_index(self, st, c):
        if self.local_impl(c):
            return None
        t = self.it.ty(c.argtys[0])
        while t["k"] == "ref":
            t = self.it.ty(t["e"])
        if t["k"] == "adt" and t["path"] == "syn::punctuated::Punctuated":
            return None
        return self.index_into(st, c, c.args[0], c.args[1], c.argtys[1], "panic")

    def m_sliceindex(self, st, c):
        get = c.desc["name"].startswith("get")
        return self.index_into(st, c, c.args[1], c.args[0], c.argtys[0], "opt" if get else "panic")

    def m_sliceget(self, st, c):
        return self.index_into(st, c, c.args[0], c.args[1], c.argtys[1], "opt")

    def index_into(self, st, c, sref, ix, ixty, mode):
        it = self.it
        t = it.ty(ixty)
        if sref[0] != "ref":
            return None
        ref, v = self.seqref(st, sref)
        wrap = some if mode == "opt" else (lambda x: x)
        if t["k"] == "uint":
            if v[0] in ("vec", "arr", "sym", "proj", "elem", "app", "val", "const"):
                ixv = it.scalar(st, ix)
                st_t = None
                if not is_int(ixv):
                    n = it.seqlen(st, v)
                    i = self.symidx(st, ixv, n)
                    if i is None:
                        i = n
                else:
                    i = ixv[1]
                if not it.has_index(st, v, i):
                    if mode == "opt":
                        return none()
                    raise PathEnd("panic", "index")
                return wrap(("ref", ref[1], ref[2] + (("i", i),)))
            return None
        if v[0] in ("str", "char") and t["k"] == "adt" and t["path"].startswith("core::ops::range::Range") and t["path"] != "core::ops::range::RangeFull":
            return self.textindex(st, v, t, ix, mode)
        if v[0] == "tbuf" and t["k"] == "adt" and t["path"] == "core::ops::range::RangeTo" and ix[0] == "agg" and it.snap(st, ix[3][0]) == ("len", mkstr(v[1])):
            return wrap(mkstr(v[1]))
        if t["k"] == "adt" and t["path"] == "core::ops::range::RangeFull":
            return wrap(("ref", ref[1], ref[2]))
        if t["k"] == "adt" and t["path"].startswith("core::ops::range::Range") and ix[0] == "agg" and v[0] in ("vec", "arr") and v[0] != "str":
            nm = t["path"].split("::")[-1]
            n = len(v[1])
            f = [it.scalar(st, x) for x in ix[3]]
            if not all(is_int(x) for x in f[:2]):
                return None
            f = [x[1] for x in f[:2]]
            lo, hi = {"Range": lambda: (f[0], f[1]), "RangeFrom": lambda: (f[0], n), "RangeTo": lambda: (0, f[0]), "RangeInclusive": lambda: (f[0], f[1] + 1), "RangeToInclusive": lambda: (0, f[0] + 1)}[nm]()
            if lo > hi or hi > n:
                if mode == "opt":
                    return none()
                raise PathEnd("panic", "slice index")
            return wrap(("ref", ref[1], ref[2] + (("ss", lo, hi),)))
        return None

    # ------------------------------------------------------------------ iterators
    def m_intoiter(self, st, c):
        if self.local_impl(c):
            return None
        it = self.it
        t = self.self_ty(c)
        if t["k"] == "adt" and t["path"] == "alloc::vec::Vec":
            return ("vecit", c.args[0], 0, 0)
        if t["k"] == "array":
            return ("vecit", c.args[0], 0, 0)
        if t["k"] == "adt" and t.get("box") and it.ty(t["args"][0])["k"] == "slice":
            return ("vecit", it.snap(st, c.args[0]), 0, 0)
        if t["k"] == "ref":
            e = it.ty(t["e"])
            if e["k"] in ("slice", "array") or (e["k"] == "adt" and e["path"] == "alloc::vec::Vec"):
                return self.m_sliceiter(st, c)
        if t["k"] == "adt" and t["path"] == "proc_macro2::TokenStream":
            return ("vecit", it.snap(st, c.args[0]), 0, 0)
        rt = it.ty(c.retty)
        if it.tstr(c.retty) == t["s"] and t["k"] != "param":
            return c.args[0]
        return None

    def iterval(self, st, c):
        """the modelled iterator behind a receiver, by reference or by value"""
        v = c.args[0]
        ref = None
        while v[0] == "ref":
            ref = v
            v = st.read(v[1], v[2])
        return ref, v

    def m_iterator(self, st, c):
        it = self.it
        d = c.desc
        name = d["name"]
        if self.local_impl(c):
            return None
        t = self.self_ty(c)
        base = t["k"] == "adt" and t["path"].startswith(("core::str::iter::", "core::ascii::EscapeDefault")) or t["k"] == "adt" and t["path"] in ("core::slice::iter::Iter", "core::slice::iter::IterMut", "alloc::vec::into_iter::IntoIter", "core::array::iter::IntoIter", "proc_macro2::token_stream::IntoIter", "core::str::iter::Chars", "syn::punctuated::Iter", "syn::punctuated::IterMut")
        if base:
            ref, v = self.iterval(st, c)
            if v[0] == "pit":
                if name == "next":
                    return self.pit_next(st, ref, v)
                if name == "next_back":
                    return self.pit_next_back(st, ref, v)
                if name == "size_hint":
                    n = self.pit_len(st, v)
                    return agg("tup", None, n, some(n))
                if name == "count":
                    return self.pit_len(st, v)
            if v[0] in ("sliceit", "vecit"):
                if name == "next":
                    return self.it_next(st, ref, v)
                if name == "next_back":
                    return self.it_next_back(st, ref, v)
                if name == "size_hint":
                    n = self.it_len(st, v)
                    return agg("tup", None, n, some(n))
                if name in ("count",):
                    return self.it_len(st, v)
            if name in HELPED:
                return self.helper(st, c, "it_" + name, [a for a in d["args"] if isinstance(a, int)])
            if name == "zip":
                return self.helper(st, c, "zip", [a for a in d["args"] if isinstance(a, int)])
            return None
        if name == "collect":
            return self.helper(st, c, "it_collect", [a for a in d["args"] if isinstance(a, int)])
        if t["k"] == "param" and name in HELPED:
            return self.helper(st, c, "it_" + name, [a for a in d["args"] if isinstance(a, int)])
        if name in HELPED and t["k"] == "adt" and t.get("krate") not in ("core", "alloc", "std"):
            return self.helper(st, c, "it_" + name, [a for a in d["args"] if isinstance(a, int)])
        zipty = t["k"] == "adt" and t["path"] == "core::iter::adapters::zip::Zip"
        if name == "zip":
            return self.helper(st, c, "zip", [a for a in d["args"] if isinstance(a, int)])
        flat = t["k"] == "adt" and t["path"] in ("core::iter::adapters::flatten::FlatMap", "core::iter::adapters::flatten::Flatten") and t["path"].split("::")[-1]
        if name in ("flat_map", "flatten"):
            return self.helper(st, c, name, [a for a in d["args"] if isinstance(a, int)])
        if flat:
            a = [x for x in t["args"] if isinstance(x, int)]
            if name == "next":
                return self.helper(st, c, "flat_map_next" if flat == "FlatMap" else "flatten_next", a)
            if name in HELPED:
                return self.helper(st, c, "it_" + name, [x for x in d["args"] if isinstance(x, int)])
            return None
        if zipty:
            if name == "next":
                return self.helper(st, c, "zip_next", [t["args"][0], t["args"][1]])
            if name == "size_hint":
                return agg("tup", None, ("app", "zip_len", (self.it.snap(st, c.args[0]),)), none())
            if name in HELPED:
                return self.helper(st, c, "it_" + name, [a for a in d["args"] if isinstance(a, int)])
            return None
        chars = t["k"] == "adt" and t["path"].startswith("core::iter::") and name in HELPED
        if chars and name in ("fold", "try_fold", "for_each", "rfold", "try_rfold", "any", "all", "position", "find", "count", "last", "nth", "try_for_each", "find_map", "partition", "unzip", "min_by_key", "max_by_key", "eq", "ne"):
            # the default loop over next(); the adapters' own versions are optimisations of it
            if name in ("try_fold", "try_rfold", "fold", "rfold", "unzip", "partition", "min_by_key", "max_by_key", "eq", "ne"):
                return self.helper(st, c, "it_" + name, [a for a in d["args"] if isinstance(a, int)])
        return None

    def it_len(self, st, v):
        if v[0] == "sliceit":
            base = st.read(v[1], v[2])
            while base[0] == "ref":
                base = st.read(base[1], base[2])
            i, j = v[3], v[4]
        else:
            base, i, j = v[1], v[2], v[3]
        if base[0] in ("vec", "arr"):
            return I(len(base[1]) - i - j)
        if base[0] == "ts" and len(base[1]) != 1:
            raise Unsupported("counts the tokens of a stream put together from several parts")
        return linadd(self.it.scalar(st, ("len", self.it.snap(st, base))), I(i + j), -1)

    def it_next(self, st, ref, v):
        it = self.it
        if v[0] == "sliceit":
            base = st.read(v[1], v[2])
            if not it.has_index(st, base, v[3] + v[4]):
                return none()
            st.write(ref[1], ref[2], ("sliceit", v[1], v[2], v[3] + 1, v[4]))
            return some(("ref", v[1], v[2] + (("i", v[3]),)))
        base = v[1]
        if not it.has_index(st, base, v[2] + v[3]):
            return none()
        x = base[1][v[2]] if base[0] in ("vec", "arr") else it.token_at(st, base, v[2]) if base[0] == "ts" else ("elem", base, v[2])
        st.write(ref[1], ref[2], ("vecit", base, v[2] + 1, v[3]))
        return some(x)

    def it_next_back(self, st, ref, v):
        it = self.it
        if v[0] == "sliceit":
            base = st.read(v[1], v[2])
            if not it.has_index(st, base, v[3] + v[4]):
                return none()
            n = it.seqlen(st, base)
            st.write(ref[1], ref[2], ("sliceit", v[1], v[2], v[3], v[4] + 1))
            return some(("ref", v[1], v[2] + (("i", n - 1 - v[4]),)))
        base = v[1]
        if base[0] == "ts" and len(base[1]) != 1:
            raise Unsupported("walks through a stream put together from several parts from its end")
        if not it.has_index(st, base, v[2] + v[3]):
            return none()
        n = it.seqlen(st, base)
        i = n - 1 - v[3]
        x = base[1][i] if base[0] in ("vec", "arr") else ("elem", base, i)
        st.write(ref[1], ref[2], ("vecit", base, v[2], v[3] + 1))
        return some(x)

    def m_iterlen(self, st, c):
        if self.local_impl(c):
            return None
        ref, v = self.iterval(st, c)
        if v[0] == "pit":
            return self.pit_len(st, v)
        if v[0] in ("sliceit", "vecit"):
            return self.it_len(st, v)
        return None

    # items of a punctuated sequence: ("pit", cell, path, taken from the front, taken from the back)
    PINNER = ("f", None, 0, "syn::punctuated::Punctuated", 2)
    PLAST = ("f", None, 1, "syn::punctuated::Punctuated", 2)

    def m_piter(self, st, c):
        ref, v = self.seqref(st, c.args[0])
        return ("pit", ref[1], ref[2], 0, 0)

    def pit_parts(self, st, v):
        inner = st.read(v[1], v[2] + (self.PINNER,))
        return inner, st.read(v[1], v[2] + (self.PLAST,))

    def pit_last(self, st, last):
        if last[0] == "agg":
            return last[2] == 1
        r = st.facts.v.get(("var", last))
        if r is None:
            raise NeedSplit(("var", last), [0, 1])
        return r == 1

    def pit_item(self, st, v, i):
        return some(("ref", v[1], v[2] + (self.PINNER, ("i", i), ("f", None, 0, "tup", 2))))

    def pit_lastitem(self, st, v):
        p = v[2] + (self.PLAST, ("f", 1, 0, OPT, 1))
        b = st.read(v[1], p)
        if b[0] in ("box", "boxp"):
            return some(("ref", b[1], ()))
        return some(("ref", st.derefcell(b), ()))

    def pit_next(self, st, ref, v):
        inner, last = self.pit_parts(st, v)
        i, j = v[3], v[4]
        new = ("pit", v[1], v[2], i + 1, j)
        if j == 0:
            if self.it.has_index(st, inner, i):
                st.write(ref[1], ref[2], new)
                return self.pit_item(st, v, i)
            n = self.it.seqlen(st, inner)
            if i == n and self.pit_last(st, last):
                st.write(ref[1], ref[2], new)
                return self.pit_lastitem(st, v)
            return none()
        n = self.it.seqlen(st, inner)
        total = n + (1 if self.pit_last(st, last) else 0)
        if i + j >= total:
            return none()
        st.write(ref[1], ref[2], new)
        return self.pit_item(st, v, i) if i < n else self.pit_lastitem(st, v)

    def pit_next_back(self, st, ref, v):
        inner, last = self.pit_parts(st, v)
        i, j = v[3], v[4]
        new = ("pit", v[1], v[2], i, j + 1)
        hl = self.pit_last(st, last)
        if j == 0 and hl and i == 0:
            st.write(ref[1], ref[2], new)
            return self.pit_lastitem(st, v)
        n = self.it.seqlen(st, inner)
        total = n + (1 if hl else 0)
        if i + j >= total:
            return none()
        st.write(ref[1], ref[2], new)
        k = total - 1 - j
        return self.pit_item(st, v, k) if k < n else self.pit_lastitem(st, v)

    def pit_len(self, st, v):
        inner, last = self.pit_parts(st, v)
        l = 1 if self.pit_last(st, last) else 0
        if inner[0] in ("vec", "arr"):
            return I(len(inner[1]) + l - v[3] - v[4])
        return linadd(self.it.scalar(st, ("len", self.it.snap(st, inner))), I(l - v[3] - v[4]), 1)

    def m_arrmap(self, st, c):
        it = self.it
        v = c.args[0]
        if v[0] != "arr" or not 1 <= len(v[1]) <= 4:
            return None
        return self.helper(st, c, "arr_map%d" % len(v[1]), [it.ty(c.argtys[0])["e"], it.ty(c.retty)["e"], c.argtys[1]])

    def m_onceinit(self, st, c):
        """a value computed once and kept: for the life of the program if the cell is a static"""
        it = self.it
        cell = repr(it.snap(st, c.args[0]))
        t = it.ty(c.argtys[1])
        if "'static'" not in cell or t["k"] != "closure":
            return None
        if "one for every instance" in cell or c.args[1][0] == "agg" and c.args[1][3]:
            # whatever the first call ever made put there
            return it.shape(st, ("app", "value left by an earlier call", (("const", cell),)), c.retty)
        e = it.ty(c.retty)["e"]
        return self.helper(st, c, "once_init", [e, c.argtys[1]], [c.args[1]])

    def m_setop(self, name):
        def op(st, c):
            it = self.it
            v = c.args[0]
            while v[0] == "ref":
                v = st.read(v[1], v[2])
            if v[0] != "vec":
                return None
            t = it.ty(c.argtys[0])
            q = it.ty(c.argtys[1])
            if name == "set_contains":
                if q["k"] != "ref":
                    return None
                return self.helper(st, c, name, [it.ty(t["e"])["args"][0], q["e"]])
            return self.helper(st, c, name, [it.ty(t["e"])["args"][0]])
        return op

    def m_fromiter(self, st, c):
        if self.local_impl(c):
            return None
        t = self.self_ty(c)
        a = [x for x in c.desc["args"] if isinstance(x, int)]
        if t["k"] == "adt" and t["path"] in ("alloc::vec::Vec", "std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet"):
            return self.helper(st, c, "vec_from_iter", [a[1], a[2]])
        if t["k"] == "adt" and t.get("box") and self.it.ty(t["args"][0])["k"] == "slice":
            return self.helper(st, c, "vec_from_iter", [a[1], a[2]])
        if t["k"] == "adt" and t["path"] == "alloc::string::String" and self.is_piece(a[1]):
            v = self.it.snap(st, c.args[0])
            if v[0] == "vecit" and v[1][0] == "app" and v[1][1] == "chars" and v[2:] == (0, 0):
                return v[1][2][0]
            return self.helper(st, c, "text_from_iter", [a[1], a[2]])
        return None

    def is_piece(self, tid):
        t = self.it.ty(tid)
        if t["k"] == "ref":
            return self.it.ty(t["e"])["k"] in ("char", "str")
        return t["k"] == "char" or t["k"] == "adt" and t["path"] == "alloc::string::String"

    def m_join(self, st, c):
        """concatenation of texts of known number"""
        it = self.it
        v = it.snap(st, c.args[0])
        n = norm(c.desc.get("rpath") or c.desc["path"]).split("::")[-1]
        t = self.self_ty(c)
        while t["k"] in ("ref", "slice", "array"):
            t = it.ty(t["e"])
        if v[0] not in ("vec", "arr") or not (t["k"] == "str" or t["k"] == "adt" and t["path"] == "alloc::string::String"):
            return None
        sep = ()
        if n == "join":
            s = it.ty(c.argtys[1])
            while s["k"] == "ref":
                s = it.ty(s["e"])
            if s["k"] != "str":
                return None
            sep = self.strparts(it.snap(st, c.args[1]))
        out = []
        for i, x in enumerate(v[1]):
            if i:
                out.extend(sep)
            out.extend(self.strparts(it.snap(st, x)))
        return mkstr(mkstr_parts(out))

    def m_extend(self, st, c):
        if self.local_impl(c):
            return None
        t = self.self_ty(c)
        a = [x for x in c.desc["args"] if isinstance(x, int)]
        if t["k"] == "adt" and t["path"] == "alloc::vec::Vec":
            et = self.it.ty(a[1])
            if et["k"] == "ref" and self.it.ty(t["args"][0])["k"] != "ref":
                return self.helper(st, c, "vec_extend_ref", [t["args"][0], a[2]])
            return self.helper(st, c, "vec_extend", [a[1], a[2]])
        if t["k"] == "adt" and t["path"] == "alloc::string::String" and self.is_piece(a[1]):
            return self.helper(st, c, "text_extend", [a[1], a[2]])
        if t["k"] == "adt" and t["path"] == "proc_macro2::TokenStream":
            parts = self.streamed(self.it.snap(st, c.args[1]))
            if parts is not None:
                return self.ts_append(st, c.args[0], parts)
            et = self.it.ty(a[1])
            return self.helper(st, c, "ts_extend", [a[1], a[2]])
        return None

    def m_extend_one(self, st, c):
        if self.local_impl(c):
            return None
        a = [x for x in c.desc["args"] if isinstance(x, int)]
        return self.helper(st, c, "extend_one", [a[0], a[1]])

    # ------------------------------------------------------------------ arithmetic
    def satsub(self, st, a, b):
        it = self.it
        a, b = it.scalar(st, a), it.scalar(st, b)
        if is_int(a) and is_int(b):
            return I(max(0, a[1] - b[1]))
        if it.cmpop(st, "Lt", a, b):
            return I(0)
        return it.binop(st, "Sub", a, b)

    def m_satsub(self, st, c):
        return self.satsub(st, c.args[0], c.args[1])

    def m_checked_sub(self, st, c):
        it = self.it
        a, b = it.scalar(st, c.args[0]), it.scalar(st, c.args[1])
        if it.cmpop(st, "Lt", a, b):
            return none()
        return some(it.binop(st, "Sub", a, b))

    def m_nonzero(self, st, c):
        it = self.it
        v = it.scalar(st, c.args[0])
        if is_int(v):
            return none() if v[1] == 0 else some(v)
        lo = self.lower(st, v)
        if lo is not None and lo > 0:
            return some(v)
        if it.cmpop(st, "Eq", I(0), v):
            return none()
        return some(v)

    def lower(self, st, v):
        """a lower bound of a sum of non-negative terms"""
        if v[0] == "lin" and all(k > 0 for _, k in v[1]):
            s = v[2]
            for t, k in v[1]:
                lo = st.facts.interval(t)[0]
                if lo == -float("inf"):
                    return None
                s += k * lo
            return s
        return None

    def m_addassign(self, st, c):
        t = self.self_ty(c)
        if t["k"] == "adt" and t["path"] == "alloc::string::String":
            return self.append_text(st, c.args[0], self.strparts(self.it.snap(st, c.args[1])))
        return None

    def m_add(self, st, c):
        t = self.self_ty(c)
        if t["k"] == "adt" and t["path"] == "alloc::string::String":
            return mkstr(mkstr_parts(list(self.strparts(self.it.snap(st, c.args[0]))) + list(self.strparts(self.it.snap(st, c.args[1])))))
        return None


HELPED = {"fold", "rfold", "try_fold", "try_rfold", "for_each", "any", "all", "find", "position", "count", "last", "nth", "nth_back", "try_for_each", "find_map", "reduce",
          "rfind", "unzip", "partition", "max_by_key", "min_by_key", "eq", "ne"}


def mkstr_parts(parts):
    out = []
    for p in parts:
        if p[0] == "lit":
            if not p[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)
