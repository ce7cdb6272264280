// Comparison of literals and identifiers: by value only, and consistently with the raw or borrowed form.
parsel::define_keywords!{ pub mod vpkw { select => Select; r#fn => RawFn; _ => Under; } }

//@ bool_eq
pub fn bool_eq__imp(a: &LitBool, b: &LitBool) -> bool {
    <LitBool as PartialEq<LitBool>>::eq(a, b)
}
pub fn bool_eq__spec(a: &LitBool, b: &LitBool) -> bool {
    a.value() == b.value()
}

//@ bool_ne
pub fn bool_ne__imp(a: &LitBool, b: &LitBool) -> bool {
    <LitBool as PartialEq<LitBool>>::ne(a, b)
}
pub fn bool_ne__spec(a: &LitBool, b: &LitBool) -> bool {
    !(a.value() == b.value())
}

//@ bool_partial_cmp
pub fn bool_partial_cmp__imp(a: &LitBool, b: &LitBool) -> Option<Ordering> {
    <LitBool as PartialOrd<LitBool>>::partial_cmp(a, b)
}
pub fn bool_partial_cmp__spec(a: &LitBool, b: &LitBool) -> Option<Ordering> {
    Some(a.value().cmp(&b.value()))
}

//@ bool_lt
pub fn bool_lt__imp(a: &LitBool, b: &LitBool) -> bool {
    <LitBool as PartialOrd<LitBool>>::lt(a, b)
}
pub fn bool_lt__spec(a: &LitBool, b: &LitBool) -> bool {
    a.value().cmp(&b.value()) == Ordering::Less
}

//@ bool_gt
pub fn bool_gt__imp(a: &LitBool, b: &LitBool) -> bool {
    <LitBool as PartialOrd<LitBool>>::gt(a, b)
}
pub fn bool_gt__spec(a: &LitBool, b: &LitBool) -> bool {
    a.value().cmp(&b.value()) == Ordering::Greater
}

//@ bool_le
pub fn bool_le__imp(a: &LitBool, b: &LitBool) -> bool {
    <LitBool as PartialOrd<LitBool>>::le(a, b)
}
pub fn bool_le__spec(a: &LitBool, b: &LitBool) -> bool {
    a.value().cmp(&b.value()) != Ordering::Greater
}

//@ bool_ge
pub fn bool_ge__imp(a: &LitBool, b: &LitBool) -> bool {
    <LitBool as PartialOrd<LitBool>>::ge(a, b)
}
pub fn bool_ge__spec(a: &LitBool, b: &LitBool) -> bool {
    a.value().cmp(&b.value()) != Ordering::Less
}

//@ bool_cmp
pub fn bool_cmp__imp(a: &LitBool, b: &LitBool) -> Ordering {
    <LitBool as Ord>::cmp(a, b)
}
pub fn bool_cmp__spec(a: &LitBool, b: &LitBool) -> Ordering {
    a.value().cmp(&b.value())
}

//@ bool_max
pub fn bool_max__imp(a: LitBool, b: LitBool) -> LitBool {
    Ord::max(a, b)
}
pub fn bool_max__spec(a: LitBool, b: LitBool) -> LitBool {
    if a.value().cmp(&b.value()) == Ordering::Greater { a } else { b }
}

//@ bool_min
pub fn bool_min__imp(a: LitBool, b: LitBool) -> LitBool {
    Ord::min(a, b)
}
pub fn bool_min__spec(a: LitBool, b: LitBool) -> LitBool {
    if a.value().cmp(&b.value()) == Ordering::Greater { b } else { a }
}

//@ bool_hash
pub fn bool_hash__imp<H: Hasher>(a: &LitBool, h: &mut H) {
    <LitBool as Hash>::hash(a, h)
}
pub fn bool_hash__spec<H: Hasher>(a: &LitBool, h: &mut H) {
    a.value().hash(h)
}

//@ bool_raw_eq
pub fn bool_raw_eq__imp(a: &LitBool, b: &bool) -> bool {
    <LitBool as PartialEq<bool>>::eq(a, b)
}
pub fn bool_raw_eq__spec(a: &LitBool, b: &bool) -> bool {
    a.value() == *b
}

//@ bool_raw_ne
pub fn bool_raw_ne__imp(a: &LitBool, b: &bool) -> bool {
    <LitBool as PartialEq<bool>>::ne(a, b)
}
pub fn bool_raw_ne__spec(a: &LitBool, b: &bool) -> bool {
    !(a.value() == *b)
}

//@ bool_raw_partial_cmp
pub fn bool_raw_partial_cmp__imp(a: &LitBool, b: &bool) -> Option<Ordering> {
    <LitBool as PartialOrd<bool>>::partial_cmp(a, b)
}
pub fn bool_raw_partial_cmp__spec(a: &LitBool, b: &bool) -> Option<Ordering> {
    Some(a.value().cmp(&*b))
}

//@ bool_raw_lt
pub fn bool_raw_lt__imp(a: &LitBool, b: &bool) -> bool {
    <LitBool as PartialOrd<bool>>::lt(a, b)
}
pub fn bool_raw_lt__spec(a: &LitBool, b: &bool) -> bool {
    a.value().cmp(&*b) == Ordering::Less
}

//@ bool_raw_gt
pub fn bool_raw_gt__imp(a: &LitBool, b: &bool) -> bool {
    <LitBool as PartialOrd<bool>>::gt(a, b)
}
pub fn bool_raw_gt__spec(a: &LitBool, b: &bool) -> bool {
    a.value().cmp(&*b) == Ordering::Greater
}

//@ bool_raw_le
pub fn bool_raw_le__imp(a: &LitBool, b: &bool) -> bool {
    <LitBool as PartialOrd<bool>>::le(a, b)
}
pub fn bool_raw_le__spec(a: &LitBool, b: &bool) -> bool {
    a.value().cmp(&*b) != Ordering::Greater
}

//@ bool_raw_ge
pub fn bool_raw_ge__imp(a: &LitBool, b: &bool) -> bool {
    <LitBool as PartialOrd<bool>>::ge(a, b)
}
pub fn bool_raw_ge__spec(a: &LitBool, b: &bool) -> bool {
    a.value().cmp(&*b) != Ordering::Less
}

//@ bool_borrow
pub fn bool_borrow__imp(a: &LitBool) -> bool {
    <LitBool as Borrow<bool>>::borrow(a).clone()
}
pub fn bool_borrow__spec(a: &LitBool) -> bool {
    a.value()
}

//@ byte_eq
pub fn byte_eq__imp(a: &LitByte, b: &LitByte) -> bool {
    <LitByte as PartialEq<LitByte>>::eq(a, b)
}
pub fn byte_eq__spec(a: &LitByte, b: &LitByte) -> bool {
    a.value() == b.value()
}

//@ byte_ne
pub fn byte_ne__imp(a: &LitByte, b: &LitByte) -> bool {
    <LitByte as PartialEq<LitByte>>::ne(a, b)
}
pub fn byte_ne__spec(a: &LitByte, b: &LitByte) -> bool {
    !(a.value() == b.value())
}

//@ byte_partial_cmp
pub fn byte_partial_cmp__imp(a: &LitByte, b: &LitByte) -> Option<Ordering> {
    <LitByte as PartialOrd<LitByte>>::partial_cmp(a, b)
}
pub fn byte_partial_cmp__spec(a: &LitByte, b: &LitByte) -> Option<Ordering> {
    Some(a.value().cmp(&b.value()))
}

//@ byte_lt
pub fn byte_lt__imp(a: &LitByte, b: &LitByte) -> bool {
    <LitByte as PartialOrd<LitByte>>::lt(a, b)
}
pub fn byte_lt__spec(a: &LitByte, b: &LitByte) -> bool {
    a.value().cmp(&b.value()) == Ordering::Less
}

//@ byte_gt
pub fn byte_gt__imp(a: &LitByte, b: &LitByte) -> bool {
    <LitByte as PartialOrd<LitByte>>::gt(a, b)
}
pub fn byte_gt__spec(a: &LitByte, b: &LitByte) -> bool {
    a.value().cmp(&b.value()) == Ordering::Greater
}

//@ byte_le
pub fn byte_le__imp(a: &LitByte, b: &LitByte) -> bool {
    <LitByte as PartialOrd<LitByte>>::le(a, b)
}
pub fn byte_le__spec(a: &LitByte, b: &LitByte) -> bool {
    a.value().cmp(&b.value()) != Ordering::Greater
}

//@ byte_ge
pub fn byte_ge__imp(a: &LitByte, b: &LitByte) -> bool {
    <LitByte as PartialOrd<LitByte>>::ge(a, b)
}
pub fn byte_ge__spec(a: &LitByte, b: &LitByte) -> bool {
    a.value().cmp(&b.value()) != Ordering::Less
}

//@ byte_cmp
pub fn byte_cmp__imp(a: &LitByte, b: &LitByte) -> Ordering {
    <LitByte as Ord>::cmp(a, b)
}
pub fn byte_cmp__spec(a: &LitByte, b: &LitByte) -> Ordering {
    a.value().cmp(&b.value())
}

//@ byte_max
pub fn byte_max__imp(a: LitByte, b: LitByte) -> LitByte {
    Ord::max(a, b)
}
pub fn byte_max__spec(a: LitByte, b: LitByte) -> LitByte {
    if a.value().cmp(&b.value()) == Ordering::Greater { a } else { b }
}

//@ byte_min
pub fn byte_min__imp(a: LitByte, b: LitByte) -> LitByte {
    Ord::min(a, b)
}
pub fn byte_min__spec(a: LitByte, b: LitByte) -> LitByte {
    if a.value().cmp(&b.value()) == Ordering::Greater { b } else { a }
}

//@ byte_hash
pub fn byte_hash__imp<H: Hasher>(a: &LitByte, h: &mut H) {
    <LitByte as Hash>::hash(a, h)
}
pub fn byte_hash__spec<H: Hasher>(a: &LitByte, h: &mut H) {
    a.value().hash(h)
}

//@ byte_raw_eq
pub fn byte_raw_eq__imp(a: &LitByte, b: &u8) -> bool {
    <LitByte as PartialEq<u8>>::eq(a, b)
}
pub fn byte_raw_eq__spec(a: &LitByte, b: &u8) -> bool {
    a.value() == *b
}

//@ byte_raw_ne
pub fn byte_raw_ne__imp(a: &LitByte, b: &u8) -> bool {
    <LitByte as PartialEq<u8>>::ne(a, b)
}
pub fn byte_raw_ne__spec(a: &LitByte, b: &u8) -> bool {
    !(a.value() == *b)
}

//@ byte_raw_partial_cmp
pub fn byte_raw_partial_cmp__imp(a: &LitByte, b: &u8) -> Option<Ordering> {
    <LitByte as PartialOrd<u8>>::partial_cmp(a, b)
}
pub fn byte_raw_partial_cmp__spec(a: &LitByte, b: &u8) -> Option<Ordering> {
    Some(a.value().cmp(&*b))
}

//@ byte_raw_lt
pub fn byte_raw_lt__imp(a: &LitByte, b: &u8) -> bool {
    <LitByte as PartialOrd<u8>>::lt(a, b)
}
pub fn byte_raw_lt__spec(a: &LitByte, b: &u8) -> bool {
    a.value().cmp(&*b) == Ordering::Less
}

//@ byte_raw_gt
pub fn byte_raw_gt__imp(a: &LitByte, b: &u8) -> bool {
    <LitByte as PartialOrd<u8>>::gt(a, b)
}
pub fn byte_raw_gt__spec(a: &LitByte, b: &u8) -> bool {
    a.value().cmp(&*b) == Ordering::Greater
}

//@ byte_raw_le
pub fn byte_raw_le__imp(a: &LitByte, b: &u8) -> bool {
    <LitByte as PartialOrd<u8>>::le(a, b)
}
pub fn byte_raw_le__spec(a: &LitByte, b: &u8) -> bool {
    a.value().cmp(&*b) != Ordering::Greater
}

//@ byte_raw_ge
pub fn byte_raw_ge__imp(a: &LitByte, b: &u8) -> bool {
    <LitByte as PartialOrd<u8>>::ge(a, b)
}
pub fn byte_raw_ge__spec(a: &LitByte, b: &u8) -> bool {
    a.value().cmp(&*b) != Ordering::Less
}

//@ byte_borrow
pub fn byte_borrow__imp(a: &LitByte) -> u8 {
    <LitByte as Borrow<u8>>::borrow(a).clone()
}
pub fn byte_borrow__spec(a: &LitByte) -> u8 {
    a.value()
}

//@ int_eq
pub fn int_eq__imp(a: &LitInt, b: &LitInt) -> bool {
    <LitInt as PartialEq<LitInt>>::eq(a, b)
}
pub fn int_eq__spec(a: &LitInt, b: &LitInt) -> bool {
    a.value() == b.value()
}

//@ int_ne
pub fn int_ne__imp(a: &LitInt, b: &LitInt) -> bool {
    <LitInt as PartialEq<LitInt>>::ne(a, b)
}
pub fn int_ne__spec(a: &LitInt, b: &LitInt) -> bool {
    !(a.value() == b.value())
}

//@ int_partial_cmp
pub fn int_partial_cmp__imp(a: &LitInt, b: &LitInt) -> Option<Ordering> {
    <LitInt as PartialOrd<LitInt>>::partial_cmp(a, b)
}
pub fn int_partial_cmp__spec(a: &LitInt, b: &LitInt) -> Option<Ordering> {
    Some(a.value().cmp(&b.value()))
}

//@ int_lt
pub fn int_lt__imp(a: &LitInt, b: &LitInt) -> bool {
    <LitInt as PartialOrd<LitInt>>::lt(a, b)
}
pub fn int_lt__spec(a: &LitInt, b: &LitInt) -> bool {
    a.value().cmp(&b.value()) == Ordering::Less
}

//@ int_gt
pub fn int_gt__imp(a: &LitInt, b: &LitInt) -> bool {
    <LitInt as PartialOrd<LitInt>>::gt(a, b)
}
pub fn int_gt__spec(a: &LitInt, b: &LitInt) -> bool {
    a.value().cmp(&b.value()) == Ordering::Greater
}

//@ int_le
pub fn int_le__imp(a: &LitInt, b: &LitInt) -> bool {
    <LitInt as PartialOrd<LitInt>>::le(a, b)
}
pub fn int_le__spec(a: &LitInt, b: &LitInt) -> bool {
    a.value().cmp(&b.value()) != Ordering::Greater
}

//@ int_ge
pub fn int_ge__imp(a: &LitInt, b: &LitInt) -> bool {
    <LitInt as PartialOrd<LitInt>>::ge(a, b)
}
pub fn int_ge__spec(a: &LitInt, b: &LitInt) -> bool {
    a.value().cmp(&b.value()) != Ordering::Less
}

//@ int_cmp
pub fn int_cmp__imp(a: &LitInt, b: &LitInt) -> Ordering {
    <LitInt as Ord>::cmp(a, b)
}
pub fn int_cmp__spec(a: &LitInt, b: &LitInt) -> Ordering {
    a.value().cmp(&b.value())
}

//@ int_max
pub fn int_max__imp(a: LitInt, b: LitInt) -> LitInt {
    Ord::max(a, b)
}
pub fn int_max__spec(a: LitInt, b: LitInt) -> LitInt {
    if a.value().cmp(&b.value()) == Ordering::Greater { a } else { b }
}

//@ int_min
pub fn int_min__imp(a: LitInt, b: LitInt) -> LitInt {
    Ord::min(a, b)
}
pub fn int_min__spec(a: LitInt, b: LitInt) -> LitInt {
    if a.value().cmp(&b.value()) == Ordering::Greater { b } else { a }
}

//@ int_hash
pub fn int_hash__imp<H: Hasher>(a: &LitInt, h: &mut H) {
    <LitInt as Hash>::hash(a, h)
}
pub fn int_hash__spec<H: Hasher>(a: &LitInt, h: &mut H) {
    a.value().hash(h)
}

//@ int_raw_eq
pub fn int_raw_eq__imp(a: &LitInt, b: &i64) -> bool {
    <LitInt as PartialEq<i64>>::eq(a, b)
}
pub fn int_raw_eq__spec(a: &LitInt, b: &i64) -> bool {
    a.value() == *b
}

//@ int_raw_ne
pub fn int_raw_ne__imp(a: &LitInt, b: &i64) -> bool {
    <LitInt as PartialEq<i64>>::ne(a, b)
}
pub fn int_raw_ne__spec(a: &LitInt, b: &i64) -> bool {
    !(a.value() == *b)
}

//@ int_raw_partial_cmp
pub fn int_raw_partial_cmp__imp(a: &LitInt, b: &i64) -> Option<Ordering> {
    <LitInt as PartialOrd<i64>>::partial_cmp(a, b)
}
pub fn int_raw_partial_cmp__spec(a: &LitInt, b: &i64) -> Option<Ordering> {
    Some(a.value().cmp(&*b))
}

//@ int_raw_lt
pub fn int_raw_lt__imp(a: &LitInt, b: &i64) -> bool {
    <LitInt as PartialOrd<i64>>::lt(a, b)
}
pub fn int_raw_lt__spec(a: &LitInt, b: &i64) -> bool {
    a.value().cmp(&*b) == Ordering::Less
}

//@ int_raw_gt
pub fn int_raw_gt__imp(a: &LitInt, b: &i64) -> bool {
    <LitInt as PartialOrd<i64>>::gt(a, b)
}
pub fn int_raw_gt__spec(a: &LitInt, b: &i64) -> bool {
    a.value().cmp(&*b) == Ordering::Greater
}

//@ int_raw_le
pub fn int_raw_le__imp(a: &LitInt, b: &i64) -> bool {
    <LitInt as PartialOrd<i64>>::le(a, b)
}
pub fn int_raw_le__spec(a: &LitInt, b: &i64) -> bool {
    a.value().cmp(&*b) != Ordering::Greater
}

//@ int_raw_ge
pub fn int_raw_ge__imp(a: &LitInt, b: &i64) -> bool {
    <LitInt as PartialOrd<i64>>::ge(a, b)
}
pub fn int_raw_ge__spec(a: &LitInt, b: &i64) -> bool {
    a.value().cmp(&*b) != Ordering::Less
}

//@ int_borrow
pub fn int_borrow__imp(a: &LitInt) -> i64 {
    <LitInt as Borrow<i64>>::borrow(a).clone()
}
pub fn int_borrow__spec(a: &LitInt) -> i64 {
    a.value()
}

//@ uint_eq
pub fn uint_eq__imp(a: &LitUint, b: &LitUint) -> bool {
    <LitUint as PartialEq<LitUint>>::eq(a, b)
}
pub fn uint_eq__spec(a: &LitUint, b: &LitUint) -> bool {
    a.value() == b.value()
}

//@ uint_ne
pub fn uint_ne__imp(a: &LitUint, b: &LitUint) -> bool {
    <LitUint as PartialEq<LitUint>>::ne(a, b)
}
pub fn uint_ne__spec(a: &LitUint, b: &LitUint) -> bool {
    !(a.value() == b.value())
}

//@ uint_partial_cmp
pub fn uint_partial_cmp__imp(a: &LitUint, b: &LitUint) -> Option<Ordering> {
    <LitUint as PartialOrd<LitUint>>::partial_cmp(a, b)
}
pub fn uint_partial_cmp__spec(a: &LitUint, b: &LitUint) -> Option<Ordering> {
    Some(a.value().cmp(&b.value()))
}

//@ uint_lt
pub fn uint_lt__imp(a: &LitUint, b: &LitUint) -> bool {
    <LitUint as PartialOrd<LitUint>>::lt(a, b)
}
pub fn uint_lt__spec(a: &LitUint, b: &LitUint) -> bool {
    a.value().cmp(&b.value()) == Ordering::Less
}

//@ uint_gt
pub fn uint_gt__imp(a: &LitUint, b: &LitUint) -> bool {
    <LitUint as PartialOrd<LitUint>>::gt(a, b)
}
pub fn uint_gt__spec(a: &LitUint, b: &LitUint) -> bool {
    a.value().cmp(&b.value()) == Ordering::Greater
}

//@ uint_le
pub fn uint_le__imp(a: &LitUint, b: &LitUint) -> bool {
    <LitUint as PartialOrd<LitUint>>::le(a, b)
}
pub fn uint_le__spec(a: &LitUint, b: &LitUint) -> bool {
    a.value().cmp(&b.value()) != Ordering::Greater
}

//@ uint_ge
pub fn uint_ge__imp(a: &LitUint, b: &LitUint) -> bool {
    <LitUint as PartialOrd<LitUint>>::ge(a, b)
}
pub fn uint_ge__spec(a: &LitUint, b: &LitUint) -> bool {
    a.value().cmp(&b.value()) != Ordering::Less
}

//@ uint_cmp
pub fn uint_cmp__imp(a: &LitUint, b: &LitUint) -> Ordering {
    <LitUint as Ord>::cmp(a, b)
}
pub fn uint_cmp__spec(a: &LitUint, b: &LitUint) -> Ordering {
    a.value().cmp(&b.value())
}

//@ uint_max
pub fn uint_max__imp(a: LitUint, b: LitUint) -> LitUint {
    Ord::max(a, b)
}
pub fn uint_max__spec(a: LitUint, b: LitUint) -> LitUint {
    if a.value().cmp(&b.value()) == Ordering::Greater { a } else { b }
}

//@ uint_min
pub fn uint_min__imp(a: LitUint, b: LitUint) -> LitUint {
    Ord::min(a, b)
}
pub fn uint_min__spec(a: LitUint, b: LitUint) -> LitUint {
    if a.value().cmp(&b.value()) == Ordering::Greater { b } else { a }
}

//@ uint_hash
pub fn uint_hash__imp<H: Hasher>(a: &LitUint, h: &mut H) {
    <LitUint as Hash>::hash(a, h)
}
pub fn uint_hash__spec<H: Hasher>(a: &LitUint, h: &mut H) {
    a.value().hash(h)
}

//@ uint_raw_eq
pub fn uint_raw_eq__imp(a: &LitUint, b: &u64) -> bool {
    <LitUint as PartialEq<u64>>::eq(a, b)
}
pub fn uint_raw_eq__spec(a: &LitUint, b: &u64) -> bool {
    a.value() == *b
}

//@ uint_raw_ne
pub fn uint_raw_ne__imp(a: &LitUint, b: &u64) -> bool {
    <LitUint as PartialEq<u64>>::ne(a, b)
}
pub fn uint_raw_ne__spec(a: &LitUint, b: &u64) -> bool {
    !(a.value() == *b)
}

//@ uint_raw_partial_cmp
pub fn uint_raw_partial_cmp__imp(a: &LitUint, b: &u64) -> Option<Ordering> {
    <LitUint as PartialOrd<u64>>::partial_cmp(a, b)
}
pub fn uint_raw_partial_cmp__spec(a: &LitUint, b: &u64) -> Option<Ordering> {
    Some(a.value().cmp(&*b))
}

//@ uint_raw_lt
pub fn uint_raw_lt__imp(a: &LitUint, b: &u64) -> bool {
    <LitUint as PartialOrd<u64>>::lt(a, b)
}
pub fn uint_raw_lt__spec(a: &LitUint, b: &u64) -> bool {
    a.value().cmp(&*b) == Ordering::Less
}

//@ uint_raw_gt
pub fn uint_raw_gt__imp(a: &LitUint, b: &u64) -> bool {
    <LitUint as PartialOrd<u64>>::gt(a, b)
}
pub fn uint_raw_gt__spec(a: &LitUint, b: &u64) -> bool {
    a.value().cmp(&*b) == Ordering::Greater
}

//@ uint_raw_le
pub fn uint_raw_le__imp(a: &LitUint, b: &u64) -> bool {
    <LitUint as PartialOrd<u64>>::le(a, b)
}
pub fn uint_raw_le__spec(a: &LitUint, b: &u64) -> bool {
    a.value().cmp(&*b) != Ordering::Greater
}

//@ uint_raw_ge
pub fn uint_raw_ge__imp(a: &LitUint, b: &u64) -> bool {
    <LitUint as PartialOrd<u64>>::ge(a, b)
}
pub fn uint_raw_ge__spec(a: &LitUint, b: &u64) -> bool {
    a.value().cmp(&*b) != Ordering::Less
}

//@ uint_borrow
pub fn uint_borrow__imp(a: &LitUint) -> u64 {
    <LitUint as Borrow<u64>>::borrow(a).clone()
}
pub fn uint_borrow__spec(a: &LitUint) -> u64 {
    a.value()
}

//@ float_eq
pub fn float_eq__imp(a: &LitFloat, b: &LitFloat) -> bool {
    <LitFloat as PartialEq<LitFloat>>::eq(a, b)
}
pub fn float_eq__spec(a: &LitFloat, b: &LitFloat) -> bool {
    a.value() == b.value()
}

//@ float_ne
pub fn float_ne__imp(a: &LitFloat, b: &LitFloat) -> bool {
    <LitFloat as PartialEq<LitFloat>>::ne(a, b)
}
pub fn float_ne__spec(a: &LitFloat, b: &LitFloat) -> bool {
    !(a.value() == b.value())
}

//@ float_partial_cmp
pub fn float_partial_cmp__imp(a: &LitFloat, b: &LitFloat) -> Option<Ordering> {
    <LitFloat as PartialOrd<LitFloat>>::partial_cmp(a, b)
}
pub fn float_partial_cmp__spec(a: &LitFloat, b: &LitFloat) -> Option<Ordering> {
    Some(a.value().cmp(&b.value()))
}

//@ float_lt
pub fn float_lt__imp(a: &LitFloat, b: &LitFloat) -> bool {
    <LitFloat as PartialOrd<LitFloat>>::lt(a, b)
}
pub fn float_lt__spec(a: &LitFloat, b: &LitFloat) -> bool {
    a.value().cmp(&b.value()) == Ordering::Less
}

//@ float_gt
pub fn float_gt__imp(a: &LitFloat, b: &LitFloat) -> bool {
    <LitFloat as PartialOrd<LitFloat>>::gt(a, b)
}
pub fn float_gt__spec(a: &LitFloat, b: &LitFloat) -> bool {
    a.value().cmp(&b.value()) == Ordering::Greater
}

//@ float_le
pub fn float_le__imp(a: &LitFloat, b: &LitFloat) -> bool {
    <LitFloat as PartialOrd<LitFloat>>::le(a, b)
}
pub fn float_le__spec(a: &LitFloat, b: &LitFloat) -> bool {
    a.value().cmp(&b.value()) != Ordering::Greater
}

//@ float_ge
pub fn float_ge__imp(a: &LitFloat, b: &LitFloat) -> bool {
    <LitFloat as PartialOrd<LitFloat>>::ge(a, b)
}
pub fn float_ge__spec(a: &LitFloat, b: &LitFloat) -> bool {
    a.value().cmp(&b.value()) != Ordering::Less
}

//@ float_cmp
pub fn float_cmp__imp(a: &LitFloat, b: &LitFloat) -> Ordering {
    <LitFloat as Ord>::cmp(a, b)
}
pub fn float_cmp__spec(a: &LitFloat, b: &LitFloat) -> Ordering {
    a.value().cmp(&b.value())
}

//@ float_max
pub fn float_max__imp(a: LitFloat, b: LitFloat) -> LitFloat {
    Ord::max(a, b)
}
pub fn float_max__spec(a: LitFloat, b: LitFloat) -> LitFloat {
    if a.value().cmp(&b.value()) == Ordering::Greater { a } else { b }
}

//@ float_min
pub fn float_min__imp(a: LitFloat, b: LitFloat) -> LitFloat {
    Ord::min(a, b)
}
pub fn float_min__spec(a: LitFloat, b: LitFloat) -> LitFloat {
    if a.value().cmp(&b.value()) == Ordering::Greater { b } else { a }
}

//@ float_hash
pub fn float_hash__imp<H: Hasher>(a: &LitFloat, h: &mut H) {
    <LitFloat as Hash>::hash(a, h)
}
pub fn float_hash__spec<H: Hasher>(a: &LitFloat, h: &mut H) {
    a.value().hash(h)
}

//@ float_raw_eq
pub fn float_raw_eq__imp(a: &LitFloat, b: &NotNan<f64>) -> bool {
    <LitFloat as PartialEq<NotNan<f64>>>::eq(a, b)
}
pub fn float_raw_eq__spec(a: &LitFloat, b: &NotNan<f64>) -> bool {
    a.value() == *b
}

//@ float_raw_ne
pub fn float_raw_ne__imp(a: &LitFloat, b: &NotNan<f64>) -> bool {
    <LitFloat as PartialEq<NotNan<f64>>>::ne(a, b)
}
pub fn float_raw_ne__spec(a: &LitFloat, b: &NotNan<f64>) -> bool {
    !(a.value() == *b)
}

//@ float_raw_partial_cmp
pub fn float_raw_partial_cmp__imp(a: &LitFloat, b: &NotNan<f64>) -> Option<Ordering> {
    <LitFloat as PartialOrd<NotNan<f64>>>::partial_cmp(a, b)
}
pub fn float_raw_partial_cmp__spec(a: &LitFloat, b: &NotNan<f64>) -> Option<Ordering> {
    Some(a.value().cmp(&*b))
}

//@ float_raw_lt
pub fn float_raw_lt__imp(a: &LitFloat, b: &NotNan<f64>) -> bool {
    <LitFloat as PartialOrd<NotNan<f64>>>::lt(a, b)
}
pub fn float_raw_lt__spec(a: &LitFloat, b: &NotNan<f64>) -> bool {
    a.value().cmp(&*b) == Ordering::Less
}

//@ float_raw_gt
pub fn float_raw_gt__imp(a: &LitFloat, b: &NotNan<f64>) -> bool {
    <LitFloat as PartialOrd<NotNan<f64>>>::gt(a, b)
}
pub fn float_raw_gt__spec(a: &LitFloat, b: &NotNan<f64>) -> bool {
    a.value().cmp(&*b) == Ordering::Greater
}

//@ float_raw_le
pub fn float_raw_le__imp(a: &LitFloat, b: &NotNan<f64>) -> bool {
    <LitFloat as PartialOrd<NotNan<f64>>>::le(a, b)
}
pub fn float_raw_le__spec(a: &LitFloat, b: &NotNan<f64>) -> bool {
    a.value().cmp(&*b) != Ordering::Greater
}

//@ float_raw_ge
pub fn float_raw_ge__imp(a: &LitFloat, b: &NotNan<f64>) -> bool {
    <LitFloat as PartialOrd<NotNan<f64>>>::ge(a, b)
}
pub fn float_raw_ge__spec(a: &LitFloat, b: &NotNan<f64>) -> bool {
    a.value().cmp(&*b) != Ordering::Less
}

//@ float_borrow
pub fn float_borrow__imp(a: &LitFloat) -> NotNan<f64> {
    <LitFloat as Borrow<NotNan<f64>>>::borrow(a).clone()
}
pub fn float_borrow__spec(a: &LitFloat) -> NotNan<f64> {
    a.value()
}

//@ char_eq
pub fn char_eq__imp(a: &LitChar, b: &LitChar) -> bool {
    <LitChar as PartialEq<LitChar>>::eq(a, b)
}
pub fn char_eq__spec(a: &LitChar, b: &LitChar) -> bool {
    a.value() == b.value()
}

//@ char_ne
pub fn char_ne__imp(a: &LitChar, b: &LitChar) -> bool {
    <LitChar as PartialEq<LitChar>>::ne(a, b)
}
pub fn char_ne__spec(a: &LitChar, b: &LitChar) -> bool {
    !(a.value() == b.value())
}

//@ char_partial_cmp
pub fn char_partial_cmp__imp(a: &LitChar, b: &LitChar) -> Option<Ordering> {
    <LitChar as PartialOrd<LitChar>>::partial_cmp(a, b)
}
pub fn char_partial_cmp__spec(a: &LitChar, b: &LitChar) -> Option<Ordering> {
    Some(a.value().cmp(&b.value()))
}

//@ char_lt
pub fn char_lt__imp(a: &LitChar, b: &LitChar) -> bool {
    <LitChar as PartialOrd<LitChar>>::lt(a, b)
}
pub fn char_lt__spec(a: &LitChar, b: &LitChar) -> bool {
    a.value().cmp(&b.value()) == Ordering::Less
}

//@ char_gt
pub fn char_gt__imp(a: &LitChar, b: &LitChar) -> bool {
    <LitChar as PartialOrd<LitChar>>::gt(a, b)
}
pub fn char_gt__spec(a: &LitChar, b: &LitChar) -> bool {
    a.value().cmp(&b.value()) == Ordering::Greater
}

//@ char_le
pub fn char_le__imp(a: &LitChar, b: &LitChar) -> bool {
    <LitChar as PartialOrd<LitChar>>::le(a, b)
}
pub fn char_le__spec(a: &LitChar, b: &LitChar) -> bool {
    a.value().cmp(&b.value()) != Ordering::Greater
}

//@ char_ge
pub fn char_ge__imp(a: &LitChar, b: &LitChar) -> bool {
    <LitChar as PartialOrd<LitChar>>::ge(a, b)
}
pub fn char_ge__spec(a: &LitChar, b: &LitChar) -> bool {
    a.value().cmp(&b.value()) != Ordering::Less
}

//@ char_cmp
pub fn char_cmp__imp(a: &LitChar, b: &LitChar) -> Ordering {
    <LitChar as Ord>::cmp(a, b)
}
pub fn char_cmp__spec(a: &LitChar, b: &LitChar) -> Ordering {
    a.value().cmp(&b.value())
}

//@ char_max
pub fn char_max__imp(a: LitChar, b: LitChar) -> LitChar {
    Ord::max(a, b)
}
pub fn char_max__spec(a: LitChar, b: LitChar) -> LitChar {
    if a.value().cmp(&b.value()) == Ordering::Greater { a } else { b }
}

//@ char_min
pub fn char_min__imp(a: LitChar, b: LitChar) -> LitChar {
    Ord::min(a, b)
}
pub fn char_min__spec(a: LitChar, b: LitChar) -> LitChar {
    if a.value().cmp(&b.value()) == Ordering::Greater { b } else { a }
}

//@ char_hash
pub fn char_hash__imp<H: Hasher>(a: &LitChar, h: &mut H) {
    <LitChar as Hash>::hash(a, h)
}
pub fn char_hash__spec<H: Hasher>(a: &LitChar, h: &mut H) {
    a.value().hash(h)
}

//@ char_raw_eq
pub fn char_raw_eq__imp(a: &LitChar, b: &char) -> bool {
    <LitChar as PartialEq<char>>::eq(a, b)
}
pub fn char_raw_eq__spec(a: &LitChar, b: &char) -> bool {
    a.value() == *b
}

//@ char_raw_ne
pub fn char_raw_ne__imp(a: &LitChar, b: &char) -> bool {
    <LitChar as PartialEq<char>>::ne(a, b)
}
pub fn char_raw_ne__spec(a: &LitChar, b: &char) -> bool {
    !(a.value() == *b)
}

//@ char_raw_partial_cmp
pub fn char_raw_partial_cmp__imp(a: &LitChar, b: &char) -> Option<Ordering> {
    <LitChar as PartialOrd<char>>::partial_cmp(a, b)
}
pub fn char_raw_partial_cmp__spec(a: &LitChar, b: &char) -> Option<Ordering> {
    Some(a.value().cmp(&*b))
}

//@ char_raw_lt
pub fn char_raw_lt__imp(a: &LitChar, b: &char) -> bool {
    <LitChar as PartialOrd<char>>::lt(a, b)
}
pub fn char_raw_lt__spec(a: &LitChar, b: &char) -> bool {
    a.value().cmp(&*b) == Ordering::Less
}

//@ char_raw_gt
pub fn char_raw_gt__imp(a: &LitChar, b: &char) -> bool {
    <LitChar as PartialOrd<char>>::gt(a, b)
}
pub fn char_raw_gt__spec(a: &LitChar, b: &char) -> bool {
    a.value().cmp(&*b) == Ordering::Greater
}

//@ char_raw_le
pub fn char_raw_le__imp(a: &LitChar, b: &char) -> bool {
    <LitChar as PartialOrd<char>>::le(a, b)
}
pub fn char_raw_le__spec(a: &LitChar, b: &char) -> bool {
    a.value().cmp(&*b) != Ordering::Greater
}

//@ char_raw_ge
pub fn char_raw_ge__imp(a: &LitChar, b: &char) -> bool {
    <LitChar as PartialOrd<char>>::ge(a, b)
}
pub fn char_raw_ge__spec(a: &LitChar, b: &char) -> bool {
    a.value().cmp(&*b) != Ordering::Less
}

//@ char_borrow
pub fn char_borrow__imp(a: &LitChar) -> char {
    <LitChar as Borrow<char>>::borrow(a).clone()
}
pub fn char_borrow__spec(a: &LitChar) -> char {
    a.value()
}

//@ str_eq
pub fn str_eq__imp(a: &LitStr, b: &LitStr) -> bool {
    <LitStr as PartialEq<LitStr>>::eq(a, b)
}
pub fn str_eq__spec(a: &LitStr, b: &LitStr) -> bool {
    a.value() == b.value()
}

//@ str_ne
pub fn str_ne__imp(a: &LitStr, b: &LitStr) -> bool {
    <LitStr as PartialEq<LitStr>>::ne(a, b)
}
pub fn str_ne__spec(a: &LitStr, b: &LitStr) -> bool {
    !(a.value() == b.value())
}

//@ str_partial_cmp
pub fn str_partial_cmp__imp(a: &LitStr, b: &LitStr) -> Option<Ordering> {
    <LitStr as PartialOrd<LitStr>>::partial_cmp(a, b)
}
pub fn str_partial_cmp__spec(a: &LitStr, b: &LitStr) -> Option<Ordering> {
    Some(a.value().cmp(&b.value()))
}

//@ str_lt
pub fn str_lt__imp(a: &LitStr, b: &LitStr) -> bool {
    <LitStr as PartialOrd<LitStr>>::lt(a, b)
}
pub fn str_lt__spec(a: &LitStr, b: &LitStr) -> bool {
    a.value().cmp(&b.value()) == Ordering::Less
}

//@ str_gt
pub fn str_gt__imp(a: &LitStr, b: &LitStr) -> bool {
    <LitStr as PartialOrd<LitStr>>::gt(a, b)
}
pub fn str_gt__spec(a: &LitStr, b: &LitStr) -> bool {
    a.value().cmp(&b.value()) == Ordering::Greater
}

//@ str_le
pub fn str_le__imp(a: &LitStr, b: &LitStr) -> bool {
    <LitStr as PartialOrd<LitStr>>::le(a, b)
}
pub fn str_le__spec(a: &LitStr, b: &LitStr) -> bool {
    a.value().cmp(&b.value()) != Ordering::Greater
}

//@ str_ge
pub fn str_ge__imp(a: &LitStr, b: &LitStr) -> bool {
    <LitStr as PartialOrd<LitStr>>::ge(a, b)
}
pub fn str_ge__spec(a: &LitStr, b: &LitStr) -> bool {
    a.value().cmp(&b.value()) != Ordering::Less
}

//@ str_cmp
pub fn str_cmp__imp(a: &LitStr, b: &LitStr) -> Ordering {
    <LitStr as Ord>::cmp(a, b)
}
pub fn str_cmp__spec(a: &LitStr, b: &LitStr) -> Ordering {
    a.value().cmp(&b.value())
}

//@ str_max
pub fn str_max__imp(a: LitStr, b: LitStr) -> LitStr {
    Ord::max(a, b)
}
pub fn str_max__spec(a: LitStr, b: LitStr) -> LitStr {
    if a.value().cmp(&b.value()) == Ordering::Greater { a } else { b }
}

//@ str_min
pub fn str_min__imp(a: LitStr, b: LitStr) -> LitStr {
    Ord::min(a, b)
}
pub fn str_min__spec(a: LitStr, b: LitStr) -> LitStr {
    if a.value().cmp(&b.value()) == Ordering::Greater { b } else { a }
}

//@ str_hash
pub fn str_hash__imp<H: Hasher>(a: &LitStr, h: &mut H) {
    <LitStr as Hash>::hash(a, h)
}
pub fn str_hash__spec<H: Hasher>(a: &LitStr, h: &mut H) {
    a.value().hash(h)
}

//@ str_raw_eq
pub fn str_raw_eq__imp(a: &LitStr, b: &String) -> bool {
    <LitStr as PartialEq<String>>::eq(a, b)
}
pub fn str_raw_eq__spec(a: &LitStr, b: &String) -> bool {
    a.value() == *b
}

//@ str_raw_ne
pub fn str_raw_ne__imp(a: &LitStr, b: &String) -> bool {
    <LitStr as PartialEq<String>>::ne(a, b)
}
pub fn str_raw_ne__spec(a: &LitStr, b: &String) -> bool {
    !(a.value() == *b)
}

//@ str_raw_partial_cmp
pub fn str_raw_partial_cmp__imp(a: &LitStr, b: &String) -> Option<Ordering> {
    <LitStr as PartialOrd<String>>::partial_cmp(a, b)
}
pub fn str_raw_partial_cmp__spec(a: &LitStr, b: &String) -> Option<Ordering> {
    Some(a.value().cmp(&*b))
}

//@ str_raw_lt
pub fn str_raw_lt__imp(a: &LitStr, b: &String) -> bool {
    <LitStr as PartialOrd<String>>::lt(a, b)
}
pub fn str_raw_lt__spec(a: &LitStr, b: &String) -> bool {
    a.value().cmp(&*b) == Ordering::Less
}

//@ str_raw_gt
pub fn str_raw_gt__imp(a: &LitStr, b: &String) -> bool {
    <LitStr as PartialOrd<String>>::gt(a, b)
}
pub fn str_raw_gt__spec(a: &LitStr, b: &String) -> bool {
    a.value().cmp(&*b) == Ordering::Greater
}

//@ str_raw_le
pub fn str_raw_le__imp(a: &LitStr, b: &String) -> bool {
    <LitStr as PartialOrd<String>>::le(a, b)
}
pub fn str_raw_le__spec(a: &LitStr, b: &String) -> bool {
    a.value().cmp(&*b) != Ordering::Greater
}

//@ str_raw_ge
pub fn str_raw_ge__imp(a: &LitStr, b: &String) -> bool {
    <LitStr as PartialOrd<String>>::ge(a, b)
}
pub fn str_raw_ge__spec(a: &LitStr, b: &String) -> bool {
    a.value().cmp(&*b) != Ordering::Less
}

//@ str_borrow
pub fn str_borrow__imp(a: &LitStr) -> String {
    <LitStr as Borrow<String>>::borrow(a).clone()
}
pub fn str_borrow__spec(a: &LitStr) -> String {
    a.value()
}

//@ bytestr_eq
pub fn bytestr_eq__imp(a: &LitByteStr, b: &LitByteStr) -> bool {
    <LitByteStr as PartialEq<LitByteStr>>::eq(a, b)
}
pub fn bytestr_eq__spec(a: &LitByteStr, b: &LitByteStr) -> bool {
    a.value() == b.value()
}

//@ bytestr_ne
pub fn bytestr_ne__imp(a: &LitByteStr, b: &LitByteStr) -> bool {
    <LitByteStr as PartialEq<LitByteStr>>::ne(a, b)
}
pub fn bytestr_ne__spec(a: &LitByteStr, b: &LitByteStr) -> bool {
    !(a.value() == b.value())
}

//@ bytestr_partial_cmp
pub fn bytestr_partial_cmp__imp(a: &LitByteStr, b: &LitByteStr) -> Option<Ordering> {
    <LitByteStr as PartialOrd<LitByteStr>>::partial_cmp(a, b)
}
pub fn bytestr_partial_cmp__spec(a: &LitByteStr, b: &LitByteStr) -> Option<Ordering> {
    Some(a.value().cmp(&b.value()))
}

//@ bytestr_lt
pub fn bytestr_lt__imp(a: &LitByteStr, b: &LitByteStr) -> bool {
    <LitByteStr as PartialOrd<LitByteStr>>::lt(a, b)
}
pub fn bytestr_lt__spec(a: &LitByteStr, b: &LitByteStr) -> bool {
    a.value().cmp(&b.value()) == Ordering::Less
}

//@ bytestr_gt
pub fn bytestr_gt__imp(a: &LitByteStr, b: &LitByteStr) -> bool {
    <LitByteStr as PartialOrd<LitByteStr>>::gt(a, b)
}
pub fn bytestr_gt__spec(a: &LitByteStr, b: &LitByteStr) -> bool {
    a.value().cmp(&b.value()) == Ordering::Greater
}

//@ bytestr_le
pub fn bytestr_le__imp(a: &LitByteStr, b: &LitByteStr) -> bool {
    <LitByteStr as PartialOrd<LitByteStr>>::le(a, b)
}
pub fn bytestr_le__spec(a: &LitByteStr, b: &LitByteStr) -> bool {
    a.value().cmp(&b.value()) != Ordering::Greater
}

//@ bytestr_ge
pub fn bytestr_ge__imp(a: &LitByteStr, b: &LitByteStr) -> bool {
    <LitByteStr as PartialOrd<LitByteStr>>::ge(a, b)
}
pub fn bytestr_ge__spec(a: &LitByteStr, b: &LitByteStr) -> bool {
    a.value().cmp(&b.value()) != Ordering::Less
}

//@ bytestr_cmp
pub fn bytestr_cmp__imp(a: &LitByteStr, b: &LitByteStr) -> Ordering {
    <LitByteStr as Ord>::cmp(a, b)
}
pub fn bytestr_cmp__spec(a: &LitByteStr, b: &LitByteStr) -> Ordering {
    a.value().cmp(&b.value())
}

//@ bytestr_max
pub fn bytestr_max__imp(a: LitByteStr, b: LitByteStr) -> LitByteStr {
    Ord::max(a, b)
}
pub fn bytestr_max__spec(a: LitByteStr, b: LitByteStr) -> LitByteStr {
    if a.value().cmp(&b.value()) == Ordering::Greater { a } else { b }
}

//@ bytestr_min
pub fn bytestr_min__imp(a: LitByteStr, b: LitByteStr) -> LitByteStr {
    Ord::min(a, b)
}
pub fn bytestr_min__spec(a: LitByteStr, b: LitByteStr) -> LitByteStr {
    if a.value().cmp(&b.value()) == Ordering::Greater { b } else { a }
}

//@ bytestr_hash
pub fn bytestr_hash__imp<H: Hasher>(a: &LitByteStr, h: &mut H) {
    <LitByteStr as Hash>::hash(a, h)
}
pub fn bytestr_hash__spec<H: Hasher>(a: &LitByteStr, h: &mut H) {
    a.value().hash(h)
}

//@ bytestr_raw_eq
pub fn bytestr_raw_eq__imp(a: &LitByteStr, b: &Vec<u8>) -> bool {
    <LitByteStr as PartialEq<Vec<u8>>>::eq(a, b)
}
pub fn bytestr_raw_eq__spec(a: &LitByteStr, b: &Vec<u8>) -> bool {
    a.value() == *b
}

//@ bytestr_raw_ne
pub fn bytestr_raw_ne__imp(a: &LitByteStr, b: &Vec<u8>) -> bool {
    <LitByteStr as PartialEq<Vec<u8>>>::ne(a, b)
}
pub fn bytestr_raw_ne__spec(a: &LitByteStr, b: &Vec<u8>) -> bool {
    !(a.value() == *b)
}

//@ bytestr_raw_partial_cmp
pub fn bytestr_raw_partial_cmp__imp(a: &LitByteStr, b: &Vec<u8>) -> Option<Ordering> {
    <LitByteStr as PartialOrd<Vec<u8>>>::partial_cmp(a, b)
}
pub fn bytestr_raw_partial_cmp__spec(a: &LitByteStr, b: &Vec<u8>) -> Option<Ordering> {
    Some(a.value().cmp(&*b))
}

//@ bytestr_raw_lt
pub fn bytestr_raw_lt__imp(a: &LitByteStr, b: &Vec<u8>) -> bool {
    <LitByteStr as PartialOrd<Vec<u8>>>::lt(a, b)
}
pub fn bytestr_raw_lt__spec(a: &LitByteStr, b: &Vec<u8>) -> bool {
    a.value().cmp(&*b) == Ordering::Less
}

//@ bytestr_raw_gt
pub fn bytestr_raw_gt__imp(a: &LitByteStr, b: &Vec<u8>) -> bool {
    <LitByteStr as PartialOrd<Vec<u8>>>::gt(a, b)
}
pub fn bytestr_raw_gt__spec(a: &LitByteStr, b: &Vec<u8>) -> bool {
    a.value().cmp(&*b) == Ordering::Greater
}

//@ bytestr_raw_le
pub fn bytestr_raw_le__imp(a: &LitByteStr, b: &Vec<u8>) -> bool {
    <LitByteStr as PartialOrd<Vec<u8>>>::le(a, b)
}
pub fn bytestr_raw_le__spec(a: &LitByteStr, b: &Vec<u8>) -> bool {
    a.value().cmp(&*b) != Ordering::Greater
}

//@ bytestr_raw_ge
pub fn bytestr_raw_ge__imp(a: &LitByteStr, b: &Vec<u8>) -> bool {
    <LitByteStr as PartialOrd<Vec<u8>>>::ge(a, b)
}
pub fn bytestr_raw_ge__spec(a: &LitByteStr, b: &Vec<u8>) -> bool {
    a.value().cmp(&*b) != Ordering::Less
}

//@ bytestr_borrow
pub fn bytestr_borrow__imp(a: &LitByteStr) -> Vec<u8> {
    <LitByteStr as Borrow<Vec<u8>>>::borrow(a).clone()
}
pub fn bytestr_borrow__spec(a: &LitByteStr) -> Vec<u8> {
    a.value()
}

//@ str_text_eq
pub fn str_text_eq__imp(a: &LitStr, b: &str) -> bool {
    <LitStr as PartialEq<str>>::eq(a, b)
}
pub fn str_text_eq__spec(a: &LitStr, b: &str) -> bool {
    *<LitStr as Borrow<str>>::borrow(a) == *b
}

//@ str_text_ne
pub fn str_text_ne__imp(a: &LitStr, b: &str) -> bool {
    <LitStr as PartialEq<str>>::ne(a, b)
}
pub fn str_text_ne__spec(a: &LitStr, b: &str) -> bool {
    !(*<LitStr as Borrow<str>>::borrow(a) == *b)
}

//@ str_text_partial_cmp
pub fn str_text_partial_cmp__imp(a: &LitStr, b: &str) -> Option<Ordering> {
    <LitStr as PartialOrd<str>>::partial_cmp(a, b)
}
pub fn str_text_partial_cmp__spec(a: &LitStr, b: &str) -> Option<Ordering> {
    Some(<LitStr as Borrow<str>>::borrow(a).cmp(b))
}

//@ str_text_hash
pub fn str_text_hash__imp<H: Hasher>(a: &LitStr, h: &mut H) {
    a.hash(h)
}
pub fn str_text_hash__spec<H: Hasher>(a: &LitStr, h: &mut H) {
    <LitStr as Borrow<str>>::borrow(a).hash(h)
}

//@ bytestr_bytes_eq
pub fn bytestr_bytes_eq__imp(a: &LitByteStr, b: &[u8]) -> bool {
    <LitByteStr as PartialEq<[u8]>>::eq(a, b)
}
pub fn bytestr_bytes_eq__spec(a: &LitByteStr, b: &[u8]) -> bool {
    *<LitByteStr as Borrow<[u8]>>::borrow(a) == *b
}

//@ bytestr_bytes_ne
pub fn bytestr_bytes_ne__imp(a: &LitByteStr, b: &[u8]) -> bool {
    <LitByteStr as PartialEq<[u8]>>::ne(a, b)
}
pub fn bytestr_bytes_ne__spec(a: &LitByteStr, b: &[u8]) -> bool {
    !(*<LitByteStr as Borrow<[u8]>>::borrow(a) == *b)
}

//@ bytestr_bytes_partial_cmp
pub fn bytestr_bytes_partial_cmp__imp(a: &LitByteStr, b: &[u8]) -> Option<Ordering> {
    <LitByteStr as PartialOrd<[u8]>>::partial_cmp(a, b)
}
pub fn bytestr_bytes_partial_cmp__spec(a: &LitByteStr, b: &[u8]) -> Option<Ordering> {
    Some(<LitByteStr as Borrow<[u8]>>::borrow(a).cmp(b))
}

//@ bytestr_bytes_hash
pub fn bytestr_bytes_hash__imp<H: Hasher>(a: &LitByteStr, h: &mut H) {
    a.hash(h)
}
pub fn bytestr_bytes_hash__spec<H: Hasher>(a: &LitByteStr, h: &mut H) {
    <LitByteStr as Borrow<[u8]>>::borrow(a).hash(h)
}

//@ lit_eq
pub fn lit_eq__imp(a: &Lit, b: &Lit) -> bool {
    a == b
}
pub fn lit_eq__spec(a: &Lit, b: &Lit) -> bool {
    match (a, b) {
        (Lit::Bool(x), Lit::Bool(y)) => x.value() == y.value(),
        (Lit::Byte(x), Lit::Byte(y)) => x.value() == y.value(),
        (Lit::Int(x), Lit::Int(y)) => x.value() == y.value(),
        (Lit::Uint(x), Lit::Uint(y)) => x.value() == y.value(),
        (Lit::Float(x), Lit::Float(y)) => x.value() == y.value(),
        (Lit::Char(x), Lit::Char(y)) => x.value() == y.value(),
        (Lit::Str(x), Lit::Str(y)) => x.value() == y.value(),
        (Lit::ByteStr(x), Lit::ByteStr(y)) => x.value() == y.value(),
        _ => false,
    }
}

//@ lit_ne
pub fn lit_ne__imp(a: &Lit, b: &Lit) -> bool {
    a != b
}
pub fn lit_ne__spec(a: &Lit, b: &Lit) -> bool {
    match (a, b) {
        (Lit::Bool(x), Lit::Bool(y)) => !(x.value() == y.value()),
        (Lit::Byte(x), Lit::Byte(y)) => !(x.value() == y.value()),
        (Lit::Int(x), Lit::Int(y)) => !(x.value() == y.value()),
        (Lit::Uint(x), Lit::Uint(y)) => !(x.value() == y.value()),
        (Lit::Float(x), Lit::Float(y)) => !(x.value() == y.value()),
        (Lit::Char(x), Lit::Char(y)) => !(x.value() == y.value()),
        (Lit::Str(x), Lit::Str(y)) => !(x.value() == y.value()),
        (Lit::ByteStr(x), Lit::ByteStr(y)) => !(x.value() == y.value()),
        _ => true,
    }
}

//@ lit_hash
pub fn lit_hash__imp<H: Hasher>(a: Lit, s: Span, h: &mut H) {
    let mut a = a;
    a.set_span(s);
    a.hash(h)
}
pub fn lit_hash__spec<H: Hasher>(a: Lit, s: Span, h: &mut H) {
    a.hash(h)
}

//@ kw_same
pub fn kw_same__imp(a: &vpkw::Select, b: &vpkw::Select) -> (bool, bool, Ordering, Option<Ordering>, bool, bool) {
    (a == b, a != b, a.cmp(b), a.partial_cmp(b), a < b, a <= b)
}
pub fn kw_same__spec(a: &vpkw::Select, b: &vpkw::Select) -> (bool, bool, Ordering, Option<Ordering>, bool, bool) {
    (true, false, Ordering::Equal, Some(Ordering::Equal), false, true)
}

//@ kw_text
pub fn kw_text__imp(a: &vpkw::Select, b: &String) -> (bool, bool, bool) {
    (<vpkw::Select as PartialEq<String>>::eq(a, b), <vpkw::Select as PartialEq<&str>>::eq(a, &b.as_str()), <vpkw::Select as PartialEq<String>>::ne(a, b))
}
pub fn kw_text__spec(a: &vpkw::Select, b: &String) -> (bool, bool, bool) {
    let e = a.as_str() == b.as_str();
    (e, e, !e)
}

//@ kw_text_order
pub fn kw_text_order__imp(a: &vpkw::Select, b: &String) -> Option<Ordering> {
    <vpkw::Select as PartialOrd<String>>::partial_cmp(a, b)
}
pub fn kw_text_order__spec(a: &vpkw::Select, b: &String) -> Option<Ordering> {
    Some(a.as_str().cmp(b.as_str()))
}

//@ kw_hash
pub fn kw_hash__imp<H: Hasher>(a: vpkw::Select, s: Span, h: &mut H) {
    let mut a = a;
    a.set_span(s);
    a.hash(h)
}
pub fn kw_hash__spec<H: Hasher>(a: vpkw::Select, s: Span, h: &mut H) {
    a.hash(h)
}

//@ kwraw_same
pub fn kwraw_same__imp(a: &vpkw::RawFn, b: &vpkw::RawFn) -> (bool, bool, Ordering, Option<Ordering>, bool, bool) {
    (a == b, a != b, a.cmp(b), a.partial_cmp(b), a < b, a <= b)
}
pub fn kwraw_same__spec(a: &vpkw::RawFn, b: &vpkw::RawFn) -> (bool, bool, Ordering, Option<Ordering>, bool, bool) {
    (true, false, Ordering::Equal, Some(Ordering::Equal), false, true)
}

//@ kwraw_text
pub fn kwraw_text__imp(a: &vpkw::RawFn, b: &String) -> (bool, bool, bool) {
    (<vpkw::RawFn as PartialEq<String>>::eq(a, b), <vpkw::RawFn as PartialEq<&str>>::eq(a, &b.as_str()), <vpkw::RawFn as PartialEq<String>>::ne(a, b))
}
pub fn kwraw_text__spec(a: &vpkw::RawFn, b: &String) -> (bool, bool, bool) {
    let e = a.as_str() == b.as_str();
    (e, e, !e)
}

//@ kwraw_text_order
pub fn kwraw_text_order__imp(a: &vpkw::RawFn, b: &String) -> Option<Ordering> {
    <vpkw::RawFn as PartialOrd<String>>::partial_cmp(a, b)
}
pub fn kwraw_text_order__spec(a: &vpkw::RawFn, b: &String) -> Option<Ordering> {
    Some(a.as_str().cmp(b.as_str()))
}

//@ kwraw_hash
pub fn kwraw_hash__imp<H: Hasher>(a: vpkw::RawFn, s: Span, h: &mut H) {
    let mut a = a;
    a.set_span(s);
    a.hash(h)
}
pub fn kwraw_hash__spec<H: Hasher>(a: vpkw::RawFn, s: Span, h: &mut H) {
    a.hash(h)
}

//@ kwunder_same
pub fn kwunder_same__imp(a: &vpkw::Under, b: &vpkw::Under) -> (bool, bool, Ordering, Option<Ordering>, bool, bool) {
    (a == b, a != b, a.cmp(b), a.partial_cmp(b), a < b, a <= b)
}
pub fn kwunder_same__spec(a: &vpkw::Under, b: &vpkw::Under) -> (bool, bool, Ordering, Option<Ordering>, bool, bool) {
    (true, false, Ordering::Equal, Some(Ordering::Equal), false, true)
}

//@ kwunder_text
pub fn kwunder_text__imp(a: &vpkw::Under, b: &String) -> (bool, bool, bool) {
    (<vpkw::Under as PartialEq<String>>::eq(a, b), <vpkw::Under as PartialEq<&str>>::eq(a, &b.as_str()), <vpkw::Under as PartialEq<String>>::ne(a, b))
}
pub fn kwunder_text__spec(a: &vpkw::Under, b: &String) -> (bool, bool, bool) {
    let e = a.as_str() == b.as_str();
    (e, e, !e)
}

//@ kwunder_text_order
pub fn kwunder_text_order__imp(a: &vpkw::Under, b: &String) -> Option<Ordering> {
    <vpkw::Under as PartialOrd<String>>::partial_cmp(a, b)
}
pub fn kwunder_text_order__spec(a: &vpkw::Under, b: &String) -> Option<Ordering> {
    Some(a.as_str().cmp(b.as_str()))
}

//@ kwunder_hash
pub fn kwunder_hash__imp<H: Hasher>(a: vpkw::Under, s: Span, h: &mut H) {
    let mut a = a;
    a.set_span(s);
    a.hash(h)
}
pub fn kwunder_hash__spec<H: Hasher>(a: vpkw::Under, s: Span, h: &mut H) {
    a.hash(h)
}

//@ kw_other
pub fn kw_other__imp(a: &vpkw::Select, b: &vpkw::Under) -> (bool, bool, Option<Ordering>, Option<Ordering>) {
    (a == b, b == a, a.partial_cmp(b), b.partial_cmp(a))
}
pub fn kw_other__spec(a: &vpkw::Select, b: &vpkw::Under) -> (bool, bool, Option<Ordering>, Option<Ordering>) {
    (false, false, Some("select".cmp("_")), Some("_".cmp("select")))
}

//@ word_eq
pub fn word_eq__imp(a: &Word, b: &Word) -> bool {
    <Word as PartialEq<Word>>::eq(a, b)
}
pub fn word_eq__spec(a: &Word, b: &Word) -> bool {
    a.token() == b.token()
}

//@ word_ne
pub fn word_ne__imp(a: &Word, b: &Word) -> bool {
    <Word as PartialEq<Word>>::ne(a, b)
}
pub fn word_ne__spec(a: &Word, b: &Word) -> bool {
    !(a.token() == b.token())
}

//@ word_partial_cmp
pub fn word_partial_cmp__imp(a: &Word, b: &Word) -> Option<Ordering> {
    <Word as PartialOrd<Word>>::partial_cmp(a, b)
}
pub fn word_partial_cmp__spec(a: &Word, b: &Word) -> Option<Ordering> {
    Some(a.token().cmp(&b.token()))
}

//@ word_lt
pub fn word_lt__imp(a: &Word, b: &Word) -> bool {
    <Word as PartialOrd<Word>>::lt(a, b)
}
pub fn word_lt__spec(a: &Word, b: &Word) -> bool {
    a.token().cmp(&b.token()) == Ordering::Less
}

//@ word_gt
pub fn word_gt__imp(a: &Word, b: &Word) -> bool {
    <Word as PartialOrd<Word>>::gt(a, b)
}
pub fn word_gt__spec(a: &Word, b: &Word) -> bool {
    a.token().cmp(&b.token()) == Ordering::Greater
}

//@ word_le
pub fn word_le__imp(a: &Word, b: &Word) -> bool {
    <Word as PartialOrd<Word>>::le(a, b)
}
pub fn word_le__spec(a: &Word, b: &Word) -> bool {
    a.token().cmp(&b.token()) != Ordering::Greater
}

//@ word_ge
pub fn word_ge__imp(a: &Word, b: &Word) -> bool {
    <Word as PartialOrd<Word>>::ge(a, b)
}
pub fn word_ge__spec(a: &Word, b: &Word) -> bool {
    a.token().cmp(&b.token()) != Ordering::Less
}

//@ word_cmp
pub fn word_cmp__imp(a: &Word, b: &Word) -> Ordering {
    <Word as Ord>::cmp(a, b)
}
pub fn word_cmp__spec(a: &Word, b: &Word) -> Ordering {
    a.token().cmp(&b.token())
}

//@ word_text
pub fn word_text__imp(a: &Word, b: &String) -> (bool, bool, bool) {
    (<Word as PartialEq<String>>::eq(a, b), <Word as PartialEq<&str>>::eq(a, &b.as_str()), <Word as PartialEq<String>>::ne(a, b))
}
pub fn word_text__spec(a: &Word, b: &String) -> (bool, bool, bool) {
    let e = a.token() == *b;
    (e, e, !e)
}

//@ word_hash
pub fn word_hash__imp<H: Hasher>(a: &Word, h: &mut H) {
    a.hash(h)
}
pub fn word_hash__spec<H: Hasher>(a: &Word, h: &mut H) {
    a.token().hash(h)
}

//@ custom_eq
pub fn custom_eq__imp(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    <CustomIdent<vpkw::Keywords> as PartialEq<CustomIdent<vpkw::Keywords>>>::eq(a, b)
}
pub fn custom_eq__spec(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    a.token() == b.token()
}

//@ custom_ne
pub fn custom_ne__imp(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    <CustomIdent<vpkw::Keywords> as PartialEq<CustomIdent<vpkw::Keywords>>>::ne(a, b)
}
pub fn custom_ne__spec(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    !(a.token() == b.token())
}

//@ custom_partial_cmp
pub fn custom_partial_cmp__imp(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> Option<Ordering> {
    <CustomIdent<vpkw::Keywords> as PartialOrd<CustomIdent<vpkw::Keywords>>>::partial_cmp(a, b)
}
pub fn custom_partial_cmp__spec(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> Option<Ordering> {
    Some(a.token().cmp(&b.token()))
}

//@ custom_lt
pub fn custom_lt__imp(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    <CustomIdent<vpkw::Keywords> as PartialOrd<CustomIdent<vpkw::Keywords>>>::lt(a, b)
}
pub fn custom_lt__spec(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    a.token().cmp(&b.token()) == Ordering::Less
}

//@ custom_gt
pub fn custom_gt__imp(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    <CustomIdent<vpkw::Keywords> as PartialOrd<CustomIdent<vpkw::Keywords>>>::gt(a, b)
}
pub fn custom_gt__spec(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    a.token().cmp(&b.token()) == Ordering::Greater
}

//@ custom_le
pub fn custom_le__imp(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    <CustomIdent<vpkw::Keywords> as PartialOrd<CustomIdent<vpkw::Keywords>>>::le(a, b)
}
pub fn custom_le__spec(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    a.token().cmp(&b.token()) != Ordering::Greater
}

//@ custom_ge
pub fn custom_ge__imp(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    <CustomIdent<vpkw::Keywords> as PartialOrd<CustomIdent<vpkw::Keywords>>>::ge(a, b)
}
pub fn custom_ge__spec(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> bool {
    a.token().cmp(&b.token()) != Ordering::Less
}

//@ custom_cmp
pub fn custom_cmp__imp(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> Ordering {
    <CustomIdent<vpkw::Keywords> as Ord>::cmp(a, b)
}
pub fn custom_cmp__spec(a: &CustomIdent<vpkw::Keywords>, b: &CustomIdent<vpkw::Keywords>) -> Ordering {
    a.token().cmp(&b.token())
}

//@ custom_text
pub fn custom_text__imp(a: &CustomIdent<vpkw::Keywords>, b: &String) -> (bool, bool, bool) {
    (<CustomIdent<vpkw::Keywords> as PartialEq<String>>::eq(a, b), <CustomIdent<vpkw::Keywords> as PartialEq<&str>>::eq(a, &b.as_str()), <CustomIdent<vpkw::Keywords> as PartialEq<String>>::ne(a, b))
}
pub fn custom_text__spec(a: &CustomIdent<vpkw::Keywords>, b: &String) -> (bool, bool, bool) {
    let e = a.token() == *b;
    (e, e, !e)
}

//@ custom_hash
pub fn custom_hash__imp<H: Hasher>(a: &CustomIdent<vpkw::Keywords>, h: &mut H) {
    a.hash(h)
}
pub fn custom_hash__spec<H: Hasher>(a: &CustomIdent<vpkw::Keywords>, h: &mut H) {
    a.token().hash(h)
}
