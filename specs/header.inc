use parsel::ast::*;
use parsel::{Parse, ToTokens, Result, Error, Span, TokenStream, TokenTree, Spanned, LineColumn, NotNan};
use parsel::{parse_quote, parse2, parse_str};
use parsel::{proc_macro2, syn, quote};
use syn::parse::{ParseStream, discouraged::Speculative};
use quote::TokenStreamExt;
use syn::ext::IdentExt;
use syn::punctuated::{self, Pair};
use std::borrow::{Borrow, BorrowMut, Cow};
use std::convert::TryFrom;
use std::fmt::{self, Debug, Display, Formatter};
use std::hash::{Hash, Hasher};
use std::cmp::Ordering;
use std::str::FromStr;
use std::ops::{Deref, DerefMut, Index, IndexMut};
use proc_macro2::{Delimiter, Group, Spacing, Literal, Punct};
