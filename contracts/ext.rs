// Assumed contracts: what the functions under contract use of syn, proc-macro2, quote and std. Nothing in this file is proved.
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec;
use proc_macro2::Ident;
use syn::punctuated::Punctuated;

verus! {

pub type Int = int;
pub type Nat = nat;
pub type Names = spec_fn(Seq<char>) -> bool;

// ---- types, opaque unless a contract speaks about their parts ----
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIdent(proc_macro2::Ident);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSpan(proc_macro2::Span);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTokenStream(proc_macro2::TokenStream);
#[verifier::external_type_specification] pub struct ExAttribute(syn::Attribute);
#[verifier::external_type_specification] pub struct ExAttrStyle(syn::AttrStyle);
#[verifier::external_type_specification] pub struct ExMeta(syn::Meta);
#[verifier::external_type_specification] pub struct ExMetaList(syn::MetaList);
#[verifier::external_type_specification] pub struct ExMetaNameValue(syn::MetaNameValue);
#[verifier::external_type_specification] pub struct ExMacroDelimiter(syn::MacroDelimiter);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPound(syn::token::Pound);
#[verifier::external_type_specification] pub struct ExBracket(syn::token::Bracket);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExDelimSpan(proc_macro2::extra::DelimSpan);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExNot(syn::token::Not);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExLitStr(syn::LitStr);
#[verifier::external_type_specification] pub struct ExGenerics(syn::Generics);
#[verifier::external_type_specification] pub struct ExWhereClause(syn::WhereClause);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExWhereToken(syn::token::Where);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExWherePredicate(syn::WherePredicate);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGenericParam(syn::GenericParam);
#[verifier::external_type_specification] pub struct ExTokenTree(proc_macro2::TokenTree);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTGroup(proc_macro2::Group);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTPunct(proc_macro2::Punct);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTLiteral(proc_macro2::Literal);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTIter(proc_macro2::token_stream::IntoIter);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExExprPath(syn::ExprPath);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExError(syn::Error);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExVisibility(syn::Visibility);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFieldMutability(syn::FieldMutability);
#[verifier::external_type_specification] pub struct ExField(syn::Field);
#[verifier::external_type_specification] pub struct ExVariant(syn::Variant);
#[verifier::external_type_specification] pub struct ExFields(syn::Fields);
#[verifier::external_type_specification] pub struct ExFieldsNamed(syn::FieldsNamed);
#[verifier::external_type_specification] pub struct ExFieldsUnnamed(syn::FieldsUnnamed);
#[verifier::external_type_specification] pub struct ExDeriveInput(syn::DeriveInput);
#[verifier::external_type_specification] pub struct ExData(syn::Data);
#[verifier::external_type_specification] pub struct ExDataStruct(syn::DataStruct);
#[verifier::external_type_specification] pub struct ExDataEnum(syn::DataEnum);
#[verifier::external_type_specification] pub struct ExDataUnion(syn::DataUnion);
#[verifier::external_type_specification] pub struct ExIndex(syn::Index);
#[verifier::external_type_specification] pub struct ExQSelf(syn::QSelf);
#[verifier::external_type_specification] pub struct ExLifetime(syn::Lifetime);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(P)] pub struct ExPunctuated<T, P>(syn::punctuated::Punctuated<T, P>);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct ExPIter<'a, T: 'a>(syn::punctuated::Iter<'a, T>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPathSep(syn::token::PathSep);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAnd(syn::token::And);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAs(syn::token::As);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExMut(syn::token::Mut);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExLt(syn::token::Lt);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGt(syn::token::Gt);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExEqT(syn::token::Eq);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExColon(syn::token::Colon);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSemi(syn::token::Semi);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExComma(syn::token::Comma);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPlus(syn::token::Plus);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExGroupT(syn::token::Group);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParenT(syn::token::Paren);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBraceT(syn::token::Brace);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExStructT(syn::token::Struct);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExEnumT(syn::token::Enum);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExUnionT(syn::token::Union);
#[verifier::external_type_specification] pub struct ExPathSegment(syn::PathSegment);
#[verifier::external_type_specification] pub struct ExPathArguments(syn::PathArguments);
#[verifier::external_type_specification] pub struct ExABGA(syn::AngleBracketedGenericArguments);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPGA(syn::ParenthesizedGenericArguments);
#[verifier::external_type_specification] pub struct ExGenericArgument(syn::GenericArgument);
#[verifier::external_type_specification] pub struct ExPath(syn::Path);
#[verifier::external_type_specification] pub struct ExTypePath(syn::TypePath);
#[verifier::external_type_specification] pub struct ExTypeReference(syn::TypeReference);
#[verifier::external_type_specification] pub struct ExTypeGroup(syn::TypeGroup);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExExpr(syn::Expr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAssocType(syn::AssocType);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExAssocConst(syn::AssocConst);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExConstraint(syn::Constraint);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeArray(syn::TypeArray);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeBareFn(syn::TypeBareFn);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeImplTrait(syn::TypeImplTrait);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeInfer(syn::TypeInfer);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeMacro(syn::TypeMacro);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeNever(syn::TypeNever);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeParen(syn::TypeParen);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypePtr(syn::TypePtr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeSlice(syn::TypeSlice);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeTraitObject(syn::TypeTraitObject);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeTuple(syn::TypeTuple);
#[verifier::external_type_specification] pub struct ExType(syn::Type);

#[verifier::external_trait_specification]
pub trait ExToTokens {
    type ExternalTraitSpecificationFor: quote::ToTokens;
    fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream);
    fn to_token_stream(&self) -> (r: proc_macro2::TokenStream) ensures code(&r) == code(self);
    fn into_token_stream(self) -> (r: proc_macro2::TokenStream) where Self: Sized ensures code(&r) == code(&self);
}
// the text of the tokens which this is written as
pub uninterp spec fn code<T: ?Sized>(x: &T) -> Seq<char>;

// ---- identifiers ----
pub uninterp spec fn text(i: Ident) -> Seq<char>;
pub uninterp spec fn as_str<T: ?Sized>(t: &T) -> Seq<char>;
pub open spec fn strip_raw(s: Seq<char>) -> Seq<char> { if s.len() >= 2 && s[0] == 'r' && s[1] == '#' { s.skip(2) } else { s } }

pub assume_specification<T: ?Sized + AsRef<str>> [<Ident as PartialEq<T>>::eq](a: &Ident, b: &T) -> (r: bool)
    ensures r == (text(*a) == as_str(b));
pub assume_specification [<Ident as PartialEq<Ident>>::eq](a: &Ident, b: &Ident) -> (r: bool)
    ensures r == (text(*a) == text(*b));
pub assume_specification [<Ident as syn::ext::IdentExt>::unraw](a: &Ident) -> (r: Ident)
    ensures text(r) == strip_raw(text(*a));
pub assume_specification [Ident::span](a: &Ident) -> proc_macro2::Span;
pub assume_specification [<Ident as Clone>::clone](a: &Ident) -> (r: Ident) ensures text(r) == text(*a);

// how proc-macro2 orders texts: a total order
pub uninterp spec fn text_order(a: Seq<char>, b: Seq<char>) -> std::cmp::Ordering;
pub assume_specification [<Ident as Ord>::cmp](a: &Ident, b: &Ident) -> (r: std::cmp::Ordering)
    ensures r == text_order(text(*a), text(*b));
// the formatter b is the formatter a after this has been written
pub uninterp spec fn shows(a: std::fmt::Formatter<'_>, b: std::fmt::Formatter<'_>, s: Seq<char>) -> bool;
pub assume_specification [<Ident as std::fmt::Display>::fmt](a: &Ident, f: &mut std::fmt::Formatter<'_>) -> (r: std::fmt::Result)
    ensures shows(*old(f), *final(f), text(*a));
pub assume_specification [<u32 as std::fmt::Display>::fmt](a: &u32, f: &mut std::fmt::Formatter<'_>) -> (r: std::fmt::Result)
    ensures shows(*old(f), *final(f), decimal_text(*a as nat));
// the hasher b is the hasher a after this has been fed to it
pub uninterp spec fn fed_text<H>(a: H, b: H, s: Seq<char>) -> bool;
pub uninterp spec fn fed_index<H>(a: H, b: H, i: u32) -> bool;
pub assume_specification<H: std::hash::Hasher> [<Ident as std::hash::Hash>::hash](a: &Ident, h: &mut H)
    ensures fed_text(*old(h), *final(h), text(*a));
pub assume_specification<H: std::hash::Hasher> [<syn::Index as std::hash::Hash>::hash](a: &syn::Index, h: &mut H)
    ensures fed_index(*old(h), *final(h), a.index);
// the tokens b are the tokens a with an identifier (or a number) after them
pub uninterp spec fn then_text(a: proc_macro2::TokenStream, b: proc_macro2::TokenStream, s: Seq<char>) -> bool;
pub uninterp spec fn then_index(a: proc_macro2::TokenStream, b: proc_macro2::TokenStream, i: u32) -> bool;
pub assume_specification [<Ident as quote::ToTokens>::to_tokens](a: &Ident, t: &mut proc_macro2::TokenStream)
    ensures then_text(*old(t), *final(t), text(*a));
pub assume_specification [<syn::Index as quote::ToTokens>::to_tokens](a: &syn::Index, t: &mut proc_macro2::TokenStream)
    ensures then_index(*old(t), *final(t), a.index);
// an identifier which is no keyword, and one which can be written with a raw prefix
pub uninterp spec fn plain_ident(s: Seq<char>) -> bool;
pub open spec fn never_raw(s: Seq<char>) -> bool { s == "_"@ || s == "super"@ || s == "self"@ || s == "Self"@ || s == "crate"@ }
pub assume_specification<T: syn::parse::Parse> [syn::parse_str::<T>](s: &str) -> (r: std::result::Result<T, syn::Error>)
    ensures r is Ok == parses_as::<T>(s@);
pub uninterp spec fn parses_as<T>(s: Seq<char>) -> bool;
pub uninterp spec fn of_ident(s: Seq<char>) -> bool;
pub assume_specification [Ident::new_raw](s: &str, span: proc_macro2::Span) -> (r: Ident)
    requires of_ident(s@), !never_raw(s@),
    ensures text(r) == "r#"@ + s@;
// the text is accepted where an identifier is written; is_cont: a character which may follow the first one of an identifier
pub uninterp spec fn ident_text(s: Seq<char>) -> bool;
pub uninterp spec fn is_cont(c: char) -> bool;
#[verifier::opaque] pub open spec fn continues(s: Seq<char>) -> bool { forall|i: Int| 0 <= i < s.len() ==> is_cont(#[trigger] s[i]) }
// the same after an underscore
pub open spec fn underscored(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '_' && continues(s) }
// the text reads as one identifier (or keyword), with what the lexer skips around it
pub uninterp spec fn parsed_ident(s: Seq<char>) -> Option<Ident>;
pub assume_specification [Ident::new](s: &str, span: proc_macro2::Span) -> (r: Ident)
    requires ident_text(s@);
pub assume_specification [Ident::set_span](a: &mut Ident, span: proc_macro2::Span)
    ensures text(*final(a)) == text(*old(a));
pub assume_specification [proc_macro2::Span::resolved_at](a: &proc_macro2::Span, b: proc_macro2::Span) -> proc_macro2::Span;
// `Ident::parse_any.parse_str(s)`
#[verifier::external_body] pub fn parse_any_ident(s: &str) -> (r: std::result::Result<Ident, syn::Error>)
    ensures match r { Ok(i) => parsed_ident(s@) == Some(i), Err(_) => parsed_ident(s@) is None },
{ use syn::{ext::IdentExt, parse::Parser}; Ident::parse_any.parse_str(s) }
pub assume_specification [syn::LitStr::span](a: &syn::LitStr) -> proc_macro2::Span;
pub uninterp spec fn lit(a: syn::LitStr) -> Seq<char>;
pub assume_specification [syn::LitStr::value](a: &syn::LitStr) -> (r: String) ensures r@ == lit(*a);
pub assume_specification [syn::LitStr::new](s: &str, span: proc_macro2::Span) -> (r: syn::LitStr) ensures lit(r) == s@;
pub assume_specification [<proc_macro2::TokenStream as Clone>::clone](x: &proc_macro2::TokenStream) -> (r: proc_macro2::TokenStream) ensures r == *x;

// ---- collections whose keys are not compared by structure: the insertions in order ----
pub mod coll {
    use super::*;
    use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec};
    // the last insertion under this key
    #[verifier::opaque] pub open spec fn latest<T: PartialEq, V>(p: Seq<(&T, V)>, q: &T, i: Int) -> bool {
        0 <= i < p.len() && p[i].0.eq_spec(q) && forall|j: Int| i < j < p.len() ==> !(#[trigger] p[j]).0.eq_spec(q) }
    #[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
    pub struct HashMap<K, V>(std::collections::HashMap<K, V>);
    // the keys' Hash is taken to agree with their Eq
    impl<'a, T: Eq + std::hash::Hash, V> HashMap<&'a T, V> {
        pub uninterp spec fn pairs(self) -> Seq<(&'a T, V)>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r.pairs() == Seq::<(&'a T, V)>::empty() { HashMap(std::collections::HashMap::new()) }
        #[verifier::external_body] pub fn insert(&mut self, k: &'a T, v: V) -> Option<V>
            ensures final(self).pairs() == old(self).pairs().push((k, v)) { self.0.insert(k, v) }
        #[verifier::external_body] pub fn get(&self, k: &T) -> (r: Option<&V>)
            requires <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec()
            ensures match r {
                None => !latest(self.pairs(), k, 0) && forall|i: Int| !#[trigger] latest(self.pairs(), k, i),
                Some(v) => exists|i: Int| #[trigger] latest(self.pairs(), k, i) && self.pairs()[i].1 == *v,
            } { self.0.get(k) }
    }
    // a map with entries
    #[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
    pub struct BTreeMap<K, V>(std::collections::BTreeMap<K, V>);
    #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
    pub struct Place<'a, K, V> { pub map: &'a mut BTreeMap<K, V>, pub key: K }
    #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
    pub enum Entry<'a, K, V> { Vacant(Place<'a, K, V>), Occupied(Place<'a, K, V>) }
    impl<K, V> BTreeMap<K, V> { pub uninterp spec fn map(self) -> Map<K, V>; }
    impl<K: Ord, V> BTreeMap<K, V> {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<K, V>::empty() { BTreeMap(std::collections::BTreeMap::new()) }
        #[verifier::external_body] pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
            ensures match r {
                Entry::Vacant(p) => !old(self).map().contains_key(k) && p.key == k && *p.map == *old(self) && *final(p.map) == *final(self),
                Entry::Occupied(p) => old(self).map().contains_key(k) && p.key == k && *p.map == *old(self) && *final(p.map) == *final(self),
            } { unimplemented!() }
    }
    impl<'q, K: Ord, V> std::ops::Index<&'q K> for BTreeMap<K, V> {
        type Output = V;
        #[verifier::external_body] fn index(&self, k: &'q K) -> (r: &V) ensures *r == self.map()[*k] { &self.0[k] }
    }
    impl<'q, K: Ord, V> vstd::std_specs::core::IndexSpecImpl<&'q K> for BTreeMap<K, V> { open spec fn index_req(&self, k: &&'q K) -> bool { self.map().contains_key(**k) } }
    impl<'a, K: Ord, V: Default> Entry<'a, K, V> {
        pub open spec fn place(self) -> Place<'a, K, V> { match self { Entry::Vacant(p) => p, Entry::Occupied(p) => p } }
        #[verifier::external_body] pub fn or_default(self) -> (r: &'a mut V)
            ensures
                self is Occupied ==> *r == self.place().map.map()[self.place().key],
                self is Vacant ==> call_ensures(V::default, (), *r),
                final(self.place().map).map() == self.place().map.map().insert(self.place().key, *final(r)),
            { unimplemented!() }
    }
    #[verifier::external_body] #[verifier::reject_recursive_types(T)]
    pub struct BTreeSet<T>(pub(super) std::collections::BTreeSet<T>);
    impl<T> BTreeSet<T> { pub uninterp spec fn items(self) -> Seq<T>; }
    impl<T: Ord> BTreeSet<T> {
        pub open spec fn has(self, q: &T) -> bool { exists|i: Int| 0 <= i < self.items().len() && (#[trigger] self.items()[i]).cmp_spec(q) == std::cmp::Ordering::Equal }
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r.items() == Seq::<T>::empty() { BTreeSet(std::collections::BTreeSet::new()) }
        #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool)
            ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == !old(self).has(&x), final(self).items() == old(self).items().push(x) { self.0.insert(x) }
        #[verifier::external_body] pub fn contains(&self, q: &T) -> (r: bool)
            requires <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec()
            ensures r == self.has(q) { self.0.contains(q) }
    }
}
// ---- `format_ident!`: the parts put together; panics on what is no identifier ----
pub trait Fragment { spec fn shown(&self) -> Seq<char>; fn show(&self) -> (r: String) ensures r@ == self.shown(); }
impl Fragment for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self) -> (r: String) { self.clone() } }
impl Fragment for &str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self) -> (r: String) { self.to_string() } }
impl Fragment for &syn::Index { open spec fn shown(&self) -> Seq<char> { decimal_text(self.index as nat) } #[verifier::external_body] fn show(&self) -> (r: String) { self.index.to_string() } }
#[verifier::external_body] pub fn some_string() -> String { unimplemented!() }
#[verifier::external_body] pub struct Idents(String);
impl Idents {
    pub uninterp spec fn so_far(self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.so_far() == Seq::<char>::empty() { Idents(String::new()) }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Self) ensures r.so_far() == glue(self.so_far(), s@) { Idents(self.0 + s) }
    #[verifier::external_body] pub fn arg<F: Fragment>(self, f: F) -> (r: Self) ensures r.so_far() == glue(self.so_far(), f.shown()) { Idents(self.0 + &f.show()) }
    #[verifier::external_body] pub fn ident(self) -> (r: Ident) requires ident_text(self.so_far()) ensures text(r) == self.so_far() { Ident::new(&self.0, proc_macro2::Span::call_site()) }
}
#[verifier::opaque] pub open spec fn glue(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a.len() == 0 { b } else { a + b } }
// the digits of a number
pub open spec fn decimal_text(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { decimal_text(n / 10).push(digit(n % 10)) } }
pub open spec fn digit(n: nat) -> char { ('0' as u32 + n) as u32 as char }
pub open spec fn number(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { number(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) as nat } }
// `quote!` with one interpolation: tokens around this one
pub uninterp spec fn around<T>(t: proc_macro2::TokenStream, x: T) -> bool;
pub uninterp spec fn just<T>(t: proc_macro2::TokenStream, x: T) -> bool;
#[verifier::external_body] pub fn quoted<T>(x: &T) -> (r: proc_macro2::TokenStream) ensures around(r, *x) { unimplemented!() }
#[verifier::external_body] pub fn literal(x: &str) -> (r: proc_macro2::TokenStream) ensures code(&r) == x@ { unimplemented!() }
#[verifier::external_body] pub fn some_tokens() -> proc_macro2::TokenStream { unimplemented!() }
// ---- where clauses ----
pub type Bounds = Punctuated<proc_macro2::TokenStream, syn::token::Plus>;
// the predicate asks that this type has these traits
pub uninterp spec fn asks(p: syn::WherePredicate, ty: Seq<char>, bounds: Seq<Seq<char>>) -> bool;
pub open spec fn codes(b: Seq<proc_macro2::TokenStream>) -> Seq<Seq<char>> { b.map_values(|t: proc_macro2::TokenStream| code(&t)) }
pub uninterp spec fn first_token(t: proc_macro2::TokenStream) -> Option<proc_macro2::TokenTree>;
pub uninterp spec fn punct_char(p: proc_macro2::Punct) -> char;
pub open spec fn opens_angle(t: proc_macro2::TokenStream) -> bool { match first_token(t) { Some(proc_macro2::TokenTree::Punct(p)) => punct_char(p) == '<', _ => false } }
#[verifier::external_body] pub fn predicate(ty: &proc_macro2::TokenStream, bounds: &Bounds) -> (r: syn::WherePredicate)
    requires !opens_angle(*ty)       // `where <` is reserved syntax
    ensures asks(r, code(ty), codes(pseq(*bounds))) { unimplemented!() }
#[verifier::external_body] pub fn predicate_in_parentheses(ty: &proc_macro2::TokenStream, bounds: &Bounds) -> (r: syn::WherePredicate)
    ensures asks(r, code(ty), codes(pseq(*bounds))) { unimplemented!() }
pub assume_specification [proc_macro2::Punct::as_char](p: &proc_macro2::Punct) -> (r: char) ensures r == punct_char(*p);
pub assume_specification [<proc_macro2::TokenStream as IntoIterator>::into_iter](t: proc_macro2::TokenStream) -> (r: proc_macro2::token_stream::IntoIter) ensures upcoming(r) == first_token(t);
pub assume_specification [<proc_macro2::token_stream::IntoIter as Iterator>::next](i: &mut proc_macro2::token_stream::IntoIter) -> (r: Option<proc_macro2::TokenTree>)
    ensures r == upcoming(*old(i));
pub uninterp spec fn upcoming(i: proc_macro2::token_stream::IntoIter) -> Option<proc_macro2::TokenTree>;
pub assume_specification [syn::Generics::make_where_clause](g: &mut syn::Generics) -> (r: &mut syn::WhereClause)
    ensures pseq(r.predicates) == where_of(*old(g)), final(g).where_clause == Some(*final(r)), final(g).params == old(g).params, final(g).lt_token == old(g).lt_token, final(g).gt_token == old(g).gt_token;
pub open spec fn where_of(g: syn::Generics) -> Seq<syn::WherePredicate> { match g.where_clause { Some(w) => pseq(w.predicates), None => Seq::empty() } }
pub assume_specification [<syn::Generics as Clone>::clone](g: &syn::Generics) -> (r: syn::Generics) ensures r == *g;
pub assume_specification<T, P> [Punctuated::<T, P>::push](p: &mut Punctuated<T, P>, x: T) where P: Default ensures pseq(*final(p)) == pseq(*old(p)).push(x);
#[verifier::external_body] pub fn into_tokens<T: quote::ToTokens>(x: T) -> (r: proc_macro2::TokenStream) ensures just(r, x) { x.into_token_stream() }

pub open spec fn lawful<I: Iterator>(i: &I) -> bool { IteratorSpec::obeys_prophetic_iter_laws(i) }

// ---- punctuated sequences ----
pub uninterp spec fn pseq<T, P>(p: Punctuated<T, P>) -> Seq<T>;

pub assume_specification<'a, T, P> [<&'a Punctuated<T, P> as IntoIterator>::into_iter](p: &'a Punctuated<T, P>) -> (r: <&'a Punctuated<T, P> as std::iter::IntoIterator>::IntoIter)
    ensures
        IteratorSpec::remaining(&r) == pseq(*p).map_values(|x: T| &x),
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::will_return_none(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|i: Int| #[trigger] IteratorSpec::peek(&r, i) == (if 0 <= i < pseq(*p).len() { Some(&pseq(*p)[i]) } else { None });
pub assume_specification<T, P> [Punctuated::<T, P>::iter](p: &Punctuated<T, P>) -> (r: syn::punctuated::Iter<'_, T>)
    ensures
        IteratorSpec::remaining(&r) == pseq(*p).map_values(|x: T| &x),
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::will_return_none(&r),
        IteratorSpec::decrease(&r) is Some,
        forall|i: Int| #[trigger] IteratorSpec::peek(&r, i) == (if 0 <= i < pseq(*p).len() { Some(&pseq(*p)[i]) } else { None });
pub assume_specification<T, P> [Punctuated::<T, P>::last](p: &Punctuated<T, P>) -> (r: Option<&T>)
    ensures r == (if pseq(*p).len() == 0 { None } else { Some(&pseq(*p).last()) });
pub assume_specification<T, P> [Punctuated::<T, P>::first](p: &Punctuated<T, P>) -> (r: Option<&T>)
    ensures r == (if pseq(*p).len() == 0 { None } else { Some(&pseq(*p)[0]) });
pub assume_specification<T, P> [Punctuated::<T, P>::len](p: &Punctuated<T, P>) -> (r: usize)
    ensures r == pseq(*p).len();
pub assume_specification<T, P> [Punctuated::<T, P>::is_empty](p: &Punctuated<T, P>) -> (r: bool)
    ensures r == (pseq(*p).len() == 0);
pub assume_specification<T, P> [<Punctuated<T, P> as std::ops::Index<usize>>::index](p: &Punctuated<T, P>, i: usize) -> (r: &<Punctuated<T, P> as std::ops::Index<usize>>::Output)
    ensures *r == pseq(*p)[i as int];

#[verifier::external_type_specification] #[verifier::external_body] pub struct ExTypeParamBound(syn::TypeParamBound);
#[verifier::external_type_specification] pub struct ExTypeParam(syn::TypeParam);
pub uninterp spec fn type_params(g: syn::Generics) -> Seq<syn::TypeParam>;

// ---- std ----
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or](o: Option<T>, u: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == u };

pub assume_specification<T> [Option::<T>::or](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };
pub assume_specification<'a, T, B, F> [<std::slice::Iter<'a, T> as Iterator>::find_map] (it: &mut std::slice::Iter<'a, T>, f: F) -> (r: Option<B>)
    where std::slice::Iter<'a, T>: Sized, F: FnMut(<std::slice::Iter<'a, T> as Iterator>::Item) -> Option<B>
    requires forall|i: Int| 0 <= i < IteratorSpec::remaining(&*old(it)).len() ==> f.requires((#[trigger] IteratorSpec::remaining(&*old(it))[i],)),
    ensures
        r is None ==> forall|i: Int| 0 <= i < IteratorSpec::remaining(&*old(it)).len() ==> f.ensures((#[trigger] IteratorSpec::remaining(&*old(it))[i],), None),
        r is Some ==> exists|i: Int| 0 <= i < IteratorSpec::remaining(&*old(it)).len() && f.ensures((#[trigger] IteratorSpec::remaining(&*old(it))[i],), r)
            && forall|j: Int| 0 <= j < i ==> f.ensures((#[trigger] IteratorSpec::remaining(&*old(it))[j],), None);

pub assume_specification [proc_macro2::Span::call_site]() -> proc_macro2::Span;
pub open spec fn fields_of(f: syn::Fields) -> Seq<syn::Field> {
    match f { syn::Fields::Named(n) => pseq(n.named), syn::Fields::Unnamed(n) => pseq(n.unnamed), syn::Fields::Unit => Seq::empty() }
}
pub assume_specification<'a> [syn::Fields::iter](f: &'a syn::Fields) -> (r: syn::punctuated::Iter<'a, syn::Field>)
    ensures
        IteratorSpec::remaining(&r) == fields_of(*f).map_values(|x: syn::Field| &x),
        IteratorSpec::obeys_prophetic_iter_laws(&r),
        IteratorSpec::will_return_none(&r),
        IteratorSpec::decrease(&r) is Some;

pub assume_specification<I> [<str as std::ops::Index<I>>::index](s: &str, i: I) -> (r: &<I as std::slice::SliceIndex<str>>::Output) where I: std::slice::SliceIndex<str>
    ensures vstd::slice::SliceIndexSpec::index_postcondition(&i, s, r);
// ---- searching in strings ----
pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: core::str::pattern::Pattern; }
// the pattern p matches n characters from the i-th on
pub uninterp spec fn hit<P>(p: P, s: Seq<char>, i: Int, n: Int) -> bool;
pub open spec fn hits<P>(p: P, s: Seq<char>, i: Int) -> bool { exists|n: Int| #[trigger] hit(p, s, i, n) }
#[verifier::opaque] pub open spec fn first_hit<P>(p: P, s: Seq<char>, k: Int) -> bool { 0 <= k <= s.len() && hits(p, s, k) && forall|j: Int| 0 <= j < k ==> !#[trigger] hits(p, s, j) }
pub assume_specification<P> [str::find](s: &str, p: P) -> (r: Option<usize>) where P: core::str::pattern::Pattern
    ensures match r { Some(x) => exists|k: Int| #[trigger] first_hit(p, s@, k) && x == blen(s@.take(k)), None => (forall|j: Int| 0 <= j <= s@.len() ==> !#[trigger] hits(p, s@, j)) && forall|k: Int| !#[trigger] first_hit(p, s@, k) };
pub assume_specification<P> [str::contains](s: &str, p: P) -> (r: bool) where P: core::str::pattern::Pattern
    ensures r == exists|j: Int| 0 <= j <= s@.len() && #[trigger] hits(p, s@, j);
pub assume_specification<P> [str::starts_with](s: &str, p: P) -> (r: bool) where P: core::str::pattern::Pattern
    ensures r == hits(p, s@, 0);
// k characters at the front of s are of this kind, and the one after them is not
pub open spec fn leading(s: Seq<char>, k: Int, p: spec_fn(char) -> bool) -> bool {
    0 <= k <= s.len() && (forall|i: Int| 0 <= i < k ==> p(#[trigger] s[i])) && (k < s.len() ==> !p(s[k]))
}
pub open spec fn white_prefix(s: Seq<char>, k: Int) -> bool { leading(s, k, |c: char| is_white(c)) }
pub assume_specification<P> [str::strip_prefix](s: &str, p: P) -> (r: Option<&str>) where P: core::str::pattern::Pattern
    ensures match r { Some(t) => exists|n: Int| #[trigger] hit(p, s@, 0, n) && t@ == s@.skip(n), None => !hits(p, s@, 0) };
pub open spec fn trim_front(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_white(s[0]) { trim_front(s.skip(1)) } else { s } }
pub open spec fn trim_back(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_white(s.last()) { trim_back(s.drop_last()) } else { s } }
pub assume_specification [str::trim](s: &str) -> (r: &str) ensures r@ == trim_back(trim_front(s@));
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: std::str::FromStr; type Err; }
pub uninterp spec fn parses_to<F>(s: Seq<char>, v: F) -> bool;
pub assume_specification<F> [str::parse::<F>](s: &str) -> (r: std::result::Result<F, <F as std::str::FromStr>::Err>) where F: std::str::FromStr
    ensures match r { Ok(v) => parses_to(s@, v), Err(_) => forall|v: F| !#[trigger] parses_to(s@, v) };
pub assume_specification [str::trim_start](s: &str) -> (r: &str)
    ensures exists|k: Int| #[trigger] white_prefix(s@, k) && r@ == s@.skip(k);
pub open spec fn is_white(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub assume_specification [char::is_ascii](c: &char) -> (r: bool) ensures r == (*c as u32 <= 0x7f);

// ---- parts of syn's enums ----
pub open spec fn path_of(t: syn::Type) -> syn::Path { match t { syn::Type::Path(p) => p.path, _ => arbitrary() } }
pub open spec fn typath_of(t: syn::Type) -> syn::TypePath { match t { syn::Type::Path(p) => p, _ => arbitrary() } }
pub open spec fn reference_of(t: syn::Type) -> syn::TypeReference { match t { syn::Type::Reference(p) => p, _ => arbitrary() } }
// the arguments between the angle brackets, if there are any
pub open spec fn angle(a: syn::PathArguments) -> Seq<syn::GenericArgument> { match a { syn::PathArguments::AngleBracketed(b) => pseq(b.args), _ => Seq::empty() } }
pub open spec fn type_of(a: syn::GenericArgument) -> syn::Type { match a { syn::GenericArgument::Type(t) => t, _ => arbitrary() } }
pub open spec fn lifetime_of(a: syn::GenericArgument) -> syn::Lifetime { match a { syn::GenericArgument::Lifetime(t) => t, _ => arbitrary() } }
pub open spec fn segments(t: syn::Type) -> Seq<syn::PathSegment> { pseq(path_of(t).segments) }

// ---- syn ----
// `#[p]`, `#[p(..)]`, `#[p = ..]`: the path p
pub open spec fn attr_path(a: syn::Attribute) -> syn::Path {
    match a.meta { syn::Meta::Path(p) => p, syn::Meta::List(l) => l.path, syn::Meta::NameValue(n) => n.path }
}
// the path is this one identifier
pub open spec fn single(p: syn::Path) -> bool { p.leading_colon is None && pseq(p.segments).len() == 1 && pseq(p.segments)[0].arguments is None }
pub open spec fn is_name(p: syn::Path, n: Seq<char>) -> bool { single(p) && text(pseq(p.segments)[0].ident) == n }
pub assume_specification [syn::Attribute::path](a: &syn::Attribute) -> (r: &syn::Path) ensures *r == attr_path(*a);
pub assume_specification<I: ?Sized> [syn::Path::is_ident](p: &syn::Path, i: &I) -> (r: bool) where Ident: PartialEq<I>
    ensures r == is_name(*p, as_str(i));
pub assume_specification [syn::Path::get_ident](p: &syn::Path) -> (r: Option<&Ident>)
    ensures r is Some <==> single(*p), r is Some ==> *r->0 == pseq(p.segments)[0].ident;
pub assume_specification [syn::Meta::require_path_only](m: &syn::Meta) -> (r: std::result::Result<&syn::Path, syn::Error>)
    ensures r is Ok <==> m is Path;
pub assume_specification [proc_macro2::Span::join](a: &proc_macro2::Span, b: proc_macro2::Span) -> Option<proc_macro2::Span>;
pub assume_specification [proc_macro2::extra::DelimSpan::join](a: &proc_macro2::extra::DelimSpan) -> proc_macro2::Span;
#[verifier::external_body] pub fn pound_span(p: &syn::token::Pound) -> proc_macro2::Span { p.span }

pub assume_specification [syn::PathArguments::is_empty](a: &syn::PathArguments) -> (r: bool)
    ensures r == args_empty(*a);
pub assume_specification [syn::PathArguments::is_none](a: &syn::PathArguments) -> (r: bool)
    ensures r == (a is None);
pub assume_specification<T: quote::ToTokens, U: std::fmt::Display> [syn::Error::new_spanned](t: T, m: U) -> syn::Error;
pub assume_specification [<syn::Index as PartialEq>::eq](a: &syn::Index, b: &syn::Index) -> (r: bool)
    ensures r == (a.index == b.index);

pub open spec fn args_empty(a: syn::PathArguments) -> bool {
    match a {
        syn::PathArguments::None => true,
        syn::PathArguments::AngleBracketed(b) => pseq(b.args).len() == 0,
        syn::PathArguments::Parenthesized(_) => false,
    }
}

} // verus!
impl<T: Clone> Clone for coll::BTreeSet<T> { fn clone(&self) -> Self { coll::BTreeSet(self.0.clone()) } }
impl<T> IntoIterator for coll::BTreeSet<T> { type Item = T; type IntoIter = std::collections::btree_set::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
