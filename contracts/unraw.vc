@spec unraw
broadcast use crate::ax::laws;
pub assume_specification [<IdentUnraw as Clone>::clone](x: &IdentUnraw) -> (r: IdentUnraw) ensures r.name() == x.name(), r.spelling() == x.spelling();

impl IdentUnraw {
    // the name, without a raw prefix
    pub closed spec fn name(self) -> Seq<char> { strip_raw(text(self.0)) }
    // the name as spelled
    pub closed spec fn spelling(self) -> Seq<char> { text(self.0) }
}
// what a member is called
pub enum Key { Index(u32), Name(Seq<char>) }
impl Key {
    pub open spec fn shown(self) -> Seq<char> { match self { Key::Name(n) => n, Key::Index(i) => decimal_text(i as Nat) } }
}
impl MemberUnraw {
    pub open spec fn key(self) -> Key { match self { MemberUnraw::Named(a) => Key::Name(a.name()), MemberUnraw::Unnamed(a) => Key::Index(a.index) } }
    pub open spec fn shown_name(self) -> Seq<char> { match self { MemberUnraw::Named(a) => a.name(), MemberUnraw::Unnamed(a) => decimal_text(a.index as Nat) } }
    pub open spec fn same(self, other: MemberUnraw) -> bool {
        match (self, other) {
            (MemberUnraw::Named(a), MemberUnraw::Named(b)) => a.name() == b.name(),
            (MemberUnraw::Unnamed(a), MemberUnraw::Unnamed(b)) => a.index == b.index,
            _ => false,
        }
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for IdentUnraw {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.name() == other.name() }
}
impl vstd::std_specs::cmp::OrdSpecImpl for IdentUnraw {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> std::cmp::Ordering { text_order(self.name(), other.name()) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for IdentUnraw {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(text_order(self.name(), other.name())) }
}
impl vstd::std_specs::fmt::DisplaySpecImpl for IdentUnraw { open spec fn fmt_req(&self, f: &std::fmt::Formatter<'_>) -> bool { true } }
impl vstd::std_specs::fmt::DisplaySpecImpl for MemberUnraw { open spec fn fmt_req(&self, f: &std::fmt::Formatter<'_>) -> bool { true } }
// how a name is written where it binds a variable or names a field: raw if it is a keyword that can be
pub open spec fn local(name: Seq<char>) -> Seq<char> { if parses_as::<Ident>(name) || never_raw(name) { name } else { "r#"@ + name } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for IdentUnraw {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { self.spelling() == other@ }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for MemberUnraw {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.same(*other) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for MemberUnraw {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { self is Named && self->Named_0.spelling() == other@ }
}

@fn unraw::IdentUnraw::new -> r
@props C13
ensures r.name() == strip_raw(text(ident)), r.spelling() == text(ident),

@fn unraw::IdentUnraw::set_span
@props C10 C13
ensures (*final(self)).name() == (*old(self)).name(), (*final(self)).spelling() == (*old(self)).spelling(),
@fn unraw::IdentUnraw::to_local -> r
@props C10 C13
ensures text(r) == local(self.name()),
@at entry
    broadcast use crate::ax::ax_same_str;
@fn unraw::Display for IdentUnraw::fmt -> r
@props C01 C13
ensures shows(*old(formatter), *final(formatter), self.name()),
@fn unraw::Ord for IdentUnraw::cmp
@props C03 C13
@fn unraw::PartialOrd for IdentUnraw::partial_cmp
@props C03 C13
@fn unraw::ToTokens for IdentUnraw::to_tokens
@props C13
ensures then_text(*old(tokens), *final(tokens), self.name()),
@fn unraw::Display for MemberUnraw::fmt -> r
@props C01 C13
ensures shows(*old(formatter), *final(formatter), self.shown_name()),
@fn unraw::Hash for MemberUnraw::hash
@props C01 C13
ensures match self.key() { Key::Name(n) => fed_text(*old(hasher), *final(hasher), n), Key::Index(i) => fed_index(*old(hasher), *final(hasher), i) },
@fn unraw::ToTokens for MemberUnraw::to_tokens
@props C13
ensures match self.key() { Key::Name(n) => then_text(*old(tokens), *final(tokens), local(n)), Key::Index(i) => then_index(*old(tokens), *final(tokens), i) },
@fn unraw::PartialEq for IdentUnraw::eq
@props C13
@fn unraw::PartialEq<str> for IdentUnraw::eq
@props C04 C13
@fn unraw::PartialEq for MemberUnraw::eq
@props C05 C09 C13
@fn unraw::PartialEq<str> for MemberUnraw::eq
@props C13
@fn unraw::MemberUnraw::span
@props C10
@end
