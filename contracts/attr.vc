@spec attr
broadcast use crate::ax::laws;
impl vstd::std_specs::cmp::PartialEqSpecImpl for Trait { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
// derived: every part is cloned
pub assume_specification<'a> [<Display<'a> as Clone>::clone](x: &Display<'a>) -> (r: Display<'a>) ensures r == *x;
pub assume_specification<'a> [<Fmt<'a> as Clone>::clone](x: &Fmt<'a>) -> (r: Fmt<'a>) ensures r == *x;

// What one attribute asks for. `#[from(..)]` and attributes of other names belong to someone else; `#[source]` and `#[backtrace]` take nothing.
pub enum Asks { Display, Transparent, Fmt, Source, Backtrace, From, Nothing, Unreadable }
pub uninterp spec fn error_asks(a: Attribute) -> Asks;
pub open spec fn asks(a: Attribute) -> Asks {
    if is_name(attr_path(a), "error"@) { error_asks(a) }
    else if is_name(attr_path(a), "source"@) { if a.meta is Path { Asks::Source } else { Asks::Unreadable } }
    else if is_name(attr_path(a), "backtrace"@) { if a.meta is Path { Asks::Backtrace } else { Asks::Unreadable } }
    else if is_name(attr_path(a), "from"@) && a.meta is Path { Asks::From }
    else { Asks::Nothing }
}
// one of the first n attributes asks for this
pub open spec fn asked(s: Seq<Attribute>, n: Int, k: Asks) -> bool { exists|i: Int| 0 <= i < n && asks(#[trigger] s[i]) == k }
pub open spec fn repeated(s: Seq<Attribute>, i: Int) -> bool { !(asks(s[i]) is Nothing) && asked(s, i, asks(s[i])) }
pub open spec fn unreadable(s: Seq<Attribute>) -> bool { exists|i: Int| 0 <= i < s.len() && (asks(#[trigger] s[i]) is Unreadable || repeated(s, i)) }
pub open spec fn one_of(s: Seq<Attribute>, n: Int, k: Asks, o: Attribute) -> bool { exists|i: Int| 0 <= i < n && asks(#[trigger] s[i]) == k && s[i] == o }
// what the first n attributes say
pub open spec fn read_upto(s: Seq<Attribute>, n: Int, r: Attrs) -> bool {
    &&& r.display is Some <==> asked(s, n, Asks::Display)
    &&& r.display is Some ==> one_of(s, n, Asks::Display, *r.display->0.original)
    &&& r.transparent is Some <==> asked(s, n, Asks::Transparent)
    &&& r.transparent is Some ==> one_of(s, n, Asks::Transparent, *r.transparent->0.original)
    &&& r.fmt is Some <==> asked(s, n, Asks::Fmt)
    &&& r.fmt is Some ==> one_of(s, n, Asks::Fmt, *r.fmt->0.original)
    &&& r.source is Some <==> asked(s, n, Asks::Source)
    &&& r.source is Some ==> one_of(s, n, Asks::Source, *r.source->0.original)
    &&& r.backtrace is Some <==> asked(s, n, Asks::Backtrace)
    &&& r.backtrace is Some ==> one_of(s, n, Asks::Backtrace, *r.backtrace->0)
    &&& r.from is Some <==> asked(s, n, Asks::From)
    &&& r.from is Some ==> one_of(s, n, Asks::From, *r.from->0.original)
}
pub open spec fn read(s: Seq<Attribute>, r: Attrs) -> bool { read_upto(s, s.len() as Int, r) }

// the one of the three which the attribute asks for is taken, and only once
pub open spec fn taken(a: Attribute, old: Attrs, new: Attrs) -> bool {
    &&& new.source == old.source && new.backtrace == old.backtrace && new.from == old.from
    &&& error_asks(a) is Display ==> new.display is Some && *new.display->0.original == a
    &&& !(error_asks(a) is Display) ==> new.display == old.display
    &&& error_asks(a) is Transparent ==> new.transparent is Some && *new.transparent->0.original == a
    &&& !(error_asks(a) is Transparent) ==> new.transparent == old.transparent
    &&& error_asks(a) is Fmt ==> new.fmt is Some && *new.fmt->0.original == a
    &&& !(error_asks(a) is Fmt) ==> new.fmt == old.fmt
}
pub open spec fn error_fault(a: Attribute, old: Attrs) -> bool {
    match error_asks(a) {
        Asks::Display => old.display is Some,
        Asks::Transparent => old.transparent is Some,
        Asks::Fmt => old.fmt is Some,
        _ => true,
    }
}
@fn attr::parse_error_attribute -> r
@trusted
ensures
    error_asks(*attr) is Display || error_asks(*attr) is Transparent || error_asks(*attr) is Fmt || error_asks(*attr) is Unreadable,
    r is Err <==> error_fault(*attr, *old(attrs)),
    r is Ok ==> taken(*attr, *old(attrs), *final(attrs)),
@fn attr::get -> r
@props C04 C05 C06 C07 C08 C09 C10
@attr #[verifier::rlimit(60)]
ensures r is Err <==> unreadable(input@), r is Ok ==> read(input@, r->Ok_0),
@shape loops 1 closures 0
@loop 0 !it
    invariant
        it_all == input@.map_values(|x: Attribute| &x),
        read_upto(input@, it_n, attrs),
        forall|i: Int| 0 <= i < it_n ==> !(asks(#[trigger] input@[i]) is Unreadable || repeated(input@, i)),
    decreases input@.len() - it_n,
@at loop 0 begin
    proof { assert(*attr == input@[it_i]); }
@end
