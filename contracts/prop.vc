@spec prop
broadcast use crate::ax::laws;

// ---- which field plays which part ----
pub open spec fn has_from(f: Field) -> bool { f.attrs.from is Some }
pub open spec fn has_source_attr(f: Field) -> bool { f.attrs.source is Some }
pub open spec fn has_backtrace_attr(f: Field) -> bool { f.attrs.backtrace is Some }
pub open spec fn marked_source(f: Field) -> bool { has_from(f) || has_source_attr(f) }
pub open spec fn named_source(f: Field) -> bool { match f.member { MemberUnraw::Named(n) => n.spelling() == "source"@, _ => false } }
// a path which ends in `Backtrace`, without arguments
pub open spec fn backtrace_type(ty: Type) -> bool {
    crate::expand::bare(ty) is Path && text(crate::expand::last_segment(ty).ident) == "Backtrace"@ && args_empty(crate::expand::last_segment(ty).arguments)
}
pub open spec fn typed_backtrace(f: Field) -> bool { backtrace_type(*f.ty) }

pub open spec fn any_from(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && has_from(#[trigger] fs[i]) }
pub open spec fn any_marked(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && marked_source(#[trigger] fs[i]) }
pub open spec fn any_named(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && named_source(#[trigger] fs[i]) }
pub open spec fn any_backtrace_attr(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && has_backtrace_attr(#[trigger] fs[i]) }
pub open spec fn any_backtrace_type(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && typed_backtrace(#[trigger] fs[i]) }

// The field at i is the #[from] field.
pub open spec fn is_from_field(fs: Seq<Field>, i: Int) -> bool {
    0 <= i < fs.len() && has_from(fs[i]) && forall|j: Int| 0 <= j < i ==> !has_from(#[trigger] fs[j])
}
// The field at i is what source() speaks about: the first one marked #[source] or #[from]; without one, the first spelled `source`.
pub open spec fn is_source_field(fs: Seq<Field>, i: Int) -> bool {
    0 <= i < fs.len() && if any_marked(fs) {
        marked_source(fs[i]) && forall|j: Int| 0 <= j < i ==> !marked_source(#[trigger] fs[j])
    } else {
        named_source(fs[i]) && forall|j: Int| 0 <= j < i ==> !named_source(#[trigger] fs[j])
    }
}
// The field at i is the backtrace: the first one marked #[backtrace]; without one, the first whose type is named Backtrace.
pub open spec fn is_backtrace_field(fs: Seq<Field>, i: Int) -> bool {
    0 <= i < fs.len() && if any_backtrace_attr(fs) {
        has_backtrace_attr(fs[i]) && forall|j: Int| 0 <= j < i ==> !has_backtrace_attr(#[trigger] fs[j])
    } else {
        typed_backtrace(fs[i]) && forall|j: Int| 0 <= j < i ==> !typed_backtrace(#[trigger] fs[j])
    }
}
pub open spec fn types_parsed(fs: Seq<Field>) -> bool { forall|i: Int| 0 <= i < fs.len() ==> crate::expand::parsed(*(#[trigger] fs[i]).ty) }

// An enum gets a Display impl when a message, fmt or transparent attribute stands on it or a message or fmt on a variant, or when
// no variant is without transparent (as when there are no variants).
pub open spec fn displays(e: Enum) -> bool {
    e.attrs.display is Some || e.attrs.transparent is Some || e.attrs.fmt is Some
    || (exists|i: Int| 0 <= i < e.variants@.len() && ((#[trigger] e.variants@[i]).attrs.display is Some || e.variants@[i].attrs.fmt is Some))
    || (forall|i: Int| 0 <= i < e.variants@.len() ==> (#[trigger] e.variants@[i]).attrs.transparent is Some)
}

@fn prop::from_field -> r
@props C05
ensures
    any_from(fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_from_field(fields@, i) && r->0 == #[trigger] fields@[i],
@shape loops 1 closures 0
@loop 0 it
    invariant it.seq() == fields@.map_values(|x: Field<'b>| &x), forall|i: Int| 0 <= i < it.index@ ==> !has_from(#[trigger] fields@[i]),

@fn prop::source_field -> r
@props C04
ensures
    any_marked(fields@) || any_named(fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_source_field(fields@, i) && r->0 == #[trigger] fields@[i],
@shape loops 2 closures 0
@loop 0 it
    invariant it.seq() == fields@.map_values(|x: Field<'b>| &x), forall|i: Int| 0 <= i < it.index@ ==> !marked_source(#[trigger] fields@[i]),
@loop 1 it
    invariant it.seq() == fields@.map_values(|x: Field<'b>| &x), !any_marked(fields@), forall|i: Int| 0 <= i < it.index@ ==> !named_source(#[trigger] fields@[i]),

@fn prop::backtrace_field -> r
@props C07
requires types_parsed(fields@),
ensures
    any_backtrace_attr(fields@) || any_backtrace_type(fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_backtrace_field(fields@, i) && r->0 == #[trigger] fields@[i],
@shape loops 2 closures 0
@loop 0 it
    invariant it.seq() == fields@.map_values(|x: Field<'b>| &x), forall|i: Int| 0 <= i < it.index@ ==> !has_backtrace_attr(#[trigger] fields@[i]),
@loop 1 it
    invariant types_parsed(fields@), it.seq() == fields@.map_values(|x: Field<'b>| &x), !any_backtrace_attr(fields@), forall|i: Int| 0 <= i < it.index@ ==> !typed_backtrace(#[trigger] fields@[i]),

@fn prop::distinct_backtrace_field -> r
@props C05
ensures
    r == (if from_field is Some && from_field->0.member.same(backtrace_field.member) { None } else { Some(backtrace_field) }),
@shape loops 0 closures 1
@closure 0 |&Field| -> (b: bool)
    ensures b == from_field.member.same(backtrace_field.member)

@fn prop::type_is_backtrace -> r
@props C05 C07 C09
requires crate::expand::parsed(*ty),
ensures r == backtrace_type(*ty),
@at entry
    proof { crate::expand::bare_parsed(*ty); }

@fn prop::Field::is_backtrace -> r
@props C05 C07 C09
requires crate::expand::parsed(*self.ty),
ensures r == typed_backtrace(*self),

@fn prop::Field::source_span
@props C10

@fn prop::Struct::from_field -> r
@props C05
ensures
    any_from(self.fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_from_field(self.fields@, i) && r->0 == #[trigger] self.fields@[i],
@fn prop::Struct::source_field -> r
@props C04
ensures
    any_marked(self.fields@) || any_named(self.fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_source_field(self.fields@, i) && r->0 == #[trigger] self.fields@[i],
@fn prop::Struct::backtrace_field -> r
@props C07
requires types_parsed(self.fields@),
ensures
    any_backtrace_attr(self.fields@) || any_backtrace_type(self.fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_backtrace_field(self.fields@, i) && r->0 == #[trigger] self.fields@[i],
@fn prop::Struct::distinct_backtrace_field -> r
@props C05
requires types_parsed(self.fields@),
ensures
    r is Some ==> exists|i: Int| is_backtrace_field(self.fields@, i) && r->0 == #[trigger] self.fields@[i]
        && forall|j: Int| is_from_field(self.fields@, j) ==> !(#[trigger] self.fields@[j]).member.same(self.fields@[i].member),
    (any_backtrace_attr(self.fields@) || any_backtrace_type(self.fields@)) && r is None ==> exists|i: Int, j: Int| is_backtrace_field(self.fields@, i)
        && is_from_field(self.fields@, j) && (#[trigger] self.fields@[j]).member.same((#[trigger] self.fields@[i]).member),

@fn prop::Variant::from_field -> r
@props C05
ensures
    any_from(self.fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_from_field(self.fields@, i) && r->0 == #[trigger] self.fields@[i],
@fn prop::Variant::source_field -> r
@props C04
ensures
    any_marked(self.fields@) || any_named(self.fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_source_field(self.fields@, i) && r->0 == #[trigger] self.fields@[i],
@fn prop::Variant::backtrace_field -> r
@props C07
requires types_parsed(self.fields@),
ensures
    any_backtrace_attr(self.fields@) || any_backtrace_type(self.fields@) <==> r is Some,
    r is Some ==> exists|i: Int| is_backtrace_field(self.fields@, i) && r->0 == #[trigger] self.fields@[i],
@fn prop::Variant::distinct_backtrace_field -> r
@props C05
requires types_parsed(self.fields@),
ensures
    r is Some ==> exists|i: Int| is_backtrace_field(self.fields@, i) && r->0 == #[trigger] self.fields@[i]
        && forall|j: Int| is_from_field(self.fields@, j) ==> !(#[trigger] self.fields@[j]).member.same(self.fields@[i].member),
    (any_backtrace_attr(self.fields@) || any_backtrace_type(self.fields@)) && r is None ==> exists|i: Int, j: Int| is_backtrace_field(self.fields@, i)
        && is_from_field(self.fields@, j) && (#[trigger] self.fields@[j]).member.same((#[trigger] self.fields@[i]).member),
@end
@fn prop::Enum::has_source -> r
@props C04
ensures r == exists|i: Int| 0 <= i < self.variants@.len() && (any_marked((#[trigger] self.variants@[i]).fields@) || any_named(self.variants@[i].fields@) || self.variants@[i].attrs.transparent is Some),
@shape loops 0 closures 1
@closure 0 |&Variant| -> (b: bool)
    ensures b == (any_marked(variant.fields@) || any_named(variant.fields@) || variant.attrs.transparent is Some)

@fn prop::Enum::has_backtrace -> r
@props C07
requires forall|i: Int| 0 <= i < self.variants@.len() ==> types_parsed((#[trigger] self.variants@[i]).fields@),
ensures r == exists|i: Int| 0 <= i < self.variants@.len() && (any_backtrace_attr((#[trigger] self.variants@[i]).fields@) || any_backtrace_type(self.variants@[i].fields@)),
@shape loops 0 closures 1
@closure 0 |&Variant| -> (b: bool)
    requires types_parsed(variant.fields@)
    ensures b == (any_backtrace_attr(variant.fields@) || any_backtrace_type(variant.fields@))

@fn prop::Enum::has_display -> r
@props C08
ensures r == displays(*self),
@shape loops 0 closures 2
@closure 0 |&Variant| -> (b: bool)
    ensures b == (variant.attrs.display is Some || variant.attrs.fmt is Some)
@closure 1 |&Variant| -> (b: bool)
    ensures b == (variant.attrs.transparent is Some)
@end
