@spec valid
use crate::ast::*;
use crate::prop::*;
use crate::expand::{bare, last_segment, parsed};
broadcast use crate::ax::laws;

// ---- what is a contradiction ----
pub open spec fn item_fault(a: Attrs) -> bool {
    a.from is Some || a.source is Some || a.backtrace is Some
    || (a.transparent is Some && a.display is Some)
    || (a.transparent is Some && a.fmt is Some)
    || (a.display is Some && a.fmt is Some)
}
pub open spec fn repeated_from(fs: Seq<Field>) -> bool { exists|i: Int, j: Int| 0 <= i < j < fs.len() && has_from(#[trigger] fs[i]) && has_from(#[trigger] fs[j]) }
pub open spec fn repeated_source(fs: Seq<Field>) -> bool { exists|i: Int, j: Int| 0 <= i < j < fs.len() && has_source_attr(#[trigger] fs[i]) && has_source_attr(#[trigger] fs[j]) }
pub open spec fn repeated_backtrace(fs: Seq<Field>) -> bool { exists|i: Int, j: Int| 0 <= i < j < fs.len() && has_backtrace_attr(#[trigger] fs[i]) && has_backtrace_attr(#[trigger] fs[j]) }
pub open spec fn any_transparent(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && (#[trigger] fs[i]).attrs.transparent is Some }
pub open spec fn any_source_attr(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && has_source_attr(#[trigger] fs[i]) }
pub open spec fn any_display_attr(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && display_on_field(#[trigger] fs[i]) }
pub open spec fn display_on_field(f: Field) -> bool { f.attrs.display is Some || f.attrs.fmt is Some }
// #[from] and #[source] on different fields
pub open spec fn split_source(fs: Seq<Field>) -> bool {
    exists|i: Int, j: Int| 0 <= i < fs.len() && 0 <= j < fs.len() && has_from(#[trigger] fs[i]) && has_source_attr(#[trigger] fs[j]) && !fs[i].member.same(fs[j].member)
}
// how many fields may stand next to the #[from] field f, itself included
pub open spec fn room(fs: Seq<Field>, f: Field) -> Int {
    if any_backtrace_attr(fs) {
        if exists|j: Int| 0 <= j < fs.len() && has_backtrace_attr(#[trigger] fs[j]) && !f.member.same(fs[j].member) { 2 } else { 1 }
    } else if any_backtrace_type(fs) { 2 } else { 1 }
}
pub open spec fn crowded(fs: Seq<Field>) -> bool { exists|i: Int| 0 <= i < fs.len() && has_from(#[trigger] fs[i]) && fs.len() > room(fs, fs[i]) }
// a source whose type is a reference or path with a lifetime other than 'static
pub open spec fn borrowed_source(fs: Seq<Field>) -> bool {
    exists|i: Int| 0 <= i < fs.len() && (if any_source_attr(fs) { has_source_attr(#[trigger] fs[i]) } else { has_from(fs[i]) }) && borrowed(*fs[i].ty)
}
pub open spec fn fields_fault(fs: Seq<Field>) -> bool {
    repeated_from(fs) || repeated_source(fs) || repeated_backtrace(fs) || any_transparent(fs) || split_source(fs) || crowded(fs) || borrowed_source(fs)
}
pub open spec fn is_static(l: syn::Lifetime) -> bool { text(l.ident) == "static"@ }
pub open spec fn borrowed(ty: Type) -> bool
    decreases ty
{
    match ty {
        Type::Group(g) => borrowed(*g.elem),
        Type::Path(p) => pseq(p.path.segments).len() > 0 && exists|j: Int| 0 <= j < angle(pseq(p.path.segments).last().arguments).len()
            && (match #[trigger] angle(pseq(p.path.segments).last().arguments)[j] {
                GenericArgument::Type(t) => borrowed(t),
                GenericArgument::Lifetime(l) => !is_static(l),
                _ => false,
            }),
        Type::Reference(r) => match r.lifetime { Some(l) => !is_static(l), None => false },
        _ => false,
    }
}
pub open spec fn transparent_fault(a: Attrs, fs: Seq<Field>) -> bool { a.transparent is Some && (fs.len() != 1 || any_source_attr(fs)) }
pub open spec fn struct_fault(s: Struct) -> bool {
    item_fault(s.attrs) || transparent_fault(s.attrs, s.fields@) || s.attrs.fmt is Some || fields_fault(s.fields@) || any_display_attr(s.fields@)
}
pub open spec fn variant_fault(v: Variant) -> bool {
    item_fault(v.attrs) || transparent_fault(v.attrs, v.fields@) || fields_fault(v.fields@) || any_display_attr(v.fields@)
}
pub open spec fn undisplayed(v: Variant) -> bool { v.attrs.display is None && v.attrs.transparent is None && v.attrs.fmt is None }
pub open spec fn enum_fault(e: Enum) -> bool {
    item_fault(e.attrs) || exists|i: Int| 0 <= i < e.variants@.len() && (variant_fault(#[trigger] e.variants@[i]) || (displays(e) && undisplayed(e.variants@[i])))
}
pub open spec fn fault(i: Input) -> bool { match i { Input::Struct(s) => struct_fault(s), Input::Enum(e) => enum_fault(e) } }
pub open spec fn input_parsed(i: Input) -> bool {
    match i {
        Input::Struct(s) => types_parsed(s.fields@),
        Input::Enum(e) => forall|i: Int| 0 <= i < e.variants@.len() ==> types_parsed((#[trigger] e.variants@[i]).fields@),
    }
}

@fn valid::Input::validate -> r
@props C09
requires input_parsed(*self),
ensures r is Err <==> fault(*self),

@fn valid::Struct::validate -> r
@props C09 C06
requires types_parsed(self.fields@),
ensures r is Err <==> struct_fault(*self),
@shape loops 1 closures 1
@closure 0 |&Field| -> (b: Option<crate::attr::Source>)
    ensures b == f.attrs.source
@loop 0 it
    invariant it.seq() == self.fields@.map_values(|x: Field| &x), forall|i: Int| 0 <= i < it.index@ ==> !display_on_field(#[trigger] self.fields@[i]),

@fn valid::Enum::validate -> r
@props C09 C08
requires forall|i: Int| 0 <= i < self.variants@.len() ==> types_parsed((#[trigger] self.variants@[i]).fields@),
ensures r is Err <==> enum_fault(*self),
@shape loops 1 closures 0
@loop 0 it
    invariant it.seq() == self.variants@.map_values(|x: Variant| &x), has_display == displays(*self), !item_fault(self.attrs),
        forall|i: Int| 0 <= i < self.variants@.len() ==> types_parsed((#[trigger] self.variants@[i]).fields@),
        forall|i: Int| 0 <= i < it.index@ ==> !variant_fault(#[trigger] self.variants@[i]) && !(displays(*self) && undisplayed(self.variants@[i])),

@fn valid::Variant::validate -> r
@props C09 C06
requires types_parsed(self.fields@),
ensures r is Err <==> variant_fault(*self),
@shape loops 1 closures 1
@closure 0 |&Field| -> (b: Option<crate::attr::Source>)
    ensures b == f.attrs.source
@loop 0 it
    invariant it.seq() == self.fields@.map_values(|x: Field| &x), forall|i: Int| 0 <= i < it.index@ ==> !display_on_field(#[trigger] self.fields@[i]),

@fn valid::Field::validate -> r
@props C09
ensures r is Err <==> display_on_field(*self),

@fn valid::check_non_field_attrs -> r
@props C09
ensures r is Err <==> item_fault(*attrs),

@fn valid::check_field_attrs -> r
@props C05 C09
requires types_parsed(fields@),
ensures r is Err <==> fields_fault(fields@),
@shape loops 1 closures 0
@loop 0 it
    invariant
        it.seq() == fields@.map_values(|x: Field| &x), types_parsed(fields@),
        from_field is Some <==> exists|i: Int| 0 <= i < it.index@ && has_from(#[trigger] fields@[i]),
        from_field is Some ==> exists|i: Int| 0 <= i < it.index@ && has_from(fields@[i]) && from_field->0 == #[trigger] fields@[i],
        source_field is Some <==> exists|i: Int| 0 <= i < it.index@ && has_source_attr(#[trigger] fields@[i]),
        source_field is Some ==> exists|i: Int| 0 <= i < it.index@ && has_source_attr(fields@[i]) && source_field->0 == #[trigger] fields@[i],
        backtrace_field is Some <==> exists|i: Int| 0 <= i < it.index@ && has_backtrace_attr(#[trigger] fields@[i]),
        backtrace_field is Some ==> exists|i: Int| 0 <= i < it.index@ && has_backtrace_attr(fields@[i]) && backtrace_field->0 == #[trigger] fields@[i],
        has_backtrace <==> exists|i: Int| 0 <= i < it.index@ && (has_backtrace_attr(#[trigger] fields@[i]) || typed_backtrace(fields@[i])),
        forall|i: Int, j: Int| 0 <= i < j < it.index@ ==> !(has_from(#[trigger] fields@[i]) && has_from(#[trigger] fields@[j])),
        forall|i: Int, j: Int| 0 <= i < j < it.index@ ==> !(has_source_attr(#[trigger] fields@[i]) && has_source_attr(#[trigger] fields@[j])),
        forall|i: Int, j: Int| 0 <= i < j < it.index@ ==> !(has_backtrace_attr(#[trigger] fields@[i]) && has_backtrace_attr(#[trigger] fields@[j])),
        forall|i: Int| 0 <= i < it.index@ ==> (#[trigger] fields@[i]).attrs.transparent is None,

@fn valid::contains_non_static_lifetime -> r
@attr #[verifier::loop_isolation(false)]
@props C09
requires parsed(*ty),
ensures r == borrowed(*ty),
decreases *ty,
@shape loops 1 closures 1
@closure 0 |&syn::Lifetime| -> (b: bool)
    ensures b == !is_static(*lifetime)
@at entry
    proof { crate::expand::bare_parsed(*ty); borrowed_bare(*ty); }
    let ghost whole = *ty;
@loop 0 it
    invariant
        parsed(bare(whole)), bare(whole) == whole || decreases_to!(whole => bare(whole)), bare(whole) == Type::Path(*ty),
        pseq(ty.path.segments).len() > 0, borrowed(whole) == borrowed(bare(whole)),
        pseq(ty.path.segments).last().arguments == PathArguments::AngleBracketed(*bracketed),
        lawful(&it.iter),
        it.seq() == pseq(bracketed.args).map_values(|x: GenericArgument| &x),
        forall|j: Int| 0 <= j < it.index@ ==> !(match #[trigger] pseq(bracketed.args)[j] {
            GenericArgument::Type(t) => borrowed(t),
            GenericArgument::Lifetime(l) => !is_static(l),
            _ => false,
        }),
@at loop 0 begin
    proof {
        let segs = pseq(ty.path.segments);
        assert(*arg == pseq(bracketed.args)[it.index@]);
        assert(*arg == angle(segs[segs.len() - 1].arguments)[it.index@]);
        assert(decreases_to!(bare(whole) => ty.path.segments));
        assert(decreases_to!(ty.path.segments => segs[segs.len() - 1]));
        assert(decreases_to!(segs[segs.len() - 1] => bracketed.args));
        assert(decreases_to!(bracketed.args => pseq(bracketed.args)[it.index@]));
        if *arg is Type { let t = type_of(*arg);
            assert(decreases_to!(*arg => t));
            assert(decreases_to!(bare(whole) => t));
            assert(decreases_to!(whole => t));
            if borrowed(t) { assert(borrowed(bare(whole))); }
        }
    }
@spec valid
pub proof fn borrowed_bare(ty: Type)
    ensures borrowed(ty) == borrowed(bare(ty)), bare(ty) == ty || decreases_to!(ty => bare(ty))
    decreases ty
{ if let Type::Group(g) = ty { borrowed_bare(*g.elem) } }
@end
