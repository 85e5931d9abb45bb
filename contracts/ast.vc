@spec ast
use crate::expand::parsed;
broadcast use crate::ax::laws;

@fn ast::ContainerKind::from_struct -> r
@props C03
ensures
    node.fields is Named ==> r is Struct,
    node.fields is Unnamed ==> r is TupleStruct,
    node.fields is Unit ==> r is UnitStruct,
@fn ast::ContainerKind::from_variant -> r
@props C03
ensures
    node.fields is Named ==> r is StructVariant,
    node.fields is Unnamed ==> r is TupleVariant,
    node.fields is Unit ==> r is UnitVariant,

@fn ast::Field::from_syn -> r
@props C04 C12 C13
requires parsed(node.ty),
ensures
    r is Ok ==> {
        let f = r->Ok_0;
        &&& f.original == node && *f.ty == node.ty
        &&& f.contains_generic == crate::generics::mentions(scope.all(), node.ty)
        &&& crate::attr::read(node.attrs@, f.attrs)
        &&& node.ident is Some ==> f.member is Named && f.member->Named_0.spelling() == text(node.ident->0)
        &&& node.ident is None ==> f.member is Unnamed && (i <= u32::MAX ==> f.member->Unnamed_0.index == i)
    },
    r is Err <==> crate::attr::unreadable(node.attrs@),

@fn ast::Variant::from_syn -> r
@props C08
requires parsed_fields(node.fields),
ensures r is Ok ==> r->Ok_0.original == node && crate::attr::read(node.attrs@, r->Ok_0.attrs) && fields_read(node.fields, scope.all(), r->Ok_0.fields@),
@fn ast::Field::multiple_from_syn -> r
@trusted
@props C04 C08
requires parsed_fields(*fields),
ensures r is Ok ==> fields_read(*fields, scope.all(), r->Ok_0@),
@spec ast
pub open spec fn parsed_fields(f: Fields) -> bool { forall|i: Int| 0 <= i < fields_of(f).len() ==> parsed((#[trigger] fields_of(f)[i]).ty) }
pub open spec fn field_read(node: syn::Field, i: Int, scope: Names, f: Field) -> bool {
    &&& *f.original == node && *f.ty == node.ty
    &&& f.contains_generic == crate::generics::mentions(scope, node.ty)
    &&& crate::attr::read(node.attrs@, f.attrs)
    &&& node.ident is Some ==> f.member is Named && f.member->Named_0.spelling() == text(node.ident->0)
    &&& node.ident is None ==> f.member is Unnamed && (i <= u32::MAX ==> f.member->Unnamed_0.index == i)
}
pub open spec fn fields_read(node: Fields, scope: Names, fs: Seq<Field>) -> bool {
    fs.len() == fields_of(node).len() && forall|i: Int| 0 <= i < fs.len() ==> field_read(fields_of(node)[i], i, scope, #[trigger] fs[i])
}
@end
@fn ast::Input::from_syn -> r
@props C08 C10
requires parsed_input(*node),
ensures
    node.data is Union ==> r is Err,
    r is Ok ==> match r->Ok_0 {
        Input::Struct(s) => match node.data { Data::Struct(d) => struct_read(*node, d, s), _ => false },
        Input::Enum(e) => match node.data { Data::Enum(d) => enum_read(*node, d, e), _ => false },
    },
@fn ast::Struct::from_syn -> r
@props C08
requires parsed_fields(data.fields),
ensures r is Ok ==> struct_read(*node, *data, r->Ok_0),
@fn ast::Enum::from_syn -> r
@props C08
requires forall|i: Int| 0 <= i < pseq(data.variants).len() ==> parsed_fields((#[trigger] pseq(data.variants)[i]).fields),
ensures r is Ok ==> enum_read(*node, *data, r->Ok_0),
@closure 0 |&'a syn::Variant| -> (r: Result<Variant<'a>>)
    requires parsed_fields(node.fields),
    ensures r is Ok ==> variant_read(attrs, *node, scope.all(), r->Ok_0),
@spec ast
pub open spec fn parsed_input(node: DeriveInput) -> bool {
    match node.data {
        Data::Struct(d) => parsed_fields(d.fields),
        Data::Enum(d) => forall|i: Int| 0 <= i < pseq(d.variants).len() ==> parsed_fields((#[trigger] pseq(d.variants)[i]).fields),
        Data::Union(_) => true,
    }
}
// reading the shorthand of a format string changes what is displayed, not whether something is displayed nor which attribute asked for it
pub open spec fn same_but_display(a: Attrs, b: Attrs) -> bool {
    &&& a.source == b.source && a.backtrace == b.backtrace && a.from == b.from && a.transparent == b.transparent && a.fmt == b.fmt
    &&& (a.display is Some) == (b.display is Some)
    &&& a.display is Some ==> a.display->0.original == b.display->0.original
}
pub open spec fn struct_read(node: DeriveInput, data: DataStruct, s: Struct) -> bool {
    &&& exists|a: Attrs| #[trigger] crate::attr::read(node.attrs@, a) && same_but_display(a, s.attrs)
    &&& fields_read(data.fields, crate::generics::names(node.generics), s.fields@)
}
pub open spec fn says_display(a: Attrs) -> bool { a.display is Some || a.transparent is Some || a.fmt is Some }
// a variant that says nothing about how it is displayed takes that from the enum; one that says something takes nothing
pub open spec fn inherits(outer: Attrs, own: Attrs, v: Attrs) -> bool {
    &&& v.source == own.source && v.backtrace == own.backtrace && v.from == own.from
    &&& if says_display(own) { same_but_display(own, v) } else {
        &&& v.transparent == outer.transparent && (v.fmt is Some) == (outer.fmt is Some) && (v.display is Some) == (outer.display is Some)
        &&& v.display is Some ==> v.display->0.original == outer.display->0.original
        &&& v.fmt is Some ==> v.fmt == outer.fmt
    }
}
pub open spec fn variant_read(outer: Attrs, node: syn::Variant, scope: Names, v: Variant) -> bool {
    &&& v.original == node
    &&& exists|own: Attrs| #[trigger] crate::attr::read(node.attrs@, own) && inherits(outer, own, v.attrs)
    &&& fields_read(node.fields, scope, v.fields@)
}
pub open spec fn enum_read(node: DeriveInput, data: DataEnum, e: Enum) -> bool {
    &&& crate::attr::read(node.attrs@, e.attrs)
    &&& variants_read(e.attrs, pseq(data.variants), crate::generics::names(node.generics), e.variants@)
}
pub open spec fn variants_read(outer: Attrs, nodes: Seq<syn::Variant>, scope: Names, vs: Seq<Variant>) -> bool {
    vs.len() == nodes.len() && forall|i: Int| 0 <= i < vs.len() ==> variant_read(outer, nodes[i], scope, #[trigger] vs[i])
}
@end
