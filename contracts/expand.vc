@spec expand
broadcast use crate::ax::laws;

// A type as syn hands it out: every path has a segment, at every depth. What the parser guarantees.
pub open spec fn parsed(ty: Type) -> bool
    decreases ty
    via parsed_decreases
{
    match ty {
        Type::Group(g) => parsed(*g.elem),
        Type::Path(p) => pseq(p.path.segments).len() > 0
            && (match p.qself { Some(q) => parsed(*q.ty), None => true })
            && forall|i: Int, j: Int| #![trigger angle(pseq(p.path.segments)[i].arguments)[j]]
                0 <= i < pseq(p.path.segments).len() && 0 <= j < angle(pseq(p.path.segments)[i].arguments).len()
                ==> match angle(pseq(p.path.segments)[i].arguments)[j] { GenericArgument::Type(t) => parsed(t), _ => true },
        _ => true,
    }
}
#[via_fn]
proof fn parsed_decreases(ty: Type) {
}

// The type inside the invisible groups which a macro_rules fragment puts around it.
pub open spec fn bare(ty: Type) -> Type
    decreases ty
{
    match ty { Type::Group(g) => bare(*g.elem), _ => ty }
}

pub open spec fn last_segment(ty: Type) -> syn::PathSegment { segments(bare(ty)).last() }

// A path which ends in `Option<T>`, with exactly one argument, a type.
pub open spec fn optional(ty: Type) -> Option<Type> {
    if bare(ty) is Path && text(last_segment(ty).ident) == "Option"@ && angle(last_segment(ty).arguments).len() == 1
        && (angle(last_segment(ty).arguments)[0] is Type) {
        Some(type_of(angle(last_segment(ty).arguments)[0]))
    } else { None }
}
pub proof fn bare_parsed(ty: Type)
    requires parsed(ty)
    ensures parsed(bare(ty)), !(bare(ty) is Group)
    decreases ty
{ if let Type::Group(g) = ty { bare_parsed(*g.elem) } }

@fn expand::ungroup -> r
@props C04 C05 C07 C09 C12
ensures *r == bare(*ty), !(*r is Group),
@shape loops 1 closures 0
@loop 0
    invariant bare(*ty) == bare(*ty0),
    ensures bare(*ty) == bare(*ty0), !(*ty is Group),
    decreases *ty,
@at entry
    let ghost ty0 = ty;

@fn expand::type_parameter_of_option -> r
@props C04 C05 C07
requires parsed(*ty),
ensures
    optional(*ty) is None ==> r is None,
    optional(*ty) is Some ==> r is Some && *r->0 == optional(*ty)->0,
@at entry
    proof { bare_parsed(*ty); }

@fn expand::type_is_option -> r
@props C04 C05 C07
requires parsed(*ty),
ensures r == (optional(*ty) is Some),
@end
