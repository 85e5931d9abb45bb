@spec generics
use crate::expand::{bare, parsed};
broadcast use crate::ax::laws;

impl<'a> ParamsInScope<'a> {
    // the names in scope
    pub closed spec fn all(self) -> Names { (|n: Seq<char>| exists|k: &Ident| #[trigger] self.names@.contains(k) && text(*k) == n) }
}
// the names of the type parameters, not of the lifetimes or constants
pub open spec fn names(g: Generics) -> Names { (|n: Seq<char>| exists|i: Int| 0 <= i < type_params(g).len() && text((#[trigger] type_params(g)[i]).ident) == n) }
// The type names one of the parameters: it is one, or an argument between angle brackets somewhere on its path names one.
pub open spec fn mentions(scope: Names, ty: Type) -> bool
    decreases ty
{
    match ty {
        Type::Group(g) => mentions(scope, *g.elem),
        Type::Path(p) => pseq(p.path.segments).len() > 0 && (
            (match p.qself { Some(q) => mentions(scope, *q.ty), None => is_parameter(scope, pseq(p.path.segments)[0]) })
            || exists|i: Int, j: Int| 0 <= i < pseq(p.path.segments).len() && 0 <= j < angle(pseq(p.path.segments)[i].arguments).len()
                && (match #[trigger] angle(pseq(p.path.segments)[i].arguments)[j] { GenericArgument::Type(t) => mentions(scope, t), _ => false })),
        _ => false,
    }
}
pub open spec fn is_parameter(scope: Names, s: syn::PathSegment) -> bool { s.arguments is None && scope(text(s.ident)) }
pub proof fn mentions_bare(scope: Names, ty: Type)
    ensures mentions(scope, ty) == mentions(scope, bare(ty)), bare(ty) == ty || decreases_to!(ty => bare(ty))
    decreases ty
{ if let Type::Group(g) = ty { mentions_bare(scope, *g.elem) } }

// one of the first m arguments names a parameter
pub open spec fn args_mention(scope: Names, args: Seq<GenericArgument>, m: Int) -> bool {
    exists|j: Int| 0 <= j < m && (match #[trigger] args[j] { GenericArgument::Type(t) => mentions(scope, t), _ => false })
}
// an argument of one of the first n segments names a parameter
pub open spec fn segments_mention(scope: Names, segs: Seq<syn::PathSegment>, n: Int) -> bool {
    exists|i: Int| 0 <= i < n && args_mention(scope, angle((#[trigger] segs[i]).arguments), angle(segs[i].arguments).len() as Int)
}
pub open spec fn head_mentions(scope: Names, p: syn::TypePath) -> bool {
    match p.qself { Some(q) => mentions(scope, *q.ty), None => is_parameter(scope, pseq(p.path.segments)[0]) }
}
pub proof fn mentions_parts(scope: Names, ty: Type)
    requires bare(ty) is Path, parsed(ty)
    ensures mentions(scope, ty) == (head_mentions(scope, typath_of(bare(ty))) || segments_mention(scope, segments(bare(ty)), segments(bare(ty)).len() as Int))
{
    mentions_bare(scope, ty);
    crate::expand::bare_parsed(ty);
    let b = bare(ty);
    let segs = segments(b);
    if segments_mention(scope, segs, segs.len() as Int) {
        let i = choose|i: Int| 0 <= i < segs.len() && args_mention(scope, angle((#[trigger] segs[i]).arguments), angle(segs[i].arguments).len() as Int);
        let args = angle(segs[i].arguments);
        let j = choose|j: Int| 0 <= j < args.len() && (match #[trigger] args[j] { GenericArgument::Type(t) => mentions(scope, t), _ => false });
        assert(mentions(scope, b));
    }
    if mentions(scope, b) && !head_mentions(scope, typath_of(b)) {
        let (i, j) = choose|i: Int, j: Int| 0 <= i < segs.len() && 0 <= j < angle(segs[i].arguments).len()
                && (match #[trigger] angle(segs[i].arguments)[j] { GenericArgument::Type(t) => mentions(scope, t), _ => false });
        assert(args_mention(scope, angle(segs[i].arguments), angle(segs[i].arguments).len() as Int));
        assert(segments_mention(scope, segs, segs.len() as Int));
    }
}

@fn generics::crawl
@attr #[verifier::loop_isolation(false)]
@props C12
requires parsed(*ty),
ensures *final(found) == (*old(found) || mentions(in_scope.all(), *ty)),
decreases *ty,
@shape loops 2 closures 0
@at entry
    proof { crate::expand::bare_parsed(*ty); mentions_bare(in_scope.all(), *ty); }
    let ghost whole = *ty;
    let ghost before = *found;
    proof { if bare(*ty) is Path { mentions_parts(in_scope.all(), *ty); } }
@loop 0 it
    invariant
        lawful(&it.iter),
        it.seq() == pseq(ty.path.segments).map_values(|x: syn::PathSegment| &x),
        *found == (before || head_mentions(in_scope.all(), *ty) || segments_mention(in_scope.all(), pseq(ty.path.segments), it.index@)),
@at loop 0 begin
    let ghost n = it.index@;
    let ghost mid = *found;
    proof { assert(*segment == pseq(ty.path.segments)[n]); }
@loop 1 jt
    invariant
        lawful(&jt.iter),
        jt.seq() == pseq(arguments.args).map_values(|x: GenericArgument| &x),
        *found == (mid || args_mention(in_scope.all(), pseq(arguments.args), jt.index@)),
@at loop 1 begin
    proof {
        let segs = pseq(ty.path.segments);
        assert(*arg == pseq(arguments.args)[jt.index@]);
        assert(*arg == angle(segs[n].arguments)[jt.index@]);
        assert(decreases_to!(bare(whole) => ty.path.segments));
        assert(decreases_to!(ty.path.segments => segs[n]));
        assert(decreases_to!(segs[n] => arguments.args));
        assert(decreases_to!(arguments.args => pseq(arguments.args)[jt.index@]));
        if *arg is Type {
            let t = type_of(*arg);
            assert(decreases_to!(*arg => t));
            assert(decreases_to!(bare(whole) => t));
            assert(decreases_to!(whole => t));
        }
    }
@at loop 1 end
    assert(args_mention(in_scope.all(), pseq(arguments.args), jt.index@ + 1) == (args_mention(in_scope.all(), pseq(arguments.args), jt.index@) || (match *arg { GenericArgument::Type(t) => mentions(in_scope.all(), t), _ => false })));

@fn generics::ParamsInScope::new -> r
@props C12
@trusted
ensures r.all() == names(*generics),
@fn generics::ParamsInScope::intersects -> r
@props C12
requires parsed(*ty),
ensures r == mentions(self.all(), *ty),

@spec generics
// the texts in a sequence of tokens
pub open spec fn list_of(e: (Set<String>, Bounds)) -> Seq<Seq<char>> { codes(pseq(e.1)) }
pub open spec fn listed(e: (Set<String>, Bounds)) -> bool { forall|s: String| #[trigger] e.0@.contains(s) <==> list_of(e).contains(s@) }
impl InferredBounds {
    pub closed spec fn table(self) -> vstd::map::Map<String, (Set<String>, Bounds)> { self.bounds.map() }
    // the types in the order of their first mention
    pub closed spec fn types(self) -> Seq<Seq<char>> { codes(self.order@) }
    // the traits asked of a type, in the order of their first mention
    pub open spec fn on(self, t: Seq<char>) -> Seq<Seq<char>> {
        if self.types().contains(t) { list_of(self.table()[choose|k: String| k@ == t]) } else { Seq::empty() }
    }
    pub open spec fn sound(self) -> bool {
        &&& forall|k: String| #[trigger] self.table().contains_key(k) <==> self.types().contains(k@)
        &&& forall|k: String| self.table().contains_key(k) ==> listed(#[trigger] self.table()[k])
    }
}
pub proof fn codes_pushed(s: Seq<Seq<char>>, x: Seq<char>, y: Seq<char>) ensures joined(s, x).contains(y) == (s.contains(y) || x == y)
{ if !s.contains(x) { let z = s.push(x); assert(z[s.len() as Int] == x); if s.contains(y) { let i = choose|i: Int| 0 <= i < s.len() && s[i] == y; assert(z[i] == y); } } }
pub open spec fn joined(s: Seq<Seq<char>>, x: Seq<char>) -> Seq<Seq<char>> { if s.contains(x) { s } else { s.push(x) } }
@end
@fn generics::InferredBounds::new -> r
@props C12
ensures r.sound(), r.types() == Seq::<Seq<char>>::empty(),
@fn generics::InferredBounds::insert
@props C12
requires old(self).sound(),
ensures
    final(self).sound(),
    final(self).types() == joined(old(self).types(), code(&ty)),
    final(self).on(code(&ty)) == joined(old(self).on(code(&ty)), code(&bound)),
    forall|t: Seq<char>| t != code(&ty) ==> #[trigger] final(self).on(t) == old(self).on(t),
@at entry
    broadcast use crate::ax::tokens;
    let ghost t0 = code(&ty);
    let ghost b0 = code(&bound);
    let ghost before = *self;
    proof { assert(codes(self.order@).len() == self.order@.len()); }
@at let entry
    let ghost name = crate::ax::string_of(t0);
    let ghost known = before.table().contains_key(name);
@at last
    proof {
        let was = if known { list_of(before.table()[name]) } else { Seq::empty() };
        let now = self.table()[name];
        assert(codes(self.order@) =~= joined(before.types(), t0));
        assert(list_of(now) =~= joined(was, b0));
        assert(self.table() =~= before.table().insert(name, now));
        assert forall|k: String| #[trigger] self.table().contains_key(k) <==> self.types().contains(k@) by { codes_pushed(before.types(), t0, k@); }
        assert forall|s: String| #[trigger] now.0@.contains(s) <==> list_of(now).contains(s@) by { codes_pushed(was, b0, s@); }
        assert forall|k: String| self.table().contains_key(k) implies listed(#[trigger] self.table()[k]) by { if k != name { assert(before.table().contains_key(k)); } }
        assert forall|t: Seq<char>| t != t0 implies #[trigger] self.on(t) == before.on(t) by {
            codes_pushed(before.types(), t0, t);
            let k = choose|k: String| k@ == t;
            assert(crate::ax::string_of(t)@ == t);
        }
        assert(name@ == t0);
        codes_pushed(before.types(), t0, t0);
    }
@fn generics::InferredBounds::augment_where_clause -> r
@props C12
requires self.sound(),
ensures
    pseq(r.predicates).len() == where_of(*generics).len() + self.types().len(),
    forall|i: Int| 0 <= i < where_of(*generics).len() ==> #[trigger] pseq(r.predicates)[i] == where_of(*generics)[i],
    forall|i: Int| 0 <= i < self.types().len() ==> asks(#[trigger] pseq(r.predicates)[where_of(*generics).len() + i], self.types()[i], self.on(self.types()[i])),
@shape loops 1 closures 0
@at entry
    broadcast use crate::ax::tokens;
    let ghost g0 = *generics;
@loop 0 it
    invariant
        lawful(&it.iter),
        it.seq() == self.order@.map_values(|x: TokenStream| &x),
        self.sound(),
        pseq(where_clause.predicates).len() == where_of(g0).len() + it.index@,
        forall|i: Int| 0 <= i < where_of(g0).len() ==> #[trigger] pseq(where_clause.predicates)[i] == where_of(g0)[i],
        forall|i: Int| 0 <= i < it.index@ ==> asks(#[trigger] pseq(where_clause.predicates)[where_of(g0).len() + i], self.types()[i], self.on(self.types()[i])),
@at loop 0 begin
    broadcast use crate::ax::tokens;
    proof {
        assert(*ty == self.order@[it.index@]);
        assert(self.types()[it.index@] == code(ty));
        assert(self.types().contains(code(ty)));
        assert(crate::ax::string_of(code(ty))@ == code(ty));
        assert(self.table().contains_key(crate::ax::string_of(code(ty))));
    }
@end
