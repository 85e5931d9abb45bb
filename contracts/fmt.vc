@spec fmt
use vstd::string::*;
use crate::unraw::Key;
use crate::ax::*;
broadcast use {crate::ax::laws, crate::ax::names};
use vstd::utf8::*;
use vstd::std_specs::cmp::PartialEqSpec;
#[verifier::opaque] pub open spec fn digits(s: Seq<char>, k: Int) -> bool { leading(s, k, |c: char| is_digit(c)) }
#[verifier::opaque] pub open spec fn name(s: Seq<char>, k: Int) -> bool { leading(s, k, |c: char| in_name(c)) }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn in_name(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_' || (c as u32 > 0x7f && !is_white(c) && !lexer_skips(c)) }
// besides whitespace
pub open spec fn lexer_skips(c: char) -> bool { c == '\u{200e}' || c == '\u{200f}' || c == '\u{feff}' }

// the brace at j is the fill character of an alignment: `{var:}>5}`
pub open spec fn is_fill(s: Seq<char>, j: Int) -> bool {
    exists|w: Int| #[trigger] white_prefix(s, w) && w + 1 == j && j + 1 < s.len() && s[w] == ':' && s[j] == '}' && (s[j + 1] == '<' || s[j + 1] == '^' || s[j + 1] == '>')
}
pub proof fn one_prefix(s: Seq<char>, a: Int, b: Int) requires white_prefix(s, a), white_prefix(s, b) ensures a == b {}
// the first brace which is not a fill character
#[verifier::opaque] pub open spec fn closes(s: Seq<char>, k: Int) -> bool {
    0 <= k < s.len() && s[k] == '}' && !is_fill(s, k) && forall|j: Int| 0 <= j < k && #[trigger] s[j] == '}' ==> is_fill(s, j)
}

// ---- the field shorthand ----
pub uninterp spec fn named_of(t: TokenStream) -> Seq<IdentUnraw>;
pub uninterp spec fn unnamed_in(t: TokenStream) -> bool;
pub open spec fn is_named(args: TokenStream, n: Seq<char>) -> bool { exists|i: Int| 0 <= i < named_of(args).len() && (#[trigger] named_of(args)[i]).name() == n }
pub open spec fn all_named(m: Seq<MemberUnraw>) -> bool { forall|i: Int| 0 <= i < m.len() ==> #[trigger] m[i] is Named }
// the field of this name
#[verifier::opaque] pub open spec fn is_field(m: Seq<MemberUnraw>, k: Key, i: Int) -> bool { 0 <= i < m.len() && m[i].key() == k && forall|j: Int| i < j < m.len() ==> (#[trigger] m[j]).key() != k }

pub open spec fn run_of_digits(s: Seq<char>) -> Int { choose|k: Int| digits(s, k) }
pub open spec fn run_of_name(s: Seq<char>) -> Int { choose|k: Int| name(s, k) }
pub open spec fn is_start(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' || c as u32 >= 0x80 }
// what a brace opens, from the text after it
pub enum Opens { Brace, Nothing, Ambiguous, Text(Int), Member(Int, Key, bool) }
pub open spec fn opens(r: Seq<char>, args: TokenStream, m: Seq<MemberUnraw>) -> Opens {
    if r.len() == 0 { Opens::Nothing }
    else if r[0] == '{' { Opens::Brace }
    else if is_digit(r[0]) {
        let n = run_of_digits(r);
        if !all_named(m) && unnamed_in(args) { Opens::Ambiguous }
        else if number(r.take(n)) > u32::MAX { Opens::Nothing }
        else { Opens::Member(n, Key::Index(number(r.take(n)) as u32), false) }
    } else if is_start(r[0]) {
        let n = run_of_name(r);
        if hits("r#", r, 0) { Opens::Text(0) }
        else { match parsed_ident(r.take(n)) {
            Some(i) => if r.take(n) == "_"@ || is_named(args, strip_raw(text(i))) { Opens::Text(n) } else { Opens::Member(n, Key::Name(strip_raw(text(i))), text(i) == "self"@) },
            None => Opens::Text(n),
        } }
    } else { Opens::Text(0) }
}
// the trait which a format spec asks for; none: plain `{}`
pub open spec fn asked_trait(spec: Seq<char>) -> Option<Trait> {
    let t = trim_back(trim_front(spec));
    let t = if t.len() > 0 && t[0] == ':' { t.skip(1) } else { t };
    if t.len() == 0 { None } else { Some(match t.last() {
        '?' => Trait::Debug, 'o' => Trait::Octal, 'x' => Trait::LowerHex, 'X' => Trait::UpperHex, 'p' => Trait::Pointer,
        'b' => Trait::Binary, 'e' => Trait::LowerExp, 'E' => Trait::UpperExp, _ => Trait::Display }) }
}
pub open spec fn the_trait(t: Option<Trait>) -> Trait { match t { Some(t) => t, None => Trait::Display } }
// how the field is handed to the formatting machinery
pub enum Class { Adapted, Pointer, Itself }
pub open spec fn class_of(t: Option<Trait>) -> Class { match t { None => Class::Adapted, Some(Trait::Pointer) => Class::Pointer, _ => Class::Itself } }
pub open spec fn prefix(c: Class) -> Seq<char> { match c { Class::Adapted => "__display"@, Class::Pointer => "__pointer"@, Class::Itself => "__field"@ } }
pub open spec fn base(c: Class, k: Key) -> Seq<char> { match k { Key::Index(i) => prefix(c) + decimal_text(i as Nat), Key::Name(n) => prefix(c) + "_"@ + n } }
// underscores are put in front of a name until it is none of the user's
pub open spec fn under(n: Nat, s: Seq<char>) -> Seq<char> decreases n { if n == 0 { s } else { "_"@ + under((n - 1) as Nat, s) } }
#[verifier::opaque] pub open spec fn is_var(args: TokenStream, c: Class, k: Key, v: Seq<char>) -> bool {
    exists|n: Nat| v == #[trigger] under(n, base(c, k)) && !is_named(args, v) && forall|j: Nat| j < n ==> is_named(args, #[trigger] under(j, base(c, k)))
}
pub open spec fn var(args: TokenStream, c: Class, k: Key) -> Seq<char> { choose|v: Seq<char>| is_var(args, c, k, v) }
// the message so far, for each use of a field its index and trait, and the variable it is bound to
pub ghost struct Done { pub out: Seq<char>, pub bounds: Seq<(usize, Trait)>, pub adapted: bool, pub own: bool, pub vars: Seq<Seq<char>> }
#[verifier::opaque] pub open spec fn names(v: Seq<IdentUnraw>) -> Seq<Seq<char>> { v.map_values(|i: IdentUnraw| i.name()) }
pub open spec fn done(out: String, bounds: coll::BTreeSet<(usize, Trait)>, adapted: bool, own: bool, vars: coll::BTreeSet<IdentUnraw>) -> Done {
    Done { out: out@, bounds: bounds.items(), adapted: adapted, own: own, vars: names(vars.items()) }
}
pub enum Outcome { Ambiguous, Unchanged, Done(Done) }
pub enum Step { Stop(Outcome), On(Seq<char>, Done) }
// up to the next brace and what it opens
pub open spec fn step_of(s: Seq<char>, args: TokenStream, m: Seq<MemberUnraw>, d: Done) -> Step {
    if exists|k: Int| first_hit('{', s, k) {
        let k = choose|k: Int| first_hit('{', s, k);
        let r = s.skip(k + 1);
        let d = Done { out: d.out + s.take(k + 1), ..d };
        match opens(r, args, m) {
            Opens::Brace => Step::On(r.skip(1), Done { out: d.out.push('{'), ..d }),
            Opens::Nothing => Step::Stop(Outcome::Unchanged),
            Opens::Ambiguous => Step::Stop(Outcome::Ambiguous),
            Opens::Text(n) => Step::On(r.skip(n), Done { out: d.out + r.take(n), ..d }),
            Opens::Member(n, key, own) => {
                let rest = r.skip(n);
                if exists|e: Int| closes(rest, e) {
                    let e = choose|e: Int| closes(rest, e);
                    let t = asked_trait(rest.take(e));
                    let d = Done { adapted: d.adapted || t is None, own: d.own || own && the_trait(t) is Display, ..d };
                    if exists|f: Int| is_field(m, key, f) {
                        let f = choose|f: Int| is_field(m, key, f);
                        Step::On(rest, Done { out: d.out + var(args, class_of(t), key), bounds: d.bounds.push((f as usize, the_trait(t))), vars: d.vars.push(var(args, class_of(t), key)), ..d })
                    } else {
                        Step::On(rest, Done { out: d.out + key.shown(), ..d })
                    }
                } else { Step::Stop(Outcome::Unchanged) }
            },
        }
    } else { Step::Stop(Outcome::Done(Done { out: d.out + s, ..d })) }
}
#[verifier::opaque] pub open spec fn outcome(s: Seq<char>, args: TokenStream, m: Seq<MemberUnraw>, d: Done) -> Outcome decreases s.len() {
    match step_of(s, args, m, d) { Step::Stop(o) => o, Step::On(r, e) => if r.len() < s.len() { outcome(r, args, m, e) } else { arbitrary() } }
}
pub proof fn one_step(s: Seq<char>, args: TokenStream, m: Seq<MemberUnraw>, d: Done)
    ensures match step_of(s, args, m, d) { Step::Stop(o) => outcome(s, args, m, d) == o, Step::On(r, e) => r.len() < s.len() ==> outcome(s, args, m, d) == outcome(r, args, m, e) }
{ reveal(outcome); }
// what happens at a use of a field
pub proof fn used(s: Seq<char>, args: TokenStream, m: Seq<MemberUnraw>, d: Done, k: Int, n: Int, key: Key, own: bool, e: Int, f: Int)
    requires first_hit('{', s, k), opens(s.skip(k + 1), args, m) == Opens::Member(n, key, own), closes(s.skip(k + 1).skip(n), e), is_field(m, key, f)
    ensures ({ let t = asked_trait(s.skip(k + 1).skip(n).take(e)); step_of(s, args, m, d) == Step::On(s.skip(k + 1).skip(n), Done { out: d.out + s.take(k + 1) + var(args, class_of(t), key), bounds: d.bounds.push((f as usize, the_trait(t))),
        vars: d.vars.push(var(args, class_of(t), key)), adapted: d.adapted || t is None, own: d.own || own && the_trait(t) is Display }) })
{ broadcast use determined; }
pub open spec fn members(f: Seq<Field>) -> Seq<MemberUnraw> { f.map_values(|x: Field| x.member) }
pub open spec fn nothing() -> Done { Done { out: Seq::empty(), bounds: Seq::empty(), adapted: false, own: false, vars: Seq::empty() } }

// each of these is determined by the text
pub broadcast proof fn one_digits(s: Seq<char>, k: Int)
    requires #[trigger] digits(s, k)
    ensures k == run_of_digits(s), 0 <= k <= s.len(), s.len() > 0 && is_digit(s[0]) ==> k > 0,
        k > 0 ==> forall|v: u32| #[trigger] parses_to::<u32>(s.take(k), v) == (v == number(s.take(k))),
        k > 0 && number(s.take(k)) <= u32::MAX ==> parses_to::<u32>(s.take(k), number(s.take(k)) as u32),
{
    reveal(digits);
    let j = run_of_digits(s);
    assert(digits(s, j));
    if j < k { assert(is_digit(s[j])); } else if k < j { assert(is_digit(s[k])); }
    if k > 0 {
        assert forall|v: u32| #[trigger] parses_to::<u32>(s.take(k), v) == (v == number(s.take(k))) by { ax_parse_u32(s.take(k), v); }
        if number(s.take(k)) <= u32::MAX { ax_parse_u32(s.take(k), number(s.take(k)) as u32); }
    }
}
pub broadcast proof fn one_name(s: Seq<char>, k: Int)
    requires #[trigger] name(s, k)
    ensures k == run_of_name(s), 0 <= k <= s.len(), s.len() > 0 && in_name(s[0]) ==> k > 0,
{
    reveal(name);
    let j = run_of_name(s);
    assert(name(s, j));
    if j < k { assert(in_name(s[j])); } else if k < j { assert(in_name(s[k])); }
}
pub broadcast proof fn one_end(s: Seq<char>, e: Int)
    requires #[trigger] closes(s, e)
    ensures e == choose|e: Int| closes(s, e), 0 <= e < s.len(), is_char_boundary(encode_utf8(s), blen(s.take(e)) as Int), blen(s.take(e)) <= encode_utf8(s).len(),
        encode_utf8(s).subrange(0, blen(s.take(e)) as Int) == encode_utf8(s.take(e)), is_char_boundary(encode_utf8(s), 0),
{
    reveal(closes);
    let j = choose|e: Int| closes(s, e);
    assert(closes(s, j));
    if j < e { assert(is_fill(s, j)); } else if e < j { assert(is_fill(s, e)); }
    cut(s, 0); cut(s, e);
}
pub broadcast proof fn one_field(m: Seq<MemberUnraw>, k: Key, i: Int)
    requires #[trigger] is_field(m, k, i)
    ensures i == choose|f: Int| is_field(m, k, f), 0 <= i < m.len()
{
    reveal(is_field);
    let j = choose|f: Int| is_field(m, k, f);
    assert(is_field(m, k, j));
    if j < i { assert(m[i].key() != k); } else if i < j { assert(m[j].key() != k); }
}
pub broadcast proof fn one_var(args: TokenStream, c: Class, k: Key, v: Seq<char>)
    requires #[trigger] is_var(args, c, k, v)
    ensures v == var(args, c, k)
{
    reveal(is_var);
    let n = choose|n: Nat| v == #[trigger] under(n, base(c, k)) && !is_named(args, v) && forall|j: Nat| j < n ==> is_named(args, #[trigger] under(j, base(c, k)));
    let w = var(args, c, k);
    assert(is_var(args, c, k, w));
    let l = choose|n: Nat| w == #[trigger] under(n, base(c, k)) && !is_named(args, w) && forall|j: Nat| j < n ==> is_named(args, #[trigger] under(j, base(c, k)));
    if l < n { assert(is_named(args, under(l, base(c, k)))); } else if n < l { assert(is_named(args, under(n, base(c, k)))); }
}
// the fields in a map, each with its position
#[verifier::opaque] pub open spec fn indexed(p: Seq<(&MemberUnraw, usize)>, m: Seq<MemberUnraw>) -> bool { p.len() == m.len() && m.len() <= usize::MAX && forall|j: Int| 0 <= j < m.len() ==> *(#[trigger] p[j]).0 == m[j] && p[j].1 == j }
pub broadcast proof fn found(p: Seq<(&MemberUnraw, usize)>, q: &MemberUnraw, m: Seq<MemberUnraw>, i: Int)
    requires indexed(p, m)
    ensures #![trigger coll::latest(p, q, i), indexed(p, m)] #![trigger is_field(m, q.key(), i), indexed(p, m), coll::latest(p, q, 0)] coll::latest(p, q, i) == is_field(m, q.key(), i), 0 <= i < m.len() ==> p[i].1 == i
{
    reveal(indexed); reveal(coll::latest); reveal(is_field);
    assert forall|j: Int| 0 <= j < m.len() implies (#[trigger] p[j]).0.eq_spec(q) == (m[j].key() == q.key()) by { assert(*p[j].0 == m[j]); }
    if coll::latest(p, q, i) { assert forall|j: Int| i < j < m.len() implies (#[trigger] m[j]).key() != q.key() by { assert(!p[j].0.eq_spec(q)); } }
    if is_field(m, q.key(), i) { assert forall|j: Int| i < j < p.len() implies !(#[trigger] p[j]).0.eq_spec(q) by { assert(m[j].key() != q.key()); } }
}
pub proof fn none_taken(o: Seq<char>, r: Seq<char>) ensures r.skip(0) == r, o + r.take(0) == o { assert(r.skip(0) =~= r); assert(o + r.take(0) =~= o); }
pub broadcast proof fn names_pushed(x: Seq<IdentUnraw>, y: IdentUnraw)
    ensures #[trigger] names(x.push(y)) == names(x).push(y.name())
{ reveal(names); assert(names(x.push(y)) =~= names(x).push(y.name())); }
pub broadcast proof fn one_brace(c: char, s: Seq<char>, k: Int)
    requires #[trigger] first_hit(c, s, k)
    ensures 0 <= k < s.len(), s[k] == c, k == choose|k: Int| first_hit(c, s, k)
{
    reveal(first_hit);
    let j = choose|k: Int| first_hit(c, s, k);
    assert(hits(c, s, k)); assert(first_hit(c, s, j)); assert(hits(c, s, j));
}
pub broadcast group determined { one_brace, names_pushed, found, one_var, one_digits, one_name, one_end, one_field }
// the longest of the user's names
pub open spec fn longest(v: Seq<IdentUnraw>) -> Nat decreases v.len() { if v.len() == 0 { 0 } else { let l = longest(v.drop_last()); if v.last().name().len() > l { v.last().name().len() } else { l } } }
pub proof fn is_longest(v: Seq<IdentUnraw>, i: Int) requires 0 <= i < v.len() ensures v[i].name().len() <= longest(v) decreases v.len()
{ if i < v.len() - 1 { is_longest(v.drop_last(), i); assert(v.drop_last()[i] == v[i]); } }
pub proof fn under_len(n: Nat, s: Seq<char>) ensures under(n, s).len() == n + s.len() decreases n { reveal_strlit("_"); if n > 0 { under_len((n - 1) as Nat, s); } }

@fn fmt::explicit_named_args -> r
@trusted
ensures r.named.items() == named_of(args), r.first_unnamed is Some == unnamed_in(args),
@fn fmt::Display::expand_shorthand -> r
@props C01 C02 C08 C10 C12 C13
@shape loops 3 closures 0
@attr #[verifier::rlimit(100)]
ensures
    (*final(self)).original == (*old(self)).original,
    match outcome(lit((*old(self)).fmt), (*old(self)).args, members(fields@), nothing()) {
        Outcome::Ambiguous => r is Err,
        Outcome::Unchanged => r is Ok && (*final(self)).fmt == (*old(self)).fmt,
        Outcome::Done(d) => r is Ok && lit((*final(self)).fmt) == d.out && (*final(self)).implied_bounds.items() == d.bounds
            && (*final(self)).has_bonus_display == d.adapted && (*final(self)).infinite_recursive == d.own,
    },
@loop 0 it
    invariant
        it.seq() == fields@.as_ref(), enum_i == it.index@,
        member_index.pairs().len() == enum_i, forall|j: Int| 0 <= j < enum_i ==> #[trigger] member_index.pairs()[j] == (&fields@[j].member, j as usize),
        extra_positional_arguments_allowed == forall|j: Int| 0 <= j < enum_i ==> #[trigger] fields@[j].member is Named,
        enum_i <= fields@.len(), fields@.len() == fields.len(),
@at loop 0 after
    proof { assert(indexed(member_index.pairs(), m)) by { reveal(indexed); assert forall|j: Int| 0 <= j < m.len() implies *(#[trigger] member_index.pairs()[j]).0 == m[j] && member_index.pairs()[j].1 == j by { assert(m[j] == fields@[j].member); } } assert(extra_positional_arguments_allowed == all_named(m)) by { assert forall|j: Int| 0 <= j < m.len() implies m[j] == #[trigger] fields@[j].member by {} } }
@at entry
    broadcast use determined;
    let ghost me = *self;
    let ghost m = members(fields@);
@loop 1
    invariant
        fmt@ == lit(me.fmt),
        outcome(fmt@, me.args, m, nothing()) == outcome(read@, me.args, m, done(out, implied_bounds, has_bonus_display, infinite_recursive, macro_named_args)),
        user_named_args.items() == named_of(me.args), first_unnamed is Some == unnamed_in(me.args), extra_positional_arguments_allowed == all_named(m),
        indexed(member_index.pairs(), m),
        m == members(fields@),
        self.fmt == me.fmt, self.args == me.args, self.original == me.original,
    ensures forall|k: Int| !#[trigger] first_hit('{', read@, k),
    decreases read@.len()
@at loop 1 before
    proof { reveal(names); assert(done(out, implied_bounds, has_bonus_display, infinite_recursive, macro_named_args).vars =~= Seq::empty()); }
@at loop 1 begin
    broadcast use {determined, identifiers};
    let ghost s = read@;
    let ghost k = choose|k: Int| first_hit('{', s, k);
    let ghost r = s.skip(k + 1);
    let ghost d = done(out, implied_bounds, has_bonus_display, infinite_recursive, macro_named_args);
    proof {
        our_prefixes();
        str_fits(read);
        one_step(s, me.args, m, d);
        assert(first_hit('{', s, k) && brace == blen(s.take(k)));
        cut(s, 0); cut(s, k); cut(s, k + 1); step(s, k);
        cut(r, 0);
        if r.len() > 0 { cut(r, 1); step(r, 0); }
        none_taken(out@ + s.take(k + 1), r);
    }
@at loop 2 before
    let ghost mut n: Nat = 0;
    let ghost b = formatvar.name();
@at loop 1 after
    proof { one_step(read@, me.args, m, done(out, implied_bounds, has_bonus_display, infinite_recursive, macro_named_args)); }
@at let member
    let ghost key = member.key();
    let ghost own = member is Named && member->Named_0.spelling() == "self"@;
    proof {
        let n = if is_digit(r[0]) { run_of_digits(r) } else { run_of_name(r) };
        assert(opens(r, me.args, m) == Opens::Member(n, key, own) && read@ == r.skip(n) && r.skip(n).len() <= r.len());
        assert(member.shown_name() == key.shown());
    }
@at let bound
    let ghost c = class_of(asked_trait(read@.take(choose|e: Int| closes(read@, e))));
    proof {
        let e = choose|e: Int| closes(read@, e);
        assert(closes(read@, e));
        assert(bound == the_trait(asked_trait(read@.take(e))) && bonus_display == (asked_trait(read@.take(e)) is None));
    }
@at let formatvar_prefix
    proof {
        assert(is_field(m, key, field as Int));
        used(s, me.args, m, d, k, if is_digit(r[0]) { run_of_digits(r) } else { run_of_name(r) }, key, own, choose|e: Int| closes(read@, e), field as Int);
        assert(formatvar_prefix@ == prefix(c));
        assert(step_of(s, me.args, m, d) == Step::On(read@, Done { out: out@ + var(me.args, c, key), bounds: implied_bounds.items(), adapted: has_bonus_display, own: infinite_recursive, vars: d.vars.push(var(me.args, c, key)) }));
    }
@at let formatvar
    proof { assert(formatvar.name() == base(c, key)); }
@at loop 2 after
    proof { assert(is_var(me.args, c, key, formatvar.name())) by { reveal(is_var); } }
@loop 2
    invariant
        user_named_args.items() == named_of(me.args), formatvar.name() == under(n, b), underscored(formatvar.name()),
        forall|j: Nat| j < n ==> is_named(me.args, #[trigger] under(j, b)),
    decreases longest(named_of(me.args)) + 1 - formatvar.name().len()
@at loop 2 begin
    broadcast use identifiers;
    proof {
        let i = choose|i: Int| 0 <= i < named_of(me.args).len() && (#[trigger] named_of(me.args)[i]).name() == formatvar.name();
        is_longest(named_of(me.args), i);
        our_prefixes();
        reveal_strlit("_");
    }
@at loop 2 end
    proof { n = n + 1; }
@fn fmt::take_int -> r
@props C01 C10
@shape loops 1 closures 0
ensures exists|k: Int| #[trigger] digits((*old(read))@, k) && r@ == (*old(read))@.take(k) && (*final(read))@ == (*old(read))@.skip(k),
@at entry
    let ghost s = (*read)@;
    let ghost mut k: Int = 0;
    proof { str_fits(*read); cut(s, 0); }
@loop 0 it
    invariant_except_break k == it.index@,
    invariant
        (*read)@ == s, it.seq() == s, lawful(&it.iter), 0 <= k <= s.len(), int_len == blen(s.take(k)), s == (*old(read))@,
        vstd::utf8::encode_utf8(s).len() <= isize::MAX,
        forall|i: Int| 0 <= i < k ==> is_digit(s[i]),
    ensures k < s.len() ==> !is_digit(s[k]),
@at loop 0 begin
    proof { step(s, k); cut(s, k + 1); }
@at loop 0 end
    proof { k = k + 1; }
@at loop 0 after
    proof { reveal(digits); cut(s, k); assert(digits(s, k)); }
@fn fmt::take_ident -> r
@props C01 C10
@shape loops 1 closures 0
ensures exists|k: Int| #[trigger] name((*old(read))@, k) && r@ == (*old(read))@.take(k) && (*final(read))@ == (*old(read))@.skip(k),
@at entry
    let ghost s = (*read)@;
    let ghost mut k: Int = 0;
    proof { str_fits(*read); cut(s, 0); }
@loop 0 it
    invariant_except_break k == it.index@,
    invariant
        (*read)@ == s, it.seq() == s, lawful(&it.iter), 0 <= k <= s.len(), ident_len == blen(s.take(k)), s == (*old(read))@,
        vstd::utf8::encode_utf8(s).len() <= isize::MAX,
        forall|i: Int| 0 <= i < k ==> in_name(s[i]),
    ensures k < s.len() ==> !in_name(s[k]),
@at loop 0 begin
    proof { step(s, k); cut(s, k + 1); }
@at loop 0 end
    proof { k = k + 1; }
@at loop 0 after
    proof { reveal(name); cut(s, k); assert(name(s, k)); }
@fn fmt::find_end_spec -> r
@props C01 C10
@shape loops 0 closures 2
ensures match r { Some(x) => exists|k: Int| #[trigger] closes(read@, k) && x == blen(read@.take(k)), None => forall|k: Int| !#[trigger] closes(read@, k) },
@at entry
    let ghost s = read@;
    proof {
        reveal(first_hit); reveal(closes); reveal_strlit(":}<"); reveal_strlit(":}^"); reveal_strlit(":}>");
        str_fits(read);
        assert forall|w: Int| #![trigger s.skip(w)] #![trigger s.take(w)] 0 <= w <= s.len() implies blen(s) == blen(s.take(w)) + blen(s.skip(w)) by { cut(s, w); }
    }
@at tail
    let ghost w = choose|w: Int| white_prefix(s, w) && spec@ == s.skip(w);
    proof {
        assert(white_prefix(s, w) && spec@ == s.skip(w));
        let fill = w + 2 < s.len() && s[w] == ':' && s[w + 1] == '}' && (s[w + 2] == '<' || s[w + 2] == '^' || s[w + 2] == '>');
        if spec@.len() >= 3 { let p = spec@.subrange(0, 3); assert(p[0] == spec@[0] && p[1] == spec@[1] && p[2] == spec@[2]); }
        if fill { assert(spec@.subrange(0, 3) =~= ":}<"@ || spec@.subrange(0, 3) =~= ":}^"@ || spec@.subrange(0, 3) =~= ":}>"@); }
        if begin != 0 { assert(fill); } else { assert(!fill); }
        let b = if fill { w + 2 } else { 0 };
        cut(s, 0); cut(s, b);
        if fill { step(s, w); step(s, w + 1); }
        assert(begin == blen(s.take(b)));
        let t = s.skip(b);
        assert forall|j: Int| is_fill(s, j) implies fill && j == w + 1 by {}
        assert forall|k: Int| #[trigger] first_hit('}', t, k) implies closes(s, b + k) && blen(s.take(b + k)) == begin + blen(t.take(k)) && begin + blen(t.take(k)) <= usize::MAX by {
            cut(s, b + k);
            assert(s.take(b + k) =~= s.take(b) + t.take(k));
            vstd::utf8::encode_utf8_concat(s.take(b), t.take(k));
            assert forall|j: Int| 0 <= j < b + k && #[trigger] s[j] == '}' implies is_fill(s, j) by { if j >= b { assert(t[j - b] == '}'); assert(hits('}', t, j - b)); } }
        }
        assert forall|k: Int| closes(s, k) implies exists|j: Int| 0 <= j <= t.len() && #[trigger] hits('}', t, j) by { assert(t[k - b] == '}'); assert(hits('}', t, k - b)); }
    }
@closure 0 |&&str| -> (b: bool)
    ensures b == hits(fill, spec@, 0)
@closure 1 |usize| -> (e: usize)
    requires begin + end <= usize::MAX
    ensures e == begin + end
@end
