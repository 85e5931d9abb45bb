// Axioms about the types of ext.rs, kept apart because a module cannot both assume a specification and broadcast its axioms.
#[allow(unused_imports)] use vstd::prelude::*;
use crate::verif::*;
#[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec;
use syn::punctuated::Punctuated;
#[allow(unused_imports)] use vstd::string::*;
#[allow(unused_imports)] use vstd::utf8::*;

verus! {

pub broadcast axiom fn ax_str(s: &str) ensures #[trigger] as_str::<str>(s) == s@;
pub broadcast axiom fn ax_refstr(s: &&str) ensures #[trigger] as_str::<&str>(s) == s@;
pub broadcast axiom fn ax_index<T, P>(p: &Punctuated<T, P>, i: usize)
    ensures #[trigger] vstd::std_specs::core::IndexSpec::index_req(p, &i) == (i < pseq(*p).len());
// an element of a list is smaller than the list (for the termination of recursion over types)
pub broadcast axiom fn ax_element<T, P>(p: Punctuated<T, P>, i: int)
    requires 0 <= i < pseq(p).len()
    ensures #[trigger] decreases_to!(p => pseq(p)[i]);
pub broadcast axiom fn ax_index_eq(a: &syn::Index, b: &syn::Index)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a.index == b.index);
pub broadcast axiom fn ax_index_obeys()
    ensures #[trigger] <syn::Index as vstd::std_specs::cmp::PartialEqSpec<syn::Index>>::obeys_eq_spec();
// identifiers are ordered by their text, and looked up in a set of references by it
pub broadcast axiom fn ax_ident_order()
    ensures #[trigger] vstd::laws_cmp::obeys_cmp::<&proc_macro2::Ident>();
pub broadcast axiom fn ax_ident_lookup(s: Set<&proc_macro2::Ident>, i: &proc_macro2::Ident)
    ensures #[trigger] vstd::std_specs::btree::set_contains_borrowed_key::<&proc_macro2::Ident, proc_macro2::Ident>(s, i) == exists|k: &proc_macro2::Ident| #[trigger] s.contains(k) && text(*k) == text(*i);
// collecting results gives the values in order, if none is an error
pub broadcast axiom fn ax_collect_results<T, E>(s: Seq<Result<T, E>>, r: Result<Vec<T>, E>)
    ensures #[trigger] vstd::std_specs::iter::FromIteratorSpec::from_iter_ensures(s, r) ==> match r {
        Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(v@[i]),
        Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
    };
// proved: the element which an iterator over a slice hands out
pub broadcast proof fn element<'a, T>(v: Seq<T>, it: std::slice::Iter<'a, T>, i: int)
    requires IteratorSpec::remaining(&it) == v.as_ref(), 0 <= i < v.len()
    ensures #![trigger v[i], IteratorSpec::remaining(&it)] #![trigger IteratorSpec::remaining(&it)[i], v.len()] *IteratorSpec::remaining(&it)[i] == v[i]
{}
// ---- positions in strings: proved from vstd's definition of UTF-8 ----
pub proof fn boundary(a: Seq<char>, b: Seq<char>) ensures is_char_boundary(encode_utf8(a + b), blen(a) as Int)
  decreases a.len()
{
    encode_utf8_valid_utf8(a + b);
    encode_utf8_concat(a, b);
    is_char_boundary_start_end_of_seq(encode_utf8(a + b));
    if a.len() > 0 {
        boundary(a.drop_first(), b);
        assert((a + b).drop_first() == a.drop_first() + b);
        encode_utf8_first_scalar(a + b);
        encode_utf8_first_scalar(a);
        assert(pop_first_scalar(encode_utf8(a + b)) == encode_utf8(a.drop_first() + b));
        assert(pop_first_scalar(encode_utf8(a)) == encode_utf8(a.drop_first()));
    } else { assert(encode_utf8(a).len() == 0); }
}
// the first k characters of s end at a boundary between characters
pub proof fn cut(s: Seq<char>, k: Int)
    requires 0 <= k <= s.len()
    ensures
        is_char_boundary(encode_utf8(s), blen(s.take(k)) as Int), is_char_boundary(encode_utf8(s), encode_utf8(s).len() as Int), blen(s.take(k)) <= encode_utf8(s).len(),
        encode_utf8(s).subrange(0, blen(s.take(k)) as Int) == encode_utf8(s.take(k)),
        encode_utf8(s).subrange(blen(s.take(k)) as Int, encode_utf8(s).len() as Int) == encode_utf8(s.skip(k)),
{
    boundary(s.take(k), s.skip(k));
    assert(s == s.take(k) + s.skip(k));
    encode_utf8_concat(s.take(k), s.skip(k));
    encode_utf8_valid_utf8(s);
    is_char_boundary_start_end_of_seq(encode_utf8(s));
}
pub proof fn step(s: Seq<char>, k: Int)
    requires 0 <= k < s.len()
    ensures blen(s.take(k + 1)) == blen(s.take(k)) + encode_scalar(s[k] as u32).len(), s[k] as u32 <= 0x7f ==> encode_scalar(s[k] as u32).len() == 1
{
    assert(s.take(k + 1) == s.take(k) + seq![s[k]]);
    encode_utf8_concat(s.take(k), seq![s[k]]);
    assert(seq![s[k]].drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(seq![s[k]]) == encode_scalar(s[k] as u32) + encode_utf8(Seq::<char>::empty()));
    assert(encode_utf8(Seq::<char>::empty()).len() == 0);
}
// what a string slice is, from its bytes
pub broadcast proof fn str_is(a: &str, b: Seq<char>)
    requires a.spec_bytes() == encode_utf8(b)
    ensures #![trigger a.spec_bytes(), encode_utf8(b)] a@ == b
{ encode_utf8_decode_utf8(b); encode_utf8_decode_utf8(a@); assert(a.spec_bytes() == encode_utf8(a@)); }

// what it is for a character or a string to be found in a string
pub broadcast axiom fn ax_hit_char(c: char, s: Seq<char>, i: int, n: int)
    ensures #[trigger] hit::<char>(c, s, i, n) == (n == 1 && 0 <= i < s.len() && s[i] == c);
pub broadcast axiom fn ax_hit_str(c: &str, s: Seq<char>, i: int, n: int)
    ensures #[trigger] hit::<&str>(c, s, i, n) == (n == c@.len() && 0 <= i && i + n <= s.len() && s.subrange(i, i + n) == c@);
pub broadcast axiom fn ax_hit_refstr(c: &&str, s: Seq<char>, i: int, n: int)
    ensures #[trigger] hit::<&&str>(c, s, i, n) == (n == c@.len() && 0 <= i && i + n <= s.len() && s.subrange(i, i + n) == c@);
// proved: the same, without the length
pub broadcast proof fn hits_char(c: char, s: Seq<char>, i: int)
    ensures #[trigger] hits::<char>(c, s, i) == (0 <= i < s.len() && s[i] == c)
{ broadcast use ax_hit_char; assert(hit::<char>(c, s, i, 1) == (0 <= i < s.len() && s[i] == c)); }
pub broadcast proof fn hits_str(c: &str, s: Seq<char>, i: int)
    ensures #[trigger] hits::<&str>(c, s, i) == (0 <= i && i + c@.len() <= s.len() && s.subrange(i, i + c@.len()) == c@)
{ broadcast use ax_hit_str; assert(hit::<&str>(c, s, i, c@.len() as int) == (0 <= i && i + c@.len() <= s.len() && s.subrange(i, i + c@.len()) == c@)); }
pub broadcast proof fn hits_refstr(c: &&str, s: Seq<char>, i: int)
    ensures #[trigger] hits::<&&str>(c, s, i) == (0 <= i && i + c@.len() <= s.len() && s.subrange(i, i + c@.len()) == c@)
{ broadcast use ax_hit_refstr; assert(hit::<&&str>(c, s, i, c@.len() as int) == (0 <= i && i + c@.len() <= s.len() && s.subrange(i, i + c@.len()) == c@)); }
pub broadcast axiom fn ax_display_ident(i: &proc_macro2::Ident, f: &core::fmt::Formatter<'_>) ensures #[trigger] vstd::std_specs::fmt::DisplaySpec::fmt_req(i, f);
// `s += t` on strings
pub broadcast axiom fn ax_push_req(s: &String, t: &str) ensures #[trigger] vstd::std_specs::ops::AddAssignSpec::<&str>::add_assign_req(s, t);
pub broadcast axiom fn ax_push_obeys<'a>() ensures #[trigger] <String as vstd::std_specs::ops::AddAssignSpec<&'a str>>::obeys_add_assign_spec();
pub broadcast axiom fn ax_push(s: &String, t: &str) ensures (#[trigger] vstd::std_specs::ops::AddAssignSpec::<&str>::add_assign_spec(s, t))@ == s@ + t@;
// `x.to_string()` is what Display writes
pub broadcast axiom fn ax_shown_ident(x: &crate::unraw::IdentUnraw, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(x, r) ==> r@ == x.name();
pub broadcast axiom fn ax_shown_member(x: &crate::unraw::MemberUnraw, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(x, r) ==> r@ == x.shown_name();
// two string slices of the same text are the same to a pattern
pub broadcast axiom fn ax_same_str(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
// strings of the same text are the same key; `x.to_string()` of tokens is their text; a new set or sequence is empty
pub broadcast axiom fn ax_same_string(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
// every text is that of a string
pub uninterp spec fn string_of(t: Seq<char>) -> String;
pub broadcast axiom fn ax_string_of(t: Seq<char>) ensures (#[trigger] string_of(t))@ == t;
pub broadcast axiom fn ax_string_order() ensures #[trigger] vstd::laws_cmp::obeys_cmp::<String>();
pub broadcast axiom fn ax_shown_tokens(x: &proc_macro2::TokenStream, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(x, r) ==> r@ == code(x);
pub broadcast axiom fn ax_code_ref<T: ?Sized>(x: &&T) ensures #[trigger] code::<&T>(x) == code::<T>(*x);
pub broadcast axiom fn ax_no_bounds(r: (std::collections::BTreeSet<String>, Bounds))
    ensures #[trigger] call_ensures(<(std::collections::BTreeSet<String>, Bounds) as Default>::default, (), r) ==> r.0@ == Set::<String>::empty() && pseq(r.1) == Seq::<proc_macro2::TokenStream>::empty();
pub broadcast group tokens { ax_same_string, ax_string_of, ax_string_order, ax_shown_tokens, ax_code_ref, ax_no_bounds }
// the order of texts tells any two of them apart
pub broadcast axiom fn ax_text_order(a: Seq<char>, b: Seq<char>) ensures (#[trigger] text_order(a, b) == std::cmp::Ordering::Equal) == (a == b);
// the name of an identifier can be written with a raw prefix, unless it is one of five; `x.to_string()` is its text
pub broadcast axiom fn ax_of_ident(i: proc_macro2::Ident) ensures of_ident(strip_raw(#[trigger] text(i)));
pub broadcast axiom fn ax_shown_plain(x: &proc_macro2::Ident, r: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(x, r) ==> r@ == text(*x);
// identifiers: after an underscore anything goes that may continue one
pub broadcast axiom fn ax_ident_cont(i: proc_macro2::Ident) ensures continues(strip_raw(#[trigger] text(i))) && strip_raw(text(i)).len() > 0;
pub broadcast axiom fn ax_ident_under(s: Seq<char>) requires underscored(s) ensures #[trigger] ident_text(s);
pub broadcast axiom fn ax_cont(c: char) ensures ('a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_') ==> #[trigger] is_cont(c);
pub broadcast proof fn decimal_cont(n: nat) ensures continues(#[trigger] decimal_text(n)), decimal_text(n).len() > 0 decreases n
{ broadcast use ax_cont; reveal(continues); if n >= 10 { decimal_cont(n / 10); assert('0' <= digit(n % 10) <= '9'); } else { assert('0' <= digit(n) <= '9'); } }
pub broadcast proof fn glued(a: Seq<char>, b: Seq<char>) requires underscored(a), continues(b) ensures underscored(#[trigger] glue(a, b)), glue(a, b) == a + b { reveal(glue); reveal(continues); }
pub broadcast proof fn glued_first(a: Seq<char>, b: Seq<char>) requires a.len() == 0 ensures #[trigger] glue(a, b) == b { reveal(glue); }
pub proof fn our_prefixes() ensures underscored("__display"@), underscored("__pointer"@), underscored("__field"@), underscored("_"@)
{ broadcast use ax_cont; reveal(continues); reveal_strlit("__display"); reveal_strlit("__pointer"); reveal_strlit("__field"); reveal_strlit("_"); }
pub broadcast group identifiers { ax_ident_cont, ax_ident_under, decimal_cont, glued, glued_first }
// a number that fits is read as what it says
pub broadcast axiom fn ax_parse_u32(s: Seq<char>, v: u32)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9'
    ensures #[trigger] parses_to::<u32>(s, v) == (v == number(s));
// a string in memory is not longer than a pointer can say
pub axiom fn str_fits(s: &str) ensures s.spec_bytes().len() <= isize::MAX;

// those about the types of unraw.rs, which that module itself does not use
pub broadcast group names { ax_shown_ident, ax_shown_member }
pub broadcast group laws { ax_display_ident, ax_text_order, ax_of_ident, ax_shown_plain, ax_hit_char, ax_push_req, ax_push_obeys, ax_push, str_is, hits_char, hits_str, hits_refstr, ax_collect_results, ax_ident_order, ax_ident_lookup, element, ax_index_eq, ax_index_obeys, ax_str, ax_refstr, ax_index, ax_element }

} // verus!
