#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None, **({"state": state} if state else {}))))

I = "impl/src/"
prop("C01", "Message placeholders render exactly the field they name",
 "For every error type with an `#[error(\"...\")]` message and every value of it, Display writes what `write!` would write if each placeholder naming a field (`{var}`, `{0}`) were given that field as its argument, with the placeholder's own format trait, fill, alignment, sign, width and precision left unchanged. `{x:p}` prints the address held in the field, not the address of the field, and a plain `{x}` also works for path fields when the std feature is on. Mentioning one field several times, or with several traits, renders every mention by its own specification.",
 ["inputs", "programs"],
 "every message string (any mix of literal text, field names, field numbers of any length and format specs), every struct or enum variant it can be attached to, and every value of the fields",
 "the tests instantiate a few dozen fixed messages on fixed values; which field, trait and spec a placeholder resolves to is computed by a string scanner over arbitrary messages",
 [I+"fmt.rs", I+"attr.rs", I+"expand.rs", "src/display.rs", "src/var.rs"],
 [("Display::expand_shorthand rewrites placeholders and creates bindings", I+"fmt.rs:20"),
  ("take_int / take_ident", I+"fmt.rs:262"), ("ToTokens for Display", I+"attr.rs:288"), ("fields_pat", I+"expand.rs:480")],
 ["Display::fmt of the derived type"])
prop("C02", "Literal message text and brace escapes are preserved",
 "For every message, all text outside placeholders appears in the Display output character for character and in order, with `{{` shown as `{` and `}}` as `}`, for every Unicode text and in any adjacency with placeholders. A message without placeholders displays as exactly its text.",
 ["inputs", "programs"],
 "every message string, including multi-byte characters, escapes next to placeholders, lone escapes, empty messages",
 "the tests contain a handful of ASCII messages; the scanner slices the message by byte offsets for arbitrary text and chooses between two code paths by the presence of braces and arguments",
 [I+"fmt.rs", I+"attr.rs"],
 [("Display::expand_shorthand copies literal runs", I+"fmt.rs:40"), ("write_str versus write! choice", I+"attr.rs:300")],
 ["Display::fmt of the derived type"])
prop("C03", "Extra format arguments keep their meaning",
 "Format arguments after the message behave as in `write!`: positional arguments are consumed in order by `{}`, named arguments resolve by name and take precedence over a field of the same name, and a reference by number that could mean either a tuple field or a positional argument is rejected. Inside argument expressions `.name` and `.0` at the start of an operand mean that field of the error, and everything else in the expression, including method calls, nested field access and float-like chains such as `.0.1`, is left as written. This does not depend on which syn features happen to be enabled in the build.",
 ["inputs", "programs", "configurations"],
 "every list of argument expressions (operators, calls, closures, blocks, casts, struct literals, ranges, nested groups), with syn's full parser on or off",
 "tests cover about thirty expressions; argument splitting is a hand-written state machine and field-shorthand detection is a token-context table",
 [I+"attr.rs", I+"fmt.rs", I+"scan_expr.rs"],
 [("parse_token_expr", I+"attr.rs:188"), ("explicit_named_args / try / fallback", I+"fmt.rs:161"), ("scan_expr tables", I+"scan_expr.rs:33")],
 ["Display::fmt of the derived type", "derive output"])
prop("C04", "source() returns exactly the designated field",
 "For every value of every derived error, `source()` returns a reference to the field marked `#[source]` or `#[from]`, or otherwise the field named `source` (spelled without the raw prefix: `r#source` opts out), and returns None when there is no such field. An optional source yields its content when Some and None when None. Fields that are merely named or typed similarly are never returned, and for an enum the choice is made from the active variant alone.",
 ["inputs", "programs"],
 "every struct or enum shape, field order and number of fields, every attribute placement, plain/Option/boxed/trait-object/Arc source types, every field value",
 "tests check some fixed types; selection runs over arbitrary field lists with attribute and name priorities, and type detection is syntactic",
 [I+"prop.rs", I+"expand.rs", "src/aserror.rs"],
 [("source_field", I+"prop.rs:91"), ("type_parameter_of_option", I+"expand.rs:550"), ("source_method in impl_struct / impl_enum", I+"expand.rs:38")],
 ["std::error::Error::source"])
prop("C05", "#[from] generates the conversion, and only that conversion",
 "For each struct or variant with a `#[from]` field there is exactly one `From` impl, from the field's type (or the content type if the field is an Option), and for every source value it builds that struct or variant with the value stored in that field. A separate backtrace field, plain or Option, is filled with a freshly captured backtrace. Nothing without `#[from]` gets a conversion, and `#[from]` next to fields other than the source and a backtrace is rejected.",
 ["inputs", "programs"],
 "every struct or enum shape with #[from], named or tuple, Option or plain, with or without a backtrace field in any position, every source value",
 "tests check that a few fixed types implement From, mostly without looking at the constructed value",
 [I+"expand.rs", I+"prop.rs", I+"valid.rs"],
 [("from_initializer", I+"expand.rs:508"), ("from_field / distinct_backtrace_field", I+"prop.rs:82"), ("check_field_attrs", I+"valid.rs:160")],
 ["From::from on the derived type"])
prop("C06", "error(transparent) forwards to the inner error",
 "For every value of a transparent struct or variant, Display writes exactly what the single inner field writes, under the caller's own formatter options, and `source()` returns exactly what the inner error's `source()` returns, not the inner error itself. Other variants of the same enum are unaffected.",
 ["inputs", "programs"],
 "every transparent struct/variant, named or tuple, plain or trait-object inner error, alone or mixed with other variants, every value and formatter option",
 "tests look at five types and one formatter configuration",
 [I+"expand.rs", I+"valid.rs", I+"ast.rs", "src/aserror.rs"],
 [("transparent branches of impl_struct / impl_enum", I+"expand.rs:38"), ("transparent validation", I+"valid.rs:17")],
 ["Display::fmt", "Error::source"])
prop("C07", "provide() exposes the right backtrace",
 "For every value of every derived error, a request for a Backtrace yields the field whose type is named Backtrace or that is marked `#[backtrace]` (its content if it is a non-empty Option), and nothing if there is none. When the `#[backtrace]` field is itself the source, every request is forwarded to the source, and when a source and an auto-detected backtrace field coexist the source is asked first. For an enum only the active variant is consulted.",
 ["inputs", "programs"],
 "every struct or enum shape with backtrace and source fields in any position and order, Option or plain, every value",
 "tests assert `is_some()` on some fixed types; they never check which backtrace came back or that forwarding passes other requests through",
 [I+"expand.rs", I+"prop.rs", "src/provide.rs"],
 [("provide_method in impl_struct / impl_enum", I+"expand.rs:79"), ("backtrace_field / type_is_backtrace", I+"prop.rs:106"), ("ThiserrorProvide", "src/provide.rs:3")],
 ["core::error::Error::provide through request_ref"])
prop("C08", "Each variant displays by its own, else the enum-level, attribute",
 "For every enum value, Display uses the message, transparent or `fmt = path` attribute of the active variant; a variant without any of these uses the enum-level one, evaluated on that variant's own fields, and a variant that has one never uses the enum-level one. `fmt = path` calls the named function with references to all fields of the variant in declaration order followed by the formatter, and returns its result. An enum on which no display attribute appears gets no Display impl, unless it has no variants.",
 ["inputs", "programs"],
 "every enum: number of variants, each variant's field shape, each combination of own and enum-level display attributes, every value",
 "tests cover one enum-level message, one enum-level fmt and a handful of overrides",
 [I+"ast.rs", I+"expand.rs", I+"prop.rs"],
 [("Enum::from_syn inheritance", I+"ast.rs:86"), ("has_display", I+"prop.rs:40"), ("display arms of impl_enum", I+"expand.rs:352")],
 ["Display::fmt of the derived enum"])
prop("C09", "Contradictory attributes are rejected, consistent ones accepted",
 "The derive reports a compile error for every input on which the attributes contradict each other or are misplaced: duplicates of the same attribute on one item or of `#[from]`, `#[source]` or `#[backtrace]` among the fields of one struct or variant, `#[from]` and `#[source]` on different fields, transparent combined with a message, a `fmt`, `#[source]` or other than exactly one field, message and `fmt` together, `fmt` on a struct, field attributes outside fields and display attributes on fields, a source whose type is a reference or path with a non-static lifetime, a variant left without display attribute while others have a message or `fmt`, and unions. Every input with none of these faults is accepted, including `#[from(...)]` attributes belonging to other derives, which are ignored.",
 ["programs"],
 "every combination and placement of the helper attributes on types, variants and any number of fields of any type",
 "the UI tests check one example per message, each with a single fault; accept/reject is a function of arbitrary attribute multisets over unbounded field lists",
 [I+"valid.rs", I+"attr.rs", I+"ast.rs", I+"prop.rs"],
 [("validate / check_field_attrs / check_non_field_attrs", I+"valid.rs:5"), ("attr::get", I+"attr.rs:66"), ("contains_non_static_lifetime", I+"valid.rs:224")],
 ["derive output (compile_error or impls)"])
prop("C10", "The derive terminates without panicking on every input",
 "For every syntactically valid type definition, whatever attributes, messages, argument tokens, generics and field types it carries, the derive macro returns without panicking, overflowing or looping forever. What it returns is always a sequence of well-formed items, or a compile error accompanied by them.",
 ["inputs", "programs"],
 "every DeriveInput, including malformed messages, unbalanced braces, huge numbers, arbitrary token soup in attribute arguments, every field type",
 "tests only run inputs somebody thought of; the code contains unwraps, indexing, byte slicing, unchecked counter decrements and unbounded loops whose safety depends on invariants across functions",
 [I+"fmt.rs", I+"attr.rs", I+"scan_expr.rs", I+"expand.rs", I+"generics.rs", I+"prop.rs", I+"valid.rs"],
 [("scan_expr depth counter", I+"scan_expr.rs:187"), ("byte slicing in expand_shorthand", I+"fmt.rs:40"), ("between", I+"fmt.rs:286"), ("unwrap / index sites", I+"expand.rs:39")],
 ["derive entry point"])
prop("C11", "Rejected inputs still get Error and Display impls",
 "Whenever the derive rejects a struct, enum or union, its output contains the compile error and also an Error impl and a Display impl for that same type with the type's own generics and where clause. These impls are well-formed items that introduce no error of their own, so that other code using the type as an error produces no secondary diagnostics.",
 ["programs"],
 "every rejected input: every kind of fault, every list of lifetime, type and const parameters with bounds and defaults, every where clause",
 "two UI tests, none with generics or a where clause",
 [I+"fallback.rs", I+"expand.rs"],
 [("fallback::expand", I+"fallback.rs:6"), ("derive", I+"expand.rs:10")],
 ["derive output"])
prop("C12", "Inferred trait bounds are exactly those the impls need",
 "For a generic error type, the Display impl requires of each field type that names a type parameter (as the type itself, or in a path or its generic arguments) exactly the formatting traits with which the message (or transparent) uses that field, and nothing of fields it does not use. The Error impl requires `Error + 'static` of a generic source type, `Error` of a generic transparent field, and `Debug + Display` of the type itself when it has type parameters. The type's own bounds and where clause are carried over to every impl unchanged.",
 ["programs"],
 "every generics list, every field type built from type parameters, paths, Option and associated types, every message",
 "tests compile seven generic types; an extra or missing bound on other types, traits or variants goes unnoticed",
 [I+"generics.rs", I+"expand.rs", I+"fmt.rs", I+"ast.rs"],
 [("crawl / intersects", I+"generics.rs:24"), ("InferredBounds", I+"generics.rs:45"), ("implied_bounds", I+"fmt.rs:118")],
 ["where clauses of the generated impls"])
prop("C13", "Raw identifiers are the same names as their plain spelling",
 "A field, message placeholder, named argument or field shorthand written with or without the raw prefix denotes the same name: messages refer to a raw field by its bare name, and named arguments shadow fields across spellings. The one exception is documented by the test suite: a field spelled `r#source` is an ordinary field, not the source. Generated code always spells a keyword field so that it compiles, and names are equal, ordered and hashed consistently.",
 ["inputs", "programs"],
 "every identifier including every keyword, raw or not, in every position where a name can occur",
 "tests use `r#type`, `r#fn` and one or two other identifiers in one or two positions",
 [I+"unraw.rs", I+"fmt.rs", I+"attr.rs", I+"prop.rs"],
 [("IdentUnraw Eq/Ord/Hash/to_local", I+"unraw.rs:11"), ("MemberUnraw", I+"unraw.rs:74")],
 ["derived impls", "derive output"])
prop("C14", "Runtime adapters are transparent",
 "The conversions that generated code relies on at run time never change what they adapt: converting any error, sized or a (Send/Sync/UnwindSafe) trait object, to `dyn Error` yields the same object with the same behaviour, forwarding a request reaches that object's own provide, displaying a value or path through the display adapter writes the same text as the value's or path's own display, and the pointer adapter prints the wrapped pointer under the same options.",
 ["inputs"],
 "every value of every error type, sized or trait object; every Display value, path and pointer; every formatter option",
 "tests exercise the adapters only incidentally through a few derived types and compare rendered strings, never identity, options or forwarding",
 ["src/aserror.rs", "src/display.rs", "src/var.rs", "src/provide.rs"],
 [("AsDynError impls", "src/aserror.rs:9"), ("AsDisplay impls", "src/display.rs:15"), ("Var", "src/var.rs:5"), ("ThiserrorProvide", "src/provide.rs:8")],
 ["methods of the adapter traits"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
