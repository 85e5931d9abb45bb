"""C13: raw identifiers are the same names as their plain spelling."""
from messages import *

KEYWORDS = "as async await become box break const continue do dyn else enum extern false final fn for gen if impl in let loop macro match mod move mut override priv pub ref return static struct trait true try type typeof union unsafe unsized use virtual where while yield abstract raw".split()
SOFT = ("union", "raw", "gen")        # not reserved in edition 2021: may be spelled either way


def cases(tier, rng):
    out = []

    def cid():
        return "c13_%04d" % len(out)

    def add(desc, v, pieces, kind, args="", items="", kani=False, raw=False):
        c = case(cid(), desc, v, pieces, rng, kind, args=args, items=items, kani=kani, raw=raw, unwind=24)
        out.append(c)
        return c

    def both(sh, desc, oracle, src, items="", kani=False):
        """Display and source() of a shape. src(v): expression over the bindings and `got`."""
        out.append(Case(cid(), desc, items + sh.decl(),
                        "%s\n    { let got = StdError::source(&e);\n%s\n    }\n    let mut a = Buf::new();\n    let ra = write!(a, \"{}\", e);\n    let mut b = Buf::new();\n    let rb: fmt::Result =\n%s;\n"
                        "    ck!(ra.is_ok() == rb.is_ok() && a.same(&b), \"Display uses the field of that name\");" % (
                            sh.make(), sh.per_variant(lambda v: src(v)), sh.per_variant(lambda v: "(|| -> fmt::Result { %s Ok(()) })()" % oracle(v))) + FORGET, kani=kani, unwind=24))

    plain_first = lambda k: k
    # every keyword as a raw field: bare in the message, by every binding kind, as a shorthand, shadowed
    for i, k in enumerate(KEYWORDS):
        kind = ("struct", "enum")[i % 2]
        f = lambda: [Field("leaf", "a"), Field("leaf", "r#" + k), Field("leaf", "z")]
        add("raw field %s" % k, Variant("named", f()), [Ph(k, "", 1), Lit(" "), Ph(k, ":?", 1), Ph(k, ":p", 1), Ph("z", "", 2), Ph(k, ":>5x", 1)], kind, kani=i % 9 == 0)
        add("raw field %s in an argument" % k, Variant("named", f()), [Arg("", "", "*r1"), Lit(","), Ph(k, "", 1), Arg("v", ":?", "(r1, 1)")], kind, args=", .r#%s, v = (.r#%s, 1)" % (k, k))
        add("raw argument %s shadows the raw field" % k, Variant("named", f()), [Arg(k, "", "7u8"), Ph("a", "", 0), Arg(k, ":?", "7u8")], ("enum", "struct")[i % 2], args=", r#%s = 7u8" % k)
        add("raw argument %s, no such field" % k, Variant("named", [Field("leaf", "a")]), [Arg(k, "", "*r0"), Ph("a", "", 0)], kind, args=", r#%s = .a" % k)
    # identifiers that are no keyword: both spellings on every side
    for i, nm in enumerate(("x", "foo", "union", "raw", "_y", "X1", "\u00f6", "fmt", "formatter", "w_w")):
        for fs in ("", "r#"):
            for an in ("", "r#"):
                kind = rng.choice(("struct", "enum"))
                mk = lambda: [Field("leaf", "a"), Field("leaf", fs + nm)]
                add("field %s%s" % (fs, nm), Variant("named", mk()), [Ph(nm, "", 1), Ph(nm, ":#x", 1), Arg("", "", "*r1")], kind, args=", .%s%s" % (an, nm) if an == fs or True else "")
                add("argument %s%s shadows field %s%s" % (an, nm, fs, nm), Variant("named", mk()), [Arg(nm, "", "r0"), Lit("/"), Arg("other", ":?", "r1")], kind, args=", %s%s = .a, other = .%s%s" % (an, nm, fs, nm), kani=i == 0)
    # an argument whose name differs from the field's only in more than the prefix does not shadow
    add("argument r_x does not shadow r#x", Variant("named", [Field("leaf", "r#x"), Field("leaf", "r")]), [Ph("x", "", 0), Ph("r", "", 1), Arg("r_x", "", "7u8")], "struct", args=", r_x = 7u8")
    add("argument typ does not shadow r#type", Variant("named", [Field("leaf", "r#type"), Field("leaf", "types")]), [Ph("type", "", 0), Ph("types", ":?", 1), Arg("typ", "", "7u8")], "enum", args=", r#typ = 7u8")
    # the derive's own names next to raw ones
    add("argument r#__field_type", Variant("named", [Field("leaf", "r#type")]), [Ph("type", ":x", 0), Arg("__field_type", "", "7u8"), Ph("type", ":?", 0)], "struct", args=", r#__field_type = 7u8")
    add("argument __display_type", Variant("named", [Field("leaf", "r#type")]), [Ph("type", "", 0), Arg("__display_type", "", "7u8"), Ph("type", ":?", 0)], "enum", args=", __display_type = 7u8")
    add("argument r#__pointer_type and ___pointer_type", Variant("named", [Field("leaf", "r#type")]), [Ph("type", ":p", 0), Arg("__pointer_type", "", "7u8"), Arg("___pointer_type", "", "8u8")], "struct", args=", r#__pointer_type = 7u8, ___pointer_type = 8u8")
    # keyword fields as source, conversion, transparent, fmt = path, backtrace
    for i, k in enumerate(("type", "match", "fn", "union", "foo", "async", "in")):
        for j, at in enumerate(("#[source]", "#[from]")):
            for kind in ("struct", "enum"):
                t = rng.choice(("leaf", "opt", "boxdyn", "node"))
                fs = [Field(t, "r#" + k, [at])]
                if at == "#[source]":
                    fs.insert(rng.randint(0, 1), Field("leaf", "other"))
                v = Variant("named", fs, [error_attr([Lit("m "), Ph(k, ":?", next(n for n, f in enumerate(fs) if f.attrs))])])
                sh, o = container(kind, v, rng)
                idx = next(n for n, f in enumerate(fs) if f.attrs)
                both(sh, "%s on r#%s %s" % (at, k, kind), lambda w, v=v, idx=idx, o=o: ('write!(b, "m {:?}", *r%d)?;' % idx) if w is v else o[id(w)],
                     lambda w, v=v, idx=idx: ("let r = r%d; ck!(%s, \"source() is that field\");" % (idx, w.fields[idx].t().src)) if w is v else "ck!(got.is_none(), \"no source\");", kani=i == 0 and kind == "struct" and t in ("leaf", "opt"))
                if at == "#[from]":
                    ft = T[t]
                    out.append(Case(cid(), "From for r#%s %s" % (k, kind), sh.decl(),
                                    "    let s: %s = %s;\n    let e = E::from(s);\n    match &e { %s { r#%s: r0 } => {}, _ => { ck!(false, \"the conversion builds that variant\"); } }" % (ft.inner or ft.rust, ft.inner_mk or ft.mk, sh.path(v), k)))
        v = Variant("named", [Field("node", "r#" + k)], ["#[error(transparent)]"])
        sh, o = container("enum", v, rng)
        both(sh, "transparent r#%s" % k, lambda w, v=v, o=o: 'write!(b, "{}", *r0)?;' if w is v else o[id(w)],
             lambda w, v=v: "ck!(same_source(got, StdError::source(r0)), \"source() is the inner error's\");" if w is v else "ck!(got.is_none(), \"no source\");")
        v = Variant("named", [Field("node", "r#" + k)], ["#[error(transparent)]"])
        both(Shape("struct", [v]), "transparent struct r#%s" % k, lambda w: 'write!(b, "{}", *r0)?;', lambda w: "ck!(same_source(got, StdError::source(r0)), \"source() is the inner error's\");")
        # the function's name differs from the fields': a binding of the same name would be what the path means
        fk = "ref"
        v = Variant("named", [Field("leaf", "r#" + k), Field("leaf", "b")], ["#[error(fmt = r#%s)]" % fk])
        sh, o = container("enum", v, rng)
        add_items = "fn r#%s(a: &Leaf, c: &Leaf, f: &mut Formatter) -> fmt::Result { write!(f, \"{}/{:?}\", c, a) }\n" % fk
        out.append(Case(cid(), "fmt = r#%s with a field r#%s" % (fk, k), add_items + sh.decl(), show_contract(sh, lambda w, v=v, o=o: 'write!(b, "{}/{:?}", r1, r0)?;' if w is v else o[id(w)])))
    # r#source is an ordinary field; a plain source next to it cannot exist, but #[source] marks it all the same
    for kind in ("struct", "enum"):
        v = Variant("named", [Field("u8", "r#source"), Field("leaf", "b")], [error_attr([Ph("source", "", 0), Ph("b", "", 1)])])
        sh, o = container(kind, v, rng)
        both(sh, "r#source is not the source %s" % kind, lambda w, v=v, o=o: 'write!(b, "{}{}", r0, r1)?;' if w is v else o[id(w)], lambda w: "ck!(got.is_none(), \"no source\");")
        v = Variant("named", [Field("leaf", "r#source", ["#[source]"]), Field("leaf", "b")], [error_attr([Ph("source", ":x", 0), Ph("b", "", 1)])])
        sh, o = container(kind, v, rng)
        both(sh, "r#source marked %s" % kind, lambda w, v=v, o=o: 'write!(b, "{:x}{}", r0, r1)?;' if w is v else o[id(w)],
             lambda w, v=v: ("let r = r0; ck!(%s, \"source() is that field\");" % T["leaf"].src) if w is v else "ck!(got.is_none(), \"no source\");")
        # a marked raw field wins over a field named source
        v = Variant("named", [Field("leaf", "source"), Field("leaf", "r#type", ["#[source]"])], [error_attr([Ph("source", "", 0), Ph("type", "", 1)])])
        sh, o = container(kind, v, rng)
        both(sh, "marked r#type next to source %s" % kind, lambda w, v=v, o=o: 'write!(b, "{}{}", r0, r1)?;' if w is v else o[id(w)],
             lambda w, v=v: ("let r = r1; ck!(%s, \"source() is that field\");" % T["leaf"].src) if w is v else "ck!(got.is_none(), \"no source\");")
    # raw names of variants, types and parameters
    sp = Variant("named", [Field(Ty("r#type", "nd.leaf()"), "r#type")], [error_attr([Ph("type", "", 0)])])
    sh = Shape("enum", [sp], generics="<r#type>", inst="<Leaf>")
    out.append(Case(cid(), "raw type parameter", sh.decl(), show_contract(sh, lambda w: 'write!(b, "{}", r0)?;')))
    out.append(Case(cid(), "raw type and variant names", "#[derive(Error, Debug)] pub enum r#type { #[error(\"a{r#in}{in}\", r#in = .r#in)] r#match { r#in: Leaf }, #[error(\"b\")] r#fn }".replace("{r#in}", ""),
                    "    let l = nd.leaf();\n    let e = if nd.bool() { r#type::r#match { r#in: l } } else { r#type::r#fn };\n    let mut a = Buf::new();\n    let ra = write!(a, \"{}\", e);\n    let mut b = Buf::new();\n    let rb = match &e { r#type::r#match { r#in: l } => write!(b, \"a{}\", l), r#type::r#fn => b.write_str(\"b\") };\n    ck!(ra.is_ok() == rb.is_ok() && a.same(&b), \"Display uses the field of that name\");"))
    # shapes at random: raw prefixes sprinkled over names, messages by bare names, arguments in either spelling
    for n in range(40 if tier == "quick" else 500):
        names = rng.sample(KEYWORDS + ["x", "y", "foo", "bar_"], rng.randint(1, 5))
        fs = [Field("leaf", ("r#" if nm in KEYWORDS and nm not in SOFT else rng.choice(("", "r#"))) + nm) for nm in names]
        shadow = [nm for nm in names if rng.random() < .3]
        args = "".join(", %s%s = %du8" % ("r#" if nm in KEYWORDS and nm not in SOFT else rng.choice(("", "r#")), nm, i) for i, nm in enumerate(shadow))
        ps = []
        for _ in range(rng.randint(1, 6)):
            i = rng.randrange(len(names))
            spc = rng.choice(("", ":?", ":>4", ":x", ":e"))
            ps += [Arg(names[i], spc, "%du8" % shadow.index(names[i])) if names[i] in shadow else Ph(names[i], spc, i), Lit(rng.choice(LITS))]
        # an unused named argument is an error of format_args!: mention each
        ps += [Arg(nm, "", "%du8" % i) for i, nm in enumerate(shadow)]
        add("random raw names %d" % n, Variant("named", fs), ps, rng.choice(("struct", "enum")), args=args)
    return out
