"""C05: From stores the given value in the designated field, captures a backtrace, and exists only for #[from]."""
from model import *

# field type, parameter type of From, maker, id of the source value (over `src`), check over r: &FieldTy with `id`
KEYS = [
    ("Leaf", "Leaf", "nd.leaf()", "src.0", "r.0 == id"),
    ("Node", "Node", "nd.node()", "(src.v, src.inner)", "(r.v, r.inner) == id"),
    ("Leaf2", "Leaf2", "nd.leaf2()", "src.0", "r.0 == id"),
    ("Option<Leaf>", "Leaf", "nd.leaf()", "src.0", "match r { Some(r) => r.0 == id, None => false }"),
    ("o::Option<Leaf>", "Leaf", "nd.leaf()", "src.0", "match r { Some(r) => r.0 == id, None => false }"),
    ("std::option::Option<Leaf2>", "Leaf2", "nd.leaf2()", "src.0", "match r { Some(r) => r.0 == id, None => false }"),
    ("Box<dyn StdError>", "Box<dyn StdError>", "Box::new(nd.leaf())", "thin(&*src)", "thin(&**r) == id"),
    ("Option<Box<dyn StdError + Send + Sync>>", "Box<dyn StdError + Send + Sync>", "Box::new(nd.leaf())", "thin(&*src)", "match r { Some(r) => thin(&**r) == id, None => false }"),
    ("std::sync::Arc<Leaf>", "std::sync::Arc<Leaf>", "std::sync::Arc::new(nd.leaf())", "thin(&*src)", "thin(&**r) == id"),
    ("two::Option<u8, Leaf>", "two::Option<u8, Leaf>", "two::Option(nd.byte(), std::marker::PhantomData)", "src.0", "r.0 == id"),
    ("zero::Option", "zero::Option", "zero::Option(nd.byte())", "src.0", "r.0 == id"),
    ("Optional<Leaf>", "Optional<Leaf>", "Optional(nd.leaf())", "src.0 .0", "r.0.0 == id"),
    ("zero::Holder<Option<Leaf>>", "zero::Holder<Option<Leaf>>", "zero::Holder(nd.opt())", "src.0", "r.0 == id"),
]
BTS = [
    None,
    ("Backtrace", [], "captured(t)"),
    ("std::backtrace::Backtrace", [], "captured(t)"),
    ("Backtrace", ["#[backtrace]"], "captured(t)"),
    ("Option<Backtrace>", ["#[backtrace]"], "match t { Some(t) => captured(t), None => false }"),
    ("std::sync::Arc<Backtrace>", ["#[backtrace]"], "captured(t)"),
]
PRE = "use std::backtrace::Backtrace;\n"


def variant(i, bt, order, style, both, name):
    f = Field(Ty(KEYS[i][0], KEYS[i][2]), name, ["#[source]", "#[from]"] if both else ["#[from]"])
    fs = [f]
    if BTS[bt]:
        b = Field(Ty(BTS[bt][0], ""), "trace", BTS[bt][1])
        fs = [b, f] if order else [f, b]
    v = Variant(style, fs)
    v.key, v.bt, v.src_ix = i, bt, fs.index(f)
    return v


def check(v):
    i = v.key
    arm = "let r = r%d; ck!(%s, \"the value is stored in the #[from] field\");" % (v.src_ix, KEYS[i][4])
    if BTS[v.bt]:
        arm += " let t = r%d; ck!(%s, \"the backtrace field holds a freshly captured backtrace\");" % (1 - v.src_ix, BTS[v.bt][2])
    return arm


def convert(sh, v):
    """From a fresh value of v's source type; must yield v."""
    i = v.key
    s = "    {\n    #[cfg(kani)] unsafe { CAPTURES = 0; }\n    let src: %s = %s;\n    let id = %s;\n    let e: E%s = <E%s as From<%s>>::from(src);\n" % (KEYS[i][1], KEYS[i][2], KEYS[i][3], sh.inst, sh.inst, KEYS[i][1])
    pat = ", ".join("%s: r%d" % (v.member(k), k) for k in range(len(v.fields)))
    s += "    match &e { #[allow(unused_variables)] %s { %s } => { %s } #[allow(unreachable_patterns)] _ => ck!(false, \"From builds the variant with the #[from] field\") }\n%s    }\n" % (sh.path(v), pat, check(v), FORGET)
    return s


def cases(tier, rng):
    out = []

    def add(sh, desc, kani=True, neg=()):
        body = "".join(convert(sh, v) for v in sh.variants if hasattr(v, "key"))
        for t in neg:
            body += "    ck!(!impls!(E%s: From<%s>), \"no conversion without #[from]\");\n" % (sh.inst, t)
        has_bt = any(getattr(v, "bt", 0) for v in sh.variants)
        out.append(Case("c05_%04d" % len(out), desc, PRE + sh.decl(), body, kani=kani, unwind=8,
                        stubs=[("std::backtrace::Backtrace::capture", "crate::rt::stub_capture")] if has_bt else ()))

    for i in range(len(KEYS)):
        for bt in range(len(BTS)):
            for order in (0, 1):
                if order and not BTS[bt]:
                    continue
                for style in ("named", "tuple"):
                    if tier == "quick" and bt in (2, 3, 5) and (i + order + (style == "named")) % 3:
                        continue
                    v = variant(i, bt, order, style, (i + bt) % 2 == 1, "inner" if i % 2 else "source")
                    neg = ["u8", "Leaf2" if KEYS[i][1] != "Leaf2" else "Leaf"]
                    if KEYS[i][0] != KEYS[i][1]:
                        neg.append(KEYS[i][0])
                    if BTS[bt]:
                        neg.append(BTS[bt][0])
                    add(Shape("struct", [v]), "struct %s, from %s, backtrace %s%s" % (style, KEYS[i][0], BTS[bt] and " ".join(BTS[bt][1] + [BTS[bt][0]]), " first" if order else ""), True, neg)
    # enums of several conversions
    for n in range(24 if tier == "quick" else 150):
        ids, seen = [], set()
        order = list(range(len(KEYS)))
        rng.shuffle(order)
        for i in order[:rng.randint(1, 6)]:
            if KEYS[i][1] not in seen:
                seen.add(KEYS[i][1])
                ids.append(i)
        vs = [variant(i, rng.randrange(len(BTS)), rng.randint(0, 1), rng.choice(("named", "tuple")), rng.random() < .3, "inner") for i in ids]
        extra = [Variant("unit", []), Variant("tuple", [Field("leaf", None, ["#[source]"])]), Variant("named", [Field("leaf2", "source"), Field("u8", "x")]),
                 Variant("tuple", [Field("leaf", None, ["#[from(other)]"])]) if False else Variant("tuple", [Field("node")])]
        vs += rng.sample(extra, rng.randint(0, 4))
        rng.shuffle(vs)
        neg = [t for t in ("Leaf", "Leaf2", "Node", "Option<Leaf>", "u8", "Backtrace", "Box<dyn StdError + Send>", "String") if t not in seen]
        add(Shape("enum", vs), "enum of %d conversions, %d" % (len(ids), n), n < 60, neg)
    for rust, inst_from, mk, chk in (("T", "Leaf", "nd.leaf()", "r.0 == id"), ("Option<T>", "Leaf", "nd.leaf()", "match r { Some(r) => r.0 == id, None => false }")):
        KEYS.append((rust, inst_from, mk, "src.0", chk))
        v = variant(len(KEYS) - 1, 0, 0, "tuple", False, None)
        w = variant(len(KEYS) - 1, 0, 0, "named", False, "e")
        KEYS_len = len(KEYS)
        # `impl From<T> for E<T>` for a bare T overlaps core's reflexive impl, so it is wrapped
        if rust == "T":
            KEYS[-1] = ("zero::Holder<T>", "zero::Holder<Leaf>", "zero::Holder(nd.leaf())", "src.0 .0", "r.0.0 == id")
            v = variant(len(KEYS) - 1, 0, 0, "tuple", False, None)
        else:
            KEYS[-1] = ("Option<zero::Holder<T>>", "zero::Holder<Leaf>", "zero::Holder(nd.leaf())", "src.0 .0", "match r { Some(r) => r.0.0 == id, None => false }")
            v = variant(len(KEYS) - 1, 0, 0, "tuple", False, None)
        v.fields[0].ty = Ty(KEYS[-1][0], mk)
        add(Shape("struct", [v], generics="<T>", inst="<Leaf>"), "generic %s" % rust, True, ["Leaf"])
    del KEYS[-2:]
    # the type's own generics and where clause are those of the conversion
    ok = [i for i in (0, 2, 4, 5, 11) if KEYS[i][1]]
    for gen, inst, where, t, mk in (("<T: Copy>", "<u8>", "", "T", "nd.byte()"), ("<T>", "<u8>", " where T: Copy", "T", "nd.byte()"), ("<'a, T: 'a, const N: usize>", "<'static, u8, 2>", " where T: Copy + std::fmt::Debug, [T; N]: Sized", "(T, [&'a (); N])", "(nd.byte(), [&(); 2])"),
                                    ("<T: Iterator<Item = u8>>", "<std::vec::IntoIter<u8>>", " where T::Item: Copy", "T", "vec![nd.byte()].into_iter()"), ("<T = u8>", "<u8>", " where T: Send, Vec<T>: Sized", "T", "nd.byte()")):
        for i in ok:
            v = variant(i, 0, 0, "named" if i % 2 else "tuple", False, "inner")
            w = variant((i + 1) % len(KEYS) if KEYS[(i + 1) % len(KEYS)][1] != KEYS[i][1] else (i + 3) % len(KEYS), 0, 0, "tuple", False, "inner")
            p = Variant("tuple", [Field(Ty(t, mk))])
            vs = [v, p] + ([w] if KEYS[w.key][1] != KEYS[v.key][1] else [])
            add(Shape("enum", vs, generics=gen, inst=inst, where=where), "enum %s%s, from %s" % (gen, where, KEYS[i][0]), False)
    # nothing designated: no conversions at all
    for d, v in (("one error field", Variant("tuple", [Field("leaf")])), ("source field", Variant("named", [Field("leaf", "source")])), ("#[source]", Variant("tuple", [Field("leaf", None, ["#[source]"])]))):
        sh = Shape("struct", [v])
        sh2 = Shape("enum", [Variant(v.style, v.fields), Variant("unit", [])])
        for s in (sh, sh2):
            add(s, "no #[from]: %s %s" % (d, s.kind), True, ["Leaf", "u8", "Option<Leaf>"])
    return out
