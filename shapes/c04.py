"""C04: source() returns exactly the designated field."""
from model import *

NAMES = ["a", "sources", "source_", "cause", "_source", "inner", "backtrace", "error", "src"]


def contract(sh):
    def f(v):
        d = designated(v)
        if d is None:
            return "ck!(got.is_none(), \"a value without a source field has no source\")"
        return "let r = r%d; ck!({ %s }, \"source() is the designated field\")" % (d, v.fields[d].t().src)
    return sh.make() + "\n    let got = StdError::source(&e);\n" + sh.per_variant(f) + FORGET


def cases(tier, rng):
    out = []

    def add(sh, desc, kani=True):
        out.append(Case("c04_%04d" % len(out), desc, sh.decl(), contract(sh), kani=kani))

    srcs = [k for k in T if T[k].src]
    for k in srcs:
        for kind in ("struct", "enum"):
            variants = {
                "named source": Variant("named", [Field("u8", "a"), Field(k, "source"), Field("leaf", "cause")]),
                "attr named": Variant("named", [Field("leaf", "sources"), Field(k, "inner", ["#[source]"]), Field("u8", "z")]),
                "attr beats name": Variant("named", [Field("leaf", "source"), Field(k, "x", ["#[source]"])]),
                "attr tuple": Variant("tuple", [Field("leaf"), Field("u8"), Field(k, None, ["#[source]"])]),
                "from named": Variant("named", [Field(k, "x", ["#[from]"])]),
                "from tuple": Variant("tuple", [Field(k, None, ["#[from]"])]),
                "from and source attr": Variant("tuple", [Field(k, None, ["#[source]", "#[from]"])]),
            }
            if kind == "struct":
                for d, v in variants.items():
                    add(Shape("struct", [v]), "struct, %s, %s" % (d, T[k].rust))
            else:
                vs = [v for d, v in variants.items() if d not in ("from tuple", "from and source attr")]
                vs.append(Variant("unit", []))
                vs.append(Variant("tuple", [Field("leaf")]))
                add(Shape("enum", vs), "enum, all designations, %s" % T[k].rust)
                add(Shape("enum", [variants["from and source attr"]]), "enum of one variant, %s" % T[k].rust)
    none = {
        "unit": Variant("unit", []),
        "empty tuple": Variant("tuple", []),
        "empty braces": Variant("named", []),
        "similar names": Variant("named", [Field("leaf", n) for n in NAMES]),
        "tuple of errors": Variant("tuple", [Field("leaf"), Field("boxdyn"), Field("opt")]),
        "raw r#source": Variant("named", [Field("leaf", "r#source"), Field("u8", "a")]),
        "one error": Variant("tuple", [Field("leaf")]),
        "one error named": Variant("named", [Field("leaf", "error")]),
    }
    for d, v in none.items():
        add(Shape("struct", [v]), "struct without source: " + d)
    add(Shape("enum", list(none.values())), "enum without source", True)
    # generic sources
    for rust, inst in (("T", "Leaf"), ("Option<T>", "Leaf"), ("Box<T>", "Leaf")):
        for style in ("named", "tuple"):
            t = Ty(rust, {"T": "nd.leaf()", "Option<T>": "nd.opt()", "Box<T>": "Box::new(nd.leaf())"}[rust],
                   {"T": T["leaf"].src, "Option<T>": T["opt"].src, "Box<T>": T["boxleaf"].src}[rust])
            v = Variant(style, [Field("u8", "n"), Field(t, "e", ["#[source]"])])
            add(Shape("struct", [v], generics="<T>", inst="<Leaf>"), "generic struct source %s (%s)" % (rust, style))
            v = Variant(style, [Field("u8", "n"), Field(t, "e", ["#[source]"])])
            add(Shape("enum", [v, Variant("tuple", [Field("leaf")])], generics="<T>", inst="<Leaf>"), "generic enum source %s (%s)" % (rust, style))
    # types which reach the derive as a macro fragment
    for frag, k in (("Leaf", "leaf"), ("Leaf", "opt"), ("Option<Leaf>", "opt"), ("Box<dyn StdError>", "boxdyn"), ("Box<dyn StdError + Send + Sync>", "optboxdyn"), ("std::option::Option<Leaf>", "stdopt"), ("two::Option<u8, Leaf>", "two")):
        for kind in ("struct", "enum"):
            v = [Variant("named", [Field("u8", "a"), Field(k, "source")]), Variant("tuple", [Field(k, None, ["#[source]"]), Field("u8")])]
            for vs in ([v], [v[:1]])[kind == "struct"]:
                sh = Shape(kind, vs)
                sh.frag = frag
                add(sh, "%s through a macro fragment %s, %s" % (k, frag, kind))
    # random shapes
    n = 60 if tier == "quick" else 600
    for _ in range(n):
        kind = rng.choice(("struct", "enum"))
        used_from = set()
        vs = []
        for _ in range(1 if kind == "struct" else rng.randint(1, 5)):
            vs.append(rand_variant(rng, srcs, used_from))
        add(Shape(kind, vs), "random shape %d" % _, False)
    return out


def rand_variant(rng, srcs, used_from):
    style = rng.choice(("named", "tuple", "named", "tuple", "unit"))
    if style == "unit":
        return Variant(style, [])
    n = rng.randint(0, 6)
    names = NAMES[:]
    rng.shuffle(names)
    fs = [Field(rng.choice(list(T)), names[i] if style == "named" else None) for i in range(n)]
    mode = rng.choice(("none", "name", "attr", "attr+name", "from"))
    if mode in ("name", "attr+name") and style == "named":
        fs.insert(rng.randint(0, len(fs)), Field(rng.choice(srcs), "source"))
    if mode in ("attr", "attr+name"):
        fs.insert(rng.randint(0, len(fs)), Field(rng.choice(srcs), "designated" if style == "named" else None, ["#[source]"]))
    if mode == "from":
        k = rng.choice(srcs)
        key = T[k].inner or T[k].rust
        if key not in used_from:
            used_from.add(key)
            fs = [Field(k, "designated" if style == "named" else None, rng.choice((["#[from]"], ["#[source]", "#[from]"])))]
    return Variant(style, fs)
