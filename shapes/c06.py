"""C06: error(transparent) forwards Display (with the caller's options) and source() to the inner error."""
from model import *

# type, maker, expression of the inner error over r: &Ty
INNER = [
    ("Node", "nd.node()", "r"),
    ("Leaf", "nd.leaf()", "r"),
    ("Box<dyn StdError>", "Box::new(nd.node())", "&**r"),
    ("Box<dyn StdError + Send>", "Box::new(nd.node())", "&**r"),
    ("Box<dyn StdError + Send + Sync>", "Box::new(nd.node())", "&**r"),
    ("Box<dyn StdError + Send + Sync + std::panic::UnwindSafe>", "Box::new(nd.node())", "&**r"),
    ("Box<Node>", "Box::new(nd.node())", "&**r"),
    ("std::sync::Arc<Node>", "std::sync::Arc::new(nd.node())", "&**r"),
    ("two::Option<u8, Leaf>", "two::Option(nd.byte(), std::marker::PhantomData)", "r"),
    ("Optional<Leaf>", "Optional(nd.leaf())", "r"),
    ("Deep", "nd.deep()", "r"),
    ("Skin", "nd.skin()", "r"),
    ("Box<dyn StdError + Send + Sync + 'static>", "Box::new(nd.deep())", "&**r"),
    ("Box<Skin>", "Box::new(nd.skin())", "&**r"),
]
SPECS = '"{}", "{:>7}", "{:*^+9.2}", "{:<#05}", "{:-.0}"'
KSPECS = '"{}", "{:*^+9.2}"'


def inner_source(i):
    rust, _, expr = INNER[i]
    return "StdError::source(%s)" % expr


def check(i, specs):
    expr = INNER[i][2]
    return ("let inner = %s; same_display!(e, inner; %s); ck!(same_source(StdError::source(&e), StdError::source(inner)), "
            "\"source() is the inner error's source()\");" % (expr, specs))


def cases(tier, rng):
    out = []

    def add(sh, desc, checks, kani=False):
        # checks: per variant, the statements over r0..
        def f(v):
            return checks[sh.variants.index(v)]
        body = sh.make() + "\n" + sh.per_variant(f) + FORGET
        out.append(Case("c06_%04d" % len(out), desc, sh.decl(), body, kani=kani, unwind=16))

    TR = ["#[error(transparent)]"]
    for i, (rust, mk, expr) in enumerate(INNER):
        for style, name, attrs in (("named", "inner", []), ("named", "source", []), ("tuple", None, []), ("tuple", None, ["#[from]"]), ("named", "x", ["#[from]"])):
            t = Ty(rust, mk)
            v = Variant(style, [Field(t, name, attrs)], TR)
            k = bool(i in (0, 2, 4, 11) and (name == "inner" or attrs))
            add(Shape("struct", [v]), "transparent struct, %s %s of %s" % (style, name or "field", rust) + ", from" * bool(attrs),
                ["let r = r0; " + check(i, KSPECS if k else SPECS)], k)
    # enums: every inner type in its own variant, mixed with message variants
    for perm in range(3 if tier == "quick" else 20):
        vs, cs = [], []
        order = list(range(len(INNER)))
        rng.shuffle(order)
        used = set()
        for i in order[:rng.randint(3, 7)]:
            rust, mk, expr = INNER[i]
            style = rng.choice(("named", "tuple"))
            a = rng.choice(([], ["#[from]"]))
            vs.append(Variant(style, [Field(Ty(rust, mk), rng.choice(("inner", "source", "r#type")) if style == "named" else None, a)], TR))
            cs.append("let r = r0; " + check(i, SPECS))
        # others
        vs.append(Variant("tuple", [Field("leaf")], ['#[error("plain {0}")]']))
        cs.append('let mut b = Buf::new(); let mut a = Buf::new(); ck!(write!(a, "{}", e).is_ok(), "ok"); ck!(write!(b, "plain {}", r0).is_ok(), "ok"); ck!(a.same(&b), "another variant keeps its message"); ck!(StdError::source(&e).is_none(), "another variant keeps its source");')
        vs.append(Variant("named", [Field("node", "source"), Field("u8", "n")], ['#[error("with source")]']))
        cs.append('ck!(show(&e).is("with source"), "another variant keeps its message"); ck!(is_at(StdError::source(&e), thin(r0)) && is_a::<Node>(StdError::source(&e)), "another variant keeps its source");')
        vs.append(Variant("unit", [], ['#[error("unit")]']))
        cs.append('ck!(show(&e).is("unit"), "another variant keeps its message"); ck!(StdError::source(&e).is_none(), "no source");')
        z = list(zip(vs, cs))
        rng.shuffle(z)
        add(Shape("enum", [a for a, _ in z]), "mixed enum %d" % perm, [b for _, b in z])
    vs = [Variant("tuple", [Field("leaf")], ['#[error("plain {0}")]']), Variant("named", [Field(Ty(*INNER[0][:2]), "source")], TR), Variant("unit", [], ['#[error("unit")]'])]
    add(Shape("enum", vs), "small mixed enum", [
        'ck!(StdError::source(&e).is_none(), "another variant keeps its source"); let mut a = Buf::new(); let mut b = Buf::new(); ck!(write!(a, "{}", e).is_ok() && write!(b, "plain {}", r0).is_ok(), "ok"); ck!(a.same(&b), "another variant keeps its message");',
        "let r = r0; " + check(0, '"{:*^+9.2}"'), 'ck!(show(&e).is("unit"), "own message"); ck!(StdError::source(&e).is_none(), "no source");'], True)
    # all transparent, and transparent on the enum
    for d, ea, va in (("every variant transparent", [], TR), ("transparent on the enum", TR, [])):
        vs = [Variant("tuple" if i % 2 else "named", [Field(Ty(*INNER[i][:2]), None if i % 2 else "e")], va) for i in (0, 2, 4, 1)]
        add(Shape("enum", vs, ea), d, ["let r = r0; " + check(i, SPECS) for i in (0, 2, 4, 1)])
        vs = [Variant("tuple" if i % 2 else "named", [Field(Ty(*INNER[i][:2]), None if i % 2 else "e")], va) for i in (0, 1)]
        add(Shape("enum", vs, ea), d + ", small", ["let r = r0; " + check(i, '"{:*^+9.2}"') for i in (0, 1)], True)
    vs = [Variant("tuple", [Field(Ty(*INNER[0][:2]))], []), Variant("tuple", [Field("u8"), Field("leaf")], ['#[error("own")]']), Variant("named", [Field(Ty(*INNER[2][:2]), "e")], [])]
    add(Shape("enum", vs, TR), "transparent on the enum with an overriding variant",
        ["let r = r0; " + check(0, SPECS), 'ck!(show(&e).is("own"), "own message"); ck!(StdError::source(&e).is_none(), "no source");', "let r = r0; " + check(2, SPECS)], False)
    # generic
    for kind in ("struct", "enum"):
        v = Variant("tuple", [Field(Ty("T", "nd.node()"))], TR)
        sh = Shape(kind, [v], generics="<T>", inst="<Node>")
        add(sh, "generic transparent " + kind, ["let r = r0; " + check(0, SPECS)], True)
    return out
