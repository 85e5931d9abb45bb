"""C07: which backtrace (and which other values) a request on a derived error yields."""
from model import *

PRE = "use std::backtrace::Backtrace;\nuse std::error::request_ref;\nmod other { #[derive(Debug)] pub struct Backtrace<T>(pub T); #[derive(Debug)] pub struct MyBacktrace(pub u8); }\n"
# source types: rust, maker, expression over r giving Option<&Prov> (None also when the source provides nothing)
SRC = {
    "none": None,
    "prov": ("Prov", "nd.prov()", "Some(r)"),
    "optprov": ("Option<Prov>", "if nd.bool() { Some(nd.prov()) } else { None }", "r.as_ref()"),
    "boxdyn": ("Box<dyn StdError>", "Box::new(nd.prov())", "(&**r).downcast_ref::<Prov>()"),
    "boxdynss": ("Box<dyn StdError + Send + Sync>", "Box::new(nd.prov())", "(&**r).downcast_ref::<Prov>()"),
    "optboxdyn": ("Option<Box<dyn StdError + Send + Sync>>", "if nd.bool() { Some(Box::new(nd.prov()) as Box<dyn StdError + Send + Sync>) } else { None }", "match r { Some(r) => (&**r).downcast_ref::<Prov>(), None => None }"),
    "arc": ("std::sync::Arc<Prov>", "std::sync::Arc::new(nd.prov())", "Some(&**r)"),
    "leaf": ("Leaf", "nd.leaf()", "{ let _ = r; None::<&Prov> }"),
    "optleaf": ("Option<Leaf>", "nd.opt()", "{ let _ = r; None::<&Prov> }"),
}
BT = {
    "none": None,
    "auto": ("Backtrace", "Backtrace::disabled()", [], "Some(t)"),
    "autopath": ("::std::backtrace::Backtrace", "Backtrace::disabled()", [], "Some(t)"),
    "attr": ("Backtrace", "Backtrace::disabled()", ["#[backtrace]"], "Some(t)"),
    "attropt": ("Option<Backtrace>", "if nd.bool() { Some(Backtrace::disabled()) } else { None }", ["#[backtrace]"], "t.as_ref()"),
    "attrarc": ("std::sync::Arc<Backtrace>", "std::sync::Arc::new(Backtrace::disabled())", ["#[backtrace]"], "Some(&**t)"),
    "unmarkedopt": ("Option<Backtrace>", "Some(Backtrace::disabled())", [], "{ let _ = t; None::<&Backtrace> }"),
    "generic": ("other::Backtrace<u8>", "other::Backtrace(1)", [], "{ let _ = t; None::<&Backtrace> }"),
    "similar": ("other::MyBacktrace", "other::MyBacktrace(1)", [], "{ let _ = t; None::<&Backtrace> }"),
    "onsource": None,
}

NOT = ("unmarkedopt", "generic", "similar")      # of a type which is not Backtrace


class P:
    pass


def variant(src, bt, style, how, rng, extra=True, bt_first=None, decoy=False):
    """how: name | source | from"""
    s = b = None
    fs = []
    if src != "none":
        attrs = {"name": [], "source": ["#[source]"], "from": ["#[from]"]}[how]
        if bt == "onsource":
            attrs = attrs + ["#[backtrace]"]
            if rng.random() < .5:
                attrs.reverse()
        s = Field(Ty(SRC[src][0], SRC[src][1]), "source" if how == "name" else "designated", attrs)
        fs.append(s)
    if BT[bt]:
        b = Field(Ty(BT[bt][0], BT[bt][1]), "bt", BT[bt][2])
        fs.insert(0 if (rng.random() < .5 if bt_first is None else bt_first) else len(fs), b)
    if decoy:    # a second field that would be detected by type, next to an explicit attribute
        fs.insert(rng.randint(0, len(fs)), Field(Ty("Backtrace", "Backtrace::disabled()"), "decoy"))
    if extra and how != "from":
        for k, n in (("u8", "x"), ("leaf", "y")):
            if rng.random() < .5:
                fs.insert(rng.randint(0, len(fs)), Field(k, n))
    v = Variant(style, fs)
    v.s, v.b, v.srck, v.btk = s and fs.index(s), b and fs.index(b), src, bt
    v.b = fs.index(b) if b else None
    v.s = fs.index(s) if s else None
    return v


def check(v):
    st = ""
    st += "let from_source: Option<&Prov> = %s; " % ("{ let r = r%d; %s }" % (v.s, SRC[v.srck][2]) if v.s is not None else "None")
    st += "let own: Option<&Backtrace> = %s; " % ("{ let t = r%d; %s }" % (v.b, BT[v.btk][3]) if v.b is not None else "None")
    st += "let src_bt: Option<&Backtrace> = from_source.and_then(|p| p.bt.as_ref()); "
    active = v.btk not in ("none", "unmarkedopt")
    forwards = v.btk == "onsource" or v.btk in ("auto", "autopath")
    if not active:
        st += 'ck!(got.is_none(), "no backtrace field, no backtrace"); ck!(marker.is_none(), "no backtrace field, nothing is provided");'
    elif v.btk == "onsource":
        st += 'ck!(same_ref(got, src_bt), "requests are forwarded to the #[backtrace] source"); ck!(same_ref(marker, from_source.map(|p| &p.m)), "every request is forwarded to the #[backtrace] source");'
    elif v.s is None:
        st += 'ck!(same_ref(got, own), "the backtrace field is provided"); ck!(marker.is_none(), "nothing else is provided");'
    elif forwards:
        st += 'ck!(same_ref(got, src_bt.or(own)), "the source is asked first, then the backtrace field"); ck!(same_ref(marker, from_source.map(|p| &p.m)), "requests are forwarded to the source");'
    else:   # marked field next to a distinct source: the documentation leaves open whether the source is asked first
        st += 'ck!(same_ref(got, own) || (src_bt.is_some() && same_ref(got, src_bt)), "the marked backtrace field is provided, unless the source provides one");'
        st += 'if src_bt.is_none() { ck!(same_ref(got, own), "the marked backtrace field is provided"); }'
    return st


def cases(tier, rng):
    out = []
    import random
    fixed = random.Random(7)

    def add(sh, desc, kani=False):
        body = sh.make() + "\n    let got = request_ref::<Backtrace>(&e);\n    let marker = request_ref::<Marker>(&e);\n" + sh.per_variant(check) + FORGET
        out.append(Case("c07_%04d" % len(out), desc, PRE + sh.decl(), body, kani=kani, unwind=8, nightly=True))

    combos = []
    for src in SRC:
        for bt in BT:
            if bt == "onsource" and src == "none":
                continue
            combos.append((src, bt))
    for n, (src, bt) in enumerate(combos):
        for how in ("name", "source", "from"):
            if how == "from" and (src == "none" or bt in NOT):
                continue
            if src == "none" and how != "name":
                continue
            for style in ("named", "tuple"):
                if how == "name" and style == "tuple" and src != "none":
                    continue
                for first in ((False, True) if BT[bt] and src != "none" else (None,)):
                    v = variant(src, bt, style, how, fixed, bt_first=first)
                    k = src in ("none", "prov", "optprov", "leaf", "boxdyn") and bt in ("none", "auto", "attropt", "onsource") and how in ("name", "from") and first is not True
                    add(Shape("struct", [v]), "struct %s, %s %s, backtrace %s%s" % (style, how, src, bt, " first" * bool(first)), k)
                    w = variant(src, bt, style, how, fixed, bt_first=first)
                    add(Shape("enum", [Variant("unit", []), w] if fixed.random() < .5 else [w, Variant("tuple", [Field("u8")])]),
                        "enum %s, %s %s, backtrace %s%s" % (style, how, src, bt, " first" * bool(first)), k and first is None or bt == "auto" and src == "prov")
    for v in list(out):
        pass
    for n in range(12):
        v = variant(fixed.choice(("none", "prov", "leaf")), fixed.choice(("attr", "attropt")), fixed.choice(("named", "tuple")), "source", fixed, decoy=True)
        add(Shape(fixed.choice(("struct", "enum")), [v]), "marked field next to another Backtrace %d" % n)
    # enums: only the active variant counts
    for s in out:
        pass
    for n in range(20 if tier == "quick" else 200):
        vs, used = [], set()
        for _ in range(rng.randint(2, 5)):
            src, bt = rng.choice(combos)
            how = rng.choice(("name", "source", "from"))
            if how == "from" and (SRC[src] is None or bt in NOT):
                how = "source"
            key = SRC[src] and SRC[src][0].replace("Option<Prov>", "Prov").replace("Option<Leaf>", "Leaf").replace("Option<Box<dyn StdError + Send + Sync>>", "Box<dyn StdError + Send + Sync>")
            if how == "from" and key in used:
                how = "source"
            if how == "from":
                used.add(key)
            style = "named" if how == "name" else rng.choice(("named", "tuple"))
            vs.append(variant(src, bt, style, how, rng))
        add(Shape("enum", vs), "enum of mixed variants %d" % n, False)
    for d in ("tuple", "named"):
        v = Variant(d, [Field(Ty("Prov", "nd.prov()"), "inner", ["#[from]", "#[backtrace]"])], ["#[error(transparent)]"])
        v.s, v.b, v.srck, v.btk = 0, None, "prov", "onsource"
        add(Shape("struct", [v]), "transparent %s with #[backtrace]" % d, True)
        add(Shape("enum", [v]), "transparent %s variant with #[backtrace]" % d, True)
    return out
