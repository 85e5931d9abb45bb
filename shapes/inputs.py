"""Derive inputs with an independent model of what the derive must do with them: which are contradictory (C09), what the
fallback must look like (C11), which bounds are required (C12), which conversions exist (C05)."""
import random, re

# ---- attributes ------------------------------------------------------------------------------------------------------


class A:
    """kind: message transparent fmt source from backtrace, or one of the others below"""

    def __init__(self, kind, text):
        self.kind, self.text = kind, text


def msg(t="m", args=""):
    return A("message", '#[error("%s"%s)]' % (t, args))


TRANSPARENT = A("transparent", "#[error(transparent)]")
FMT = A("fmt", "#[error(fmt = path::to::f)]")
SOURCE, FROM, BACKTRACE = A("source", "#[source]"), A("from", "#[from]"), A("backtrace", "#[backtrace]")
# attributes of others, which the derive must ignore
IGNORED = [A("ignored", t) for t in ('#[from(u8, u16)]', '#[from = "x"]', '#[doc = "d"]', '#[serde(transparent)]', "#[allow(dead_code)]", "#[my::error]", "#[my::from]", "#[x::source]",
                                     "#[errors]", "#[froms]", "/** doc */", '#[from(types(u8))]', "#[cfg_attr(any(), source)]", "#[error::backtrace]", '#[from[forward]]')]
MALFORMED = [A("malformed", t) for t in ("#[error]", "#[error()]", "#[error(foo)]", '#[error = "m"]', "#[source(x)]", '#[source = "x"]', "#[backtrace(x)]", "#[backtrace = 1]", "#[error(fmt)]",
                                         "#[error(fmt = 1)]", "#[error(1)]", "#[error(transparent, x)]", "#[error(fmt = a, b)]", "#[error(fmt = )]", "#[source()]", "#[error(b\"m\")]", "#[error(transparent = \"x\")]")]

# ---- types -----------------------------------------------------------------------------------------------------------


class T:
    """A field type: text, whether it mentions a type parameter, its content if it is an Option, whether it is the backtrace type,
    whether it has a lifetime that may not appear in a source."""

    def __init__(self, text, gen=False, inner=None, bt=False, life=False):
        self.text, self.gen, self.inner, self.bt, self.life = text, gen, inner, bt, life


PLAIN = [T("u8"), T("String"), T("std::io::Error"), T("Box<dyn std::error::Error + Send + Sync>"), T("Option<Inner>", inner="Inner"), T("std::option::Option<a::Inner>", inner="a::Inner"), T("&'static str"),
         T("Box<dyn Error + 'static>"), T("::a::b::Wrap<'static, u8>"), T("Option<Box<dyn Error>>", inner="Box<dyn Error>"), T("Backtraces"), T("Vec<Backtrace>"), T("Cow<'static, str>"),
         T("__none!(u8)"), T("__none!(Option<Inner>)", inner="Inner"), T("Option<__none!(Inner)>", inner="Inner"), T("o::Option<a::Inner>", inner="a::Inner"), T("core::option::Option<__none!(__none!(Inner))>", inner="Inner"),
         T("Option<Inner, u8>"), T("Option<3>"), T("Option<'static>"), T("Option"), T("(Option<u8>)"), T("Option::<Inner>", inner="Inner"), T("Backtrace<u8>"), T("Backtrace::Status"), T("fn() -> Option<u8>"), T("Option<Inner>::Inner")]
BTS = [T("Backtrace", bt=True), T("std::backtrace::Backtrace", bt=True), T("::std::backtrace::Backtrace", bt=True), T("bt::Backtrace", bt=True), T("__none!(Backtrace)", bt=True), T("__none!(std::backtrace::Backtrace)", bt=True)]
OPTBTS = [T("Option<Backtrace>", inner="Backtrace"), T("Option<std::backtrace::Backtrace>", inner="std::backtrace::Backtrace")]   # found only when marked
LIFE = [T("__none!(&'a str)", life=True), T("__none!(Foo<'a>)", life=True), T("Box<__none!(Foo<'a>)>", life=True), T("Wrap<u8, Wrap<u8, &'a str>>", life=True), T("&'a str", life=True), T("Foo<'a>", life=True), T("a::Foo<'b, u8>", life=True), T("Box<Foo<'a>>", life=True), T("Option<&'a Foo>", inner="&'a Foo", life=True), T("Wrap<u8, &'a str>", life=True),
        T("Wrap<u8, Vec<Box<Foo<'a>>>>", life=True), T("&'static_ u8", life=True), T("Wrap<'static, 'a>", life=True), T("&'a mut u8", life=True)]

# ---- declarations ----------------------------------------------------------------------------------------------------


class F:
    def __init__(self, ty, attrs=(), name=None):
        self.ty, self.attrs, self.name = ty, list(attrs), name

    def has(self, k):
        return any(a.kind == k for a in self.attrs)


class V:
    def __init__(self, style, fields, attrs=(), name="V"):
        self.style, self.fields, self.attrs, self.name = style, fields, list(attrs), name

    def body(self):
        fs = [" ".join([a.text for a in f.attrs] + [("%s: " % f.name if self.style == "named" else "") + f.ty.text]) for f in self.fields]
        return {"named": " { %s }" % ", ".join(fs), "tuple": "(%s)" % ", ".join(fs), "unit": ""}[self.style]

    def has(self, k):
        return any(a.kind == k for a in self.attrs)


class D:
    """generics: (params with defaults and bounds, [params as in an impl], args, [where predicates])"""

    def __init__(self, kind, attrs, variants, name="E", generics=None):
        self.kind, self.attrs, self.variants, self.name = kind, list(attrs), variants, name
        self.generics = generics or NOGEN

    def has(self, k):
        return any(a.kind == k for a in self.attrs)

    def source(self):
        g = self.generics
        pre = "".join(a.text + "\n" for a in self.attrs)
        wh = " where " + ", ".join(g.where) if g.where else ""
        if self.kind == "struct":
            v = self.variants[0]
            if v.style == "named":
                return "%sstruct %s%s%s%s" % (pre, self.name, g.decl, wh, v.body())
            return "%sstruct %s%s%s%s;" % (pre, self.name, g.decl, v.body(), wh)
        if self.kind == "union":
            return "%sunion %s%s%s%s" % (pre, self.name, g.decl, wh, self.variants[0].body())
        vs = ",\n".join("".join(a.text + " " for a in v.attrs) + v.name + v.body() for v in self.variants)
        return "%senum %s%s%s {\n%s\n}" % (pre, self.name, g.decl, wh, vs)


class G:
    def __init__(self, decl, params, args, where=(), tps=()):
        self.decl, self.params, self.args, self.where, self.tps = decl, list(params), args, list(where), list(tps)

    def self_ty(self, name):
        return name + self.args


NOGEN = G("", [], "")
GENERICS = [NOGEN,
            G("<T>", ["T"], "<T>", tps="T"),
            G("<T: Copy>", ["T: Copy"], "<T>", tps="T"),
            G("<T>", ["T"], "<T>", ["T: Clone"], tps="T"),
            G("<'a>", ["'a"], "<'a>"),
            G("<'a, 'b: 'a>", ["'a", "'b: 'a"], "<'a, 'b>", ["'b: 'a"]),
            G("<'a, T: 'a + ?Sized>", ["'a", "T: 'a + ?Sized"], "<'a, T>", tps="T"),
            G("<const N: usize>", ["const N: usize"], "<N>"),
            G("<T = u8, const N: usize = 3>", ["T", "const N: usize"], "<T, N>", tps="T"),
            G("<'a, T: Iterator<Item = U> + Send, U: 'a = u8>", ["'a", "T: Iterator<Item = U> + Send", "U: 'a"], "<'a, T, U>", ["T::Item: Copy", "for<'x> &'x T: Clone", "[U; 2]: Sized"], tps="TU"),
            G("<T>", ["T"], "<T>", ["T: Fn(u8) -> u8", "Vec<T>: Sized", "'static: 'static"], tps="T"),
            G("<r#type>", ["r#type"], "<r#type>", tps=["r#type"]),
            G("<T, U, W>", ["T", "U", "W"], "<T, U, W>", ["T: PartialEq<U>", "U: Into<W>"], tps="TUW"),
            G("<#[cfg(all())] T>", ["#[cfg(all())] T"], "<T>", tps="T"),
            G("<T,>", ["T"], "<T>", ["T: Copy", "T: Send,"], tps="T"),
            ]

# ---- the model: which inputs are contradictory ----------------------------------------------------------------------

DUPS = ("message", "transparent", "fmt", "source", "from", "backtrace")


def attr_faults(attrs, where):
    out = []
    for k in DUPS:
        if sum(a.kind == k for a in attrs) > 1:
            out.append("duplicate %s on one %s" % (k, where))
    if any(a.kind == "malformed" for a in attrs):
        out.append("malformed attribute")
    return out


def owner_faults(x, where):
    out = attr_faults(x.attrs, where)
    for k in ("source", "from", "backtrace"):
        if x.has(k):
            out.append("%s on a %s" % (k, where))
    if sum(x.has(k) for k in ("message", "transparent", "fmt")) > 1:
        out.append("message, transparent and fmt combined on a %s" % where)
    return out


def field_faults(v, transparent, where):
    out = []
    for f in v.fields:
        out += attr_faults(f.attrs, "field")
        for k in ("message", "transparent", "fmt"):
            if f.has(k):
                out.append("%s on a field" % k)
    for k in ("source", "from", "backtrace"):
        if sum(f.has(k) for f in v.fields) > 1:
            out.append("%s on two fields of one %s" % (k, where))
    fr = [f for f in v.fields if f.has("from")]
    so = [f for f in v.fields if f.has("source")]
    bt = [f for f in v.fields if f.has("backtrace")] or [f for f in v.fields if f.ty.bt][:1]
    if fr and so and fr[0] is not so[0]:
        out.append("from and source on different fields")
    if fr and [f for f in v.fields if f is not fr[0] and f not in bt[:1]]:
        out.append("from next to another field")
    for f in so + fr:
        if f.ty.life:
            out.append("source with a non-static lifetime")
    if transparent:
        if len(v.fields) != 1:
            out.append("transparent with %d fields" % len(v.fields))
        if so:
            out.append("transparent with source")
    return out


def faults(d):
    if d.kind == "union":
        return ["union"]
    out = owner_faults(d, d.kind)
    if d.kind == "struct":
        v = d.variants[0]
        if d.has("fmt"):
            out.append("fmt on a struct")
        return out + field_faults(v, d.has("transparent"), "struct")
    top = [k for k in ("message", "transparent", "fmt") if d.has(k)]
    for v in d.variants:
        out += owner_faults(v, "variant")
        own = [k for k in ("message", "transparent", "fmt") if v.has(k)]
        out += field_faults(v, "transparent" in (own or top), "variant")
        if not own and not top and any(w.has("message") or w.has("fmt") for w in d.variants):
            out.append("variant without display attribute")
    return out


def has_display(d):
    if d.kind == "struct":
        return d.has("message") or d.has("transparent")
    if any(d.has(k) for k in ("message", "transparent", "fmt")):
        return True
    if any(v.has("message") or v.has("fmt") for v in d.variants):
        return True
    return all(v.has("transparent") for v in d.variants)


# ---- generation ------------------------------------------------------------------------------------------------------

NAMES = ["source", "a", "b", "c", "backtrace", "r#type", "x1", "_y", "error", "from", "r#source"]


def rnd_attrs(rng, pool, p):
    out = []
    while rng.random() < p and len(out) < 3:
        out.append(rng.choice(pool))
    return out


def valid_fields(rng, style, n=None, transparent=False, types=None):
    """Fields with consistent attributes."""
    types = types or PLAIN
    if style == "unit":
        return []
    n = rng.choice((0, 1, 1, 2, 2, 3, 4)) if n is None else n
    names = rng.sample(NAMES, n)
    fs = [F(rng.choice(types), name=nm) for nm in names]
    if not fs:
        return fs
    mode = rng.choice(("none", "source", "from", "none", "from_source"))
    if transparent and mode in ("source", "from_source"):
        mode = "from"
    if mode == "source":
        rng.choice(fs).attrs.append(SOURCE)
    elif mode in ("from", "from_source"):
        fs = fs[:1]
        fs[0].attrs += [FROM] + ([SOURCE] if mode == "from_source" else [])
        r = rng.random()
        if not transparent:
            if r < .2:
                fs.append(F(rng.choice(BTS), name="bt"))
            elif r < .4:
                fs.append(F(rng.choice(BTS + OPTBTS), [BACKTRACE], name="bt"))
            elif r < .5:
                fs[0].attrs.append(BACKTRACE)
        rng.shuffle(fs)
        rng.shuffle(fs[0].attrs)
    if mode in ("none", "source") and not transparent and n < 4 and rng.random() < .3:
        fs.append(F(rng.choice(BTS), [BACKTRACE] if rng.random() < .5 else [], name="bt"))
        rng.shuffle(fs)
    for f in fs:
        if rng.random() < .15:
            f.attrs.insert(rng.randint(0, len(f.attrs)), rng.choice(IGNORED))
    return fs


def valid(rng, types=None, generics=None):
    """A consistent declaration."""
    g = generics or rng.choice(GENERICS)
    style = lambda: rng.choice(("named", "tuple", "tuple", "unit"))
    ign = lambda at: [x for a in at for x in ([a, rng.choice(IGNORED)] if rng.random() < .1 else [a])]
    if rng.random() < .4:
        k = rng.choice(("message", "transparent", "none", "message"))
        if k == "transparent":
            st = rng.choice(("named", "tuple"))
            return D("struct", ign([TRANSPARENT]), [V(st, valid_fields(rng, st, 1, True, types))], generics=g)
        st = style()
        return D("struct", ign([msg()] if k == "message" else []), [V(st, valid_fields(rng, st, None, False, types))], generics=g)
    top = rng.choice((None, None, None, None, "message", "fmt", "transparent"))
    mode = rng.choice(("all", "all", "all", "none", "transparent")) if top is None else "some"
    vs = []
    for i in range(rng.choice((0, 1, 2, 3, 4))):
        own = {"all": rng.choice(("message", "message", "fmt", "transparent")), "none": None, "some": rng.choice((None, None, "message", "fmt", "transparent")), "transparent": rng.choice(("transparent", None))}[mode]
        eff = own or top
        st = rng.choice(("named", "tuple")) if eff == "transparent" else style()
        vs.append(V(st, valid_fields(rng, st, 1 if eff == "transparent" else None, eff == "transparent", types), ign({"message": [msg()], "fmt": [FMT], "transparent": [TRANSPARENT], None: []}[own]), "V%d" % i))
    return D("enum", ign({"message": [msg()], "fmt": [FMT], "transparent": [TRANSPARENT], None: []}[top]), vs, generics=g)


def breakit(rng, d):
    """Adds something which may or may not be a fault; the model decides."""
    owners = ([d] if d.kind != "struct" else [d]) + (d.variants if d.kind == "enum" else [])
    fields = [f for v in d.variants for f in v.fields]
    r = rng.random()
    anyattr = [msg(), TRANSPARENT, FMT, SOURCE, FROM, BACKTRACE]
    if r < .3 and fields:
        f = rng.choice(fields)
        f.attrs.insert(rng.randint(0, len(f.attrs)), rng.choice(anyattr))
    elif r < .5:
        o = rng.choice(owners)
        o.attrs.insert(rng.randint(0, len(o.attrs)), rng.choice(anyattr))
    elif r < .6:
        o = rng.choice(owners + fields)
        if o.attrs:
            o.attrs.append(rng.choice(o.attrs))
    elif r < .7 and fields:
        rng.choice(fields).ty = rng.choice(LIFE)
    elif r < .78:
        o = rng.choice(owners + fields)
        if o.attrs:
            o.attrs.remove(rng.choice(o.attrs))
    elif r < .88:
        vs = [v for v in d.variants if v.style != "unit"]
        if vs:
            v = rng.choice(vs)
            v.fields.insert(rng.randint(0, len(v.fields)), F(rng.choice(PLAIN + BTS), [], "added%d" % len(v.fields)))
    elif r < .93:
        o = rng.choice(owners + fields)
        o.attrs.insert(rng.randint(0, len(o.attrs)), rng.choice(MALFORMED))
    elif r < .96 and d.kind == "enum":
        d.variants.append(V("unit", [], [], "Added"))
    else:
        d.attrs = [a for a in d.attrs if a.kind == "ignored"]


def sane(d):
    """Leaves out what the model does not speak about: a conversion from the backtrace type itself."""
    fs = [f for v in d.variants for f in v.fields]
    if any(f.has("from") and (f.ty.bt or f.ty.inner in ("Backtrace", "std::backtrace::Backtrace")) for f in fs):
        return False
    names = [[f.name for f in v.fields] for v in d.variants if v.style == "named"]
    return all(len(set(n)) == len(n) for n in names)


import copy


def declarations(rng, n):
    out = []
    while len(out) < n:
        d = valid(rng)
        if rng.random() < .65:
            d = copy.deepcopy(d)
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                breakit(rng, d)
        if d.kind == "struct" and d.variants[0].style != "unit" and rng.random() < .04:
            d = D("union", d.attrs, [V("named", [F(f.ty, f.attrs, f.name or "f%d" % i) for i, f in enumerate(d.variants[0].fields)] or [F(PLAIN[0], [], "f")])], generics=d.generics)
        if sane(d):
            out.append(d)
    return out


def systematic():
    """Every single fault, one at a time, on otherwise valid declarations in every position."""
    out = []
    I = PLAIN[2]
    for kind in ("struct", "enum"):
        for style in ("named", "tuple"):
            def mk(fields, attrs=(), top=(), before=0, after=0):
                v = V(style, fields, attrs if kind == "enum" else ())
                m = [V("unit", [], [msg()], "P%d" % i) for i in range(before)]
                n = [V("unit", [], [msg()], "S%d" % i) for i in range(after)]
                if kind == "struct":
                    return D("struct", list(top) + list(attrs), [v])
                return D("enum", list(top), m + [v] + n)
            base = lambda *at: [F(I, at, "a")]
            two = lambda a1, a2: [F(I, a1, "a"), F(I, a2, "b")]
            three = lambda a1, a2, a3: [F(I, a1, "a"), F(I, a2, "b"), F(I, a3, "c")]
            E = [msg()]
            ka = [msg(), TRANSPARENT, FMT, SOURCE, FROM, BACKTRACE]
            for x in ka:
                out += [mk(base(), [x]), mk(base(), [x, x]), mk(base(x), E), mk(base(x, x), E), mk(base(x, IGNORED[0], x), E), mk(two([x], [x]), E), mk(three([x], [], [x]), E), mk(three([], [x], [x]), E),
                        mk(base(), [x], after=1), mk(base(), E, top=[x]), mk(base(x), [TRANSPARENT]), mk(two([x], []), [TRANSPARENT]), mk(base(), [], top=[x]), mk(base(), [x], before=1)]
                for y in ka:
                    out += [mk(base(), [x, y]), mk(base(), [x], top=[y]), mk(base(x, y), E), mk(two([x], [y]), E), mk(two([y], [x]), []), mk(three([x], [], [y]), E), mk(base(), [y, IGNORED[1], x]), mk(two([x], [y]), [TRANSPARENT]), mk(base(x), [y])]
                    for z in ka:
                        out += [mk(base(x, y, z), E), mk(base(), [x, y, z]), mk(three([x], [y], [z]), E)]
            for n in range(4):
                for top in ([], [TRANSPARENT], [msg()]):
                    for at in ([], [TRANSPARENT], [FMT], [msg()]):
                        out.append(mk([F(I, [], "abc"[i]) for i in range(n)], at, top=top))
                        out.append(mk([F(I, [FROM] if i == 0 else [], "abc"[i]) for i in range(n)], at, top=top))
                        out.append(mk([F(I, [FROM] if i == n - 1 else [], "abc"[i]) for i in range(n)], at, top=top, after=1))
            for b in BTS + OPTBTS + PLAIN[:1]:
                for bat in ([], [BACKTRACE]):
                    for fat in ([FROM], [FROM, SOURCE], [SOURCE], []):
                        out.append(mk([F(I, fat, "a"), F(b, bat, "b")], E))
                        out.append(mk([F(b, bat, "b"), F(I, fat, "a")], E))
                        out.append(mk([F(b, bat, "b"), F(I, fat, "a"), F(PLAIN[0], [], "c")], E))
                        out.append(mk([F(b, bat, "b"), F(I, fat, "a"), F(b, [], "c")], E))
            for x in IGNORED:
                out += [mk(base(x), E), mk(base(x, FROM), E), mk(base(FROM, x), E), mk(base(x, x), [x] + E + [x]), mk(two([x], [SOURCE]), E, top=[x])]
                if x.text.startswith("#[from"):
                    out += [mk(two([x], [FROM]), [])[0:0] if False else mk(two([x], [SOURCE]), E), mk(two([x], [x]), E)]
            for x in MALFORMED:
                out += [mk(base(x), E), mk(base(), [x]), mk(base(), E, top=[x]), mk(two([], [x]), E, after=1)]
            for t in LIFE:
                for at in ([FROM], [SOURCE], [FROM, SOURCE], []):
                    out.append(mk([F(t, at, "a")], E))
                    if FROM not in at:
                        out.append(mk([F(PLAIN[0], [], "b"), F(t, at, "a")], E))
            for t in PLAIN:
                for at in ([FROM], [SOURCE]):
                    out.append(mk([F(t, at, "a")], E))
    U = V("unit", [], [], "U")
    for at in ([], [msg()], [TRANSPARENT], [FMT]):
        for n in range(3):
            for others in ([], [msg()], [FMT]):
                vs = [V("unit", [], others, "O%d" % i) for i in range(n)]
                for pos in range(n + 1):
                    out.append(D("enum", at, vs[:pos] + [copy.deepcopy(U)] + vs[pos:]))
                out.append(D("enum", at, vs))
    for at in ([], [msg()], [TRANSPARENT], [SOURCE]):
        out.append(D("union", at, [V("named", [F(PLAIN[0], [], "a"), F(PLAIN[0], [], "b")])]))
    return [d for d in out if sane(d)]


# ---- reading what the derive returned -------------------------------------------------------------------------------

def squeeze(s):
    while "__none!(" in s:      # an invisible group leaves no trace in the text
        i = s.index("__none!(")
        k, depth = i + 8, 1
        while depth:
            depth += {"(": 1, ")": -1}.get(s[k], 0)
            k += 1
        s = s[:i] + s[i + 8:k - 1] + s[k:]
    s = re.sub(r"\s+", "", s)
    return re.sub(r",(?=[>)\]])", "", s).rstrip(",")


def trait_name(path):
    p = squeeze(path)
    m = re.match(r"^[\w:]*?(\w+)(<.*)?$", p)
    return (m.group(1) + (m.group(2) or "")) if m else p


def errors(r):
    return [i["tokens"] for i in r.get("items", []) if i["kind"] == "macro" and squeeze(i["path"]).endswith("compile_error")]


def impls(r, trait):
    return [i for i in r.get("items", []) if i["kind"] == "impl" and trait_name(i["trait"]).split("<")[0] == trait]


def unparen(t):
    while t.startswith("(") and t.endswith(")") and "," not in t:
        t = t[1:-1]
    return t


def preds(im):
    """{(for, type, bound)} of an impl's where clause; bounds by their last path segment when they are paths"""
    out = set()
    for p in im["where"]:
        for b in p["bounds"] or [""]:
            b = squeeze(b)
            if re.match(r"^(::)?\w+(::\w+)+$", b):
                b = b.split("::")[-1]
            out.add((squeeze(p["lt"]), unparen(squeeze(p["ty"])), b))
    return out


def own_preds(g, name="E"):
    out = set()
    for w in g.where:
        w = w.strip().rstrip(",")
        m = re.match(r"^(for<[^>]*>)?\s*(.*?[^:]):(?!:)\s*(.*)$", w)
        for b in split_plus(m.group(3)):
            b = squeeze(b)
            if re.match(r"^(::)?\w+(::\w+)+$", b):
                b = b.split("::")[-1]
            out.add((squeeze(m.group(1) or ""), squeeze(m.group(2)), b))
    return out


def split_plus(s):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([":
            d += 1
        elif c in ">)]" and s[i - 1] != "-":
            d -= 1
        if c == "+" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def same_params(im, g):
    norm = lambda p: squeeze(re.sub(r"#\s*\[[^\]]*\]", "", p))
    return [norm(p) for p in im["params"]] == [norm(p) for p in g.params]


def expand_self(ps, d):
    me = squeeze(d.generics.self_ty(d.name))
    return {(f, me if t == "Self" else t, b) for f, t, b in ps}


def check_fallback(d, r):
    """C11: what must accompany a rejection. Returns a complaint or None."""
    if r["status"] != "ok":
        return "the derive did not return well-formed items: %s" % r.get("message", r["status"])
    if not errors(r):
        return "no compile error"
    me = squeeze(d.generics.self_ty(d.name))
    for t in ("Error", "Display"):
        ims = impls(r, t)
        if len(ims) != 1:
            return "%d %s impls accompany the error" % (len(ims), t)
        im = ims[0]
        if squeeze(im["self"]) != me:
            return "%s is implemented for %s, not for %s" % (t, im["self"], me)
        if not same_params(im, d.generics):
            return "the generics of the %s impl are %s, not %s" % (t, im["params"], d.generics.params)
        have, own = expand_self(preds(im), d), own_preds(d.generics)
        if not own <= have:
            return "the %s impl lost %s" % (t, sorted(own - have))
        extra = {p for p in have - own if not (p[1] == me and p[2] in ("Debug", "Display"))}
        if extra:
            return "the %s impl requires %s, which the type does not" % (t, sorted(extra))
        if t == "Error" and len([f for f in im["fns"]]) and any("self" in f["body"] for f in im["fns"]):
            return "the fallback Error impl looks at the fields"
        if t == "Display" and [f["name"] for f in im["fns"]] != ["fmt"]:
            return "the fallback Display impl has no fmt"
    rest = [i for i in r["items"] if i["kind"] == "other" or i["kind"] == "impl" and trait_name(i["trait"]).split("<")[0] not in ("Error", "Display")]
    if rest:
        return "unexpected item %s" % str(rest[0])[:200]
    return None


def expected_froms(d):
    return sorted(squeeze(f.ty.inner or f.ty.text) for v in d.variants for f in v.fields if f.has("from"))


def check_from(d, r):
    """C05: exactly one From impl per #[from] field, for its type or the content of its Option, and no other conversion."""
    ims = impls(r, "From")
    got = sorted(re.sub(r"^From<(.*)>$", r"\1", trait_name(im["trait"])) for im in ims)
    want = expected_froms(d)
    if got != want:
        return "From impls for %s; expected %s" % (got, want)
    me = squeeze(d.generics.self_ty(d.name))
    for im in ims:
        if squeeze(im["self"]) != me:
            return "From is implemented for %s" % im["self"]
    for t in ("Into", "TryFrom", "TryInto"):
        if impls(r, t):
            return "a conversion through %s" % t
    return None


# ---- C12: bounds of the generated impls -----------------------------------------------------------------------------

# (type, content if it is an Option) mentioning parameter P
GTYPES = [("{P}", None), ("__none!({P})", None), ("__none!(Wrap<{P}>)", None), ("__none!(Option<{P}>)", "{P}"), ("Option<__none!({P})>", "{P}"), ("Wrap<__none!(Wrap<{P}>)>", None), ("o::Option<{P}>", "{P}"), ("Wrap<u8, Wrap<{P}, 3>, u8>", None), ("a::b<{P}>::c<u8>", None), ("<__none!({P}) as Tr>::X", None), ("Wrap<{P}>", None), ("Option<{P}>", "{P}"), ("Vec<Box<{P}>>", None), ("a::Wrap<u8, {P}>", None), ("{P}::Assoc", None), ("<{P} as Iterator>::Item", None), ("Option<Wrap<{P}>>", "Wrap<{P}>"),
          ("<Wrap<{P}> as Tr>::X", None), ("Vec<<{P} as Tr>::X>", None), ("Wrap<'static, {P}, 3>", None), ("std::option::Option<{P}>", "{P}"), ("a::Wrap<{P}>::B", None), ("PhantomData<{P}>", None), ("Wrap<Wrap<Wrap<Wrap<{P}>>>>", None),
          ("<u8 as Tr<{P}>>::X", None), ("<{P}>::Assoc", None)]
# types which look similar but mention none
NTYPES = [("u8", None), ("__none!(u8)", None), ("Wrap<__none!(u8)>", None), ("__none!(Option<u8>)", "u8"), ("Wrap<u8>", None), ("{P}x", None), ("a::{P}", None), ("Option<u8>", "u8"), ("Vec<Inner>", None), ("&'static str", None), ("Wrap<3>", None), ("<u8 as Tr>::X", None), ("::{P}2", None), ("a::{P}::B", None), ("{P}<u8>", None),
          ("[u8; 3]", None), ("(u8, u8)", None), ("fn(u8) -> u8", None), ("Wrap<a::{P}>", None)]
SPECS = [("", "Display"), (":?", "Debug"), (":#?", "Debug"), (":x", "LowerHex"), (":X", "UpperHex"), (":#x", "LowerHex"), (":o", "Octal"), (":b", "Binary"), (":e", "LowerExp"), (":E", "UpperExp"), (":p", "Pointer"), (":>8", "Display"), (":08.3", "Display"),
         (":<5?", "Debug"), (":x?", "Debug"), (":X?", "Debug"), (":}>5?", "Debug"), (": ", "Display"), (":? ", "Debug"), (":e<5", "Display"), (":?^5", "Display"), (":+", "Display"), (":-<#010x", "LowerHex"), (":.1e", "LowerExp"), (": >3b", "Binary"), (":ö<3X", "UpperHex"),
         (":#", "Display"), (":1", "Display"), (":p<2", "Display"), (":0", "Display")]


def gfields(rng, tps, style, n):
    names = rng.sample(["a", "b", "c", "x", "err", "r#type", "inner", "val"], n)
    out = []
    for nm in names:
        gen = bool(tps) and rng.random() < .7
        p = rng.choice(tps) if tps else "Q"
        t, inner = rng.choice(GTYPES if gen else NTYPES)
        out.append(F(T(t.format(P=p), gen, inner.format(P=p) if inner else None), [], nm if style == "named" else None))
    return out


def gmessage(rng, v):
    """A message over v's fields: (text, {(field index, trait)})"""
    ps, need = [], set()
    for _ in range(rng.choice((0, 1, 1, 2, 3, 4))):
        if not v.fields:
            break
        i = rng.randrange(len(v.fields))
        sp, tr = rng.choice(SPECS)
        nm = v.fields[i].name.replace("r#", "") if v.style == "named" else str(i)
        ps.append("{%s%s}" % (nm, sp))
        need.add((i, tr))
    ps += rng.sample(["{{", "}}", " x:? ", "{{a}}", "{{0:?}}", "%", "\\n", "\\u{e9}"], rng.randint(0, 3))
    rng.shuffle(ps)
    return "".join(ps), need


def gargs(rng, v, text, need):
    """sometimes adds arguments which mention fields: those never imply bounds, nor do placeholders that mean them"""
    if rng.random() < .75:
        return text, "", need
    if v.style == "named" and v.fields and rng.random() < .6:
        # a named argument shadows a field: its placeholders say nothing about the field
        i = rng.randrange(len(v.fields))
        raw = rng.choice(("", "r#")) if v.fields[i].name.startswith("r#") or rng.random() < .2 else ""
        nm = v.fields[i].name.replace("r#", "")
        key = ("r#" if nm == "type" else raw) + nm
        return text, ", %s = 7u8" % key, {x for x in need if x[0] != i}
    return text + "{z:?}{zz}", ", z = 1, zz = .%s" % (v.fields[0].name if v.style == "named" else 0) if v.fields else ", z = 1, zz = 2", need


class GCase:
    def __init__(self, d, display, error, froms):
        self.d, self.display, self.error, self.froms = d, display, error, froms


def generic_case(rng):
    g = rng.choice([x for x in GENERICS if x.tps or rng.random() < .25])
    name = "E"
    kind = rng.choice(("struct", "enum", "enum"))
    disp, err, froms = set(), set(), []
    hasd = False

    def variant(vn, allow=("message", "transparent", "none", "fmt")):
        nonlocal hasd
        style = rng.choice(("named", "tuple"))
        mode = rng.choice(allow)
        n = 1 if mode == "transparent" else rng.choice((0, 1, 2, 3))
        fs = gfields(rng, g.tps, style, n)
        v = V(style, fs, [], vn)
        if fs:
            r = rng.random()
            if mode == "transparent":
                if r < .3:
                    fs[0].attrs.append(FROM)
            elif r < .3:
                rng.choice(fs).attrs.append(SOURCE)
            elif r < .5:
                del fs[1:]
                fs[0].attrs.append(FROM)
                if rng.random() < .3:
                    fs.append(F(T("Backtrace", bt=True), [], "bt" if style == "named" else None))
            elif r < .6 and style == "named" and not any(f.name == "source" for f in fs):
                rng.choice(fs).name = "source"
        src = None
        for f in fs:
            if f.has("from") or f.has("source"):
                src = f
        if src is None and style == "named":
            src = next((f for f in fs if f.name == "source"), None)
        if mode == "transparent":
            if fs[0].ty.gen:
                err.add(("", squeeze(fs[0].ty.text), "Error"))
        elif src is not None and src.ty.gen:
            t = squeeze(src.ty.inner or src.ty.text)
            err.update({("", t, "Error"), ("", t, "'static")})
        for f in fs:
            if f.has("from"):
                froms.append(squeeze(f.ty.inner or f.ty.text))
        need = set()
        attr = []
        if mode == "message":
            text, need = gmessage(rng, v)
            text, args, need = gargs(rng, v, text, need)
            attr = [msg(text, args)]
        elif mode == "transparent":
            need, attr = {(0, "Display")}, [TRANSPARENT]
        elif mode == "fmt":
            attr = [FMT]
        return v, mode, need, attr

    def use(v, need):
        for i, tr in need:
            if v.fields[i].ty.gen:
                disp.add(("", squeeze(v.fields[i].ty.text), tr))

    if kind == "struct":
        v, mode, need, attr = variant("V", ("message", "transparent", "none", "message"))
        use(v, need)
        hasd = mode != "none"
        d = D("struct", attr, [v], name, g)
    else:
        allow = rng.choice((("message", "transparent", "fmt"), ("none",), ("message",), ("message", "transparent")))
        vs = []
        for i in range(rng.randint(1, 4)):
            v, mode, need, attr = variant("V%d" % i, allow)
            v.attrs = attr
            use(v, need)
            vs.append(v)
        hasd = allow != ("none",)
        d = D("enum", [], vs, name, g)
        if rng.random() < .15 and all(v.fields and v.style == vs[0].style for v in vs) and allow == ("none",):
            # an enum-level message, evaluated on each variant's own fields
            sp, tr = rng.choice(SPECS)
            if vs[0].style == "tuple":
                d.attrs = [msg("{0%s}" % sp)]
                for v in vs:
                    use(v, {(0, tr)})
                hasd = True
    if g.tps:
        me = squeeze(g.self_ty(name))
        err.update({("", me, "Debug"), ("", me, "Display")})
    return GCase(d, disp if hasd else None, err, froms)


def check_generic(c, r):
    d, g = c.d, c.d.generics
    if r["status"] != "ok":
        return "the derive did not return well-formed items: %s" % r.get("message", r["status"])
    if errors(r):
        return "rejected: %s" % errors(r)
    me = squeeze(g.self_ty(d.name))
    own = own_preds(g)
    for t, want in (("Error", c.error), ("Display", c.display)):
        ims = impls(r, t)
        if want is None:
            if ims:
                return "a %s impl without a display attribute" % t
            continue
        if len(ims) != 1:
            return "%d %s impls" % (len(ims), t)
        have = expand_self(preds(ims[0]), d)
        if squeeze(ims[0]["self"]) != me or not same_params(ims[0], g):
            return "the %s impl is not for %s with its generics" % (t, me)
        if have != own | want:
            return "the %s impl requires %s; expected %s" % (t, sorted(have - own), sorted(want - own)) + ("; it lost %s" % sorted(own - have) if own - have else "")
    ims = impls(r, "From")
    got = sorted(re.sub(r"^From<(.*)>$", r"\1", trait_name(im["trait"])) for im in ims)
    if got != sorted(c.froms):
        return "From impls for %s; expected %s" % (got, sorted(c.froms))
    for im in ims:
        if squeeze(im["self"]) != me or not same_params(im, g) or expand_self(preds(im), d) != own:
            return "the From impl is not for %s with exactly its own bounds" % me
    return None
