"""Shapes: a small independent model of error types (containers, variants, fields) and their Rust text."""
import random, re

# under Kani the value is not dropped: the contracts do not speak about drop glue
FORGET = "\n    #[cfg(kani)] { std::mem::forget(e); }\n"


class Case:
    """One derive input with its contract. `items` is the Rust text, `body` the text of the contract function
    (`nd: &mut Nd` supplies every value), `kani` whether the contract is also proved symbolically."""

    key = None

    def __init__(self, id, desc, items, body, kani=False, unwind=8, nightly=False, stubs=(), tags=()):
        self.id, self.desc, self.items, self.body = id, desc, items, body
        self.kani, self.unwind, self.nightly, self.stubs, self.tags = kani, unwind, nightly, tuple(stubs), tuple(tags)

    def source(self):
        return "%s\npub fn contract(nd: &mut Nd) {\n%s\n}\n" % (self.items, self.body)


class Ty:
    """A field type: Rust text, an expression making an arbitrary value, and, for use as a source, an expression over
    `r: &Ty` and `got: Option<&(dyn Error + 'static)>` which says that `got` is that field."""

    def __init__(self, rust, mk, src=None, opt=False, inner=None, inner_mk=None):
        self.rust, self.mk, self.src, self.opt, self.inner, self.inner_mk = rust, mk, src, opt, inner, inner_mk


def _at(expr, ty):
    return "is_at(got, thin(%s)) && is_a::<%s>(got)" % (expr, ty)


def _opt(inner_chk):
    return "match r { Some(r) => { %s } None => got.is_none() }" % inner_chk


DYN = "dyn StdError"
T = {
    "leaf": Ty("Leaf", "nd.leaf()", _at("r", "Leaf")),
    "node": Ty("Node", "nd.node()", _at("r", "Node")),
    "skin": Ty("Skin", "nd.skin()", _at("r", "Skin")),
    "optskin": Ty("Option<Skin>", "if nd.bool() { Some(nd.skin()) } else { None }", _opt(_at("r", "Skin")), True, "Skin", "nd.skin()"),
    "boxskin": Ty("Box<dyn StdError + Send>", "Box::new(nd.skin())", _at("&**r", "Skin")),
    "boxdeep": Ty("Box<dyn StdError + Send + Sync>", "Box::new(nd.deep())", _at("&**r", "Deep")),
    "opt": Ty("Option<Leaf>", "nd.opt()", _opt(_at("r", "Leaf")), True, "Leaf", "nd.leaf()"),
    "stdopt": Ty("std::option::Option<Leaf>", "nd.opt()", _opt(_at("r", "Leaf")), True, "Leaf", "nd.leaf()"),
    "coreopt": Ty("::core::option::Option<Leaf>", "nd.opt()", _opt(_at("r", "Leaf")), True, "Leaf", "nd.leaf()"),
    "opt2": Ty("o::Option<Leaf>", "nd.opt()", _opt(_at("r", "Leaf")), True, "Leaf", "nd.leaf()"),
    "optpath": Ty("Option<crate::rt::Leaf>", "nd.opt()", _opt(_at("r", "Leaf")), True, "Leaf", "nd.leaf()"),
    "opttrait": Ty("Option<<Leaf as o::Same>::Ty>", "nd.opt()", _opt(_at("r", "Leaf")), True, "Leaf", "nd.leaf()"),
    "optref": Ty("Option<&'static Leaf>", "if nd.bool() { Some(nd.static_leaf()) } else { None }", "match r { Some(r) => (is_at(got, thin(r)) || %s), None => got.is_none() }" % _at("*r", "Leaf"), True, "&'static Leaf", "nd.static_leaf()"),
    "optparen": Ty("Option<(Leaf)>", "nd.opt()", _opt(_at("r", "Leaf")), True, "Leaf", "nd.leaf()"),
    "optnode": Ty("Option<Node>", "if nd.bool() { Some(nd.node()) } else { None }", _opt(_at("r", "Node")), True, "Node", "nd.node()"),
    "boxdyn": Ty("Box<dyn StdError>", "Box::new(nd.leaf())", _at("&**r", "Leaf")),
    "boxdynsend": Ty("Box<dyn StdError + Send>", "Box::new(nd.leaf())", _at("&**r", "Leaf")),
    "boxdynss": Ty("Box<dyn StdError + Send + Sync + 'static>", "Box::new(nd.leaf())", _at("&**r", "Leaf")),
    "boxdynuw": Ty("Box<dyn StdError + Send + Sync + std::panic::UnwindSafe>", "Box::new(nd.leaf())", _at("&**r", "Leaf")),
    "optboxdyn": Ty("Option<Box<dyn StdError + Send + Sync>>",
                    "if nd.bool() { Some(Box::new(nd.leaf()) as Box<dyn StdError + Send + Sync>) } else { None }",
                    _opt(_at("&**r", "Leaf")), True, "Box<dyn StdError + Send + Sync>", "Box::new(nd.leaf())"),
    "boxleaf": Ty("Box<Leaf>", "Box::new(nd.leaf())", _at("r", "Box<Leaf>")),
    "arcleaf": Ty("std::sync::Arc<Leaf>", "std::sync::Arc::new(nd.leaf())", _at("r", "std::sync::Arc<Leaf>")),
    "arcdyn": Ty("std::sync::Arc<dyn StdError + Send + Sync>", "std::sync::Arc::new(nd.leaf())",
                 "(is_at(got, thin(r)) || is_at(got, thin(&**r)))"),
    "statref": Ty("&'static Leaf", "nd.static_leaf()", "(is_at(got, thin(r)) || %s)" % _at("*r", "Leaf")),
    "two": Ty("two::Option<u8, Leaf>", "two::Option(nd.byte(), std::marker::PhantomData)", _at("r", "two::Option<u8, Leaf>")),
    "zero": Ty("zero::Option", "zero::Option(nd.byte())", _at("r", "zero::Option")),
    "optional": Ty("Optional<Leaf>", "Optional(nd.leaf())", _at("r", "Optional<Leaf>")),
    "optopt": Ty("zero::Holder<Option<Leaf>>", "zero::Holder(nd.opt())", _at("r", "zero::Holder<Option<Leaf>>")),
    # types that are not errors
    "u8": Ty("u8", "nd.byte()"),
    "str": Ty("&'static str", "\"s\""),
    "leaf2": Ty("Leaf2", "nd.leaf2()", _at("r", "Leaf2")),
    "unit": Ty("()", "()"),
}


class Field:
    def __init__(self, ty, name=None, attrs=(), gen=None):
        self.ty, self.name, self.attrs = ty, name, list(attrs)

    def t(self):
        return T[self.ty] if isinstance(self.ty, str) else self.ty


class Variant:
    """style: 'named', 'tuple' or 'unit'."""
    s = b = None
    srck = btk = "none"

    def __init__(self, style, fields, attrs=('#[error("m")]',), name="E"):
        self.style, self.fields, self.attrs, self.name = style, fields, list(attrs), name

    def decl_fields(self):
        if self.style == "unit":
            return ""
        parts = []
        for f in self.fields:
            a = "".join(x + " " for x in f.attrs)
            parts.append("%s%s%s" % (a, (f.name + ": ") if self.style == "named" else "", f.t().rust))
        return " { %s }" % ", ".join(parts) if self.style == "named" else "(%s)" % ", ".join(parts)

    def ctor(self, path, mks=None):
        mks = mks or [f.t().mk for f in self.fields]
        if self.style == "unit":
            return path
        if self.style == "tuple":
            return "%s(%s)" % (path, ", ".join(mks))
        return "%s { %s }" % (path, ", ".join("%s: %s" % (f.name, m) for f, m in zip(self.fields, mks)))

    def member(self, i):
        return self.fields[i].name if self.style == "named" else str(i)


class Shape:
    def __init__(self, kind, variants, attrs=(), generics="", inst="", where=""):
        self.kind, self.variants, self.attrs, self.generics, self.inst, self.where = kind, variants, list(attrs), generics, inst, where
        if kind == "enum":
            for i, v in enumerate(variants):
                v.name = "V%d" % i

    frag = None     # a type text which the declaration gets through a macro fragment `$t:ty`

    def decl(self, vis="pub ", name="E"):
        text = self.decl0(vis, name)
        if not self.frag:
            return text
        return "macro_rules! declare { ($t:ty) => {\n%s\n} }\ndeclare!(%s);" % (re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(self.frag), "$t", text), self.frag)

    def decl0(self, vis="pub ", name="E"):
        if self.kind == "struct":
            v = self.variants[0]
            a = "\n".join(self.attrs + v.attrs)
            body = v.decl_fields()
            semi = "" if v.style == "named" else ";"
            w = self.where
            if v.style == "named":
                return "#[derive(Error, Debug)]\n%s\n%sstruct %s%s%s%s%s" % (a, vis, name, self.generics, w, body, semi)
            return "#[derive(Error, Debug)]\n%s\n%sstruct %s%s%s%s%s" % (a, vis, name, self.generics, body, w, semi)
        vs = []
        for v in self.variants:
            vs.append("    %s\n    %s%s," % (" ".join(v.attrs), v.name, v.decl_fields()))
        return "#[derive(Error, Debug)]\n%s\n%senum %s%s%s {\n%s\n}" % ("\n".join(self.attrs), vis, name, self.generics, self.where, "\n".join(vs))

    def path(self, v):
        return "E" if self.kind == "struct" else "E::" + v.name

    def make(self, var="e", ann=True):
        """let e = <arbitrary value>;"""
        ty = ": E%s" % self.inst if ann else ""
        if self.kind == "struct":
            return "    let %s%s = %s;" % (var, ty, self.variants[0].ctor("E"))
        n = len(self.variants)
        arms = []
        for i, v in enumerate(self.variants):
            arms.append("        %s => %s," % (i if i < n - 1 else "_", v.ctor("E::" + v.name)))
        return "    let %s%s = match nd.below(%d) {\n%s\n    };" % (var, ty, n, "\n".join(arms))

    def per_variant(self, f, var="e"):
        """match &e { each variant binding every field as r0, r1, .. => f(variant) }"""
        arms = []
        for v in self.variants:
            pat = ", ".join("%s: r%d" % (v.member(i), i) for i in range(len(v.fields)))
            arms.append("        #[allow(unused_variables)]\n        %s { %s } => { %s }" % (self.path(v), pat, f(v)))
        return "    match &%s {\n%s\n    }" % (var, "\n".join(arms))


def designated(v):
    """The source field by the documented rule: #[source] or #[from] first, else a field named `source`."""
    for i, f in enumerate(v.fields):
        if any(a in ("#[source]", "#[from]") for a in f.attrs):
            return i
    if v.style == "named":
        for i, f in enumerate(v.fields):
            if f.name == "source":
                return i
    return None


# ---- display -------------------------------------------------------------------------------------------------------

def rstr(s):
    """A Rust string literal for s (not a format string)."""
    out = []
    for ch in s:
        if ch == "\\":
            out.append("\\\\")
        elif ch == '"':
            out.append('\\"')
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\0":
            out.append("\\0")
        elif ord(ch) < 32 or 0x200b <= ord(ch) <= 0x200f or 0x202a <= ord(ch) <= 0x202e or 0x2066 <= ord(ch) <= 0x2069:
            out.append("\\u{%x}" % ord(ch))
        else:
            out.append(ch)
    return '"%s"' % "".join(out)


class Lit:
    def __init__(self, text):
        self.text = text

    def msg(self):
        return self.text.replace("{", "{{").replace("}", "}}")

    def oracle(self, v):
        return "b.write_str(%s)?;" % rstr(self.text)


class Ph:
    """A placeholder: `arg` as spelled in the message, `spec` verbatim up to the closing brace, `val` the Rust expression of
    the value it denotes (`{i}` in it is replaced by the binding of field i), `extra` further arguments for the oracle's write!,
    `ospec` the spec for the oracle when it differs."""

    def __init__(self, arg, spec="", field=None, val=None, extra="", ospec=None):
        self.arg, self.spec, self.field, self.val, self.extra, self.ospec = arg, spec, field, val, extra, ospec

    def msg(self):
        return "{%s%s}" % (self.arg, self.spec)

    def oracle(self, v):
        spec = self.spec if self.ospec is None else self.ospec
        val = self.val if self.val is not None else "*r%d" % self.field
        if self.field is not None and self.val is None:
            t = v.fields[self.field].t()
            if "path::Path" in t.rust and spec.strip() in ("", ":"):
                val = "r%d.display()" % self.field
        return "write!(b, %s%s, %s)?;" % (rstr("{" + spec + "}"), (", " + self.extra[1]) if isinstance(self.extra, tuple) else "", val) if isinstance(self.extra, tuple) \
            else "write!(b, %s, %s%s)?;" % (rstr("{" + spec + "}"), val, self.extra)


def message(pieces):
    return "".join(p.msg() for p in pieces)


def error_attr(pieces, args="", raw=False):
    m = message(pieces)
    if raw and '"#' not in m and "\r" not in m:
        return '#[error(r#"%s"#%s)]' % (m, args)
    return "#[error(%s%s)]" % (rstr(m), args)


def show_contract(sh, oracle, pre=""):
    """Derived Display writes what `oracle(variant)` writes into b, and fails when it fails."""
    arms = sh.per_variant(lambda v: "(|| -> fmt::Result { %s Ok(()) })()" % oracle(v))
    return sh.make() + pre + """
    let mut a = Buf::new();
    let ra = write!(a, "{}", e);
    let mut b = Buf::new();
    let rb: fmt::Result =
%s;
    ck!(ra.is_ok() == rb.is_ok(), "Display succeeds exactly when its parts do");
    ck!(a.same(&b), "Display writes what the message denotes");""" % arms + FORGET
