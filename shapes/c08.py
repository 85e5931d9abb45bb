"""C08: each variant displays by its own attribute, else by the enum-level one, on its own fields."""
from model import *

HELP = """
fn f_unit(f: &mut Formatter) -> fmt::Result { f.write_str("f_unit") }
fn f_leaf(a: &Leaf, f: &mut Formatter) -> fmt::Result { f.write_str("f_leaf:")?; write!(f, "{:?}", *a)?; if a.0 & 3 == 3 { Err(fmt::Error) } else { Ok(()) } }
fn f_two(a: &Leaf, b: &Leaf, f: &mut Formatter) -> fmt::Result { write!(f, "f_two:{}/{}", a, b) }
fn f_mixed(a: &Leaf2, b: &Leaf, c: &u8, f: &mut Formatter) -> fmt::Result { write!(f, "f_mixed:{}/{}", a, b)?; if *c & 1 == 1 { return Err(fmt::Error); } f.write_str("!") }
pub mod inner { use super::*; pub fn g_two(a: &Leaf, b: &Leaf, f: &mut Formatter) -> fmt::Result { write!(f, "g_two:{}/{}", b, a) } }
fn h_any<A: Display>(a: &A, f: &mut Formatter) -> fmt::Result { write!(f, "h_any:{}", a) }
fn h_any2<A: fmt::Debug, B: Display>(a: &A, b: &B, f: &mut Formatter) -> fmt::Result { write!(f, "h_any2:{:?}/{}", a, b) }
"""
FMT = {
    (): ("f_unit", lambda n: 'b.write_str("f_unit")?;'),
    ("leaf",): ("f_leaf", lambda n: 'b.write_str("f_leaf:")?; write!(b, "{:?}", *r0)?; if r0.0 & 3 == 3 { return Err(fmt::Error); }'),
    ("leaf", "leaf"): ("f_two", lambda n: 'write!(b, "f_two:{}/{}", r0, r1)?;'),
    ("leaf2", "leaf", "u8"): ("f_mixed", lambda n: 'write!(b, "f_mixed:{}/{}", r0, r1)?; if *r2 & 1 == 1 { return Err(fmt::Error); } b.write_str("!")?;'),
}


def fields(key, style, names):
    return [Field(k, names[i] if style == "named" else None) for i, k in enumerate(key)]


def cases(tier, rng):
    out = []

    def add(sh, desc, oracles, kani=False):
        body = show_contract(sh, lambda v: oracles[sh.variants.index(v)])
        out.append(Case("c08_%04d" % len(out), desc, HELP + sh.decl(), body, kani=kani, unwind=24))

    names = ["b", "a", "z", "y"]

    def own(rng, kind, key=None, style=None):
        """(variant, oracle) of a variant with its own attribute of that kind"""
        style = style or rng.choice(("named", "tuple"))
        if kind == "msg":
            key = key or rng.choice([(), ("leaf",), ("leaf", "leaf"), ("leaf2", "leaf", "u8")])
            fs = fields(key, style, names)
            text = "own%d " % rng.randint(0, 99)
            ps = [Lit(text)]
            if key:
                i = rng.randrange(len(key))
                ps += [Ph(fs[i].name or str(i), rng.choice(("", ":?")), i)]
            v = Variant(style if key else rng.choice(("unit", "tuple")), fs, [error_attr(ps)])
            return v, " ".join(p.oracle(v) for p in ps)
        if kind == "transparent":
            t = rng.choice(("node", "leaf", "leaf2"))
            v = Variant(style, fields((t,), style, names), ["#[error(transparent)]"])
            return v, 'write!(b, "{}", r0)?;'
        key = key if key in FMT else rng.choice(list(FMT))
        fn, o = FMT[key]
        v = Variant(style if key else "unit", fields(key, style, names), ["#[error(fmt = %s)]" % fn])
        if key == ("leaf", "leaf") and rng.random() < .5:
            v.attrs = ["#[error(fmt = inner::g_two)]"]
            return v, 'write!(b, "g_two:{}/{}", r1, r0)?;'
        return v, o(0)

    # systematic: each enum-level kind x each variant-level kind, inheriting variants before, between and after
    for level in ("none", "msg", "msg0", "transparent", "fmt", "fmt1"):
        for rep in range(6 if tier == "quick" else 40):
            vs, os = [], []

            def push(p):
                vs.append(p[0])
                os.append(p[1])

            n_own = rng.randint(0 if level != "none" else 1, 4)
            kinds = [rng.choice(("msg", "transparent", "fmt")) for _ in range(n_own)]
            if rep < 3 and level != "none":
                kinds = [("msg", "transparent", "fmt")[rep], "msg"]
            for k in kinds:
                push(own(rng, k))
            inh = rng.randint(1, 3) if level != "none" else 0
            attrs = []
            if level == "msg":        # field-less message
                attrs = ['#[error("level {{}}")]']
                for _ in range(inh):
                    style = rng.choice(("named", "tuple", "unit"))
                    key = () if style == "unit" else rng.choice([(), ("leaf",), ("leaf2", "leaf", "u8")])
                    push((Variant(style, fields(key, style, names), []), 'b.write_str("level {}")?;'))
            elif level == "msg0":     # message naming fields of whichever variant is shown
                style = rng.choice(("named", "tuple"))
                attrs = ['#[error("level {%s} {%s:?}")]' % (("0", "1") if style == "tuple" else ("a", "b"))]
                for _ in range(inh):
                    key = rng.choice([("leaf", "leaf2"), ("leaf", "leaf"), ("leaf2", "leaf", "u8"), ("leaf2", "leaf2")])
                    fs = fields(key, style, names)
                    ia, ib = (0, 1) if style == "tuple" else (1, 0)
                    if style == "named" and rng.random() < .5:
                        fs.reverse()
                        ia, ib = [i for i, f in enumerate(fs) if f.name == "a"][0], [i for i, f in enumerate(fs) if f.name == "b"][0]
                    push((Variant(style, fs, []), 'write!(b, "level {} {:?}", *r%d, *r%d)?;' % (ia, ib)))
            elif level == "transparent":
                attrs = ["#[error(transparent)]"]
                for _ in range(inh):
                    style = rng.choice(("named", "tuple"))
                    push((Variant(style, fields((rng.choice(("node", "leaf")),), style, names), []), 'write!(b, "{}", r0)?;'))
            elif level == "fmt":
                attrs = ["#[error(fmt = h_any)]"]
                for _ in range(inh):
                    style = rng.choice(("named", "tuple"))
                    push((Variant(style, fields((rng.choice(("node", "leaf", "u8")),), style, names), []), 'write!(b, "h_any:{}", r0)?;'))
            elif level == "fmt1":
                attrs = ["#[error(fmt = h_any2)]"]
                for _ in range(inh):
                    style = rng.choice(("named", "tuple"))
                    push((Variant(style, fields((rng.choice(("node", "leaf", "u8")), rng.choice(("node", "leaf"))), style, names), []), 'write!(b, "h_any2:{:?}/{}", r0, r1)?;'))
            z = list(zip(vs, os))
            rng.shuffle(z)
            add(Shape("enum", [a for a, _ in z], attrs), "enum-level %s, case %d" % (level, rep), [b for _, b in z], rep < 2)
    # no display attribute at all: no Display impl is generated
    out.append(Case("c08_%04d" % len(out), "no display attribute, hand-written Display", """
#[derive(Error, Debug)]
pub enum E { A(Leaf), #[allow(dead_code)] B { #[source] x: Leaf }, C }
impl Display for E { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("by hand") } }
#[derive(Error, Debug)]
pub struct S { x: u8 }
impl Display for S { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("by hand too") } }
""", """
    let e = match nd.below(3) { 0 => E::A(nd.leaf()), 1 => E::B { x: nd.leaf() }, _ => E::C };
    ck!(show(&e).is("by hand"), "no Display impl is generated");
    ck!(show(&S { x: nd.byte() }).is("by hand too"), "no Display impl is generated");""", kani=True, unwind=24))
    out.append(Case("c08_%04d" % len(out), "uninhabited enums", """
#[derive(Error, Debug)]
pub enum E {}
#[derive(Error, Debug)]
#[error("never")]
pub enum F {}
""", """
    ck!(impls!(E: Display) && impls!(E: StdError), "an enum without variants has Display and Error");
    ck!(impls!(F: Display) && impls!(F: StdError), "an enum without variants has Display and Error");"""))
    return out
