"""C01, C02, C03, C13: messages. Each message is made from pieces, so that what it denotes is known without scanning it."""
from model import *

# specs usable on the logging payload (all traits implemented)
LOGSPECS = ["", ":", ":?", ":#?", ":x", ":X", ":o", ":b", ":e", ":E", ":p", ":>8", ":*^12", ":<5.3", ":+", ":-", ":#", ":08", ":#x", ":#010b", ":>+9.2?",
            ":x?", ":X?", ":#x?", ":.0", ":?<5", ":x<6", ":o^7", ":p>4", ":e>8?", ":}>5", ":}^9?", ":}<7x", ":{>5", ":{<7x", ": >5", ": ", ":? ", " ", " :?",
            ":5\t", ":\u00e9^9e", ":\u4e2d<6", ":0>9o", ":?>9X", ":\U0001F600^5?", ":^5 ", ":#p", ":X<12p", "\n", ":x\n", ":>1b", " : ", ": ^6p "]
LITS = ["", " ", "a", "text ", "{", "}", "{}", "}{", "{{", "}}", "{x}", "{0}", "%", "$x", "#", "\\", '"', "\n", "\t", "\r", "\0", "\u00e9", "\u4e2d\u6587", "\U0001F600", "e\u0301", "\u202eabc",
        ": ", "x", "r#", "r#x", "self", "{x:?}", "0", "{{0}}", "?", ":?", "x:?", "_", "\u00b7", "\u200b", "'", "//", "/*", "*/", "\U00010348{", "}\u00df", "end."]

NAMES = ["x", "xx", "x1", "x_", "_x", "y", "field_x", "display", "f", "a0", "Type", "r", "\u00f6", "gr", "gr\u00f6\u00dfe", "\u540d\u524d", "__field", "X", "_0", "source_", "fmt", "formatter", "write", "value", "o", "p", "e", "b", "w_x", "_1a"]


def fields_for(rng, style, n, kinds=("leaf",), names=None):
    names = list(names or NAMES)
    rng.shuffle(names)
    return [Field(rng.choice(kinds), names[i] if style == "named" else None) for i in range(n)]


def container(kind, v, rng):
    """Put variant v into a struct or an enum with bystanders."""
    if kind == "struct":
        return Shape("struct", [v]), [v]
    vs = [v]
    by = [Variant("unit", [], ['#[error("bystander {{0}} }}")]']), Variant("tuple", [Field("leaf"), Field("leaf")], ['#[error("{1:?}{0}")]'])]
    o = {id(by[0]): 'b.write_str("bystander {0} }")?;', id(by[1]): 'write!(b, "{:?}{}", *r1, *r0)?;'}
    for x in by:
        if rng.random() < .4:
            vs.insert(rng.randint(0, len(vs)), x)
    return Shape("enum", vs), o


def case(cid, desc, v, pieces, rng, kind, args="", items="", kani=False, pre=None, raw=False, oracle=None, unwind=40):
    v.attrs = [error_attr(pieces, args, raw)]
    sh, o = container(kind, v, rng)
    own = oracle or " ".join(p.oracle(v) for p in pieces)
    body = show_contract(sh, lambda w: ((pre or "") + own) if w is v else o[id(w)])
    return Case(cid, desc + ": " + v.attrs[0], items + sh.decl(), body, kani=kani, unwind=unwind)


PTR = [Ty("Box<u8>", "Box::new(nd.byte())"), Ty("&'static Leaf", "nd.static_leaf()"), Ty("std::sync::Arc<u8>", "std::sync::Arc::new(nd.byte())"),
       Ty("*const u8", "nd.byte() as usize as *const u8")]
PATHS = [Ty("std::path::PathBuf", '["", "a/b", "\\u{f6}", "x y"][nd.below(4) as usize].into()'), Ty("Box<std::path::Path>", 'std::path::PathBuf::from(["", "a/b", "\\u{f6}"][nd.below(3) as usize]).into()')]


def collisions(add):
    """the derive's own binding names do not collide with the user's arguments, however far those anticipate the renaming"""
    for pre, sp in (("__field", ":?"), ("__display", ""), ("__pointer", ":p")):
        for style in ("named", "tuple"):
            for lead in (("",), ("", "_"), ("", "_", "__"), ("_",), ("", "__"), ("", "_", "__", "___")):
                v = Variant(style, [Field("leaf", "x" if style == "named" else None), Field("leaf", "y" if style == "named" else None)])
                x, y = ("x", "y") if style == "named" else ("0", "1")
                nm = [l + pre + ("_x" if style == "named" else "0") for l in lead]
                add("arguments named %s" % " ".join(nm), v, [Ph(x, sp, 0), Lit(" ")] + [Arg(k, "", "%du8" % (i + 7)) for i, k in enumerate(nm)] + [Ph(x, sp, 0), Ph(y, sp, 1)],
                    "".join(", %s = %du8" % (k, i + 7) for i, k in enumerate(nm)), "struct" if len(lead) % 2 else "enum")


def c01(tier, rng):
    out = []

    def add(*a, **k):
        out.append(case("c01_%04d" % len(out), *a, **k))

    # every spec alone, after and before text, named and positional, struct and enum
    for i, sp in enumerate(LOGSPECS):
        for j, (style, kind) in enumerate((("named", "struct"), ("tuple", "enum"), ("tuple", "struct"), ("named", "enum"))):
            n = rng.randint(1, 4)
            fs = fields_for(rng, style, n)
            v = Variant(style, fs)
            k = rng.randrange(n)
            nm = fs[k].name or str(k)
            ps = [[Ph(nm, sp, k)], [Lit("a"), Ph(nm, sp, k), Lit("b")], [Lit("{"), Ph(nm, sp, k), Lit("}")]][(i + j) % 3]
            add("spec %r %s %s" % (sp, style, kind), v, ps, rng, kind, kani=(j == i % 4 and not any(ord(c) > 127 for c in sp)))
    # many fields: numbers of several digits, in any order, repeated, with leading zeros
    for n in (1, 2, 3, 9, 10, 11, 12, 13, 23, 101):
        fs = fields_for(rng, "tuple", n)
        v = Variant("tuple", fs)
        order = list(range(n))
        rng.shuffle(order)
        ps = []
        for k in (order if n < 30 else order[:12] + [100, 10, 1]):
            ps += [Ph(str(k), rng.choice(LOGSPECS), k), Lit(rng.choice(("", ",", "1", " ")))]
        add("tuple of %d" % n, v, ps, rng, "struct" if n % 2 else "enum")
    fs = fields_for(rng, "tuple", 12)
    v = Variant("tuple", fs)
    add("leading zeros", v, [Ph("00", "", 0), Ph("01", ":?", 1), Ph("0011", ":x", 11), Ph("11", "", 11), Ph("1", "", 1)], rng, "struct")
    # the same field several times, by different traits: each by its own spec
    for n in range(24 if tier == "quick" else 200):
        style, kind = rng.choice(("named", "tuple")), rng.choice(("struct", "enum"))
        nf = rng.randint(1, 5)
        fs = fields_for(rng, style, nf)
        v = Variant(style, fs)
        ps = []
        for _ in range(rng.randint(2, 7)):
            k = rng.randrange(nf)
            ps += [Ph(fs[k].name or str(k), rng.choice(LOGSPECS), k)]
            if rng.random() < .5:
                ps += [Lit(rng.choice(LITS))]
        add("repeated mentions %d" % n, v, ps, rng, kind, kani=n < 6 and all(ord(c) < 128 for p in ps for c in p.msg()))
    # pointers: the address held in the field
    for n, t in enumerate(PTR):
        for sp in (":p", ":#p", ":>20p", ":020p", ":p ", ":}>20p", " :p"):
            style = rng.choice(("named", "tuple"))
            fs = [Field("leaf", "a" if style == "named" else None), Field(t, rng.choice(("x", "p", "\u00f6", "r#type")) if style == "named" else None)]
            v = Variant(style, fs)
            nm = (fs[1].name or "1").replace("r#", "")
            ps = [Ph(nm, sp, 1), Lit(" "), Ph(fs[0].name or "0", ":?", 0)]
            add("pointer %s %r" % (t.rust, sp), v, ps, rng, rng.choice(("struct", "enum")))
    # paths: plain and Debug
    for t in PATHS:
        for sp in ("", ":", " ", ": ", ":?", ":#?"):
            for style in ("named", "tuple"):
                fs = [Field(t, rng.choice(("x", "path", "\u00f6")) if style == "named" else None), Field("leaf", "z" if style == "named" else None)]
                v = Variant(style, fs)
                ps = [Lit("p="), Ph(fs[0].name or "0", sp, 0), Lit(";"), Ph(fs[1].name or "1", "", 1), Ph(fs[0].name or "0", ":?", 0)]
                add("path %s %r" % (t.rust, sp), v, ps, rng, rng.choice(("struct", "enum")))
    # integers and other std types with every integer spec
    for rust, mk, sps in (("u32", "nd.byte() as u32 * 77777", ("", ":?", ":x", ":X", ":o", ":b", ":e", ":E", ":#x?", ":X?", ":08x", ":#b", ":+")),
                          ("f64", "nd.byte() as f64 / 3.0", ("", ":?", ":e", ":E", ":.2", ":08.1", ":+e")),
                          ("&'static str", '["", "abc", "\\u{f6}"][nd.below(3) as usize]', ("", ":?", ":>6", ":.1", ":*^7.2", ":#?")),
                          ("Option<Vec<u8>>", "if nd.bool() { Some(vec![nd.byte(), 255]) } else { None }", (":?", ":#?", ":x?", ":X?", ":02x?", ":#X? ")),
                          ("Box<dyn Display>", "Box::new(nd.leaf())", ("", ":>5")),
                          ("[u8; 2]", "[nd.byte(), 1]", (":?", ":02x?")),
                          ("std::borrow::Cow<'static, str>", '"cow".into()', ("", ":>6")),
                          ("String", 'String::from("s")', ("", ":?", ":}^7"))):
        if rust in ("Box<dyn Display>",):
            dbg = "impl fmt::Debug for E { fn fmt(&self, f: &mut Formatter) -> fmt::Result { Ok(()) } }"
        for sp in sps:
            style = rng.choice(("named", "tuple"))
            f = Field(Ty(rust, mk), "x" if style == "named" else None)
            if rust == "Box<dyn Display>":
                f.ty = Ty("Quiet2", "Quiet2(Box::new(nd.leaf()))")
            v = Variant(style, [f])
            add("%s %r" % (rust, sp), v, [Ph(f.name or "0", sp, 0), Lit("|"), Ph(f.name or "0", sp, 0)], rng, rng.choice(("struct", "enum")),
                items="pub struct Quiet2(Box<dyn Display>);\nimpl fmt::Debug for Quiet2 { fn fmt(&self, f: &mut Formatter) -> fmt::Result { Ok(()) } }\nimpl Display for Quiet2 { fn fmt(&self, f: &mut Formatter) -> fmt::Result { self.0.fmt(f) } }\n" if rust == "Box<dyn Display>" else "")
    # width and precision taken from arguments
    for sp, args, extra in ((":w$", ", w = 7", ", w = 7"), (":>w$.p$", ", w = 9, p = 2", ", w = 9, p = 2"), (":.p$?", ", p = 3", ", p = 3"), (":#0w$x", ", w = 5", ", w = 5")):
        v = Variant("named", [Field("leaf", "x"), Field("leaf", "y")])
        add("width argument %r" % sp, v, [Ph("x", sp, 0, extra=extra), Lit("/"), Ph("y", sp, 1, extra=extra)], rng, "struct", args=args)
    collisions(lambda desc, v, ps, args, kind: add(desc, v, ps, rng, kind, args=args))
    # generic fields
    for sp in ("", ":?", ":x", ":p", ":>4e", ":? ", ":}>9o", " ", ":"):
        for kind in ("struct", "enum"):
            v = Variant("named", [Field(Ty("T", "nd.leaf()"), "x"), Field(Ty("Vec<U>", "Vec::new()"), "unused")])
            v.attrs = [error_attr([Lit("g"), Ph("x", sp, 0)])]
            sh = Shape(kind, [v], generics="<T, U>", inst="<Leaf, u8>")
            out.append(Case("c01_%04d" % len(out), "generic field %r %s" % (sp, kind), sh.decl(), show_contract(sh, lambda w: " ".join(p.oracle(w) for p in [Lit("g"), Ph("x", sp, 0)]))))
    return out


def c02(tier, rng):
    out = []

    def add(*a, **k):
        out.append(case("c02_%04d" % len(out), *a, **k))

    for i, t in enumerate(LITS):
        kind = ("struct", "enum")[i % 2]
        add("text %r" % t, Variant(("unit", "named", "tuple")[i % 3], [] if i % 3 == 0 else [Field("leaf", "x" if i % 3 == 1 else None)]), [Lit(t)], rng, kind,
            kani=i % 3 == 0, raw=i % 4 == 0 and "\0" not in t)
        fs = fields_for(rng, "named", 2)
        add("text around a placeholder %r" % t, Variant("named", fs), [Lit(t), Ph(fs[0].name, "", 0), Lit(t), Ph(fs[1].name, ":?", 1), Lit(t)], rng, kind, kani=i % 8 == 0)
        add("text with an argument %r" % t, Variant("tuple", [Field("leaf")]), [Lit(t), Ph("v", "", val="7u8"), Lit(t)], rng, kind, args=", v = 7u8")
        add("text with trailing comma %r" % t, Variant("tuple", [Field("leaf")]), [Lit(t)], rng, kind, args=",")
    alphabet = LITS + ["{", "}", "{", "}", "{}", "a", " "]
    for n in range(60 if tier == "quick" else 1500):
        style = rng.choice(("named", "tuple", "unit"))
        fs = fields_for(rng, style, 0 if style == "unit" else rng.randint(0, 3))
        ps = []
        for _ in range(rng.randint(0, 9)):
            if fs and rng.random() < .35:
                k = rng.randrange(len(fs))
                ps.append(Ph(fs[k].name or str(k), rng.choice(LOGSPECS), k))
            else:
                ps.append(Lit("".join(rng.choice(alphabet) for _ in range(rng.randint(0, 4)))))
        v = Variant(style, fs)
        add("random text %d" % n, v, ps, rng, rng.choice(("struct", "enum")), kani=n < 6 and all(ord(c) < 128 for p in ps for c in p.msg()), raw=rng.random() < .2 and all(c not in message(ps) for c in "\0\u202e\u200b"))
    return out


# ---- C03 -------------------------------------------------------------------------------------------------------------
# `@f` is the shorthand for field f (a reference to it); everything else is plain Rust.
EXPRS = """
@n | @n.abs() | -@n | !@n | *@n | **&@n | &@n | &&@n | &*@n | @n + 1 | 1 + @n | 1 - @n | 2 * @n | 100 / (@n | 1) | 7 % (@n | 1) | @n ^ @n | @n & 3 | 1 | @n
1 << (@n & 3) | @n >> 1 | 1 <= *@n | *@n < 5 | *@n > 5 | 5 < *@n | 5 > *@n | 5 == *@n | 5 != *@n | *@n >= 5 | *@n == 5 && *@c == true | *@c || *@n > 1 | *@c && *@c | 3 + -@n | 3 - *@n * 2
(*@n) as i64 | @n.clone() as f64 / 2.0 | *@c as u8 + 1 | @s.len() | @s.chars().rev().collect::<String>() | @v[0] | @v[@v.len() - 1] | @v[1..].len() | @v[.. @v.len() - 1].len()
@v.iter().map(|x| *x as i32 + 1).sum::<i32>() | @v.iter().map(|q| *q as i32 + @n).sum::<i32>() | @v.iter().filter(|q| **q > 1).count() | @v.iter().any(|&q| q == 1) | @v.iter().fold(0, |a, b| a ^ *b as i32)
(@n, @s) | [@n, @n] | [*@n; 2] | vec![@n, @n] | format!("{}", @n) | format!("{} {a}", @n, a = @s) | (@n) | ((@n)) | { @n } | {{ @n }} | [[@n]][0][0] | (@n, (@s, [@c]))
if *@c { @n } else { &0 } | if @v.is_empty() { 1 } else { 2 } | if *@n > 3 { @s.as_str() } else if *@c { "b" } else { "c" } | match @o { Some(q) => *q, None => *@n } | match *@n { 0 => @s, _ => @s }
match (@n, @c) { (_, true) => 1, (q, _) if *q > 2 => 2, _ => 3 } | { let q = @n; q } | { let q: &i32 = @n; *q + 1 } | { let mut q = *@n; q += @n; q -= 1; q ^= *@n; q } | (|| @n)() | (|q: i32| q + @n)(3) | (move || *@n)() | (|a: i32, b: i32| a - b)(*@n, 2)
Some(@n).map(|q| q + 1) | loop { break @n } | { 'a: loop { break 'a *@n; } } | P { a: 1, b: 2 } | P { a: @n, b: &2 } | P { b: @n, ..P { a: &1, b: &2 } } | P::<i32> { a: *@n, b: -@n }
(0..*@n) | (.. *@n) | (*@n..) | (*@n..=*@n) | 0.. @n.abs() | (1 .. @n.abs()) | (..= @n.abs()) | (.. @n.abs()) | (@n.abs() .. @n.abs()) | { let mut t = 0; for q in @v { t += *q as i32; } t } | { let mut q = 0; while q < *@n && q < 3 { q += 1; } q }
{ let mut i = @v.iter(); let mut t = 0; while let Some(q) = i.next() { t ^= *q; } t } | @n.wrapping_mul(2).to_string().len() | @t.0 | @t.1.0 | @t.1 .1 | @t.0 + @t.1.0 | -@t.1.1 | (@t.1).0 | @t.1.1 .to_string() | @t.1.0.to_string() | 1 + @t.0 | [@t.0, @t.1.0]
@p.a | @p.b.1.0 | @p.b.1 .0 | @p.b.0 + 1 | -@p.a | @p.a.abs() | (@p.b).1.1 | @v.len() + @s.len() | @n.to_string() + @s.as_str() | std::cmp::max(@n, &3) | <i32 as Into<i64>>::into(*@n) | i64::from(*@n) | Vec::<i32>::from([*@n])
@o.unwrap_or(0) | @o.as_ref().map_or(0, |q| *q) | @o.map(|q| q + *@n) | u8::try_from(*@n).is_ok() | 1.5f64 | 1e3 | "lit.x" | 'c' | b'x' | true | concat!("a", 1) | unsafe { *(@n as *const i32) } | -1 | !0u8 | 1 + 2 * 3 | (1, 2).0 | "s".len()
matches!(@o, Some(q) if *q > 0) | if let Some(q) = @o { *q } else { 0 } | @s.is_empty() as u8 | !@s.is_empty() | @c & true | std::collections::BTreeMap::<u8, u8>::new().len() | <Vec<(u8, u8)>>::new().len() | size_of::<(u8, u16)>()
{ fn g<A, B>(_: A, _: B) -> u8 { 3 } g::<u8, u16>(1, 2) } | (1 < 2) == (3 > 2) | 1 < 2 | 4 > 3 | @n.partial_cmp(&3) | @s == "abc" | "abc" == @s | @n.max(&mut 3) | { let mut z = 1; let w = &mut z; *w += @n; z } | *&*@n | @v.first().map(|q| q << 1)
""".strip().replace("\n", " | ")


MORE = """100 / @k;;7 % @k;;3 ^ @n;;3 & @n;;1 << @m;;4096 >> @m;;1 + @n;;1 - @n;;2 * @n;;if @s.is_empty() { 1 } else { 2 };;match @n.abs() { 0 => 1, q => q };;{ while @s.len() > 100 { break; } 1 }
{ let mut t = 0; for q in @v.iter() { t ^= *q; } t };;(|| return @n)();;{ let mut q = 7; q %= @k; q };;{ let mut q = 7; q /= @k; q };;{ let mut q = 7; q *= @n; q };;{ let mut q = 7; q |= @n; q };;{ let mut q = 7; q &= @n; q };;{ let mut q = 1; q <<= @m; q };;{ let mut q = 4096; q >>= @m; q }
{ let q; q = @n; *q };;{ let q = &mut @n.clone(); *q += 1; *q };;{ 1; @n };;{ @n; @s };;(@c == @c) as u8;;@n == @n;;@n < @k;;@n > @k;;@n <= @k;;@n >= @k;;*@c || @s.is_empty();;*@c && @s.is_empty();;(1.. @n.abs());;(1..= @n.abs());;[1, @n.abs(), 2];;(1, @n, 2);;std::cmp::max(@n, @k)
match 1 { 1 if @s.is_empty() => 1, _ => 2 };;match @o { Some(q) if q > @n => 1, _ => 2 };;if let Some(q) = @o.as_ref() { *q } else if let Some(q) = @o { *q } else { 3 };;|| @n;;(|_: i32| @n)(1);;(|q: &i32| -> i32 { q + @n })(@k);;-@n.abs();;!@m.count_ones();;*@n.min(@k)
async { @n };;@n.clone() as i64 as u8 as char;;@t.1.1.pow(2);;@t.1.0 + @t.1.1 * @t.0;;(@t.1.0, @t.1.1);;@t.1.1.. @t.1.0;;@p.b.1.0..= @p.b.1.1;;{ let (a, b) = @t; a + b.0 };;[@t.0, @t.1.0, @t.1.1][1]
None::<i32>.or(*@o);;None::<i32>.is_none() && @n.abs() > @m.count_ones() as i32;;Vec::<i32>::from([*@n]).iter().map(|q| q + @k).sum::<i32>().to_string();;None::<(i32, Vec<i32>)>.map_or(*@n, |q| q.0);;@s.chars().filter(|q| *q > 'a').collect::<Vec<_>>().len();;None::<[i32; 1]>.map(|q| q[0]).unwrap_or(*@n);;PhantomData::<fn(i32) -> i32>.eq(&PhantomData);;@s.parse::<i32>().ok().or(None::<i32>.or(Some(*@n)))"""
MORE = [e for e in MORE.replace("\n", ";;").split(";;") if e not in ("|| @n", "async { @n }", "!@m.count_ones()")]


def split_exprs():
    """EXPRS is separated by ` | ` where the next character starts a new expression; `1 | @n` and `(@n | 1)` are expressions."""
    out, depth = [], 0
    cur = ""
    for tok in EXPRS.split(" | "):
        cur = cur + " | " + tok if cur else tok
        if cur.count("(") == cur.count(")") and cur.count("{") == cur.count("}"):
            out.append(cur.strip())
            cur = ""
    # re-join `1 | @n`
    res = []
    i = 0
    while i < len(out):
        if out[i] == "1" and i + 1 < len(out) and out[i + 1] == "@n":
            res.append("1 | @n")
            i += 2
        else:
            res.append(out[i])
            i += 1
    return res + MORE


AF = [("k", Ty("i32", "nd.byte() as i32 | 1")), ("m", Ty("u32", "nd.byte() as u32 & 7")), ("n", Ty("i32", "nd.byte() as i32")), ("s", Ty("String", '["abc", "", "\\u{f6}"][nd.below(3) as usize].to_string()')), ("v", Ty("Vec<u8>", "vec![nd.byte() & 15, 1, 2]")),
      ("c", Ty("bool", "nd.bool()")), ("o", Ty("Option<i32>", "if nd.bool() { Some(nd.byte() as i32) } else { None }")),
      ("t", Ty("(i32, (i32, i32))", "(nd.byte() as i32, (nd.byte() as i32, 7))")), ("p", Ty("PP", "PP { a: nd.byte() as i32, b: (1, (nd.byte() as i32, 3)) }")), ("leaf", Ty("Leaf", "nd.leaf()"))]
AITEMS = """
#[derive(Debug, Clone)] pub struct P<T> { pub a: T, pub b: T }
#[derive(Debug, Clone)] pub struct PP { pub a: i32, pub b: (i32, (i32, i32)) }
use std::mem::size_of;
use std::marker::PhantomData;
"""
import re


def subst(e, order, style, oracle):
    def r(m):
        k = m.group(1)
        i = order.index(k)
        if oracle:
            return "r%d" % i
        return "." + (("r#type" if k == "ty" else k) if style == "named" else str(i))
    return re.sub(r"@(\w+)", r, e)


class Arg:
    """A placeholder consuming an explicit argument; the oracle formats the expression by itself."""

    def __init__(self, arg, spec, expr):
        self.arg, self.spec, self.expr = arg, spec, expr

    def msg(self):
        return "{%s%s}" % (self.arg, self.spec)

    def oracle(self, v):
        return "write!(b, %s, %s)?;" % (rstr("{" + self.spec + "}"), self.expr)


def c03(tier, rng):
    out = []
    exprs = split_exprs()

    def base(style, names=None):
        fs = list(AF)
        rng.shuffle(fs)
        if rng.random() < .3:
            fs = fs[:1] + [("extra%d" % i, Ty("u8", "nd.byte()")) for i in range(9)] + fs[1:]
        order = [k for k, _ in fs]
        return order, Variant(style, [Field(t, k if style == "named" else None) for k, t in fs])

    def add(desc, v, pieces, args, kind, key=None, kani=False):
        c = case("c03_%04d" % len(out), desc, v, pieces, rng, kind, args=args, items=AITEMS, kani=kani, unwind=12)
        c.key = key
        out.append(c)

    KEY = {}
    for i, e in enumerate(exprs):
        for style in ("named", "tuple"):
            kind = ("struct", "enum")[(i + (style == "named")) % 2]
            order, v = base(style)
            m, o = subst(e, order, style, False), subst(e, order, style, True)
            add("argument %s" % e, v, [Lit("<"), Arg("", ":?", o), Lit(">")], ", " + m, kind)
            # the same expression as a named argument, and in a second position
            order, v = base(style)
            m, o = subst(e, order, style, False), subst(e, order, style, True)
            e2 = exprs[(i * 7 + 3) % len(exprs)]
            m2, o2 = subst(e2, order, style, False), subst(e2, order, style, True)
            add("arguments %s and %s" % (e2, e), v, [Arg("", ":?", o2), Lit(" "), Arg("val", ":?", o), Lit(" "), Ph(order[0] if style == "named" else "val", ":?", *( [0] if style == "named" else [None, o]))],
                ", %s, val = %s%s" % (m2, m, "," if i % 3 == 0 else ""), kind)
    # named arguments shadow fields, whatever surrounds them
    for i in range(30 if tier == "quick" else 300):
        style, kind = rng.choice(("named", "tuple")), rng.choice(("struct", "enum"))
        order, v = base(style)
        ps, pos, named = [], [], []
        for _ in range(rng.randint(0, 3)):
            e = rng.choice(exprs)
            pos.append(subst(e, order, style, False))
            ps += [Arg("", ":?", subst(e, order, style, True)), Lit(",")]
        names = rng.sample(order + ["zzz", "__field_n", "__display_n", "__pointer_n", "_0", "__field0", "_1"], rng.randint(1, 5))
        for nm in names:
            e = rng.choice(exprs)
            named.append("%s = %s" % (nm, subst(e, order, style, False)))
            for _ in range(rng.randint(1, 2)):
                ps += [Arg(nm, ":?", subst(e, order, style, True)), Lit(";")]
        for k in range(len(order)):
            if rng.random() < .4 and not (style == "named" and order[k] in names) and not (style == "tuple" and pos):
                ps += [Ph(order[k] if style == "named" else str(k), ":?", k)]
        # positional placeholders keep their relative order
        P = [p for p in ps if isinstance(p, Arg) and p.arg == ""]
        rest = [p for p in ps if not (isinstance(p, Arg) and p.arg == "")]
        rng.shuffle(rest)
        slots = sorted(rng.randint(0, len(rest)) for _ in P)
        for s, p in reversed(list(zip(slots, P))):
            rest.insert(s, p)
        add("shadowing %d" % i, v, rest, "".join(", " + a for a in pos + named) + rng.choice(("", ",")), kind)
    collisions(add)
    # numbers refer to positional arguments where there are no numbered fields
    for kind in ("struct", "enum"):
        order, v = base("named")
        add("numbered positional arguments", v, [Arg("1", ":?", subst("@s", order, "named", True)), Lit(" "), Arg("0", ":?", subst("@n", order, "named", True)), Lit(" "), Arg("1", ":?", subst("@s", order, "named", True)), Ph("n", ":?", order.index("n"))],
            ", .n, .s", kind)
        v = Variant("unit", [])
        add("numbered positional arguments, unit", v, [Arg("1", "", "'b'"), Arg("0", "", "'a'")], ", 'a', 'b'", kind)
    # width and precision arguments stay where they are
    order, v = base("named")
    add("precision from the argument list", v, [Ph("leaf", ":.*", order.index("leaf"), extra=("", "3usize")), Lit(" "), Arg("", ":?", "9u8")], ", 3usize, 9u8", "struct")
    order, v = base("named")
    add("shorthand after a break label", v, [Arg("", ":?", subst("@n", order, "named", True))], ", { 'a: loop { break 'a .n; } }", "struct")
    return out


def c03_newer(tier, rng):
    """Named arguments next to an argument whose syntax is too new for the scanner: a `try` block. They take precedence over a field all the same."""
    out = []
    for i in range(24):
        style, kind = ("named", "tuple")[i % 2], ("struct", "enum")[i // 2 % 2]
        fs = [(k, t) for k, t in AF if k in ("n", "s", "o")]
        rng.shuffle(fs)
        order = [k for k, _ in fs]
        v = Variant(style, [Field(t, k if style == "named" else None) for k, t in fs])
        x, ox = "try { Some(5)? }", "Some(5)"
        nm = rng.sample(["s", "n", "zzz"], 2)
        args = ["%s = \"named %s\"" % (nm[0], nm[0]), "%s = %s" % (nm[1], "1 == 1" if i % 4 else x)]
        ps = [Arg(nm[0], ":?", '"named %s"' % nm[0]), Lit("|"), Arg(nm[1], ":?", "true" if i % 4 else ox)]
        if i % 5 != 4:
            args.insert(0, "try { (*%s)? }" % subst("@o", order, style, False))
            ps.insert(rng.randint(0, 3), Arg("", ":?", "(%s).clone()" % subst("@o", order, style, True)))
        elif i % 4:
            args.append("late = try { Some(9)? }")
            ps.append(Arg("late", ":?", "Some(9)"))
        if style == "named":
            ps += [Lit("/"), Ph("o", ":?", order.index("o"))]
        c = case("c03n_%04d" % i, "named arguments next to syntax unknown to the scanner %d" % i, v, ps, rng, kind, args=", " + ", ".join(args) + rng.choice(("", ",")), items=AITEMS)
        c.nightly = True
        out.append(c)
    return out
