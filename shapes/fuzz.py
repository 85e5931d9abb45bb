"""C10: syntactically valid derive inputs full of unlikely content."""
import random
import inputs, exprs
from inputs import *

KW = "as async await box break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub raw ref return self Self static struct super trait true type union unsafe use where while yield _".split()
IDS = ["a", "source", "x", "Vec", "T", "r#type", "r#source", "_0", "__field_a", "é", "self", "fmt", "transparent", "Option", "Backtrace", "i32", "format", "matches"]
PUN = "+ - * / % ^ ! & | && || << >> += -= *= /= %= ^= &= |= <<= >>= = == != > < >= <= @ . .. ... ..= , ; : :: -> => # $ ? ~".split()
LITS = ["0", "1", "0.0", "0.1", "1.", "1.0", "0.1.2", "1e3", "1.0e-3", "0x1f", "1u8", "0.0f32", "1f64", "\"s\"", "\"{}\"", "\"{a\"", "b\"s\"", "r\"s\"", "r#\"s\"#", "c\"s\"", "'c'", "b'c'", "true", "4294967296", "99999999999999999999", "0b1", ".0", ".1.0", ".0.1.2", ". 0 . 1", "1__0"]
LIFES = ["'a", "'static", "'_", "'r#a"]


def tokens(rng, n, depth=0):
    out = []
    for _ in range(rng.randint(0, n)):
        r = rng.random()
        if r < .17:
            out.append(rng.choice(KW))
        elif r < .35:
            out.append(rng.choice(IDS))
        elif r < .62:
            out.append(rng.choice(PUN))
        elif r < .74:
            out.append(rng.choice(LITS))
        elif r < .79:
            out.append(rng.choice(LIFES))
        elif r < .86:
            out.append(rng.choice((".a", ".0", "x = ", "r#type = ", ", ", "a = .a", "|a| ", "..", "if a {", "match .a { _ => 1 }", "as Vec<u8>", "::<T>", "else { 1 }"))
                       .replace("if a {", "if a { }"))
        elif depth < 4:
            o, c = rng.choice(("()", "[]", "{}", ("__none!(", ")")))
            out.append(o + tokens(rng, n // 2, depth + 1) + c)
    return " ".join(out)


FRAG = ["{a\u200e}", "{\u200fa:?}", "{\ufeffa}", "{0\u200e}", "{a\ufeff}", "{", "}", "{{", "}}", "{}", "{a}", "{0}", "{a:?}", "{0:x}", "{:p}", "{a:", "{0:", "{ a }", "{a :?}", "{4294967295}", "{4294967296}", "{99999999999999999999}", "{r#type}", "{r#a}", "{type}", "{self}", "{_}", "{__field_a}", "{0_}", "{00}", "{01:?}", "{é}", "{a\u0301}", "{\u200b}",
        "{\U0001f600}", "{a:}>5}", "{a:{>5}", "{a:{{>5}", "{a:0$}", "{a:1$.*}", "{a:w$}", "{a:.w$}", "{:.*}", "{a:ö^+#08.3x?}", "\\u{7b}", "\\u{7d}", "\\n", "\\0", "text", "\u202e", " ", "{a.b}", "{a[0]}", "{a!r}", "{-1}", "{+}", "{#}", "{a:?:?}", "{:", "{::}", "{a::b}", "{A}", "{a-b}", "{aé:?}",
        "{\u00b5}", "{\u05d0}", "{1a}", "{source}", "{x}", "{as}", "{async}", "{crate}", "{Self}", "{super}", "{union}", "{a b}", "{a\\n:?}", "{\\ta}", "{a,b}", "{²}", "{a²}", "{ª}", "{·}", "{a·b}", "{\ufeff}", "{\ufffd}", "{a\u00a0:?}", "{a:\u00a0?}", "{\u3000a}", "{'a}", "{\\'}", "{\\\"}"]


def message(rng):
    return "".join(rng.choice(FRAG) for _ in range(rng.randint(0, 7)))


TYS = ["u8", "T", "&'a T", "&T", "&mut [T]", "[T; N]", "[u8]", "(T, u8)", "()", "!", "fn(T) -> u8", "unsafe extern \"C\" fn(x: u8, ...)", "dyn Error + Send", "Box<dyn Fn(T) -> T>", "impl Error", "m!(x)", "a::m![T]", "(T)", "((T))", "_", "*const T", "*mut T", "Option", "Option<>", "Option<'a>",
       "Option<T>", "Option<T, U>", "Option<3>", "Option<{ N }>", "Option(T)", "Option(T) -> U", "Option::<T>", "Option<T>::X", "Option<A = B>", "Option<T: Copy>", "Option<Option<T>>", "Backtrace", "Backtrace<>", "Backtrace<T>", "Backtrace()", "a::Backtrace", "<T as Tr>::Backtrace", "<T>::Option<T>", "<T as Tr<'a>>::X<'a>",
       "::T", "T::T", "T<T>", "dyn for<'x> Fn(&'x T)", "for<'x> fn(&'x T)", "Foo<'a>", "Foo<'a, T, 3>", "Foo<'static>", "Foo<Item = T>", "Foo<Foo<Foo<&'a T>>>", "__none!(T)", "__none!(Option<T>)", "Option<__none!(T)>", "__none!(Backtrace)", "__none!(__none!(&'a T))", "crate::X", "self::X", "super::X", "Self", "r#type::X", "dyn 'a + Error", "(dyn Error + 'a)", "[Foo<'a>; { const X: usize = 1; X }]", "Foo<-1>", "Foo<{ 1 + 1 }>", "Foo<\"s\">"]


def attr(rng):
    r = rng.random()
    m = message(rng)
    lit = '"%s"' % m if rng.random() < .85 else 'r#"%s"#' % m.replace("\\", "/").replace('"', "")
    if r < .45:
        return A("x", "#[error(%s%s)]" % (lit, ("," if rng.random() < .9 else "") + tokens(rng, 12) if rng.random() < .6 else ""))
    if r < .52:
        return A("x", "#[error(%s)]" % tokens(rng, 6))
    if r < .57:
        return A("x", "#[error(fmt = %s)]" % rng.choice(("a", "a::b", "<T as X>::f", "f::<T>", "r#fn", "self::f", tokens(rng, 3))))
    if r < .64:
        return TRANSPARENT
    if r < .90:
        return rng.choice((SOURCE, FROM, BACKTRACE))
    if r < .95:
        return A("x", "#[%s(%s)]" % (rng.choice(("source", "from", "backtrace", "error", "other", "a::error")), tokens(rng, 4)))
    return A("x", "#[%s = %s]" % (rng.choice(("source", "from", "backtrace", "error", "doc")), rng.choice(LITS[:6] + ['"x"', "concat!(1)"])))


FNAMES = ["a", "b", "source", "r#type", "r#source", "x", "é", "__field_a", "_0", "self_", "backtrace", "r#async", "union", "raw", "r#match", "a1", "A"]


def fuzz(rng):
    """Mostly one unlikely thing per declaration, so that the rest is reached."""
    hot = rng.random()
    p = .05 if hot < .5 else .4
    style = lambda: rng.choice(("named", "tuple", "unit"))

    def fields(st):
        if st == "unit":
            return []
        n = rng.choice((0, 1, 1, 2, 3))
        return [F(T(rng.choice(TYS)), [attr(rng)] if rng.random() < p else ([rng.choice((SOURCE, FROM, BACKTRACE))] if rng.random() < .2 else []), nm) for nm in rng.sample(FNAMES, n)]
    g = rng.choice(inputs.GENERICS)
    kind = rng.choice(("struct", "struct", "enum", "enum", "enum", "union" if rng.random() < .1 else "struct"))
    m = lambda: [A("message", '#[error("%s"%s)]' % (message(rng), ", " + (tokens(rng, 10) if rng.random() < .6 else exprs.expr(rng, 3).replace("x", ".a")) if rng.random() < .5 else ""))] + ([attr(rng)] if rng.random() < p else [])
    if kind == "union":
        return D("union", m(), [V("named", fields("named") or [F(T("u8"), [], "z")])], generics=g)
    if kind == "struct":
        st = style()
        return D("struct", m(), [V(st, fields(st))], generics=g)
    vs = []
    top = m() if rng.random() < .3 else []
    for i in range(rng.randint(0, 3)):
        st = style()
        vs.append(V(st, fields(st), m() if not top or rng.random() < .5 else [], "V%d" % i))
    return D("enum", top, vs, generics=g)


def deep(k):
    """Deeply nested, long and repetitive inputs of size k."""
    nest = lambda o, c, s, n: o * n + s + c * n
    out = []
    d = min(k, 100)
    for args in (nest("(", ")", ".a", d), nest("[", "]", ".a", d), nest("{", "}", ".a", d), nest("if .a { ", " } else { 1 }", "1", d), nest("|x| ", "", "x", k), nest("-", "", ".a", k), nest("&", "", ".a", k), " + ".join([".a"] * k), ", ".join([".a"] * k), ", ".join("x%d = .a" % i for i in range(k)),
                 ".a" + ".b" * k, ".a" + "?" * k, ".a" + "()" * d, ".a" + " as u8" * k, "a" + "::a" * k, "Vec::" + nest("<Vec", ">", "<u8>", d) + "::new()", nest("if ", " {}", "a", d), nest("match ", " {}", "a", d), "break " * k, "return " * k, "x = " * k, "= " * k, "'a: " * k, ".. " * k, ". " * k, "< " * k, "> " * k,
                 "|" * k, "#[a] " * k + "1", "async " * k, "move " * k, "for " * k, "in " * k, "let " * k, "else " * k, "break 'a " * k, ".0.0" * k, "::<" * k, "if " * k, "match " * k, "while " * k, "unsafe " * k, "static " * k, "const " * k, "&raw " * k, "..=" * k, "yield " * k, "=> " * k, "! " * k, "a { } " * k, "{ } " * k):
        out.append(D("struct", [A("message", '#[error("{}", %s)]' % args)], [V("named", [F(T("u8"), [], "a")])]))
    for ms in ("{" * k, "}" * k, "{a}" * k, "{{" * k, "{a:?}" * k, "{0" * k, "{" + "a" * k + "}", "{" + "9" * k + "}", "{a:" + "}" * k, "{a:}>" * k, "é" * k, "{é" * k, "{a:{" * k, "{_" * k, "{ " * k, "{:" * k, "{a:?" * k, "{self}" * k):
        out.append(D("struct", [A("message", '#[error("%s")]' % ms)], [V("named", [F(T("u8"), [], "a")])]))
        out.append(D("enum", [A("message", '#[error("%s", a = 1)]' % ms)], [V("tuple", [F(T("u8"), [])]), V("unit", [], [], "W")]))
    ty = lambda t: D("struct", [msg("{a}")], [V("named", [F(T(t), [FROM], "a")])], generics=inputs.GENERICS[1])
    out += [ty(nest("Option<", ">", "T", d)), ty(nest("&'a ", "", "T", d)), ty(nest("(", ",)", "T", d)), ty("a" + "::a<T>" * k), ty("Foo<" + "T, " * k + ">"), ty(nest("__none!(", ")", "T", d)), ty(nest("<", " as A>::B", "T", d)), ty(nest("[", "; 1]", "T", d)), ty(nest("Box<dyn Fn(", ")>", "T", d // 2))]
    out.append(D("struct", [msg("".join("{a%d:?}" % i for i in range(k)))], [V("named", [F(T("u8"), [], "a%d" % i) for i in range(k)])]))
    out.append(D("enum", [msg("{0}")], [V("tuple", [F(T("u8"), [])], [], "V%d" % i) for i in range(k)]))
    return out
