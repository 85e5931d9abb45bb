"""C11 at the level of the compiler: rejected declarations that are used as errors. The only diagnostics are the derive's."""
import re
from vlib import *
import native, oracle, inputs
from inputs import GENERICS

PRE = """#![allow(warnings)]
#[allow(dead_code)]
pub fn is_error<T: std::error::Error + ?Sized>(t: &T) -> String { t.to_string() }
pub fn is_display<T: std::fmt::Display + ?Sized>(t: &T) -> String { format!("{}", t) }
pub fn is_debug<T: std::fmt::Debug + ?Sized>(t: &T) -> String { format!("{:?}", t) }
"""
M = '#[error("m")]'
TR = "#[error(transparent)]"
FM = "#[error(fmt = crate::f)]"
IO = "std::io::Error"
# (kind, attributes of the type, attributes of the variant under test, [(field attributes, type)])
FAULTS = []
for at in (M + M, TR + TR, M + TR, "#[source]", M + "#[from]", "#[backtrace]" + M, "#[error(foo)]", "#[error()]", "#[error]", '#[error = "m"]', "#[error(fmt = )]", M + '#[error("{0}")]'):
    FAULTS.append(("struct", at, "", [("", IO)]))
    FAULTS.append(("enum", "", at, [("", IO)]))
    FAULTS.append(("enum", at, M, [("", IO)]))
FAULTS += [("struct", FM, "", [("", IO)]), ("struct", M + FM, "", []), ("enum", "", M + FM, []), ("enum", M + FM, M, [])]
for fs in ([("#[source]", IO), ("#[source]", IO)], [("#[from]", IO), ("#[from]", IO)], [("#[backtrace]", IO), ("#[backtrace]", IO)], [("#[from]", IO), ("#[source]", "u8")], [("#[from]", IO), ("", "u8")], [("#[source] #[source]", IO)],
           [("#[from] #[from]", IO)], [(M, IO)], [(TR, IO)], [("#[source(x)]", IO)], [("#[backtrace = 1]", IO)], [("#[source]", "&'static u8"), ("#[error]", "u8")]):
    FAULTS.append(("struct", M, "", fs))
    FAULTS.append(("enum", "", M, fs))
for fs in ([], [("", IO), ("", "u8")], [("#[source]", IO)]):
    FAULTS.append(("struct", TR, "", fs))
    FAULTS.append(("enum", "", TR, fs))
    FAULTS.append(("enum", TR, "", fs))
FAULTS += [("enum", "", "", [("", IO)]), ("enum", "", "", []), ("union", "", "", [("", "u8")]), ("union", M, "", [("", "u8"), ("", "u16")])]
# messages the derive itself refuses
FAULTS += [("struct", '#[error("{0}", 1)]', "", [("", "u8")]), ("enum", "", '#[error("{0} {}", .0)]', [("", "u8")])]
LIFE = ["&'a %s" % IO, "std::borrow::Cow<'a, str>", "Box<dyn std::error::Error + 'static>, PhantomData<&'a u8>"]


def phantom(g):
    """A type which uses every parameter."""
    out = []
    for p in g.args.strip("<>").split(","):
        p = p.strip()
        if not p:
            continue
        out.append("&%s ()" % p if p.startswith("'") else "[u8; N]" if p == "N" else "*const " + p)
    return "std::marker::PhantomData<(%s)>" % "".join("(%s, )," % x if not x.startswith("*const") else "std::marker::PhantomData<%s>," % x[7:] for x in out)


def decl(kind, top, own, fields, g, style):
    fs = list(fields)
    ph = phantom(g)
    if kind == "struct" and g.params:
        fs.append(("", ph))

    def body(fs):
        if style == "named" or kind == "union":
            return " { %s }" % ", ".join("%s pub f%d: %s" % (a, i, t) if kind != "enum" else "%s f%d: %s" % (a, i, t) for i, (a, t) in enumerate(fs))
        return "(%s)" % ", ".join("%s %s" % (a, t) for a, t in fs)
    wh = " where " + ", ".join(g.where) if g.where else ""
    if kind == "struct":
        return "%s pub struct E%s%s" % (top, g.decl, wh + body(fs) if style == "named" else body(fs) + wh + ";")
    if kind == "union":
        return "%s pub union E%s%s%s" % (top, g.decl, wh, body(fs + ([("", ph)] if g.params else [])))
    vs = ["%s V%s" % (own, body(fs)), M + " W"]
    if g.params:
        vs.append(M + " P(%s)" % ph)
    return "%s pub enum E%s%s { %s }" % (top, g.decl, wh, ", ".join(vs))


def module(d, g, bare=False):
    """bare: the type has no Debug impl and is not used; the impls themselves must not complain about that."""
    params = "<%s>" % ", ".join(g.params) if g.params else ""
    wh = " where " + ", ".join(w.rstrip(",") for w in g.where) if g.where else ""
    me = "E" + g.args
    if bare:
        return "use std::marker::PhantomData;\n#[derive(thiserror::Error)]\n%s\n" % d
    return """use std::marker::PhantomData;
#[derive(thiserror::Error)]
%s
impl%s std::fmt::Debug for %s%s { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("E") } }
pub fn used%s(e: &%s) -> (String, String, String)%s { let d: &dyn std::error::Error = &*Box::leak(Box::new(0u8 as char)).to_string().parse::<u8>().unwrap_err().clone(); (crate::is_error(e), crate::is_display(e), crate::is_debug(e)) }
""".replace("let d: &dyn std::error::Error = &*Box::leak(Box::new(0u8 as char)).to_string().parse::<u8>().unwrap_err().clone(); ", "") % (d, params, me, wh, params, me, wh)


def inputs_(quick, rng):
    out = []
    for i, (kind, top, own, fs) in enumerate(FAULTS):
        gs = [GENERICS[0], GENERICS[(i * 5 + 1) % len(GENERICS)], GENERICS[(i * 7 + 9) % len(GENERICS)]] if quick else GENERICS
        for g in gs:
            for style in ("named", "tuple") if not quick else (("named", "tuple")[(i + len(out)) % 2],):
                out.append((decl(kind, top, own, fs, g, style), g))
    for g in GENERICS:
        if "'a" in g.args:
            for t in LIFE[:2]:
                out.append((decl("struct", M, "", [("#[source]", t)], g, "named"), g))
                out.append((decl("enum", "", M, [("#[from]", t)], g, "tuple"), g))
    return out


def run(chk):
    import random
    xs = inputs_(TIER != "thorough", random.Random(SEED))
    o = oracle.Oracle(False)
    o.build()
    rs = o.run([d for d, _ in xs])
    d0 = os.path.join(BUILD, chk.prop, "crate")
    shutil.rmtree(d0 + "/src", ignore_errors=True)
    write(d0 + "/Cargo.toml", "[package]\nname = \"c11crate\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\nthiserror = { path = \"%s\" }\n[workspace]\n" % REPO)
    native.lock(d0)
    live = [i for i, r in enumerate(rs) if r["status"] == "ok" and inputs.errors(r)]
    # an error in one module keeps rustc from later phases in all of them only for unresolved names; type checking goes on
    write(d0 + "/src/lib.rs", PRE + "pub fn f(f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }\n" + "".join("pub mod m%d;\n" % i for i in live))
    for i in live:
        write(d0 + "/src/m%d.rs" % i, module(*xs[i], bare=i % 4 == 1))
    t = time.time()
    rc, out, err = run_(d0)
    seen = {i: [] for i in live}
    stray = []
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or m["target"]["name"] != "c11crate":
            continue
        m = m["message"]
        fn = re.findall(r'"src/m(\d+)\.rs"', json.dumps([s["file_name"] for s in m["spans"]] + [s["expansion"]["span"]["file_name"] for s in m["spans"] if s.get("expansion")]))
        if fn:
            seen[int(fn[0])].append((m["message"], m["rendered"], m.get("code")))
        elif not m["message"].startswith("aborting"):
            stray.append(m["rendered"])
    if rc == 0 or stray or not any(seen.values()):
        raise RuntimeError("the crate of rejected inputs did not compile as expected: rc=%s %s %s" % (rc, "\n".join(stray)[:2000], err[-1500:]))
    n = 0
    for i in live:
        want = sorted(unquote(e) for e in inputs.errors(rs[i]))
        got = seen[i]
        n += 1
        extra = [x for x in got if x[0] not in want]
        if extra or not got:
            chk.violation(re.sub(r"\s+", " ", xs[i][0]), "secondary diagnostic: %s" % extra[0][0] if extra else "no diagnostic at all",
                          dict(input=module(*xs[i], bare=i % 4 == 1), rustc=[x[1] for x in extra], own=want))
    chk.evaluations += n
    chk.cov["compiled_as_errors"] = dict(rejected_inputs=n, seconds=round(time.time() - t, 1))


def run_(d0):
    return run_cmd(["cargo", "+" + STABLE, "check", "--offline", "--message-format=json", "-q"], 400, d0, {"CARGO_TARGET_DIR": os.path.join(BUILD, "target-stable")})


from vlib import run as run_cmd


def unquote(tokens):
    m = re.match(r'^\s*"((?:[^"\\]|\\.)*)"\s*$', tokens, re.S)
    return m.group(1).replace('\\"', '"').replace("\\'", "'").replace("\\\\", "\\") if m else tokens
