"""C03: references by number next to positional arguments. In a container with numbered fields they could mean either and
are rejected; everywhere else they mean the argument."""
from messages import split_exprs
import re, inputs, exprs

EX = [re.sub(r"@(\w+)", r".\1", e) for e in split_exprs()]
PLAINEX = ["1", "\"s\"", "x", "f(a, b)", "a == b", "[a, b]", "|a, b| c", "{ a }", "a as u8", "-1", "a::<B, C>()", "x = = y"[:1], "r#type", "a.b", "..", "a..=b", "*x", "&mut y", "!z"]


def ambiguous(rng, n):
    """[(source, verdict, description)]: verdict True must be rejected, False must be accepted."""
    out = []
    while len(out) < n:
        style = rng.choice(("tuple", "tuple", "named", "unit"))
        nf = 0 if style == "unit" else rng.choice((0, 1, 2, 3, 12))
        names = ["f%d" % i for i in range(nf)]
        body = {"tuple": "(%s)" % ", ".join(["u8"] * nf), "named": " { %s }" % ", ".join(x + ": u8" for x in names), "unit": ""}[style]

        def ex():
            k = rng.random()
            e = rng.choice(EX if k < .3 else PLAINEX) if k < .5 else exprs.expr(rng, rng.choice((0, 1, 1, 2, 3)))
            if re.match(r"(r#)?\w+ =( |$)", e):      # would be a named argument
                e = "(%s)" % e
            return e if nf or not e.startswith(".") else "1"
        npos = rng.choice((0, 0, 1, 1, 2, 3))
        nnamed = rng.choice((0, 0, 1, 2))
        pos = [ex() for _ in range(npos)]
        args = pos + ["n%d = %s" % (i, ex()) for i in range(nnamed)]
        num = rng.choice((None, 0, 1, 2, 11, 12))
        ps = [rng.choice(("", "a", "{{", "}}", "{{0}}", "\\u{e9}"))]
        ps += ["{}"] * rng.randint(0, npos) + ["{n0:?}"] * (nnamed > 0) + (["{%s%s}" % (rng.choice(names), rng.choice(("", ":?", ":>5")))] if style == "named" and names else [])
        if num is not None:
            ps.insert(rng.randint(0, len(ps)), "{%d%s}" % (num, rng.choice(("", ":?", ":x", ":>5", " ", ": "))))
        msg = "".join(ps)
        attr = '#[error("%s"%s%s)]' % (msg, "".join(", " + a for a in args), rng.choice(("", ",")))
        if style == "tuple" and npos and num is not None and nf:
            verdict = True if (num < nf and num < npos) else None
        else:
            verdict = False
        if verdict is None:
            continue
        kind = rng.choice(("struct", "enum"))
        if kind == "struct":
            src = "%s struct E%s%s" % (attr, body, "" if style == "named" else ";")
        else:
            src = "enum E { %s V%s, #[error(\"w\")] W }" % (attr, body)
        out.append((src, verdict, "%s with %d fields, %d positional arguments, reference to %s" % (style, nf, npos, num)))
    return out
