"""Expressions of every syntactic form, put together at random: what the scanner of arguments has to delimit."""
ATOMS = ["1", "\"s\"", "'c'", "1.5", "b\"x\"", "x", "a::b", "<T as U>::V", "<T>::f", "A::<B, C = D>::E", "r#type", "self", "Self::X", "_", "true", "()", "[]", "{}", "m!()", "m![a, b = c]", "m! { x = y }", "continue", "continue 'a", "break", "break 'a",
         "return", "yield", "..", "loop {}", "'a: loop {}", "'a: { b }", "unsafe { 1 }", "const { 1 }", "async {}", "async move {}", "S { a: 1, ..b }", "S { }", "f::<{ 1 }, 'a, _>"]
PATS = ["_", "x", "&x", "&mut x", "ref x", "ref mut x", "mut x", "Some(x)", "A::B { c, .. }", "(a, _)", "[a, .., b]", "1", "1..=2", "'a'..", "x @ 1", "A | B", "None", "A::<B, C>(x)", "m!(x)", "x @ (1 | 2)", "&&x", "\"s\""]
TYPES = ["u8", "&'a str", "*const u8", "Vec<u8>", "(A, B)", "[u8; 3]", "fn(A, B) -> C", "dyn Fn(A) -> B", "HashMap<K, V>", "<A as B>::C", "!", "&mut T", "Box<dyn F<T = U>>"]
BIN = ["+", "-", "*", "/", "%", "^", "&", "|", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>=", "..", "..="]
UN = ["!", "-", "*", "&", "&mut ", "&&", "&raw const ", "&raw mut ", "..", "..=", "return ", "break ", "break 'a ", "yield ", "#[b] "]
POST = ["?", ".await", ".f", ".0", ".0.1", ".f()", ".f::<A, B = C>(x, y)", "(a, b)", "[0]", "[(a, b)]", ".f(|a, b| c)", "()"]


def expr(r, d):
    k = r.randrange(14) if d > 0 else 0
    s = lambda: expr(r, d - 1)
    t, p = r.choice(TYPES), r.choice(PATS)
    if k <= 1:
        return r.choice(ATOMS)
    if k == 2:
        u = r.choice(UN)
        return u + ("(%s)" % s() if u.startswith("..") else s())
    if k == 3:
        return "(%s) %s %s" % (s(), r.choice(BIN), s()) if r.random() < .5 else "x %s %s" % (r.choice(BIN), s())
    if k == 4:
        a = r.choice(ATOMS[:19] + ["(%s)" % s(), "[%s]" % s(), "{ %s }" % s()])
        return a + "".join(r.choice(POST) for _ in range(r.randint(1, 3)))
    if k == 5:
        return "(%s) as %s" % (s(), t)
    if k == 6:      # closures
        pre = r.choice(["", "", "move ", "static ", "async ", "async move ", "static move ", "for<'a> ", "for<'a, 'b> move ", "const ", "static async move "])
        args = r.choice(["||", "|x|", "|a, b|", "|&a, (b, c): (A, B)|", "|mut a: T, _|"])
        return pre + args + " " + (s() if r.random() < .7 else "-> %s { %s }" % (t, s()))
    if k == 7:
        c = r.choice([block_head(r, d), "let %s = %s" % (p, block_head(r, d)), "let %s = y && z" % p, "if a { b } else { c }", "x == (%s)" % s()])
        return "if %s { %s }" % (c, s()) + r.choice(["", " else { %s }" % s(), " else if %s { %s } else { %s }" % (block_head(r, d), s(), s())])
    if k == 8:
        return "match %s { %s => %s, _ if %s => %s }" % (block_head(r, d), p, s(), s(), s())
    if k == 9:
        return r.choice(["while %s {}", "'a: while %s { break }", "while let Some(x) = %s {}", "for x in %s {}", "for (a, b) in %s { c }", "'b: for _ in %s {}"]) % block_head(r, d)
    if k == 10:
        return "{ %s; let %s = %s; %s }" % (s(), p, s(), s())
    if k == 11:
        return "(%s, %s)" % (s(), s()) if r.random() < .5 else "[%s; 2]" % s()
    if k == 12:
        return "S { a: %s, b }" % s()
    return "f::<%s>(%s, %s)" % (r.choice(["A, B", "A, C = D", "{ 1 }", "'a, T", "1, -1"]), s(), s())


# before a block: no struct literal at the outside
def block_head(r, d):
    k = r.randrange(7) if d > 1 else r.randrange(4)
    return (r.choice(["x", "!x", "a.b", "f(a, b)", "*x", "&x"]), "x == y", "x?", "a.f::<B, C>()", "if a { b } else { c }", "match x { _ => y }", "(%s)" % expr(r, d - 1) if d > 0 else "x")[k]
