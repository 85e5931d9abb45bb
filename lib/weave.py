"""Engine A: weaves contracts into the functions of /repo/impl/src, mechanically, on every run.

The text of every function under contract is copied verbatim from the current tree; the only things inserted are
specification clauses (requires/ensures/decreases, a name for the result, loop invariants, closure specifications and proof
blocks), taken from /verif/contracts. Items that are not under contract stay in the file but outside the `verus!` block, where
the verifier does not look at them; whatever of them a contracted function calls needs an assumed contract in
contracts/ext.rs. The result is a single crate with the same module tree."""
import hashlib, os, re

from vlib import *

PUNCT3 = ("<<=", ">>=", "...", "..=")
PUNCT2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "..", "<<", ">>")
OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")": "(", "]": "[", "}": "{"}


class Tok:
    __slots__ = ("k", "t", "a", "b")

    def __init__(self, k, t, a, b):
        self.k, self.t, self.a, self.b = k, t, a, b

    def __repr__(self):
        return "%s:%s" % (self.k, self.t)


def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        if s.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith("/*", i):
                    d, i = d + 1, i + 2
                elif s.startswith("*/", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
            continue
        m = re.compile(r'(?:b|c|br|cr|r)?(#*)"').match(s, i)
        if m and (c in '"bcr') and (c == '"' or not m.group(1) or "r" in m.group(0)):
            if "r" in m.group(0).split("#")[0].split('"')[0]:
                end = '"' + m.group(1)
                j = s.index(end, m.end()) + len(end)
            else:
                j = m.end()
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                j += 1
            out.append(Tok("str", s[i:j], i, j))
            i = j
            continue
        m = re.compile(r"b?'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'", re.S).match(s, i)
        if m:
            out.append(Tok("chr", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = re.compile(r"'[\w]+").match(s, i)
        if m:
            out.append(Tok("life", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = re.compile(r"r#\w+|[^\W\d]\w*").match(s, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = re.compile(r"\d[\w]*(\.\d[\w]*)?([eE][+-]?\d+)?").match(s, i)
        if m:
            out.append(Tok("num", m.group(0), i, m.end()))
            i = m.end()
            continue
        for p in PUNCT3 + PUNCT2:
            if s.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


class Src:
    """A source file with its tokens and matched delimiters."""

    def __init__(self, text):
        self.s = text
        self.t = lex(text)
        self.m = {}
        st = []
        for i, t in enumerate(self.t):
            if t.k == "p" and t.t in OPEN:
                st.append(i)
            elif t.k == "p" and t.t in CLOSE:
                o = st.pop()
                self.m[o], self.m[i] = i, o

    def is_(self, i, *ts):
        return 0 <= i < len(self.t) and self.t[i].k in ("p", "id") and self.t[i].t in ts

    def angle_end(self, i):
        """index after the generic list that opens at token i ('<')"""
        d = 0
        while True:
            t = self.t[i]
            if t.k == "p":
                if t.t == "<":
                    d += 1
                elif t.t == "<<":
                    d += 2
                elif t.t == ">":
                    d -= 1
                elif t.t == ">>":
                    d -= 2
                elif t.t in OPEN:
                    i = self.m[i]
            i += 1
            if d <= 0:
                return i

    def items(self, lo, hi):
        """[(kind, name, start token, end token (exclusive), header dict)] of the items between two token indices"""
        out, i = [], lo
        while i < hi:
            start = i
            while self.is_(i, "#"):
                i += 1
                if self.is_(i, "!"):
                    i += 1
                i = self.m[i] + 1
            if i >= hi:
                break
            if self.is_(i, "pub"):
                i += 1
                if self.is_(i, "("):
                    i = self.m[i] + 1
            while self.is_(i, "unsafe", "async", "extern", "default") or self.is_(i, "const") and self.is_(i + 1, "fn", "unsafe"):
                i += 1
                if self.t[i].k == "str":
                    i += 1
            kw = self.t[i].t
            h = {}
            if kw == "fn":
                h["name"] = self.t[i + 1].t
                j = i + 2
                if self.is_(j, "<"):
                    j = self.angle_end(j)
                h["params"] = (j, self.m[j])
                j = self.m[j] + 1
                if self.is_(j, "->"):
                    h["ret"] = [j + 1, None]
                while not self.is_(j, "{", ";", "where"):
                    j = self.m[j] + 1 if self.is_(j, "(", "[") else j + 1
                if "ret" in h:
                    h["ret"][1] = j
                h["sig_end"] = j
                while not self.is_(j, "{", ";"):
                    j = self.m[j] + 1 if self.is_(j, "(", "[") else j + 1
                if self.is_(j, "{"):
                    h["body"] = (j, self.m[j])
                    j = self.m[j]
                h["where_end"] = h["body"][0] if "body" in h else j
                out.append(("fn", h["name"], start, j + 1, h))
                i = j + 1
            elif kw in ("impl", "trait", "mod"):
                j = i + 1
                while not self.is_(j, "{", ";"):
                    j = self.m[j] + 1 if self.is_(j, "(", "[") else j + 1
                h["head"] = (i, j)
                if self.is_(j, "{"):
                    h["body"] = (j, self.m[j])
                    j = self.m[j]
                out.append((kw, re.sub(r"\s+", " ", self.s[self.t[i].b:self.t[h["head"][1] - 1].b]).strip(), start, j + 1, h))
                i = j + 1
            elif kw in ("struct", "enum", "union"):
                name = self.t[i + 1].t
                j = i + 1
                while not self.is_(j, "{", ";"):
                    j = self.m[j] + 1 if self.is_(j, "(", "[") else j + 1
                if self.is_(j, "{"):
                    j = self.m[j]
                out.append((kw, name, start, j + 1, h))
                i = j + 1
            elif kw == "macro_rules" or (self.t[i].k == "id" and self.is_(i + 1, "!")) or self.is_(i + 1, "::"):
                j = i
                while not self.is_(j, "{", "(", "["):
                    j += 1
                b = self.is_(j, "{")
                j = self.m[j]
                if not b:
                    j += 1
                out.append(("macro", kw, start, j + 1, h))
                i = j + 1
            else:       # use, static, const, type, extern crate
                j = i
                while not self.is_(j, ";"):
                    j = self.m[j] + 1 if self.is_(j, "(", "[", "{") else j + 1
                nm = self.t[i + 1].t if kw in ("static", "const", "type") else ""
                out.append((kw, nm, start, j + 1, h))
                i = j + 1
        return out

    def loops(self, lo, hi):
        """[(kind, keyword token, token of `in` or None, body open token)] in textual order"""
        out = []
        i = lo
        while i < hi:
            t = self.t[i]
            if t.k == "id" and t.t in ("for", "while", "loop") and not self.is_(i + 1, "<") and not self.is_(i - 1, ".", "impl"):
                j, inn = i + 1, None
                while not self.is_(j, "{"):
                    if t.t == "for" and inn is None and self.is_(j, "in"):
                        inn = j
                    j = self.m[j] + 1 if self.is_(j, "(", "[") else j + 1
                out.append((t.t, i, inn, j))
            i += 1
        return out

    def closures(self, lo, hi):
        """[(first token, params (a, b) exclusive of bars, body first token, body end token exclusive, braced)]"""
        out = []
        i = lo
        while i < hi:
            t = self.t[i]
            if t.k == "p" and t.t in ("|", "||"):
                p = self.t[i - 1]
                if (p.k == "p" and p.t in ("(", ",", "=", "{", ";", "=>", "&", "[", "&&", "||", "!", ":") and not (p.t in ("||", "&&") and False)) or (p.k == "id" and p.t in ("return", "move", "else", "in")):
                    if p.t in ("||", "&&") or self.in_pattern(i):
                        i += 1
                        continue
                    if t.t == "||":
                        a = b = i + 1
                        j = i + 1
                    else:
                        j = i + 1
                        while not self.is_(j, "|"):
                            j = self.m[j] + 1 if self.is_(j, "(", "[", "{") else j + 1
                        a, b = i + 1, j
                        j += 1
                    if self.is_(j, "->"):
                        out.append((i, (a, b), None, None, True))
                        i = j
                        continue
                    if self.is_(j, "{"):
                        out.append((i, (a, b), j, self.m[j] + 1, True))
                    else:
                        k = j
                        while not (self.is_(k, ",", ";") or self.t[k].k == "p" and self.t[k].t in CLOSE):
                            k = self.m[k] + 1 if self.t[k].k == "p" and self.t[k].t in OPEN else k + 1
                        out.append((i, (a, b), j, k, False))
                    i = j
                    continue
            i += 1
        return out

    def in_pattern(self, i):
        """a leading `|` of a match arm: `{ | A => ..`"""
        return False


def words(text, *ks):
    return bool(re.search(r"\b(%s)\b" % "|".join(ks), text))


# ---- contract files ----------------------------------------------------------------------------------------------------

class Contract:
    """One function's contract: result name, clauses, per loop and closure clauses, proof blocks."""

    def __init__(self, path):
        self.path = path
        self.ret = None
        self.clauses = []           # lines between fn header and body
        self.loops = {}             # n -> (label, [lines])
        self.closures = {}          # n -> (binder or None, [lines])
        self.blocks = {}            # (where, n) -> text
        self.attrs = []
        self.props = []
        self.nloops = self.nclosures = None
        self.subst = []
        self.trusted = False

    def count(self):
        """number of clauses stated"""
        t = "\n".join(self.clauses + [l for _, ls in self.loops.values() for l in ls] + [l for _, ls in self.closures.values() for l in ls])
        return len([x for x in re.split(r",\s*\n|\b(?:requires|ensures|invariant|decreases)\b", t + ",\n") if x.strip()])


def parse_contracts(text):
    """File format: `@fn path -> name` starts a contract (path: module::function or module::Type::function or
    module::Trait for Type::function); then clauses verbatim; `@loop n label`, `@closure n binder`, `@at entry`,
    `@at loop n begin|end|after`, `@at let x` (after the statement which binds x), `@attr text`, `@props C04 C05`, `@shape loops n closures m` and `@spec` (module-level
    specification text, verbatim). `@type module::Name` puts a type definition under the verifier's eyes."""
    fns, types, specs, extra = [], {}, {}, {}
    cur, sink = None, None
    for line in text.split("\n"):
        if line.startswith("@"):
            w = line[1:].split()
            if w[0] == "fn":
                m = re.match(r"@fn (.*?)(?:\s+-> (\w+))?$", line)
                cur = Contract(m.group(1).strip())
                cur.ret = m.group(2)
                fns.append(cur)
                sink = cur.clauses
            elif w[0] == "loop":
                cur.loops[int(w[1])] = (w[2] if len(w) > 2 else None, [])
                sink = cur.loops[int(w[1])][1]
            elif w[0] == "closure":
                cur.closures[int(w[1])] = (" ".join(w[2:]) or None, [])
                sink = cur.closures[int(w[1])][1]
            elif w[0] == "at":
                sink = cur.blocks.setdefault(tuple(w[1:]), [])
            elif w[0] == "attr":
                cur.attrs.append(line[6:])
            elif w[0] == "trusted":
                cur.trusted = True
            elif w[0] == "props":
                cur.props = w[1:]
            elif w[0] == "shape":
                cur.nloops, cur.nclosures = int(w[2]), int(w[4])
            elif w[0] == "type":
                types.setdefault(w[1].split("::")[0], {})[w[1].split("::")[1]] = " ".join(w[2:])
                sink = []
            elif w[0] == "spec":
                sink = specs.setdefault(w[1], [])
            elif w[0] == "end":
                sink = []
            else:
                raise ValueError(line)
        elif sink is not None:
            if not line.strip().startswith("//#"):
                sink.append(line)
    return fns, types, specs


# modules whose sets and maps are read as lists of what was inserted (keys not compared by structure), or have an entry interface
COLL = {"attr": ("BTreeSet", "HashMap"), "fmt": ("BTreeSet", "HashMap"), "expand": ("BTreeSet", "HashMap"), "generics": ("BTreeMap", "Entry")}


def rust_str(x):
    return '"%s"' % x.replace("\\", "\\\\").replace('"', '\\"')


class Lost(Exception):
    pass


class Weaver:
    """demoted: {path: why} contracts whose body the verifier cannot read; they stay as assumptions (external_body)."""

    def __init__(self, srcdir, contracts, demoted=(), smoke=None):
        self.smoke, self.smoked = smoke, []
        self.dir, self.demoted = srcdir, dict(demoted)
        self.fns, self.types, self.specs = contracts
        self.lost = {}          # path -> reason
        self.woven = []         # (path, first line, last line)
        self.digest = {}
        self.shape = {}         # path -> (loops, closures) found
        self.out = []
        self.dropped = []

    def module(self, name):
        src = Src(read(os.path.join(self.dir, name + ".rs")))
        mine = {c.path[len(name) + 2:]: c for c in self.fns if c.path.startswith(name + "::")}
        types = self.types.get(name, {})
        seen = set()
        res = []
        inside = lambda a, b: src.s[src.t[a].a:src.t[b - 1].b]
        for kind, nm, a, b, h in src.items(0, len(src.t)):
            if kind == "fn" and nm in mine:
                seen.add(nm)
                res.append(("v", self.function(src, a, b, h, mine[nm])))
            elif kind == "impl" and "body" in h:
                head = re.sub(r"^<[^>]*>\s*", "", nm)
                head = re.sub(r"<'_>|<'a>", "", head).strip()
                keys = [k for k in mine if k.rsplit("::", 1)[0] == head and "::" in k]
                its = src.items(h["body"][0] + 1, h["body"][1])
                have = {n for k, n, *_ in its if k == "fn"}
                if any(k.rsplit("::", 1)[1] in have for k in keys):
                    txt = src.s[src.t[a].a:src.t[h["body"][0]].b] + "\n"
                    for k2, n2, a2, b2, h2 in its:
                        key = head + "::" + n2
                        if k2 == "fn" and key in mine:
                            seen.add(key)
                            txt += "    " + self.function(src, a2, b2, h2, mine[key]) + "\n"
                        elif k2 == "fn":
                            txt += "    #[verifier::external]\n    " + inside(a2, b2) + "\n"
                        else:
                            txt += "    " + inside(a2, b2) + "\n"
                    res.append(("v", txt + "}"))
                elif head.startswith("Eq for ") and head[7:] in types:
                    res.append(("v", inside(a, b)))
                else:
                    self.dropped.append("%s: impl %s" % (name, nm))
                    res.append(("x", inside(a, b)))
            elif kind in ("struct", "enum") and nm in types:
                seen.add(nm)
                res.append(("v", (types[nm] + "\n" if types[nm] else "") + inside(a, b)))
            elif kind == "use":
                u = inside(a, b)
                m = re.match(r"use\s+std::collections::(?:btree_map::|hash_map::)?(\{[^{}]*\}|[^{};]*);$", u.strip())
                if name in COLL and m:
                    names = [x.strip() for x in m.group(1).strip("{}").split(",") if x.strip()]
                    u = "\n".join("use %s%s;" % ("crate::verif::coll::" if x.split()[0] in COLL[name] else u.strip()[4:m.start(1)], x) for x in names)
                    self.dropped.append("%s: %s of std read as %s" % (name, ", ".join(COLL[name]), "a map with entries" if name == "generics" else "lists of what was inserted"))
                res.append(("u", u))
            else:
                if kind == "fn":
                    self.dropped.append("%s: fn %s" % (name, nm))
                res.append(("x", inside(a, b)))
        for k in mine:
            if k not in seen:
                self.lost[name + "::" + k] = "no such function in %s.rs" % name
        for k in types:
            if k not in seen:
                self.lost[name + "::" + k] = "no such type in %s.rs" % name
        txt = "pub mod %s {\n#[allow(unused_imports)] use crate::pre::*;\n#[allow(unused_imports)] use crate::verif::*;\n" % name
        txt += "\n".join(x for k, x in res if k == "u") + "\n"
        txt += "\n".join(x for k, x in res if k == "x") + "\n"
        txt += "verus! {\n" + "\n".join(self.specs.get(name, [])) + "\n" + "\n\n".join(x for k, x in res if k == "v") + "\n} // verus!\n}\n"
        return txt

    def function(self, src, a, b, h, c):
        """The function's text with the contract's clauses inserted. Marks its extent with comment lines."""
        s, t = src.s, src.t
        self.digest[c.path] = hashlib.sha1(" ".join(x.t for x in t[a:b]).encode()).hexdigest()[:16]
        demoted = c.path in self.demoted or c.trusted
        ins = []        # (offset, order, text)
        rep = []
        if h.get("ret") and c.ret:
            ins.append((t[h["ret"][0]].a, 0, "(%s: " % c.ret))
            ins.append((t[h["ret"][1] - 1].b, 0, ")"))
        clauses = "\n".join(c.clauses).strip()
        lo, hi = h["body"]
        loops, closures = src.loops(lo, hi), src.closures(lo, hi)
        self.shape[c.path] = (len(loops), len(closures))
        if clauses:
            ins.append((t[lo].a, 0, "\n" + clauses + "\n"))
        if not demoted:
            if (c.nloops is not None and c.nloops != len(loops)) or any(n >= len(loops) for n in c.loops):
                self.lost[c.path] = "%d loops instead of %s" % (len(loops), c.nloops)
            if (c.nclosures is not None and c.nclosures != len(closures)) or any(n >= len(closures) for n in c.closures):
                self.lost[c.path] = "%d closures instead of %s" % (len(closures), c.nclosures)
            if c.path in self.lost:
                demoted = True
        if not demoted:
            for n, (label, lines) in c.loops.items():
                kind, kw, inn, body = loops[n]
                if label and label.startswith("!"):
                    # a `for` with `continue`, which the verifier does not read: what it stands for
                    l = label[1:]
                    dec = [x for x in lines if x.strip().startswith("decreases")]
                    lines = [x for x in lines if x not in dec]
                    pat, ex = s[t[kw + 1].a:t[inn - 1].b], s[t[inn + 1].a:t[body - 1].b]
                    rep.append((t[kw].a, t[body].a))
                    ins.append((t[kw].a, 0, "let mut %s = IntoIterator::into_iter(%s); let ghost %s_all = vstd::std_specs::iter::IteratorSpec::remaining(&%s); let ghost mut %s_n: Int = 0;\nloop\n%s\n"
                        "lawful(&%s), 0 <= %s_n <= %s_all.len(), vstd::std_specs::iter::IteratorSpec::remaining(&%s) == %s_all.skip(%s_n),\nensures %s_n == %s_all.len(),\n%s\n"
                        % ((l, ex) + (l,) * 3 + ("\n".join(lines).strip(),) + (l,) * 8 + ("\n".join(dec),))))
                    ins.append((t[body].b, 0, " let %s = match %s.next() { Some(x) => x, None => { break } }; let ghost %s_i = %s_n; proof { %s_n = %s_n + 1; }\n" % (pat, l, l, l, l, l)))
                    self.dropped.append("%s: `for p in e { .. continue .. }` read as `let mut i = e.into_iter(); loop { let p = match i.next() { Some(x) => x, None => break }; .. }`" % c.path)
                    continue
                if inn is not None and label:
                    ins.append((t[inn].b, 0, " %s:" % label))
                ins.append((t[body].a, 0, "\n" + "\n".join(lines).strip() + "\n"))
            for n, (binder, lines) in c.closures.items():
                first, (pa, pb), body, end, braced = closures[n]
                if body is None:
                    continue
                m = re.match(r"(?:\|(.*)\|\s*)?(?:->\s*(\(.*\)|\S+))?$", binder or "")
                spec = ""
                if m and m.group(2):
                    spec += " -> " + m.group(2)
                spec += "\n" + "\n".join(lines).strip() + "\n"
                if m and m.group(1) is not None:
                    # parameter types, which the verifier needs and rustc would infer
                    tys = [x.strip() for x in m.group(1).split(";")]
                    ends = self.split_params(src, pa, pb)
                    for (x, y), ty in zip(ends, tys):
                        if ty and not any(src.is_(q, ":") for q in range(x, y)):
                            ins.append((t[y - 1].b, 0, ": " + ty))
                if braced:
                    ins.append((t[body].a, 1, spec))
                else:
                    ins.append((t[body].a, 1, spec + "{ "))
                    ins.append((t[end - 1].b, 9, " }"))
            if self.smoke and "mode" not in c.attrs:
                self.smoked.append(c.path)
                ins.append((t[lo].b if self.smoke == "entry" else t[self.tail(src, lo, hi)].a, 8, "\nproof { assert(false); }\n"))
            for where, lines in c.blocks.items():
                txt = "\n" + "\n".join(lines).strip() + "\n"
                if where == ("entry",):
                    ins.append((t[lo].b, 0, txt))
                elif where[0] == "loop":
                    if int(where[1]) >= len(loops):
                        continue
                    body = loops[int(where[1])][3]
                    if where[2] == "begin":
                        ins.append((t[body].b, 0, txt))
                    elif where[2] == "end":
                        ins.append((t[src.m[body]].a, 0, txt))
                    elif where[2] == "before":
                        k = loops[int(where[1])][1]
                        if src.is_(k - 1, ":"):
                            k -= 2
                        ins.append((t[k].a, 0, txt))
                    else:
                        ins.append((t[src.m[body]].b, 0, txt))
                elif where[0] == "let":         # after the statement which binds this name first
                    k = next((q for q in range(lo, hi) if src.is_(q, "let") and (src.is_(q + 1, where[1]) or src.is_(q + 1, "mut") and src.is_(q + 2, where[1]))), None)
                    while k is not None and k < hi and not src.is_(k, ";"):
                        k = src.m[k] + 1 if t[k].k == "p" and t[k].t in OPEN else k + 1
                    if k is None or k >= hi:
                        self.lost[c.path] = "no variable `%s`" % where[1]
                        break
                    ins.append((t[k].b, 0, txt))
                elif where == ("tail",):        # before the expression that is the function's result
                    ins.append((t[self.tail(src, lo, hi)].a, 0, txt))
                elif where[0] == "last":        # before the tail expression or last statement: at the end of the body
                    ins.append((t[hi].a, 0, txt))
            for n, (label, lines) in c.loops.items():
                kind, kw, inn, body = loops[n]
                # `for (i, x) in e.enumerate()`: a counter
                if kind == "for" and src.is_(kw + 1, "(") and src.is_(kw + 3, ",") and src.is_(body - 3, "enumerate") and src.is_(body - 4, "."):
                    if any(src.is_(q, "continue") for q in range(body, src.m[body])):
                        self.lost[c.path] = "continue in an enumerated loop"
                        break
                    i = t[kw + 2].t
                    close = src.m[kw + 1]
                    rep.append((t[kw + 1].a, t[kw + 3].b))
                    rep.append((t[close].a, t[close].b))
                    rep.append((t[body - 4].a, t[body - 1].b))
                    ins.append((t[kw].a, -1, "let mut enum_i: usize = 0;\n"))
                    ins.append((t[body].b, -1, " let %s = enum_i;" % i))
                    ins.append((t[src.m[body]].a, 9, " enum_i = enum_i + 1; "))
                    self.dropped.append("%s: `for (i, x) in e.enumerate()` read as `for x in e` with a counter" % c.path)
            i = lo
            while i < hi:
                # `format_ident!("a{}b", x, y)`: what it puts together
                if src.is_(i, "format_ident") and src.is_(i + 1, "!") and src.is_(i + 2, "(") and t[i + 3].k == "str":
                    e = src.m[i + 2]
                    args = self.split_params(src, i + 3, e)[1:]
                    parts = re.split(r"\{\}", t[i + 3].t[1:-1])
                    if len(parts) == len(args) + 1 and not re.search(r"[{}\\]", "".join(parts)):
                        call = "crate::verif::Idents::new()"
                        for k, part in enumerate(parts):
                            if part:
                                call += ".lit(\"%s\")" % part
                            if k < len(args):
                                call += ".arg(%s)" % s[t[args[k][0]].a:t[args[k][1] - 1].b]
                        rep.append((t[i].a, t[e].b))
                        ins.append((t[i].a, 3, call + ".ident()"))
                        self.dropped.append("%s: `format_ident!(%s)` read as putting the parts together" % (c.path, t[i + 3].t))
                        i = e
                elif src.is_(i, "quote", "quote_spanned") and src.is_(i + 1, "!") and src.is_(i + 2, "(", "{", "["):
                    e = src.m[i + 2]
                    vs = {t[k + 1].t for k in range(i + 3, e) if src.is_(k, "#") and t[k + 1].k == "id"}
                    if len(vs) == 1 and not any(src.is_(k, "#") and src.is_(k + 1, "(") for k in range(i + 3, e)):
                        rep.append((t[i].a, t[e].b))
                        ins.append((t[i].a, 3, "crate::verif::quoted(&%s)" % vs.pop()))
                        self.dropped.append("%s: `%s!(..)` with one interpolation read as tokens around it" % (c.path, t[i].t))
                        i = e
                    elif not vs:
                        k = i + 3
                        if src.is_(i, "quote_spanned"):
                            while not src.is_(k, "=>"):
                                k += 1
                            k += 1
                        rep.append((t[i].a, t[e].b))
                        ins.append((t[i].a, 3, "crate::verif::literal(%s)" % rust_str(" ".join(x.t for x in t[k:e]))))
                        self.dropped.append("%s: `%s!(..)` without interpolation read as its text" % (c.path, t[i].t))
                        i = e
                    else:
                        rep.append((t[i].a, t[e].b))
                        ins.append((t[i].a, 3, "crate::verif::some_tokens()"))
                        self.dropped.append("%s: `%s!(..)` with several interpolations read as some tokens" % (c.path, t[i].t))
                        i = e
                # `parse_quote!(#a: #b)`, `parse_quote!((#a): #b)`: the predicate
                elif src.is_(i, "parse_quote") and src.is_(i + 1, "!") and src.is_(i + 2, "("):
                    e = src.m[i + 2]
                    m = re.match(r"(\( # (\w+) \)|# (\w+)) : # (\w+)$", " ".join(x.t for x in t[i + 3:e]))
                    if m:
                        rep.append((t[i].a, t[e].b))
                        ins.append((t[i].a, 3, "crate::verif::%s(&%s, &%s)" % ("predicate_in_parentheses" if m.group(2) else "predicate", m.group(2) or m.group(3), m.group(4))))
                        self.dropped.append("%s: `parse_quote!(%s)` read as a call of a function" % (c.path, m.group(0)))
                        i = e
                elif src.is_(i, "format") and src.is_(i + 1, "!") and src.is_(i + 2, "(") and not src.is_(i - 1, "::", "."):
                    e = src.m[i + 2]
                    rep.append((t[i].a, t[e].b))
                    ins.append((t[i].a, 3, "crate::verif::some_string()"))
                    self.dropped.append("%s: `format!(..)` read as some string" % c.path)
                    i = e
                elif src.is_(i, "into_token_stream") and src.is_(i - 1, ".") and src.is_(i + 1, "(") and t[i - 2].k == "id" and not src.is_(i - 3, "."):
                    rep.append((t[i - 1].a, t[i + 2].b))
                    ins.append((t[i - 2].a, 3, "crate::verif::into_tokens("))
                    ins.append((t[i - 1].a, 3, ")"))
                elif src.is_(i, "Ident") and src.is_(i + 2, "parse_any") and src.is_(i + 4, "parse_str"):
                    rep.append((t[i].a, t[i + 4].b))
                    ins.append((t[i].a, 3, "crate::verif::parse_any_ident"))
                    self.dropped.append("%s: `Ident::parse_any.parse_str(s)` read as a call of a function" % c.path)
                elif src.is_(i, "char") and src.is_(i + 1, "::") and src.is_(i + 2, "MAX"):
                    rep.append((t[i].a, t[i + 2].b))
                    ins.append((t[i].a, 3, "'\\u{10ffff}'"))
                # `Some(&x) => e`: `Some(x) => { let x = *x; e }`
                elif src.is_(i, "Some") and src.is_(i + 1, "(") and src.is_(i + 2, "&") and t[i + 3].k == "id" and src.is_(i + 4, ")") and src.is_(i + 5, "=>") and not src.is_(i + 6, "{"):
                    k = i + 6
                    while not src.is_(k, ",", "}"):
                        k = src.m[k] + 1 if t[k].k == "p" and t[k].t in OPEN else k + 1
                    rep.append((t[i + 2].a, t[i + 2].b))
                    ins.append((t[i + 6].a, 3, "{ let %s = *%s; " % (t[i + 3].t, t[i + 3].t)))
                    ins.append((t[k - 1].b, 3, " }"))
                    self.dropped.append("%s: pattern `Some(&x)` read as `Some(x)` with `*x`" % c.path)
                i += 1
            # `x |= e;` on booleans, which the verifier does not read: `x = { let v = e; v || x };`
            i = lo
            while i < hi:
                if src.is_(i, "|=", "&="):
                    op = t[i].t[0]
                    k = i + 1
                    while not src.is_(k, ";"):
                        k = src.m[k] + 1 if t[k].k == "p" and t[k].t in OPEN else k + 1
                    st = i - 1
                    while not (src.is_(st - 1, ";", "{", "}")):
                        st -= 1
                    lhs = s[t[st].a:t[i - 1].b]
                    ins.append((t[i].a, 3, "="))
                    rep.append((t[i].a, t[i].b))
                    ins.append((t[i + 1].a, 3, "{ let vv = "))
                    ins.append((t[k - 1].b, 3, "; vv %s %s }" % (op * 2, lhs)))
                    self.dropped.append("%s: `%s %s= e` read as `%s = { let v = e; v %s %s }`" % (c.path, lhs, op, lhs, op * 2, lhs))
                i += 1
            # `x.clone_from(&y);`: `x = (y).clone();`; `.map(Type::Constructor)`: `.map(|v| Type::Constructor(v))`
            for i in range(lo, hi):
                if src.is_(i, "clone_from") and src.is_(i - 1, ".") and src.is_(i + 1, "(") and src.is_(i + 2, "&") and src.is_(src.m[i + 1] + 1, ";"):
                    e = src.m[i + 1]
                    rep.append((t[i - 1].a, t[i + 2].b))
                    ins.append((t[i - 1].a, 3, " = ("))
                    ins.append((t[e].a, 3, ").clone("))
                    self.dropped.append("%s: `x.clone_from(&y)` read as `x = y.clone()`" % c.path)
                elif src.is_(i, "map") and src.is_(i - 1, ".") and src.is_(i + 1, "(") and all(src.is_(k, "::") or t[k].k == "id" for k in range(i + 2, src.m[i + 1])) and t[src.m[i + 1] - 1].t[0].isupper():
                    ctor = s[t[i + 2].a:t[src.m[i + 1]].a]
                    ins.append((t[i + 2].a, 3, "|v| -> (r: %s) ensures r == %s(v) { " % (ctor.rsplit("::", 1)[0] if "::" in ctor else "Option<_>", ctor)))
                    ins.append((t[src.m[i + 1] - 1].b, 3, "(v) }"))
                    self.dropped.append("%s: `.map(%s)` read as `.map(|v| %s(v))`" % (c.path, ctor, ctor))
            # `[a, b].iter().any(f)`: the temporaries named, so that the elements can be
            for i in range(lo, hi):
                if src.is_(i, "[") and src.is_(i - 1, "if", "=", "(", "{", ";", "&&", "||", "!", "return") and src.is_(src.m[i] + 1, ".") and src.is_(src.m[i] + 2, "iter") and src.is_(src.m[i] + 6, "any", "all"):
                    e = src.m[i]
                    n = len(self.split_params(src, i + 1, e))
                    ins.append((t[i].a, 3, "{ let arr = "))
                    ins.append((t[e].b, 3, "; let mut arr_iter = arr"))
                    ins.append((t[e + 4].b, 3, "; let ghost arr_all = vstd::std_specs::iter::IteratorSpec::remaining(&arr_iter); let arr_result = arr_iter"))
                    call = src.m[e + 7]
                    ins.append((t[call].b, 3, "; proof { assert(arr_all.len() == %d); %s } arr_result }" % (n, " ".join("assert(*arr_all[%d] == arr@[%d]);" % (k, k) for k in range(n)))))
                    self.dropped.append("%s: the temporaries of `[..].iter().any(f)` named" % c.path)
            # `x.pound_token.span` goes through Deref to a type private to syn: read as a call
            for i in range(lo, hi):
                if src.is_(i, "pound_token") and src.is_(i - 1, ".") and src.is_(i + 1, ".") and src.is_(i + 2, "span"):
                    ins.append((t[i - 2].a, 3, "crate::verif::pound_span(&"))
                    rep.append((t[i].b, t[i + 2].b))
                    ins.append((t[i].b, 3, ")"))
                    self.dropped.append("%s: `x.pound_token.span` read as a call of an opaque function" % c.path)
        out, pos = [], t[a].a
        for off, _, txt in sorted([x for x in ins], key=lambda x: (x[0], x[1])):
            out.append(self.cut(s, pos, off, rep))
            out.append(txt)
            pos = off
        out.append(self.cut(s, pos, t[b - 1].b, rep))
        attrs = "".join(x + " " for x in c.attrs) + ("#[verifier::external_body] " if demoted else "")
        return "\n//@begin %s\n%s%s\n//@end %s" % (c.path, attrs, "".join(out), c.path)

    @staticmethod
    def tail(src, lo, hi):
        i = best = lo + 1
        while i < hi:
            if src.t[i].k == "p" and src.t[i].t in OPEN:
                brace = src.t[i].t == "{"
                i = src.m[i]
                if brace and i + 1 < hi and not src.is_(i + 1, ".", "?", "else", ";", ",", "==", "&&", "||", "+", "-", "*", "&"):
                    best = i + 1
            elif src.is_(i, ";"):
                best = i + 1
            i += 1
        return min(best, hi)

    @staticmethod
    def cut(s, a, b, rep):
        out = ""
        for x, y in sorted(rep):
            if a <= x and y <= b:
                out += s[a:x]
                a = y
        return out + s[a:b]

    @staticmethod
    def split_params(src, a, b):
        out, st, i = [], a, a
        while i < b:
            if src.is_(i, ","):
                out.append((st, i))
                st = i + 1
            i = src.m[i] + 1 if src.t[i].k == "p" and src.t[i].t in OPEN else i + 1
        if st < b:
            out.append((st, b))
        return out
