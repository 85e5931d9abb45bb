"""Engine D: runs the real derive implementation (modules of /repo/impl/src, copied verbatim on every run) as a
library on many inputs and returns its output, parsed by another version of syn. Bounded: concrete inputs only."""
import json, os, re, shutil, time
from vlib import *
import native

PRELUDE = """
#[allow(unused_macros)]
macro_rules! parse_macro_input {
    ($i:ident as $t:ty) => { match ::syn::parse2::<$t>($i) { Ok(d) => d, Err(e) => return e.to_compile_error().into() } };
}
"""


def lib_text():
    """lib.rs of thiserror-impl with the compiler-only entry replaced by a callable one. Everything else is verbatim."""
    t = read(os.path.join(REPO, "impl/src/lib.rs"))
    t = re.sub(r"#\[proc_macro_derive\([^\]]*\)\]", "", t)
    t = t.replace("extern crate proc_macro;", "")
    t = re.sub(r"\bproc_macro::", "proc_macro2::", t)
    t = re.sub(r"\bparse_macro_input,\s*", "", t)
    t = re.sub(r",\s*parse_macro_input\b(?=[^!])", "", t)
    t = re.sub(r"use syn::parse_macro_input;", "", t)
    m = re.match(r"(\s*(//![^\n]*\n)*\s*(#!\[[^\]]*\]\s*(//![^\n]*\n)*)*)", t)
    return t[:m.end()] + PRELUDE + t[m.end():]


def entry():
    """Name of the function the compiler calls for #[derive(Error)]."""
    m = re.search(r"#\[proc_macro_derive\(\s*Error\b[^\]]*\]\s*(?:#\[[^\]]*\]\s*|//[^\n]*\n\s*)*pub\s+fn\s+(\w+)", read(os.path.join(REPO, "impl/src/lib.rs")))
    return m.group(1) if m else "derive_error"


class Oracle:
    def __init__(self, full=False):
        self.full = full
        self.dir = os.path.join(BUILD, "oracle" + ("-full" if full else ""))
        self.target = os.path.join(BUILD, "target-oracle" + ("-full" if full else ""))
        self.bin = os.path.join(self.target, "debug", "oracle")

    def build(self, timeout=300):
        write(self.dir + "/Cargo.toml", """[package]
name = "oracle"
version = "0.0.0"
edition = "2021"
[[bin]]
name = "oracle"
path = "main.rs"
[dependencies]
timpl = { path = "timpl" }
proc-macro2 = "1"
quote = "1"
syn = { version = "2"%s }
syn3 = { package = "syn", version = "3", features = ["full"] }
serde_json = "1"
[workspace]
members = ["timpl"]
[profile.dev]
debug = 0
opt-level = 1
overflow-checks = true
debug-assertions = true
incremental = false
""" % (', features = ["full"]' if self.full else ""))
        write(self.dir + "/main.rs", read(os.path.join(VERIF, "oracle/main.rs")).replace("timpl::derive_error", "timpl::" + entry()))
        m = re.search(r"\[dependencies\]\n(.*?)(\n\[|\Z)", read(os.path.join(REPO, "impl/Cargo.toml")), re.S)
        write(self.dir + "/timpl/Cargo.toml", "[package]\nname = \"timpl\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\n%s\n" % m.group(1))
        src = os.path.join(REPO, "impl/src")
        want = set()
        for d, _, fs in os.walk(src):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), src)
                want.add(rel)
                write(os.path.join(self.dir, "timpl/src", rel), "#![allow(warnings)]\n" + lib_text() if rel == "lib.rs" else read(os.path.join(d, f)))
        for d, _, fs in os.walk(self.dir + "/timpl/src"):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.relpath(p, self.dir + "/timpl/src") not in want:
                    os.remove(p)
        native.lock(self.dir)
        rc, out, err = run(["cargo", "+" + STABLE, "build", "--offline", "-q"], timeout, self.dir, {"CARGO_TARGET_DIR": self.target})
        if rc != 0:
            raise RuntimeError("oracle does not build:\n" + err[-3000:])

    def run(self, inputs, timeout=400, text=False, slow=40, limit=3):
        """inputs: [source]. Returns a list of results in the same order; an abort or hang is one too. A process which makes
        no end within `slow` seconds is only blamed on an input that, alone, does not end within `slow` seconds either. After
        `limit` aborts and hangs the inputs left over are not run any more (status "skipped")."""
        size = 500
        chunks = [list(range(i, min(i + size, len(inputs)))) for i in range(0, len(inputs), size)]
        res = [None] * len(inputs)
        bad = []
        from concurrent.futures import ThreadPoolExecutor
        t0 = time.time()

        def one(ids, limit_s):
            inp = "".join(json.dumps(dict(id=i, src=inputs[i])) + "\n" for i in ids)
            rc, out, err = run([self.bin] + (["--text"] if text else []), limit_s, inp=inp)
            begun = None
            for l in out.splitlines():
                if l.startswith("BEGIN "):
                    begun = int(l[6:])
                elif l.startswith("{"):
                    try:
                        r = json.loads(l)
                    except ValueError:
                        continue
                    res[r["id"]] = r
            return rc, err, begun

        def work(ids):
            todo = ids
            while todo:
                if len(bad) >= limit or time.time() - t0 > timeout:
                    for i in todo:
                        res[i] = dict(id=i, status="skipped")
                    return
                rc, err, begun = one(todo, slow)
                if begun is not None and res[begun] is not None and res[begun]["status"] == "hang":
                    if len(todo) > 1:
                        res[begun] = None       # asked again below, alone
                    else:
                        bad.append(begun)
                rest = [i for i in todo if res[i] is None]
                if rest:
                    if begun is None or res[begun] is not None:
                        if rc is None and len(rest) < len(todo):
                            todo = rest
                            continue
                        raise RuntimeError("oracle run ended abnormally: rc=%s %s" % (rc, err[-500:]))
                    if len(todo) > 1:
                        rc, err, _ = one([begun], slow)
                    if res[begun] is not None and res[begun]["status"] == "hang":
                        bad.append(begun)
                    elif res[begun] is None:
                        res[begun] = dict(id=begun, status="hang" if rc is None else "abort", message="no end within %d seconds" % slow if rc is None else "process ended with %s: %s" % (rc, err[-300:]))
                        bad.append(begun)
                    rest = [i for i in rest if res[i] is None]
                todo = rest
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(work, chunks))
        return res
