"""Engine C: compiles derive cases against /repo and runs their contracts on concrete values (bounded)."""
import json, os, re, random
from vlib import *

MAIN = """#![allow(warnings)]
%(feat)s
#[macro_use] mod rt;
#[cfg(not(kani))] pub mod cases;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

type C = fn(&mut rt::Nd);
static TABLE: &[(&str, C)] = &[
%(table)s
];

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

fn one(id: &str, c: C, bytes: Vec<u8>) -> bool {
    let mut nd = rt::Nd::new(bytes.clone());
    let r = catch_unwind(AssertUnwindSafe(|| c(&mut nd)));
    if let Err(p) = r {
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        let used = nd.pos.min(bytes.len());
        println!("FAIL\\t{}\\t{}\\t{}", id, hex(&bytes[..used]), m.replace('\\n', " / ").replace('\\t', " "));
        let _ = std::io::stdout().flush();
        return false;
    }
    true
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if args.len() == 4 && args[1] == "--replay" {
        for (id, c) in TABLE { if *id == args[2] { let ok = one(id, *c, unhex(&args[3])); std::process::exit(if ok { 0 } else { 1 }); } }
        std::process::exit(2);
    }
    let seed: u64 = args[1].parse().unwrap();
    let per: usize = args[2].parse().unwrap();
    let mut evals = 0u64;
    for (id, c) in TABLE {
        let mut x = seed ^ 0x9E3779B97F4A7C15u64.wrapping_mul(1 + id.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
        let mut bad = 0;
        // every combination of small bytes for the first draws, then pseudo-random ones
        let mut vs: Vec<Vec<u8>> = vec![vec![0; 64], vec![1; 64], vec![0xff; 64]];
        for k in 0..per {
            let mut v = Vec::new();
            for i in 0..64 {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                v.push(if i < 2 && k < 32 { if i == 0 { (k %% 16) as u8 } else { (k / 16) as u8 } } else { (x >> 24) as u8 });
            }
            vs.push(v);
        }
        for v in vs {
            evals += 1;
            if !one(id, *c, v) { bad += 1; if bad >= 2 { break; } }
        }
    }
    println!("DONE\\t{}", evals);
}
"""

HEAD = """#![allow(warnings)]
use crate::rt::*;
use crate::*;
use std::error::Error as StdError;
use std::fmt::{self, Display, Formatter, Write as _};
use thiserror::Error;
"""


class Native:
    def __init__(self, prop, cases, nightly=False, features=None, tag="native", extra=None):
        self.extra = extra or {}
        self.prop, self.cases, self.nightly = prop, cases, nightly
        self.dir = os.path.join(BUILD, prop, tag)
        self.tc = NIGHTLY if nightly else STABLE
        self.features = features          # None: default features; [] : default-features = false
        self.by_id = {c.id: c for c in cases}
        self.target = os.path.join(BUILD, "target-%s%s" % (self.tc, "" if features is None else "-" + "_".join(features or ["nodef"])) + ("-full" if extra else ""))
        self.bin = os.path.join(self.target, "debug", "nat_%s_%s" % (prop.lower(), tag))

    def files(self, live):
        name = os.path.basename(self.bin)
        dep = 'thiserror = { path = "%s"%s }' % (REPO, "" if self.features is None else ", default-features = false, features = [%s]" % ", ".join('"%s"' % f for f in self.features))
        write(self.dir + "/Cargo.toml", "[package]\nname = \"%s\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\n%s\n%s[features]\ndefault = [%s]\nprovide = []\n[workspace]\n[profile.dev]\ndebug = 0\nincremental = false\n" % (name, dep, self.extra.get("build_deps", ""), '"provide"' if self.nightly else ''))
        if "build_rs" in self.extra:
            write(self.dir + "/build.rs", self.extra["build_rs"])
        lock(self.dir)
        write(self.dir + "/src/rt.rs", read(os.path.join(VERIF, "shapes/rt.rs")))
        feat = "#![feature(error_generic_member_access)]" + "".join("\n#![feature(%s)]" % f for f in self.extra.get("nightly_features", ())) if self.nightly else ""
        table = "\n".join('    ("%s", cases::%s::contract),' % (c.id, c.id) for c in live)
        write(self.dir + "/src/main.rs", MAIN % dict(table=table, feat=feat))
        write(self.dir + "/src/cases/mod.rs", "".join("pub mod %s;\n" % c.id for c in live))
        for c in live:
            write(self.dir + "/src/cases/%s.rs" % c.id, HEAD + "// " + c.desc.replace("\n", " ") + "\n" + c.source())

    def build(self, timeout=500):
        """Returns {case id: rustc error} for cases that do not compile; the rest is built."""
        bad, live = {}, list(self.cases)
        for _ in range(12):
            self.files(live)
            rc, out, err = run(["cargo", "+" + self.tc, "build", "--offline", "--message-format=json", "-q"], timeout, self.dir,
                               {"CARGO_TARGET_DIR": self.target})
            if rc == 0:
                return bad
            if rc is None:
                raise RuntimeError("native build timed out")
            found, other = compile_errors(out)
            if not found:
                raise RuntimeError("native build failed outside the cases:\n" + "\n".join(other)[:3000] + err[-2000:])
            bad.update(found)
            live = [c for c in live if c.id not in bad]
        raise RuntimeError("native build does not settle")

    def run(self, per, timeout=300):
        """Returns ([(id, hexbytes, message)], evaluations)."""
        rc, out, err = run([self.bin, str(SEED), str(per)], timeout)
        fails, evals = [], 0
        for l in out.splitlines():
            p = l.split("\t")
            if p[0] == "FAIL":
                fails.append((p[1], p[2], p[3]))
            elif p[0] == "DONE":
                evals = int(p[1])
        if evals == 0 and not fails:
            raise RuntimeError("native run ended abnormally rc=%s %s" % (rc, err[-1500:]))
        return fails, evals, err

    def replay(self, id, hexb):
        rc, out, err = run([self.bin, "--replay", id, hexb], 60)
        return rc == 1, out + err


def lock(d):
    l = os.path.join(VERIF, "lib", "Cargo.lock.base")
    if os.path.exists(os.path.join(REPO, "Cargo.lock")):
        l = os.path.join(REPO, "Cargo.lock")
    dst = os.path.join(d, "Cargo.lock")
    if not os.path.exists(dst):
        os.makedirs(d, exist_ok=True)
        shutil.copy(l, dst)


def compile_errors(out):
    found, other = {}, []
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message":
            continue
        m = m["message"]
        if m["level"] not in ("error", "error: internal compiler error"):
            continue
        ids = set()

        def walk(sp):
            g = re.match(r"src/cases/(\w+)\.rs$", sp["file_name"])
            if g:
                ids.add(g.group(1))
            if sp.get("expansion"):
                walk(sp["expansion"]["span"])
        for sp in m["spans"]:
            walk(sp)
        for ch in m["children"]:
            for sp in ch["spans"]:
                walk(sp)
        prim = [sp for sp in m["spans"] if sp["is_primary"]]
        pid = None
        for sp in prim:
            ids2 = set(ids)
            ids.clear()
            walk(sp)
            pid = next(iter(ids), None)
            ids |= ids2
        id = pid or next(iter(ids), None)
        if id:
            found.setdefault(id, m["rendered"])
        elif not m["message"].startswith("aborting"):
            other.append(m["rendered"])
    return found, other
