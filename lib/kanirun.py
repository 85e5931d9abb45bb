"""Engine B: the contracts of selected cases proved by Kani for every value of every field."""
import re
from vlib import *
import native


class Kani:
    def __init__(self, prop, cases, tag="kani", extra_items="", features=None):
        self.prop, self.cases, self.extra = prop, cases, extra_items
        self.dir = os.path.join(BUILD, prop, tag)
        self.by_h = {"h_" + c.id: c for c in cases}
        self.raw = ""

    def files(self):
        name = "kani_" + self.prop.lower()
        write(self.dir + "/Cargo.toml", "[package]\nname = \"%s\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\nthiserror = { path = \"%s\" }\n[features]\ndefault = [\"provide\"]\nprovide = []\n[workspace]\n" % (name, REPO))
        native.lock(self.dir)
        write(self.dir + "/src/rt.rs", read(os.path.join(VERIF, "shapes/rt.rs")))
        hs = []
        for c in self.cases:
            stubs = "".join("    #[kani::stub(%s, %s)]\n" % s for s in c.stubs)
            hs.append("    #[kani::proof]\n    #[kani::unwind(%d)]\n%s    fn h_%s() { let mut nd = crate::rt::Nd::new(); crate::cases::%s::contract(&mut nd); kani::cover!(true, \"reached\"); }" % (c.unwind, stubs, c.id, c.id))
        write(self.dir + "/src/lib.rs", "#![allow(warnings)]\n#![feature(error_generic_member_access)]\n#[macro_use] pub mod rt;\npub mod cases;\n%s\n#[cfg(kani)]\nmod proofs {\n    use crate::rt::*;\n%s\n}\n" % (self.extra, "\n".join(hs)))
        write(self.dir + "/src/cases/mod.rs", "".join("pub mod %s;\n" % c.id for c in self.cases))
        for c in self.cases:
            write(self.dir + "/src/cases/%s.rs" % c.id, native.HEAD + "// " + c.desc.replace("\n", " ") + "\n" + c.source())

    def run(self, timeout, per_harness=120, playback=False, only=None):
        """{harness: (verdict, [failed checks], seconds, covered, nchecks)}; verdict SUCCESSFUL, FAILED, UNDETERMINED or TIMEOUT/missing"""
        self.files()
        cmd = ["cargo", "kani", "--target-dir", os.path.join(BUILD, "target-kani"), "-Z", "stubbing", "-Z", "unstable-options",
               "--harness-timeout", "%ds" % per_harness]
        if playback:
            cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
        else:
            cmd += ["-j", str(JOBS), "--output-format=terse"]
        for h in only or []:
            cmd += ["--harness", "proofs::" + h, "--exact"]
        rc, out, err = run(cmd, timeout, self.dir)
        self.raw, self.err, self.rc, self.cmd = out, err, rc, " ".join(cmd)
        return parse(out)


def parse(out):
    res, cur = {}, {}
    name = None
    thread = {}
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (?:proofs::)?(\w+)", l)
        if m:
            thread[m.group(1)] = m.group(2)
            name = m.group(2)
            res.setdefault(name, dict(verdict="UNDETERMINED", failed=[], secs=0.0, covered=None, checks=0))
            continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m:
            name = thread.get(m.group(1))
            continue
        m = re.match(r"Thread (\d+): (.*)$", l)
        if m:
            name, l = thread.get(m.group(1)), m.group(2)
        if name is None:
            continue
        r = res[name]
        m = re.search(r"VERIFICATION:- (\w+)", l)
        if m:
            r["verdict"] = m.group(1)
        m = re.search(r"Failed Checks: (.*)", l)
        if m:
            r["failed"].append(m.group(1).strip())
        m = re.search(r"Verification Time: ([\d.]+)s", l)
        if m:
            r["secs"] = float(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", l)
        if m:
            r["covered"] = m.group(1) == m.group(2)
        m = re.search(r"\*\* (\d+) of (\d+) failed", l)
        if m:
            r["checks"] = int(m.group(2))
        if "CBMC timed out" in l or "TIMEOUT" in l:
            r["verdict"] = "TIMEOUT"
    return res


def playback_bytes(out):
    """bytes of a printed concrete playback: one `vec![b]` per kani::any::<u8>()"""
    return bytes(int(x) for x in re.findall(r"^\s*vec!\[(\d+)\],?\s*$", out, re.M))
