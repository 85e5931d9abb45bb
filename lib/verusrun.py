"""Engine A: deductive verification with Verus of the functions of /repo/impl/src under contract.

Every run weaves the contracts of /verif/contracts into the current text of /repo/impl/src (lib/weave.py) and has Verus
discharge every obligation. A function which the verifier cannot read (changed so that an annotation has no place, a
construct outside its subset, a callee without a contract, no answer within its resource limit) is demoted: its contract becomes an
assumption for its callers, it is recorded as undischarged, and nothing is concluded about it."""
import concurrent.futures, glob, json, re, time
from vlib import *
import weave, native

MODULES = ["ast", "attr", "expand", "fallback", "fmt", "generics", "prop", "scan_expr", "unraw", "valid"]
BASELINE = VERIF + "/contracts/BASELINE.json"
DEP = os.path.join(BUILD, "verusdep")


def dep():
    """syn, quote and proc-macro2 compiled by the compiler Verus is built on; syn's features are the ones thiserror-impl asks for."""
    toml = read(os.path.join(REPO, "impl/Cargo.toml"))
    deps = toml.split("[dependencies]", 1)[1].split("\n[", 1)[0]
    write(DEP + "/Cargo.toml", "[package]\nname = \"dep\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\n%s\n[workspace]\n" % deps.strip())
    write(DEP + "/src/lib.rs", "pub use syn; pub use quote; pub use proc_macro2;\n")
    native.lock(DEP)
    rc, out, err = run(["cargo", "+" + VERUS_RUST, "build", "--offline"], 300, DEP)
    if rc != 0:
        raise RuntimeError("dependencies of the verified crate do not build: " + err[-2000:])
    d = DEP + "/target/debug/deps"
    pick = lambda c: max(glob.glob(d + "/lib%s-*.rlib" % c), key=os.path.getmtime)
    return d, {c: pick(c) for c in ("syn", "proc_macro2", "quote")}


def contracts():
    fns, types, specs = [], {}, {}
    for p in sorted(glob.glob(VERIF + "/contracts/*.vc")):
        a, b, c = weave.parse_contracts(read(p))
        fns += a
        for k, v in b.items():
            types.setdefault(k, {}).update(v)
        for k, v in c.items():
            specs.setdefault(k, []).extend(v)
    return fns, types, specs


def weave_crate(demoted=(), smoke=None):
    w = weave.Weaver(os.path.join(REPO, "impl/src"), contracts(), demoted, smoke)
    txt = "#![allow(warnings)]\n#![feature(pattern)]\nuse vstd::prelude::*;\n"
    # vstd's prelude without the name `int`, which the real code uses for variables
    txt += "pub mod pre { pub use vstd::array::ArrayAdditionalSpecFns; pub use vstd::prelude::{verus, reveal_strlit, Seq, Set, Map, View, DeepView, Ghost, Tracked, arbitrary, OptionAdditionalFns, ResultAdditionalSpecFns, VecAdditionalExecFns, SpecOrd, SpecAdd, SpecSub, SpecMul, SpecNeg, SpecEuclideanMod, decreases_to, old, final_}; }\n"
    txt += "pub mod verif {\n%s}\npub mod ax {\n%s}\n" % (read(VERIF + "/contracts/ext.rs"), read(VERIF + "/contracts/ax.rs"))
    for m in MODULES:
        txt += w.module(m)
    return w, txt + "fn main() {}\n"


def command(path, extra=()):
    d, libs = dep()
    return ["verus", path, "-L", "dependency=" + d] + [x for c, p in libs.items() for x in ("--extern", "%s=%s" % (c, p))] + ["--triggers-mode", "silent"] + list(extra)


class Result:
    def __init__(self):
        self.failed = {}        # path -> [(message, clause, rendered)]
        self.demoted = {}       # path -> why
        self.fns = []           # the contracts
        self.verified = 0       # functions, closures, loops and lemmas as Verus counts them
        self.lemmas = 0
        self.secs = 0.0
        self.smt_ms = 0
        self.per_fn = {}
        self.vacuous = []
        self.dropped = []
        self.assumed = {}
        self.broken = None      # why the engine has no result at all
        self.cmd = ""

    def ok(self):
        return [c for c in self.fns if c.path not in self.demoted and c.path not in self.failed and not c.trusted]


def once(path, txt, timeout, extra=()):
    write(path, txt)
    cmd = command(path, ["--output-json", "--time-expanded", "--error-format=json", "--num-threads", str(JOBS)] + list(extra))
    rc, out, err = run(cmd, timeout, os.path.dirname(path))
    marks, cur = {}, None
    for n, l in enumerate(txt.split("\n"), 1):
        if l.startswith("//@begin "):
            cur = l[9:]
        marks[n] = cur
        if l.startswith("//@end "):
            cur = None
    diags = []
    for l in err.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting"):
            continue
        diags.append(d)
    js = None
    if "{" in out:
        try:
            js = json.loads(out[out.index("{"):])
        except ValueError:
            pass
    return rc, js, diags, marks, " ".join(cmd), err


def owner(d, marks, path):
    """The function a diagnostic is about: where the error is, then where it points."""
    base = os.path.basename(path)
    spans = []
    for s in d["spans"]:
        while s:        # through expansions of macros
            if os.path.basename(s["file_name"]) == base:
                spans.append(s)
            s = (s.get("expansion") or {}).get("span")
    for s in sorted(spans, key=lambda s: not s["is_primary"]):
        f = marks.get(s["line_start"])
        if f:
            return f
    for c in d.get("children", []):
        for s in c.get("spans", []):
            if os.path.basename(s["file_name"]) == base and marks.get(s["line_start"]):
                return marks[s["line_start"]]
    return None


OBLIGATION = re.compile(r"(post|pre)-?condition|invariant|assertion failed|decreases|possible arithmetic|unable to prove|not satisfied|may panic|recursive|division by zero|recommendation|assert|unreachable|bounds|overflow", re.I)
NO_ANSWER = re.compile(r"resource limit|rlimit|timed? ?out|solver", re.I)


def verify(timeout=300, smoke=True, tag="dev", modules=None):
    r = Result()
    t0 = time.time()
    path = BUILD + "/verus_%s/main.rs" % tag
    demoted = {}
    for attempt in range(12):
        w, txt = weave_crate(demoted)
        for p, why in w.lost.items():
            demoted.setdefault(p, why)
        r.fns, r.dropped = w.fns, w.dropped
        rc, js, diags, marks, r.cmd, err = once(path, txt, timeout, ["--multiple-errors", "3"] + [x for m in modules or () for x in ("--verify-module", m)])
        if rc is None:
            r.broken = "no answer within %d s" % timeout
            break
        vr = (js or {}).get("verification-results", {})
        hard = [d for d in diags if not (vr and not vr.get("encountered-vir-error") and OBLIGATION.search(d["message"])) or NO_ANSWER.search(d["message"])]
        if vr and "verified" in vr and not vr.get("encountered-vir-error") and not [d for d in hard if not NO_ANSWER.search(d["message"])]:
            r.failed, noans = {}, {}
            for d in diags:
                o = owner(d, marks, path)
                if NO_ANSWER.search(d["message"]):
                    noans[o] = d["message"]
                    continue
                clause = next((s["text"][0]["text"].strip() for s in d["spans"] if s.get("label") and "failed" in s["label"] and s["text"]), "")
                r.failed.setdefault(o or "(lemma)", []).append((d["message"], clause, d.get("rendered", "")))
            r.verified = vr["verified"]
            r.per_fn, r.smt_ms = timing(js)
            r.errors = vr["errors"]
            for o, why in noans.items():
                if o:
                    demoted[o] = why
                r.failed.pop(o, None)
            break
        new = {}
        for d in hard:
            o = owner(d, marks, path)
            if o and o not in demoted:
                new[o] = re.sub(r"\s+", " ", d["message"])[:200]
        if not new:     # the verifier says nothing about where: every function that is not as it was when the contracts were written
            known = json.loads(read(BASELINE)) if os.path.exists(BASELINE) else {}
            new = {c.path: "the verifier fails: %s" % re.sub(r"\s+", " ", err[-200:]) for c in w.fns if c.path not in demoted and not c.trusted and known.get(c.path) != w.digest.get(c.path)}
        if not new:
            r.broken = "; ".join(re.sub(r"\s+", " ", d["message"])[:200] for d in hard[:3]) or "verus: " + err[-400:]
            break
        demoted.update(new)
    else:
        r.broken = "no readable program after 12 rounds"
    r.demoted = demoted
    r.assumed = assumed(r, txt)
    if smoke and not r.broken:
        r.vacuous = vacuity(demoted, timeout, os.path.dirname(path))
    r.secs = time.time() - t0
    return r


def timing(js):
    out, tot = {}, 0
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            out[f["function"].replace("main::", "", 1)] = dict(mode=f.get("mode"), ms=round(f.get("time-micros", 0) / 1000, 1), rlimit=f.get("rlimit"), ok=f.get("success"))
            tot += f.get("time-micros", 0) / 1000
    return out, round(tot)


def assumed(r, txt):
    ext = read(VERIF + "/contracts/ext.rs") + "".join(x for v in contracts()[2].values() for x in [l + "\n" for l in v])
    return {
        "contracts of functions of syn, quote, proc-macro2 and std": sorted(set(re.sub(r"\s+", " ", x) for x in re.findall(r"assume_specification(?:<.*?>)?\s*\[\s*(.*?)\s*\]\s*\(", ext))),
        "axioms": sorted(re.findall(r"axiom fn (\w+)", read(VERIF + "/contracts/ax.rs"))),
        "types taken from outside": len(re.findall(r"external_type_specification", ext)),
        "uninterpreted": sorted(set(re.findall(r"uninterp spec fn (\w+)", ext))),
        "functions of thiserror-impl with an assumed contract": sorted(c.path for c in r.fns if c.trusted),
    }


def vacuity(demoted, timeout, where_to):
    """`assert(false)` at the entry and at the end of every function under contract has to fail: no precondition is unsatisfiable and
    no assumed contract contradicts itself where it is used."""
    bad = []

    def go(where):
        w, txt = weave_crate(demoted, smoke=where)
        path = where_to + "/smoke_%s.rs" % where
        rc, js, diags, marks, cmd, err = once(path, txt, timeout, ["--multiple-errors", "50"])
        if not (js or {}).get("verification-results") or js["verification-results"].get("encountered-vir-error"):
            return [("(all)", where, "no result: %s" % "; ".join(d["message"] for d in diags[:2]))]
        hit = set()
        for d in diags:
            if "assertion failed" in d["message"]:
                for s in d["spans"]:
                    if s["is_primary"] and "false" in "".join(x["text"] for x in s["text"]):
                        hit.add(marks.get(s["line_start"]))
            elif NO_ANSWER.search(d["message"]):
                hit.add(owner(d, marks, path))
        return [(p, where, "assert(false) is accepted") for p in w.smoked if p not in hit]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for x in ex.map(go, ("entry", "tail")):
            bad += x
    return bad


TRUST = ["Verus 0.2026.09.13 with Z3, vstd's models of std", "the assumed contracts and axioms of contracts/ext.rs, contracts/ax.rs and of the functions marked @trusted, listed in coverage.deductive.assumed",
         "the mechanical weaving of lib/weave.py and the readings listed in coverage.deductive.read_as"]


def start(chk):
    """Starts the verifier for this property: the modules with a function of this property, and in the thorough tier everything."""
    fns, _, _ = contracts()
    mods = sorted({c.path.split("::")[0] for c in fns if chk.prop in c.props} | {"ax", "verif"}) if TIER == "quick" else None

    def go():
        try:
            return verify(tag=chk.prop, modules=mods, smoke=TIER != "quick", timeout=600)
        except Exception as e:      # the dependencies or the source do not build: the bounded engines say so in their own way
            r = Result()
            r.broken = "%s: %s" % (type(e).__name__, str(e)[:600])
            return r
    ex = concurrent.futures.ThreadPoolExecutor(1)
    f = ex.submit(go)
    ex.shutdown(wait=False)
    return f


def record(chk, r):
    """Records what the verifier did for this property."""
    mine = [c for c in r.fns if chk.prop in c.props]
    r.mine = mine
    good = {c.path for c in r.ok()}
    if not r.broken:
        vac = {p for p, _, _ in r.vacuous}
        for c in mine:
            if c.trusted:
                continue
            chk.obligations += 1
            if c.path in good and c.path not in vac:
                chk.discharged += 1
            elif c.path in r.demoted:
                chk.undischarged.append("%s: not decided: %s" % (c.path, r.demoted[c.path]))
            elif c.path in vac:
                chk.undischarged.append("%s: vacuous" % c.path)
            else:
                chk.undischarged.append("%s: failed: %s" % (c.path, "; ".join("%s: %s" % (m, cl) for m, cl, _ in r.failed.get(c.path, []))[:400]))
        chk.commands.append(r.cmd)
        chk.trusted += TRUST
    else:
        chk.undischarged.append("engine A gave no result: " + r.broken)
    name = lambda c: c.path.split("::")
    chk.cov["deductive"] = dict(
        back_end="Verus/Z3", result="none: " + r.broken if r.broken else "%d of %d functions of this property verified" % (len([c for c in mine if c.path in good]), len([c for c in mine if not c.trusted])),
        functions_under_contract=sorted(c.path for c in mine if not c.trusted), functions_in_crate_under_contract=len([c for c in r.fns if not c.trusted]),
        verified_units_in_crate=r.verified, solver_ms=r.smt_ms, seconds=round(r.secs, 1), vacuous=[list(x) for x in r.vacuous],
        not_decided=r.demoted, assumed=r.assumed, read_as=[x for x in r.dropped if "read as" in x],
        not_under_contract=[x for x in r.dropped if "read as" not in x])
    return r


def conclude(chk, r):
    """A failed obligation is a violation; the failing inputs which the bounded engines found, if any, go with it."""
    r = r.result()
    record(chk, r)
    if r.broken:
        return
    found = [p for p, n in chk.violations if p and not n]
    for c in r.mine:
        for msg, clause, full in r.failed.get(c.path, [])[:2]:
            what = "obligation of %s fails: %s%s" % (c.path, msg, ": " + clause if clause else "")
            if found:
                log("  also: " + what)
                chk.notes.append(what)
            else:
                chk.violation("contract %s: %s %s" % (c.path, msg, clause), what, dict(engine="Verus", obligation=what, function=c.path, verifier_output=full, command=r.cmd), no_input=True)
                return


if __name__ == "__main__":
    import sys
    if sys.argv[1:2] == ["full"]:
        r = verify()
        print(dict(verified=r.verified, failed={k: [(a, b) for a, b, c in v] for k, v in r.failed.items()}, demoted=r.demoted, vacuous=r.vacuous, broken=r.broken, secs=r.secs, smt=r.smt_ms, fns=len(r.fns), ok=len(r.ok())))
        if "-v" in sys.argv:
            print(json.dumps(r.assumed, indent=1), r.dropped, r.per_fn)
        sys.exit()
    w, txt = weave_crate()
    if sys.argv[1:2] == ["baseline"]:
        write(BASELINE, json.dumps(w.digest, indent=0, sort_keys=True) + "\n")
        sys.exit()
    f = BUILD + "/verus_dev/main.rs"
    write(f, txt)
    print("lost", w.lost)
    c = command(f, sys.argv[1:])
    os.execvp("verus", c)
