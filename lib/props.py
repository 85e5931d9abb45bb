"""What is run for each property."""
import random, re, copy
from vlib import *
import casecheck, oracle, inputs

QUICK = TIER != "thorough"

TRUST_KANI = ["Kani 0.68 (CBMC 6, CaDiCaL) and its std library models", "rustc nightly-2026-08-21, on which Kani runs; the derive macro itself is executed by it, not verified by this engine",
              "std's formatting machinery (core::fmt) as executed by Kani"]
TRUST_DERIVE = "the shape space is sampled: the Kani proofs are for all values of each listed shape, not for all shapes"
SYN_FULL = dict(build_deps='[build-dependencies]\nsyn = { version = "2", features = ["full", "parsing", "extra-traits"] }\n', build_rs="fn main() {}\n")


def rng(prop):
    return random.Random("%d/%s" % (SEED, prop))


def per():
    return 24 if QUICK else 400


def cases(mod, kani_all=False):
    import importlib
    g = importlib.import_module(mod)
    cs = g.cases(TIER, rng(mod))
    if kani_all and not QUICK:
        q = {c.desc for c in g.cases("quick", rng(mod))}
        for c in cs:
            c.kani = c.kani or c.desc in q
    return cs


def derive_cases(chk, mod, nightly=False, kani_all=False, kani_timeout=420, full=False, nodef=None, **kw):
    cs = cases(mod, kani_all)
    casecheck.run_cases(chk, cs, nightly=nightly, per=per(), kani_timeout=kani_timeout if QUICK else 720, **kw)
    if full:      # the same contracts with syn's full parser on in the same build
        casecheck.run_cases(chk, [c for c in cs if full is True or full(c)], nightly=nightly, per=8, kani=False, tag="synfull", extra=SYN_FULL, **kw)
    if nodef:     # and without thiserror's default features
        casecheck.run_cases(chk, [c for c in cs if nodef(c)], nightly=nightly, per=8, kani=False, tag="nodef", features=[], **kw)
    chk.assumptions += TRUST_KANI + [TRUST_DERIVE]
    chk.trusted += TRUST_KANI
    return cs


# ---- engine D helpers ----------------------------------------------------------------------------------------------

def ask(chk, sources, full=False, text=False, timeout=400):
    o = oracle.Oracle(full)
    o.build()
    t = time.time()
    rs = o.run(sources, timeout, text)
    b = chk.cov.setdefault("bounded_inputs", {})
    k = "syn full" if full else "syn derive"
    e = b.setdefault(k, dict(inputs=0, seconds=0.0))
    e["inputs"] += len(sources)
    e["seconds"] = round(e["seconds"] + time.time() - t, 1)
    chk.evaluations += sum(r["status"] != "skipped" for r in rs)
    return rs


def asked(chk, xs, source, *a, **kw):
    """Pairs of an input and the outcome of the derive on it."""
    return [(x, r) for x, r in zip(xs, ask(chk, [source(x) for x in xs], *a, **kw)) if r["status"] != "skipped"]


def sample(chk, d, what):
    chk.cov.setdefault("samples", []).append(dict(input=d if isinstance(d, str) else d.source(), verdict=what))


def report(chk, src, what, r, **kw):
    chk.violation(re.sub(r"\s+", " ", src), what, dict(input=src, engine="derive as a library", status=r.get("status"), message=r.get("message"), errors=inputs.errors(r),
                                 output=[{k: i.get(k) for k in ("kind", "trait", "self", "params", "where", "tokens")} for i in r.get("items", [])][:12], **kw))


def decls(mult=1):
    r = rng("declarations")
    return inputs.systematic() + inputs.declarations(r, (4000 if QUICK else 120000) * mult)


# ---- properties ----------------------------------------------------------------------------------------------------

def c01(chk):
    derive_cases(chk, "c01", nodef=lambda c: "path" not in c.desc.lower() and "Path" not in c.source())
    return "proof"


def c02(chk):
    derive_cases(chk, "c02")
    return "proof"


def c03(chk):
    derive_cases(chk, "c03", full=True)
    import messages
    casecheck.run_cases(chk, messages.c03_newer(TIER, rng("c03_newer")), nightly=True, per=8, kani=False, tag="newer", extra=dict(nightly_features=("try_blocks",)))
    import ambig
    xs = ambig.ambiguous(rng("ambig"), 4000 if QUICK else 60000)
    for full in (False, True):
        for (src, want, desc), r in asked(chk, xs, lambda x: x[0], full):
            if r["status"] != "ok" or bool(inputs.errors(r)) != want:
                report(chk, src, "%s: %s" % (desc, "not rejected" if want else "rejected: %s" % (inputs.errors(r) or r.get("message"))), r, syn_full=full)
    chk.distinct = len(set(x[0] for x in xs))
    sample(chk, xs[0][0], "must be rejected" if xs[0][1] else "must be accepted")
    chk.cov["rule"] = ("derive inputs: about 80 argument expressions x container x position, random mixtures of shadowing names, each compiled with syn's full parser off and on and run on several values; "
                       "plus containers with references by number next to positional arguments; non-trivial: distinct source texts")
    return "exploration"


def c04(chk):
    derive_cases(chk, "c04")
    return "proof"


def c05(chk):
    derive_cases(chk, "c05", nightly=True)
    ds = decls()
    rs = ask(chk, [d.source() for d in ds])
    nrej = nacc = 0
    for d, r in zip(ds, rs):
        fs = inputs.faults(d)
        if fs and set(fs) <= {"from next to another field"}:
            nrej += 1
            if r["status"] == "ok" and not inputs.errors(r):
                report(chk, d.source(), "#[from] next to another field is accepted", r)
        elif not fs and r["status"] == "ok" and not inputs.errors(r):
            nacc += 1
            e = inputs.check_from(d, r)
            if e:
                report(chk, d.source(), e, r)
    chk.cov["conversions"] = dict(rejected_for_other_fields=nrej, accepted_with_exact_conversions=nacc)
    return "proof"


def c06(chk):
    derive_cases(chk, "c06", kani_all=True)
    return "proof"


def c07(chk):
    derive_cases(chk, "c07", nightly=True, kani_all=True)
    return "proof"


def c08(chk):
    derive_cases(chk, "c08", kani_all=True)
    ds = [d for d in decls() if d.kind == "enum"]
    n = 0
    for d, r in asked(chk, ds, lambda x: x.source()):
        if inputs.faults(d) or r["status"] != "ok" or inputs.errors(r):
            continue
        n += 1
        k = len(inputs.impls(r, "Display"))
        if k != inputs.has_display(d):
            report(chk, d.source(), "%d Display impls; expected %d" % (k, inputs.has_display(d)), r)
    chk.cov["display_impl_presence"] = dict(enums=n)
    return "proof"


def c09(chk):
    seen, rej = set(), 0
    for full in ((False, True) if QUICK else (False, True)):
        ds = decls()
        for d, r in asked(chk, ds, lambda x: x.source(), full):
            fs = inputs.faults(d)
            bad = r["status"] != "ok" or bool(inputs.errors(r)) != bool(fs)
            rej += bool(fs)
            seen.add(d.source())
            if bad:
                report(chk, d.source(), ("accepted in spite of: %s" % "; ".join(fs)) if fs and r["status"] == "ok" else "rejected: %s" % (inputs.errors(r) or r.get("message")), r, syn_full=full)
    chk.distinct = len(seen)
    chk.cov["rejected_by_the_model"] = rej
    chk.cov["rule"] = "every single fault in every position on otherwise consistent declarations (exhaustive list in shapes/inputs.py), then random declarations with up to three additions or removals of attributes; an independent table of faults decides; non-trivial: distinct source texts"
    sample(chk, ds[17], "; ".join(inputs.faults(ds[17])) or "consistent")
    sample(chk, ds[-1], "; ".join(inputs.faults(ds[-1])) or "consistent")
    return "proof"


def c10(chk):
    import fuzz
    r0 = rng("fuzz")
    n = 40000 if QUICK else 500000
    seen = set()
    stat = {}
    for lo in range(0, n, 50000):
        ds = [fuzz.fuzz(r0) for _ in range(min(50000, n - lo))]
        if lo == 0:
            ds += fuzz.deep(50) + fuzz.deep(2000)
        for full in (False, True):
            if chk.left(800) < 60:
                chk.notes.append("stopped at %d inputs for lack of time" % lo)
                break
            for d, r in asked(chk, ds, lambda x: x.source(), full):
                k = r["status"]
                if k == "ok":
                    k = "rejected" if inputs.errors(r) else "accepted"
                stat[k] = stat.get(k, 0) + 1
                if k in ("accepted", "rejected"):
                    seen.add(hash(d.source()))
                if k in ("panic", "abort", "hang", "malformed"):
                    src = shrink(d.source(), k, full) if len(chk.violations) < 3 else d.source()
                    report(chk, src, "the derive ends with %s: %s" % (k, r.get("message")), r, syn_full=full)
                elif k == "rejected":
                    e = inputs.check_fallback(d, r)
                    if e:
                        report(chk, d.source(), "no usable items accompany the compile error: " + e, r, syn_full=full)
    chk.distinct = len(seen)
    chk.cov["outcomes"] = stat
    chk.cov["rule"] = "random DeriveInputs with random tokens as arguments, random messages and attributes, unusual field types and generics, and repetitive inputs of size 50 and 2000; with syn's full parser off and on; non-trivial: parses as a DeriveInput and is a distinct text"
    sample(chk, ds[0], "")
    sample(chk, ds[-1].source()[:500], "")
    return "exploration"


def shrink(src, status, full):
    """Shorter input with the same outcome, by dropping token runs from the attributes."""
    o = oracle.Oracle(full)
    toks = re.findall(r"\"(?:\\.|[^\"\\])*\"|\s+|\w+|.", src)
    step = max(1, len(toks) // 2)
    t0 = time.time()
    while step and time.time() - t0 < 20:
        i = 0
        while i < len(toks) and time.time() - t0 < 20:
            cand = toks[:i] + toks[i + step:]
            try:
                ok = o.run(["".join(cand)], 25, slow=4)[0]["status"] == status
            except Exception:
                ok = False
            if ok:
                toks = cand
            else:
                i += step
        step //= 2
    return "".join(toks)


def c11(chk):
    seen = set()
    nrej = 0
    for full in (False, True):
        ds = decls()
        r2 = rng("c11")
        keep = []
        for d in ds:
            if inputs.faults(d):
                d = copy.copy(d)
                if d.kind != "union" or d.variants[0].fields:
                    d.generics = r2.choice(inputs.GENERICS)
                keep.append(d)
        for d, r in asked(chk, keep, lambda x: x.source(), full):
            if not inputs.errors(r) and r["status"] == "ok":
                continue        # accepted: C09 speaks about that
            nrej += 1
            seen.add(d.source())
            e = inputs.check_fallback(d, r)
            if e:
                report(chk, d.source(), e, r, syn_full=full)
    chk.distinct = len(seen)
    chk.cov["rejections"] = nrej
    sample(chk, keep[0], "rejected with Error and Display")
    sample(chk, keep[-1], "rejected with Error and Display")
    chk.cov["rule"] = "every kind of rejected declaration of C09 under lists of lifetime, type and const parameters with bounds, defaults and where clauses, output compared with the type's own generics; plus a crate of such declarations used as errors, in which only the derive's own messages may appear; non-trivial: distinct rejected source texts"
    import c11 as g
    g.run(chk)
    return "exploration"


def c12(chk):
    seen = set()
    r0 = rng("c12")
    n = 8000 if QUICK else 200000
    for lo in range(0, n, 20000):
        cs = [inputs.generic_case(r0) for _ in range(min(20000, n - lo))]
        for full in (False, True):
            if full and lo:
                continue
            for c, r in asked(chk, cs, lambda x: x.d.source(), full):
                seen.add(hash(c.d.source()))
                e = inputs.check_generic(c, r)
                if e:
                    report(chk, c.d.source(), e, r, syn_full=full)
    chk.distinct = len(seen)
    sample(chk, cs[0].d, "Display: %s; Error: %s" % (sorted(cs[0].display or []), sorted(cs[0].error)))
    sample(chk, cs[-1].d, "Display: %s; Error: %s" % (sorted(cs[-1].display or []), sorted(cs[-1].error)))
    chk.cov["rule"] = "random generic declarations: 15 generics lists, 17 forms of types mentioning a parameter and 16 which do not, messages with 30 format specs; the predicates of each impl compared with an independent computation; non-trivial: distinct source texts"
    return "exploration"


def c13(chk):
    derive_cases(chk, "c13")
    return "proof"


def c14(chk):
    derive_cases(chk, "c14", nightly=True, internal=True)
    return "proof"
