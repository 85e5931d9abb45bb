"""Decides contracts of derive cases: engine B (Kani, all values) and engine C (native, concrete values)."""
import random, re
from vlib import *
import native, kanirun


def case_data(c, **kw):
    return dict(case=c.id, description=c.desc, source=c.source(), **kw)


def run_cases(chk, cases, nightly=False, per=24, kani=True, kani_timeout=420, features=None, tag="native", key=None, extra=None, internal=False):
    """Runs all cases natively, and those marked for it under Kani. Violations go to chk.
    key: Case -> stable identification of the case for known findings."""
    keyf = key or (lambda c: c.key or c.desc)
    n = native.Native(chk.prop, cases, nightly, features, tag, extra)
    t = time.time()
    bad = n.build()
    for cid, msg in bad.items():
        c = n.by_id[cid]
        if internal and all(re.match(r"error\[E04(32|33|12|05|07)\]|error\[E0599\]: no method named `(as_d|thiserror_)", m) for m in msg.split("\n") if m.startswith("error")):
            chk.undischarged.append("%s (%s): the adapter is not found under its name: %s" % (cid, c.desc, msg.split("\n")[0]))
            continue       # a private name that moved says nothing about the behaviour
        chk.violation(keyf(c), "the derive does not accept, or its output breaks, this input", case_data(c, rustc=msg))
    if len(bad) < len(cases):
        fails, evals, _ = n.run(per)
    else:
        fails, evals = [], 0
    for cid, hexb, msg in fails:
        c = n.by_id[cid]
        chk.violation(keyf(c), msg, case_data(c, bytes=hexb, message=msg, engine="native"))
    cov = chk.cov.setdefault("bounded_native", {})
    chk.evaluations += evals
    cov[tag] = dict(contracts_compiled=len(cases) - len(bad), evaluations=evals, seconds=round(time.time() - t, 1))
    chk.cov.setdefault("samples", [])
    for c in (cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1]):
        chk.cov["samples"].append(dict(case=c.desc, source=c.source()))
    if not kani:
        return
    ks = [c for c in cases if c.kani and c.id not in bad]
    failed_native = {f[0] for f in fails}
    run_kani(chk, ks, n, failed_native, min(kani_timeout, chk.left(700)), keyf)


def run_kani(chk, ks, n, failed_native, timeout, keyf, tag="kani", extra_items=""):
    if not ks or timeout < 40:
        chk.notes.append("Kani not run: %s" % ("no case" if not ks else "no time left"))
        return
    k = kanirun.Kani(chk.prop, ks, tag, extra_items)
    t = time.time()
    res = k.run(timeout)
    kc = chk.cov.setdefault("kani", dict(harnesses=0, proved=0, checks=0, solver_seconds=0.0, wall_seconds=0.0, vacuous=0))
    if k.cmd not in chk.commands:
        chk.commands.append(k.cmd)
    if not res:
        chk.notes.append("Kani produced no result (rc=%s): %s" % (k.rc, k.err[-600:]))
    for c in ks:
        r = res.get("h_" + c.id)
        chk.obligations += 1
        kc["harnesses"] += 1
        if r is None:
            chk.undischarged.append("kani:%s (%s): not run" % (c.id, c.desc))
            continue
        kc["checks"] += r["checks"]
        kc["solver_seconds"] = round(kc["solver_seconds"] + r["secs"], 2)
        if r["verdict"] == "SUCCESSFUL" and r["covered"]:
            kc["proved"] += 1
            chk.discharged += 1
        elif r["verdict"] == "SUCCESSFUL":
            kc["vacuous"] += 1
            chk.undischarged.append("kani:%s (%s): end not reachable" % (c.id, c.desc))
        elif r["verdict"] == "FAILED":
            real = [f for f in r["failed"] if is_contract(f)]
            if not real:
                chk.undischarged.append("kani:%s (%s): %s" % (c.id, c.desc, "; ".join(r["failed"])[:200]))
                continue
            chk.undischarged.append("kani:%s (%s): %s" % (c.id, c.desc, "; ".join(real)[:200]))
            if c.id in failed_native:
                continue       # already reported with an input
            # the verifier's counterexample, replayed on the real code
            k2 = kanirun.Kani(chk.prop, ks, tag, extra_items)
            k2.run(180, playback=True, only=["h_" + c.id])
            b = kanirun.playback_bytes(k2.raw)
            ok, out = n.replay(c.id, b.hex())
            chk.violation(keyf(c), "; ".join(real), case_data(c, bytes=b.hex(), engine="kani", failed_obligation="proofs::h_%s: %s" % (c.id, "; ".join(real)),
                          replayed=ok, verifier_output=k2.raw[-6000:]), no_input=not ok)
        else:
            chk.undischarged.append("kani:%s (%s): %s" % (c.id, c.desc, r["verdict"]))
    kc["wall_seconds"] = round(kc["wall_seconds"] + time.time() - t, 1)


def is_contract(msg):
    """A failed check that speaks about the code, not about the verifier's reach."""
    m = msg.lower()
    return not ("unwinding assertion" in m or "not currently supported" in m or "unsupported" in m or "unreachable" in m and "kani" in m)
