"""Common parts of the checks: paths, processes, evidence, known findings, verdicts."""
import json, os, subprocess, sys, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JOBS = os.cpu_count() or 4
STABLE, NIGHTLY, VERUS_RUST = "stable", "nightly", "1.98.1"


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=600, cwd=None, env=None, inp=None):
    """Run a command; returns (rc, stdout, stderr). rc None on timeout."""
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTC_BOOTSTRAP", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, err = p.communicate(inp, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


def write(path, text):
    """Write only when different, so that cargo does not rebuild for nothing."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def read(path):
    with open(path) as f:
        return f.read()


def known_findings(prop):
    """[(key, description)] of recorded, unrepaired findings of a property."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" ")
                res.append((key, desc))
    return res


class Check:
    """Collects what one run of one property's check did and decides its exit."""

    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.violations = []      # (replay path, no_input)
        self.cov = {"explanation": ""}
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0
        self.evaluations = 0
        self.distinct = None
        self.trusted = []
        self.commands = []
        self.undischarged = []    # named, with reason
        self.notes = []
        self.known = dict(known_findings(prop))
        self.seen_known = {}
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        self.max_violations = 5

    def left(self, total=840):
        return total - (time.time() - self.t0)

    def violation(self, key, what, data, no_input=False):
        """A violation identified by `key`; a listed known finding is reported as such instead."""
        if key in self.known:
            if key not in self.seen_known:
                self.seen_known[key] = what
                log("KNOWN-FINDING: property=%s %s %s" % (self.prop, key, self.known[key]))
            return
        if len(self.violations) >= self.max_violations:
            self.violations.append((None, no_input))
            return
        h = hashlib.sha1(key.encode()).hexdigest()[:10]
        path = os.path.join(EVID, "replays", "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, key=key, what=what, no_failing_input_found=no_input, **data), f, indent=1)
        self.violations.append((path, no_input))
        if True:
            log("  violated: %s: %s" % (key[:300], what[:600]))
            log("VIOLATION property=%s replay=%s%s" % (self.prop, path, " no-failing-input-found" if no_input else ""))

    def finish(self, level):
        cov = self.cov
        if level == "proof":
            cov["obligations"] = self.obligations
            cov["discharged"] = self.discharged
            cov["checker_cmd"] = " ;; ".join(self.commands) or "bin/check " + self.prop
            cov["trusted_base"] = sorted(set(self.trusted)) or ["none recorded"]
        cov["evaluations"] = self.evaluations
        if self.distinct is not None:
            cov["distinct_nontrivial"] = self.distinct
        if self.undischarged:
            cov["undischarged"] = self.undischarged[:40]
        if self.notes:
            cov["notes"] = self.notes
        if self.seen_known:
            cov["known_findings_seen"] = self.seen_known
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        log("%s: %d obligations, %d discharged, %d violations, %.1f s" % (
            self.prop, self.obligations, self.discharged, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
