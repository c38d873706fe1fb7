#!/usr/bin/env python3-vt
"""Decide one property on the current tree of /repo.

usage: check.py PROPERTY [quick|thorough]

1. extracts the functions under contract from /repo's sources (clang AST),
2. generates the proof obligations of their contracts and discharges them,
3. runs the bounded concrete search against the compiled real code (labelled
   bounded; it also looks for a failing input if an obligation fails).
"""
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("CXXWP_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
BUILD = os.path.join(HERE, "build", str(os.getpid()))


def load_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings")):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: property=%s " % prop):])
    except OSError:
        pass
    return out


class Harness:
    """The compiled real code driven by a generator with an oracle (bounded)."""

    def __init__(self, spec):
        self.spec = spec
        self.h = spec.HARNESS
        self.bin = None
        self.error = None
        self.thread = None

    def start(self):
        if self.h:
            self.thread = threading.Thread(target=self._build)
            self.thread.start()

    def _build(self):
        os.makedirs(BUILD, exist_ok=True)
        try:
            self.bins = []
            for k, h in enumerate(self.h):
                out = os.path.join(BUILD, "h%d" % k)
                cmd = ["/usr/bin/g++", "-std=c++17", "-O1", "-g1", "-w", "-fno-access-control",
                       "-I", REPO + "/libclingo-dl", "-I", REPO + "/libclingo-dl/src", "-I", REPO + "/app/lib", "-I",
                       REPO + "/app/src", "-I", os.path.join(HERE, "harness")]
                cmd += h.get("flags", [])
                cmd += [os.path.join(HERE, "harness", h["src"])] + [s.replace("$REPO", REPO) for s in h.get("extra", [])]
                cmd += ["-o", out] + h.get("libs", ["-lclingo"])
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    self.error = "harness %s does not compile: %s" % (h["src"], p.stdout[-1500:])
                    self.bins.append(None)
                else:
                    self.bins.append(out)
        except Exception as e:   # noqa
            self.error = "harness: %r" % (e,)

    def wait(self):
        if self.thread:
            self.thread.join()

    def run(self, seed, secs, label, jobs=6):
        """-> (violation text or None, stats)"""
        stats = {"evaluations": 0, "nontrivial": 0, "episodes": 0, "runs": [], "samples": []}
        if not self.h:
            return None, stats
        for k, h in enumerate(self.h):
            b = self.bins[k] if hasattr(self, "bins") and k < len(self.bins) else None
            if b is None:
                continue
            procs = []
            per = h.get("per", 10 ** 7)
            for j in range(h.get("jobs", jobs)):
                cmd = [b] + h.get("args", [self.spec.PROP]) + [str(seed + 1000 * j), "0", str(per), str(secs * h.get("share", 1.0))]
                env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
                procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                                    errors="replace", env=env, cwd=BUILD)))
            bad = None
            for cmd, p in procs:
                try:
                    out, _ = p.communicate(timeout=secs * 3 + 120)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    p.kill()
                    out, _ = p.communicate()
                    rc = "timeout"
                last = [l for l in out.splitlines() if l.startswith("OK ")]
                for l in out.splitlines():
                    if l.startswith("SAMPLE ") and len(stats["samples"]) < 5:
                        stats["samples"].append(l[7:400])
                if rc == 0 and last:
                    for kv in last[-1].split()[1:]:
                        a, v = kv.split("=")
                        if a in stats:
                            stats[a] += int(v)
                elif bad is None:
                    bad = (cmd, rc, out[-6000:])
            stats["runs"].append(h["src"])
            if bad is not None:
                cmd, rc, out = bad
                cmd = [os.path.basename(cmd[0])] + cmd[1:]
                return "harness %s (%s), arguments %s, exit %s\n%s" % (h["src"], label, " ".join(cmd[1:]), rc, out), stats
        return None, stats


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    spec = importlib.import_module("specs." + prop.lower())
    har = Harness(spec)
    har.start()
    quick = tier != "thorough"
    reps, err = [], None
    modules = []
    try:
        from cxxwp import prove
        modules = spec.modules(tier)
        reps = prove.prove(modules, timeout=getattr(spec, "TIMEOUT", 40) * (1 if quick else 3), deadline=t0 + (420 if quick else 2400))
    except Exception as e:   # the verifier gives no verdict; the bounded check stands in
        err = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("CHECK_DEBUG"):
            traceback.print_exc()
    har.wait()
    failed, undecided = [], []
    nobl = ndis = 0
    backends, solver_s = {}, 0.0
    assumptions = set(getattr(spec, "ASSUMPTIONS", []))
    funcs = []
    for r in reps:
        if r.error:
            undecided.append("%s: %s" % (r.func, r.error))
            continue
        n = len(r.obls)
        d = 0
        for o, x in zip(r.obls, r.results):
            solver_s += x.secs
            if x.status == "unsat":
                d += 1
                backends[x.backend] = backends.get(x.backend, 0) + 1
            elif x.backend == "deadline":
                undecided.append("%s: no time left for %s" % (r.func, o.name))
            else:
                failed.append((r, o, x))
        nobl += n
        ndis += d
        assumptions |= r.assumptions
        if r.vacuous:
            undecided.append("%s: vacuous (%s)" % (r.func, r.vacuous))
        elif n == 0:
            undecided.append("%s: no obligations" % r.func)
        funcs.append({"function": r.func, "obligations": n, "discharged": d, "inlined": sorted(r.inlined),
                      "contracts_used": sorted(r.used)})
    if err:
        undecided.append(err)
    # bounded concrete check
    secs = getattr(spec, "SECS", (12, 120))[0 if quick else 1]
    if failed or undecided:
        secs = max(secs, getattr(spec, "SEARCH_SECS", 40))
    found, stats = har.run(seed, secs, "bounded search")
    if har.error:
        undecided.append(har.error)
    known = load_findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    violations = 0
    rc = 0
    replay = os.path.join(EVID, prop + ".replay.txt")
    if os.path.exists(replay):
        os.remove(replay)
    text = []
    for r, o, x in failed:
        text.append("OBLIGATION NOT DISCHARGED: %s (function %s, kind %s)\n  back end: %s, status: %s\n%s\n" % (
            o.name, o.func, o.kind, x.backend, x.status, x.model[:6000]))
    for u in undecided:
        text.append("UNDECIDED: " + u + "\n")
    if found:
        text.insert(0, "FAILING INPUT (replayed against the real code)\n" + found + "\n")
        violations = 1
    elif failed:
        violations = 1
    with open(replay, "w") as f:
        f.write("property %s\nrebuild and replay: python3-vt %s %s\n\n%s" % (prop, os.path.join(HERE, "check.py"), prop, "\n".join(text)))
    if violations:
        rc = 1
        for r, o, x in failed[:8]:
            print("obligation not discharged: %s [%s]" % (o.name, x.status))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found"))
    proved = reps and not failed and not undecided
    level = spec.LEVEL if proved or not reps else ("proof" if proved else "exploration")
    if not reps and not modules:
        level = spec.LEVEL
    if level == "proof" and not proved:
        level = "exploration"
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": "python3-vt check.py %s %s" % (prop, tier),
        "trusted_base": ["cxxwp verification condition generator (this repository)", "clang 18 AST", "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2"]
        + list(getattr(spec, "TRUSTED", [])),
        "functions_under_contract": funcs,
        "back_ends": backends,
        "solver_seconds": round(solver_s, 2),
        "undecided": undecided,
        "bounded": {"label": "bounded, not counted as proved", "harness": stats["runs"], "episodes": stats["episodes"],
                    "scope": getattr(spec, "BOUNDED_SCOPE", "")},
        "evaluations": stats["evaluations"],
        "distinct_nontrivial": stats["nontrivial"],
        "rule": getattr(spec, "RULE", "randomly generated episodes executed on the compiled real code and compared with an oracle"),
        "samples": stats["samples"] or ["seeds %d+1000*j, see harness" % seed],
        "explanation": getattr(spec, "EXPLANATION", ""),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": sorted(assumptions), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations discharged, %d undecided items, %d bounded evaluations, %.1fs" % (
        prop, "VIOLATED" if rc else "ok", ndis, nobl, len(undecided), stats["evaluations"], time.time() - t0))
    for u in undecided:
        print("  undecided (bounded check stands in): " + u[:300])
    subprocess.run(["/bin/rm", "-rf", BUILD])
    if not rc and not ndis and not stats["evaluations"]:
        print("no verdict: nothing could be checked")
        return 2
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        print("check failed internally; no verdict")
        sys.exit(2)
