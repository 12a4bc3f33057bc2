"""Running the jobs of a check, reporting, evidence."""

import json
import multiprocessing
import os
import shutil
import signal
import sys
import time
import traceback

from . import backends

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """(key, text) of the open findings of a property."""
    out = []
    try:
        with open(KNOWN) as fh:
            for line in fh:
                parts = line.strip().split(" ", 3)
                if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}":
                    out.append((parts[2].removeprefix("key="), parts[3]))
    except FileNotFoundError:
        pass
    return out


def _call(args):
    fn, spec = args
    # the pool is terminated after the first violation: unwind, do not just die
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(1))
    try:
        out = fn(spec)
        for v in out["viol"]:
            v["job"] = [fn.__module__.rpartition(".")[2], fn.__name__, list(spec)]
        return "ok", out
    except BaseException:  # noqa: BLE001
        return "err", f"job {spec!r}:\n{traceback.format_exc()}"


LIMIT = {"quick": 780, "thorough": 10800}


def run_jobs(jobs, rep, procs=8):
    """Run [(function, spec)] in worker processes.

    Returns the results in completion order.  After a violation that is not
    known the remaining jobs are abandoned: the verdict is known.  When the time
    is up, what was done so far counts, provided it is most of the work.
    """
    limit, stop = LIMIT.get(rep.tier, LIMIT["quick"]), rep.fresh
    ctx = multiprocessing.get_context("fork")
    t0 = time.time()
    out, errors = [], []
    backends.SCRATCH = backends.scratch_root()
    try:
        with ctx.Pool(min(procs, max(1, len(jobs))), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_call, jobs)
            for _ in jobs:
                try:
                    kind, val = it.next(timeout=max(1, limit - (time.time() - t0)))
                except multiprocessing.TimeoutError:
                    if len(out) < len(jobs) / 2:
                        errors.append(f"only {len(out)} of {len(jobs)} jobs ended in {limit} s")
                    break
                if kind == "err":
                    errors.append(val)
                    if len(errors) > 40:
                        break
                    continue
                out.append(val)
                if stop(val):
                    errors = []
                    break
            pool.terminate()
            pool.join()
    finally:
        shutil.rmtree(backends.SCRATCH, ignore_errors=True)
        backends.SCRATCH = None
    if errors and not any(stop(o) for o in out):
        raise RuntimeError(errors[0])
    rep.cov["jobs"], rep.cov["jobs_planned"] = len(out), len(jobs)
    return out


class Report:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {}
        self.viol = []     # (key, details)
        self.assumptions = []

    def violation(self, key, details):
        self.viol.append((key, details))

    def fresh(self, out):
        """Does the result of a job contain a violation that is not a known finding?"""
        known = dict(known_findings(self.prop))
        return any(v["key"] not in known for v in out["viol"])

    def finish(self):
        """Write the evidence, print the verdict, return the exit status."""
        known = dict(known_findings(self.prop))
        fresh = [(k, d) for k, d in self.viol if k not in known]
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(fresh)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in sorted({k for k, _ in self.viol if k in known}):
            print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
        path = os.path.join(EVIDENCE, f"{self.prop}-violation.json")
        if os.path.exists(path):
            os.remove(path)
        if not fresh:
            print(f"OK property={self.prop} tier={self.tier} seed={self.seed} "
                  f"wall={ev['wall_s']}s {summary(self.cov)}")
            return 0
        key, details = fresh[0]
        with open(path, "w") as fh:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "key": key,
                       "others": sorted({k for k, _ in fresh})[:50], **details}, fh, indent=1, default=repr)
        counts = {}
        for k, _ in fresh:
            counts[k] = counts.get(k, 0) + 1
        print("violated:", ", ".join(f"{k} ({n})" for k, n in sorted(counts.items())[:20]))
        for line in details.get("shown", [])[-25:]:
            print("   ", line)
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1


def summary(cov):
    return " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, bool)))
