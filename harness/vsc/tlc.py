"""Running TLC."""

import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(RuntimeError):
    pass


def run(module, cfg=None, env=None, workers=1, heap="2g", args=(), scratch=None, timeout=1500,
        fair_gc=False):
    """Run TLC on a module of the spec directory; returns its output."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    try:
        cmd = ["java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4",
               "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def counts(out):
    m = _STATES.findall(out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def validate(traces, intern, scratch, module="SyncedTrace", name="t", heap="3g", keep=None):
    """Validate recorded traces; returns (stats, bad, dis).

    bad is a list of (trace index, event index, clauses).
    """
    path = os.path.join(scratch, f"{name}.json")
    atoms = intern.table()
    with open(path, "w") as fh:
        json.dump({"atoms": atoms, "traces": traces}, fh, separators=(",", ":"))
    rc, out = run(module, env={"TRACE": path}, scratch=scratch, heap=heap)
    return parse(rc, out, len(traces), path)


_LINE = re.compile(r'^<<"(END|BAD|DIS|CUT)", (\d+), (\d+)(?:, (.*?))?>>$', re.M | re.S)


def parse(rc, out, ntraces, path=None):
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise TLCError(f"TLC failed on {path} (exit {rc}):\n{out[-4000:]}")
    ended, bad, dis, cut = set(), {}, {}, set()
    for kind, t, l, rest in _LINE.findall(out):
        t, l = int(t), int(l)
        if kind == "END":
            ended.add(t)
        elif kind == "CUT":
            cut.add(t)
        elif kind == "BAD":
            if t not in bad or bad[t][0] < l:
                bad[t] = (l, sorted(re.findall(r'"(\w+)"', rest or "")))
        else:
            dis[t] = l
    cut -= ended
    ended |= cut
    verdicts = ended | set(bad) | set(dis)
    if len(verdicts) != ntraces:
        missing = [t for t in range(1, ntraces + 1) if t not in verdicts][:5]
        raise TLCError(f"no verdict for traces {missing} of {path}:\n{out[-3000:]}")
    gen, distinct = counts(out)
    stats = {"transitions": gen, "states": distinct, "traces": ntraces, "cut": len(cut)}
    return (stats,
            [(t - 1, l - 1, cl) for t, (l, cl) in sorted(bad.items()) if t not in ended],
            [(t - 1, l - 1) for t, l in sorted(dis.items()) if t not in ended and t not in bad])


_END = re.compile(r'^<<"END", (\d+)', re.M)


def validate_lin(traces, intern, scratch, module="LinTrace", name="lin", heap="3g"):
    """Validate histories; returns (stats, indices of histories without explanation)."""
    path = os.path.join(scratch, f"{name}.json")
    with open(path, "w") as fh:
        json.dump({"atoms": intern.table(), "traces": traces}, fh, separators=(",", ":"))
    rc, out = run(module, env={"TRACE": path}, scratch=scratch, heap=heap)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise TLCError(f"TLC failed on {path} (exit {rc}):\n{out[-4000:]}")
    ok = {int(x) - 1 for x in _END.findall(out)}
    gen, distinct = counts(out)
    return ({"transitions": gen, "states": distinct, "traces": len(traces), "cut": 0},
            [i for i in range(len(traces)) if i not in ok])
