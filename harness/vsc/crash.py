"""Checks of what a crash leaves behind (C08).

A program runs while every executed line and every call - of the library and of
everything it uses - is observed.  At each of these instants the files are read
the way another process would: this is what would be left if the process
stopped there.  A part of the instants is also reached by processes that do
stop there, or in the middle of a write.  The observations are validated
against CrashTrace.tla.
"""

import copy
import json
import os
import random
import resource
import shutil
import signal
import sys

from . import tlc, values, world
from .backends import BY_NAME, GARBAGE, MISSING, scratch_root
from .conc import CALLS, JSON, Gen, describe, encode_op, small_cap
from .world import UNSET

TOOL = 4
HARNESS = os.path.dirname(os.path.abspath(__file__))
EVENTS = ("LINE", "CALL", "C_RETURN", "C_RAISE", "PY_RETURN")

_watch = None


def _event(code, *args):
    w = _watch
    if w is not None and not w.busy and not code.co_filename.startswith(HARNESS):
        w.busy = True
        try:
            w.tick()
        finally:
            w.busy = False


class Watch:
    """Calls hit() at every instant while it is entered."""

    def __init__(self, hit):
        self.hit, self.n, self.busy = hit, 0, False

    def tick(self):
        self.n += 1
        self.hit(self.n)

    def __enter__(self):
        global _watch
        mon = sys.monitoring
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "vsc-crash")
            for e in EVENTS:
                mon.register_callback(TOOL, getattr(mon.events, e), _event)
        _watch = self
        ev = mon.events
        mon.set_events(TOOL, ev.LINE | ev.CALL | ev.PY_RETURN)
        return self

    def __exit__(self, *exc):
        global _watch
        sys.monitoring.set_events(TOOL, 0)
        _watch = None


class Scene:
    """A program and how it writes."""

    def __init__(self, prog, threads, concern, ctx, bad):
        self.p = prog
        self.threads = threads   # is threading support enabled?
        self.concern = concern   # write_concern
        self.ctx = ctx           # None, "obj", or [capacity]
        self.bad = bad           # None or (handle, operation, arguments): not serializable

    @property
    def atomic(self):
        return self.threads or self.concern

    def text(self):
        bad = ""
        if self.bad:
            h, op, _ = self.bad
            bad = f" then obj{self.p.handles[h][0] + 1}{self.p.handles[h][1]}.{op}(not serializable)"
        return describe(self.p)[0][:300] + (f" threads={self.threads} write_concern={self.concern} "
                                            f"context={self.ctx}: ") + describe(self.p)[1][:600] + bad


def build(sc, store):
    """Create files, objects and handles."""
    p = sc.p
    cls = BY_NAME[p.fam].cls(p.kind)
    store.wipe()
    for f, d in enumerate(p.disk, 1):
        if d is not MISSING:
            store.write(f, d)
    objs = [cls(**store.kwargs(f), write_concern=sc.concern) for f in p.objs]
    hnds = []
    for o, path in p.handles:
        t = objs[o]
        for x in path:
            t = t[x]
        hnds.append(t)
    return cls, objs, hnds


def steps(sc, cls, objs, hnds):
    """The calls of the program: (index of the operation or None, function)."""
    p = sc.p
    if sc.ctx == "obj":
        for o in objs:
            yield None, o.buffered.__enter__
    elif sc.ctx is not None:
        def enter():
            c = cls.buffer_backend() if sc.ctx[0] is None else cls.buffer_backend(sc.ctx[0])
            c.__enter__()
        yield None, enter
    for i, (h, op, args) in enumerate(p.threads[0]):
        yield i, lambda: perform(hnds[h], op, args)
    if sc.bad:
        yield "bad", lambda: perform(hnds[sc.bad[0]], *sc.bad[1:])
    if sc.ctx == "obj":
        for o in reversed(objs):
            yield None, lambda: o.buffered.__exit__(None, None, None)
    elif sc.ctx is not None:
        yield None, lambda: cls.buffer_backend().__exit__(None, None, None)


def perform(t, op, args):
    e = copy.deepcopy(args)
    CALLS[op](t, e, e.get("v", UNSET))


def look(store, n):
    """The bytes of the files."""
    out = []
    for f in range(1, n + 1):
        try:
            fd = os.open(store.path(f), os.O_RDONLY)
        except OSError:
            out.append(None)
            continue
        try:
            out.append(os.read(fd, 1 << 22))
        finally:
            os.close(fd)
    return out


def encode_files(I, blobs):
    out = []
    for b in blobs:
        if b is None:
            out.append([0, [0, 1]])
            continue
        try:
            d = json.loads(b)
            out.append([1, I.enc(d)])
        except (ValueError, RecursionError):
            out.append([2, [0, 1]])
    return out


def header(sc, I):
    p = sc.p
    return {"fam": p.fam, "kind": p.kind, "nodot": BY_NAME[p.fam].attr,
            "disk": [[] if d is MISSING else [I.enc(d)] for d in p.disk]}


def observe(sc, store, I):
    """Run the program, look at every instant; returns (trace or None, instants, calls)."""
    p = sc.p
    n = len(p.disk)
    cls, objs, hnds = build(sc, store)
    ev = []
    last = look(store, n)
    ops = [encode_op(I, p, *x) for x in p.threads[0]]

    def hit(_):
        nonlocal last
        now = look(store, n)
        if now != last:
            last = now
            ev.append({"a": "snap", "fs": now})

    w = Watch(hit)
    done = False
    calls = 0
    for i, fn in steps(sc, cls, objs, hnds):
        calls += 1
        if isinstance(i, int):
            ev.append({"a": "op", "e": ops[i]})
        try:
            if sc.atomic:
                with w:
                    fn()
            else:
                fn()
            if i == "bad" and sc.ctx is None:
                done = True  # it can be serialized after all
        except Exception:  # noqa: BLE001
            pass  # what operations return is not in question here
        hit(0)
    ev.append({"a": "end"})
    for e in ev:
        if e["a"] == "snap":
            e["fs"] = encode_files(I, e["fs"])
    if done:
        return None, w.n, calls
    return {"hdr": header(sc, I), "ev": ev}, w.n, calls


def child(sc, store, k, limit, pipe):
    """Run the program in this process and stop at instant k, or in a write."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    cls, objs, hnds = build(sc, store)
    os.write(pipe, b"s")

    def hit(n):
        if n == k:
            os._exit(9)

    w = Watch(hit)
    for m, (i, fn) in enumerate(steps(sc, cls, objs, hnds)):
        if isinstance(i, int):
            os.write(pipe, b"o")
        if limit is not None and m == limit[0]:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit[1], limit[1]))
        try:
            if k:
                with w:
                    fn()
            else:
                fn()
        except Exception:  # noqa: BLE001
            pass
    os._exit(0)


def crash(sc, store, I, k=0, limit=None):
    """Let a process crash; returns (trace, did it crash)."""
    p = sc.p
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            child(sc, store, k, limit, wr)
        finally:
            os._exit(7)
    os.close(wr)
    said = b""
    while True:
        b = os.read(r, 64)
        if not b:
            break
        said += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code not in (0, 9, -signal.SIGXFSZ):
        raise RuntimeError(f"child ended with {code}: {sc.text()}")
    ops = [encode_op(I, p, *x) for x in p.threads[0][: said.count(b"o")]]
    ev = [{"a": "op", "e": e} for e in ops]
    fs = encode_files(I, look(store, len(p.disk)))
    cls = BY_NAME[p.fam].cls(p.kind)
    opened = []
    for f in range(1, len(p.disk) + 1):
        try:
            opened.append([1, I.enc(world.strict(cls(**store.kwargs(f))()))])
        except Exception:  # noqa: BLE001
            opened.append([2, [0, 1]])
    ev.append({"a": "crash", "fs": fs, "open": opened})
    return {"hdr": header(sc, I), "ev": ev}, code != 0


# ----------------------------------------------------------------- generation

HUGE = 10 ** 5000  # too long for the conversion to decimal digits


def big(rng, p):
    """Make one of the contents larger than the buffers of files."""
    i = rng.randrange(len(p.disk))
    d = p.disk[i]
    if d is MISSING:
        return
    x = rng.choice("uvw") * rng.choice([5000, 9000, 20000, 70000])
    if isinstance(d, dict):
        d["big"] = x
    else:
        d.append(x)


def scene(fam, rng):
    g = Gen(rng, fam)
    buffered = fam.strat != "none"
    nf = rng.choice([1, 1, 2, 3]) if buffered else rng.choice([1, 1, 2])
    ctx = None
    if buffered and rng.random() < 0.85:
        ctx = rng.choice(["obj", [None], [None], [small_cap(fam, rng)]])
    nops = [1, 2] if not buffered else [2, 3, 4]
    p = g.program(1, nops, nfiles=nf, nobjs=1)
    if rng.random() < 0.3:
        big(rng, p)
    threads = rng.random() < 0.6
    concern = not threads or rng.random() < 0.2
    bad = None
    if rng.random() < 0.35:
        bad = unserializable(p, rng)
        if rng.random() < 0.6:
            threads = concern = False
    return Scene(p, threads, concern, ctx, bad)


def unserializable(p, rng):
    h = rng.randrange(len(p.handles))
    o, path = p.handles[h]
    d = p.disk[p.objs[o] - 1]
    kind = p.kind
    if d is not MISSING:
        for x in path:
            d = d[x]
        kind = 2 if isinstance(d, dict) else 1
    v = rng.choice([HUGE, [1, HUGE], {"x": {"y": HUGE}}, -HUGE])
    if kind == 2:
        return rng.choice([(h, "setitem", {"k": "zz", "v": v}), (h, "update", {"v": {"z1": 1, "zz": v}}),
                           (h, "reset", {"v": {"zz": v}}), (h, "setdefault", {"k": "zz", "v": v})])
    return rng.choice([(h, "append", {"v": v}), (h, "insert", {"i": 0, "v": v}), (h, "extend", {"v": [1, v]}),
                       (h, "reset", {"v": [v]}), (h, "iadd", {"v": [v]})])


FAMS = JSON


def job(spec):
    prop, fam_name, seed, nscenes, nforks = spec
    fam = BY_NAME[fam_name]
    rng = random.Random(f"{prop}/{fam_name}/{seed}")
    root = scratch_root()
    store = fam.store(root)
    try:
        I = values.Interner()
        traces, texts = [], []
        instants = forks = crashes = 0
        kinds = {}
        for _ in range(nscenes):
            sc = scene(fam, rng)
            name = f"{'threads' if sc.threads else 'concern' if sc.concern else 'inplace'}" \
                   f"/{'unbuffered' if sc.ctx is None else 'own' if sc.ctx == 'obj' else 'backend'}" \
                   f"{'/unserializable' if sc.bad else ''}"
            kinds[name] = kinds.get(name, 0) + 1
            world.reload_library()
            for k in (1, 2):
                c = fam.cls(k)
                if not sc.threads:
                    c.disable_multithreading()
            t, n, calls = observe(sc, store, I)
            instants += n
            if t is not None:
                traces.append(t)
                texts.append(sc.text())
            world.reload_library()
            for k in (1, 2):
                c = fam.cls(k)
                if not sc.threads:
                    c.disable_multithreading()
            if not sc.atomic:
                continue
            sizes = [len(json.dumps(d)) for d in sc.p.disk if d is not MISSING] or [20]
            top = max(sizes) + 30
            for j in range(nforks):
                if j % 2 and n:
                    k, limit = rng.randint(1, n), None
                else:
                    k, limit = 0, (rng.randrange(calls), min(rng.randint(0, top), rng.randint(0, top)))
                t, hit = crash(sc, store, I, k, limit)
                forks += 1
                crashes += hit
                traces.append(t)
                texts.append(sc.text() + (f" stopped at instant {k}" if k else
                                          f" stopped in a write of more than {limit[1]} bytes from call {limit[0]} on"))
        stats, bad = tlc.validate_lin(traces, I, root, module="CrashTrace")
        out = {"stats": stats, "events": sum(len(t["ev"]) for t in traces), "viol": [], "ops": kinds,
               "instants": instants, "processes": forks, "crashes": crashes, "scenes": nscenes,
               "sample": [texts[0]] + show(traces[0], I), "nviol": len(bad)}
        for i in bad[:5]:
            out["viol"].append({"key": f"{fam_name}:file", "shown": [texts[i]] + show(traces[i], I),
                                "trace": traces[i], "atoms": [repr(v)[:200] for v in I.vals], "job": list(spec)})
        return out
    finally:
        store.close()
        shutil.rmtree(root, ignore_errors=True)


def show(t, I):
    def file(x):
        if x[0] == 0:
            return "missing"
        if x[0] == 2:
            return "DAMAGED"
        return repr(I.dec(x[1]))[:200]

    out = ["files " + ", ".join(file([0] if not d else [1, d[0]]) for d in t["hdr"]["disk"])]
    for e in t["ev"]:
        if e["a"] == "op":
            out.append(f"{e['e']['op']} on file {e['e']['f']}")
        elif e["a"] == "snap":
            out.append("files now " + ", ".join(file(x) for x in e["fs"]))
        elif e["a"] == "crash":
            out.append("files left " + ", ".join(file(x) for x in e["fs"])
                       + "; opened " + ", ".join(file(x) for x in e["open"]))
    return out
