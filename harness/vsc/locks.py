"""Checks that every operation comes to an end (C10).

Two kinds of histories are validated against Progress.tla.  In the first kind a
thread performs an operation that is hit by a fault; once the fault has gone,
other threads use the same and other collections.  In the second kind threads
run small programs that take several locks, under many schedules.
"""

import errno
import io
import json
import os
import random
import shutil
import types

from . import sched, tlc, values, world
from .backends import BY_NAME, scratch_root
from .conc import JSON, exc_result, explore

# ---------------------------------------------------------------- fault kinds

IO_MODULES = {"posix", "_io", "io", "os", "shutil", "pathlib", "tempfile", "fcntl"}
CODECS = {"json", "json.decoder", "json.encoder"}


def io_kind(fn):
    """Does the function do I/O ("io"), parse or serialize ("codec")?"""
    s = getattr(fn, "__self__", None)
    m = getattr(fn, "__module__", None)
    if isinstance(s, io.IOBase) or (isinstance(fn, types.MethodDescriptorType)
                                    and issubclass(fn.__objclass__, io.IOBase)):
        return "io"
    if isinstance(s, types.ModuleType):
        m = s.__name__
    if m in IO_MODULES and getattr(fn, "__name__", "") not in ("fspath", "fsencode", "fsdecode"):
        return "io"
    if m in CODECS and not isinstance(fn, type):
        return "codec"
    return None


class Inject:
    """Lets the j-th I/O call of the library fail."""

    def __init__(self, j=0, err=None):
        self.j, self.err, self.n = j, err, 0

    def __call__(self, fn):
        k = io_kind(fn)
        if k is None:
            return
        self.n += 1
        if self.n == self.j:
            if k == "codec":
                raise ValueError("injected")
            raise self.err if isinstance(self.err, MemoryError) else OSError(self.err, "injected")


ERRNOS = [errno.EIO, errno.EACCES, errno.ENOSPC, errno.ENOENT, errno.EMFILE]


class BadHash:
    def __hash__(self):
        raise RuntimeError("no hash")


class BadEq:
    __hash__ = None

    def __eq__(self, other):
        raise RuntimeError("no comparison")


class BadStr(str):
    """A string that cannot be compared while the operation in question runs."""

    __hash__ = str.__hash__

    def __eq__(self, other):
        if sched.fault is not None:
            raise RuntimeError("no comparison")
        return str.__eq__(self, other)


class BadMapping(dict):
    def items(self):
        raise RuntimeError("no items")

    keys = values = __iter__ = items


class BadSequence(list):
    def __iter__(self):
        raise RuntimeError("no items")


class BadLen(list):
    def __len__(self):
        raise RuntimeError("no length")


def bad_generator():
    yield 1
    raise RuntimeError("no more items")


BAD_VALUES = [lambda: object(), lambda: {1, 2}, lambda: 1j, lambda: {1: 2}, lambda: {"s": object()},
              lambda: [1, object()], lambda: BadMapping(a=1), lambda: BadSequence([1]),
              lambda: {"d.t": 1}, lambda: [{"d.t": {"x": 1}}], lambda: BadLen([1]), bad_generator,
              lambda: {"k": bad_generator()}, lambda: print, lambda: float, lambda: {("t",): 1}]
BAD_KEYS = [lambda: BadHash(), lambda: BadEq(), lambda: [], lambda: 1, lambda: "d.t", lambda: None,
            lambda: BadStr("a"), lambda: ("t",), lambda: 1.5, lambda: {}]
BAD_INDEXES = [lambda: "x", lambda: 99, lambda: None, lambda: 1.5, lambda: -99, lambda: BadHash(),
               lambda: slice("a", 1), lambda: slice(0, 3, 0)]

CONTENT = {2: {"a": 1, "c": {"p": 1, "q": [1]}, "l": [1, {"z": 2}, 3]},
           1: [1, {"p": 1, "q": [1]}, [1, {"z": 2}, 3]]}


def file_faults(attr, kind):
    """name -> function that puts something in the place of a file."""
    def text(b):
        def put(path):
            with open(path, "wb") as fh:
                fh.write(b)
        return put

    def directory(path):
        os.remove(path)
        os.mkdir(path)

    def loop(path):
        os.remove(path)
        os.symlink(os.path.basename(path), path)

    out = {"empty": text(b""), "truncated": text(b'{"a": [1, {"b"'), "binary": text(b"\xff\xfe\x00{"),
           "kind": text(b"[1, 2]" if kind == 2 else b'{"a": 1}'), "scalar": text(b"17"),
           "null": text(b"null"), "deep": text(b"[" * 100000 + b"]" * 100000),
           "string": text(b'"text"'), "directory": directory, "loop": loop}
    if attr:
        out["dotted"] = text(b'{"a": 1, "c": {"x.y": 1}, "n.m": 2}' if kind == 2 else b'[1, {"x.y": 1}]')
    return out


def restore(path, content):
    if os.path.islink(path) or os.path.isfile(path):
        os.remove(path)
    elif os.path.isdir(path):
        os.rmdir(path)
    with open(path, "w") as fh:
        json.dump(content, fh)


# ----------------------------------------------------- operations of one thread


def dict_ops(attr):
    out = {
        "getitem": lambda t: t["a"], "get": lambda t: t.get("a"), "len": len, "iter": lambda t: list(t),
        "call": lambda t: t(), "eq": lambda t: t == {"a": 1}, "contains": lambda t: "a" in t,
        "values": lambda t: list(t.values()), "items": lambda t: list(t.items()),
        "keys": lambda t: list(t.keys()), "repr": repr, "str": str, "ne": lambda t: t != {"a": 1},
        "missing": lambda t: t["none"], "setitem": lambda t: t.__setitem__("a", {"u": [1]}),
        "delitem": lambda t: t.__delitem__("a"), "pop": lambda t: t.pop("a", None),
        "popmissing": lambda t: t.pop("none"), "popitem": lambda t: t.popitem(),
        "clear": lambda t: t.clear(), "update": lambda t: t.update({"a": 2}, b=[1]),
        "setdefault": lambda t: t.setdefault("n", []), "reset": lambda t: t.reset({"a": [1]}),
        "delmissing": lambda t: t.__delitem__("none"),
    }
    if attr:
        out.update(aget=lambda t: t.a, aset=lambda t: setattr(t, "a", 3), adel=lambda t: delattr(t, "a"),
                   amissing=lambda t: t.none, adelmissing=lambda t: delattr(t, "none"))
    return out


def list_ops():
    return {
        "getitem": lambda t: t[0], "len": len, "iter": lambda t: list(t), "call": lambda t: t(),
        "eq": lambda t: t == [1], "contains": lambda t: 1 in t, "index": lambda t: t.index(1),
        "count": lambda t: t.count(1), "reversed": lambda t: list(reversed(t)), "repr": repr,
        "getslice": lambda t: t[:2], "lt": lambda t: t < [2], "setitem": lambda t: t.__setitem__(0, [2]),
        "setslice": lambda t: t.__setitem__(slice(0, 1), [7, 8]), "delitem": lambda t: t.__delitem__(0),
        "delslice": lambda t: t.__delitem__(slice(0, 1)), "append": lambda t: t.append({"u": 1}),
        "extend": lambda t: t.extend([1, [2]]), "iadd": lambda t: t.__iadd__([1]),
        "insert": lambda t: t.insert(0, 5), "pop": lambda t: t.pop(), "pop0": lambda t: t.pop(0),
        "remove": lambda t: t.remove(1), "removemissing": lambda t: t.remove("none"),
        "clear": lambda t: t.clear(), "reverse": lambda t: t.reverse(), "reset": lambda t: t.reset([1, [2]]),
        "popmissing": lambda t: t.pop(99), "indexmissing": lambda t: t.index("none"),
        "stepslice": lambda t: t.__setitem__(slice(None, None, 2), [1]), "ltwrong": lambda t: t < 5,
    }


def bad_dict_ops(attr):
    """Operations with an argument that makes them fail."""
    val = {
        "setitem": lambda t, v: t.__setitem__("a", v), "update": lambda t, v: t.update(v),
        "update2": lambda t, v: t.update({"a": 1, "z": v}), "updatekw": lambda t, v: t.update(z=v),
        "updateseq": lambda t, v: t.update([("a", 1), ("b", v)]),
        "setdefault": lambda t, v: t.setdefault("n", v), "reset": lambda t, v: t.reset(v),
        "reset2": lambda t, v: t.reset({"a": v}), "eq": lambda t, v: t == v, "eq2": lambda t, v: t == {"a": v},
    }
    key = {
        "setitem": lambda t, k: t.__setitem__(k, 1), "delitem": lambda t, k: t.__delitem__(k),
        "getitem": lambda t, k: t[k], "get": lambda t, k: t.get(k), "contains": lambda t, k: k in t,
        "pop": lambda t, k: t.pop(k), "popd": lambda t, k: t.pop(k, 1),
        "setdefault": lambda t, k: t.setdefault(k, 1),
        "update": lambda t, k: t.update([("a", 1), (k, 1)]),
    }
    if attr:
        val["aset"] = lambda t, v: setattr(t, "a", v)
    return val, key


def bad_list_ops():
    val = {
        "setitem": lambda t, v: t.__setitem__(0, v), "setslice": lambda t, v: t.__setitem__(slice(0, 1), v),
        "setslice2": lambda t, v: t.__setitem__(slice(0, 1), [1, v]), "append": lambda t, v: t.append(v),
        "extend": lambda t, v: t.extend(v), "extend2": lambda t, v: t.extend([1, v]),
        "iadd": lambda t, v: t.__iadd__(v), "iadd2": lambda t, v: t.__iadd__([1, v]),
        "insert": lambda t, v: t.insert(0, v), "remove": lambda t, v: t.remove(v),
        "index": lambda t, v: t.index(v), "count": lambda t, v: t.count(v), "contains": lambda t, v: v in t,
        "reset": lambda t, v: t.reset(v), "reset2": lambda t, v: t.reset([v]), "eq": lambda t, v: t == v,
        "lt": lambda t, v: t < v,
    }
    idx = {
        "getitem": lambda t, i: t[i], "setitem": lambda t, i: t.__setitem__(i, 1),
        "delitem": lambda t, i: t.__delitem__(i), "insert": lambda t, i: t.insert(i, 1),
        "pop": lambda t, i: t.pop(i), "index": lambda t, i: t.index(1, i),
    }
    return val, idx


class Env:
    """The collections of one execution.

    x and y are bound to the file of the fault, z to another file; c and l are
    nested in x.
    """

    def __init__(self, fam, kind, store):
        store.wipe()
        self.fam, self.kind, self.store = fam, kind, store
        self.cls = cls = fam.cls(kind)
        for f in (1, 2):
            store.write(f, CONTENT[kind])
        self.x, self.y, self.z = (cls(**store.kwargs(f)) for f in (1, 1, 2))
        self.c, self.l = (self.x["c"], self.x["l"]) if kind == 2 else (self.x[1], self.x[2])
        self.y(), self.z()
        self.path = store.kwargs(1)["filename"]
        self.hist = []

    def call(self, t, what, fn, must):
        """Perform a call; must: "must" end normally, or "may" fail."""
        self.hist.append(["inv", t, what, must])
        try:
            fn()
            res = ["ok"]
        except sched.LockHeld:
            self.hist.append(["stuck"])
            return False
        except Exception as err:  # noqa: BLE001
            res = exc_result(err)
        self.hist.append(["ret", t, res])
        return True

    def touch(self, t):
        """A mutation that is possible in every state."""
        if self.kind == 2:
            t["n"] = 5
        else:
            t.append(5)


def others(env, t, must):
    """What another thread does afterwards."""
    cls, kw = env.cls, env.store.kwargs(1)
    touch = env.touch
    env.call(t, "read x", lambda: env.x(), must)
    env.call(t, "mutate x", lambda: touch(env.x), must)
    env.call(t, "mutate y (same file)", lambda: touch(env.y), must)
    env.call(t, "mutate z (other file)", lambda: touch(env.z), must)
    env.call(t, "mutate child of x", lambda: env.c.update(n=1), "may")
    env.call(t, "mutate child of x", lambda: env.l.append(1), "may")
    env.call(t, "construct, mutate (same file)", lambda: touch(cls(**kw)), must)
    if env.fam.strat != "none":
        def ctx():
            with cls.buffer_backend():
                touch(env.x)
                touch(env.z)

        def own():
            with env.y.buffered:
                touch(env.y)

        env.call(t, "context", ctx, must)
        env.call(t, "own context", own, must)
        env.call(t, "capacity", lambda: cls.set_buffer_capacity(cls.get_buffer_capacity()), must)
        env.call(t, "size", lambda: cls.get_current_buffer_size(), must)


MODES = ["none", "cls", "cap", "obj"]


class Fault:
    """One scenario of the first kind."""

    def __init__(self, fam, kind, mode, what, act, before=None, err=None, steps=()):
        self.fam, self.kind, self.mode, self.what, self.act = fam, kind, mode, what, act
        self.before = before  # puts something in the place of the file
        self.err = err        # error of the injected failure
        self.steps = steps    # calls of the thread before the fault
        self.soft = "context" in what or "capacity" in what


def enter(env, mode):
    if mode == "none":
        return None
    if mode == "obj":
        ctx = env.x.buffered
    else:
        ctx = env.cls.buffer_backend() if mode == "cls" else env.cls.buffer_backend(0)
    ctx.__enter__()
    return ctx


def leave(ctx):
    ctx.__exit__(None, None, None)


def run_fault(store, sc, j=0):
    """Run a scenario; j = 0: nothing is injected.  Returns (env, I/O calls, dirty)."""
    env = Env(sc.fam, sc.kind, store)
    inject = Inject(j, sc.err)
    good = True

    def first():
        for what, fn in sc.steps:
            env.call(1, what, lambda: fn(env), "may")
        if sc.before:
            sc.before(env.path)
        sched.fault = inject
        try:
            env.call(1, sc.what, lambda: sc.act(env), "may")
        finally:
            sched.fault = None
        if sc.before or j:
            restore(env.path, CONTENT[env.kind])

    def second():
        # In buffered mode the first operation of another thread may still
        # report what the failed one left undone.
        others(env, 2, "must" if sc.mode == "none" and not sc.soft else "soft")

    ctx = None
    if sc.mode != "none":
        good = env.call(3, f"enter {sc.mode}", lambda: None, "may")
        ctx = enter(env, sc.mode)
    s1 = sched.Sched([first, second], [0, 1])
    s1.run()
    if s1.errors:
        raise s1.errors[0]
    dead = s1.deadlock or s1.hang
    if dead:
        env.hist.append(["stuck"])
    if ctx is not None and not dead:
        good = env.call(3, "leave", lambda: leave(ctx), "may")
        dead = not good
    if not dead:
        s2 = sched.Sched([lambda: others(env, 4, "must")], [0])
        s2.run()
        if s2.errors:
            raise s2.errors[0]
        if s2.deadlock or s2.hang:
            env.hist.append(["stuck"])
            dead = True
    dirty = dead or sc.fam.strat != "none" and (
        env.cls.get_current_buffer_size() != 0 or bool(env.cls.backend_is_buffered()))
    return env, inject.n, dirty


def scenarios(fam, rng, share):
    """The scenarios of the first kind; share: part of the quadratic ones."""
    out = []
    attr = fam.attr
    modes = MODES if fam.strat != "none" else ["none"]

    def pick():
        return rng.random() < share

    for kind in (2, 1):
        targets = [("x", kind), ("c", 2), ("l", 1), ("y", kind)]
        for mode in modes:
            for tname, tkind in targets:
                get = (lambda n: lambda env: getattr(env, n))(tname)
                ops = dict_ops(attr) if tkind == 2 else list_ops()
                for op, fn in ops.items():
                    act = (lambda f, g: lambda env: f(g(env)))(fn, get)
                    name = f"{tname}.{op}"
                    if pick():
                        out.append(Fault(fam, kind, mode, name, act, err=rng.choice(ERRNOS)))
                    for ff, put in file_faults(attr, kind).items():
                        if pick():
                            out.append(Fault(fam, kind, mode, f"{name} file={ff}", act, before=put))
                val, key = bad_dict_ops(attr) if tkind == 2 else bad_list_ops()
                for table, pool in ((val, BAD_VALUES), (key, BAD_KEYS if tkind == 2 else BAD_INDEXES)):
                    for op, fn in table.items():
                        for n, mk in enumerate(pool):
                            if pick():
                                act = (lambda f, g, m: lambda env: f(g(env), m()))(fn, get, mk)
                                which = "value" if table is val else "key"
                                out.append(Fault(fam, kind, mode, f"{tname}.{op} bad {which} {n}", act))
            out += special(fam, kind, mode, rng, pick)
    return out


def special(fam, kind, mode, rng, pick):
    """Constructors, the file name, contexts and capacities."""
    out = []

    def add(what, act, steps=(), faults=True):
        if pick():
            out.append(Fault(fam, kind, mode, what, act, steps=steps, err=rng.choice(ERRNOS)))
        if faults:
            for ff, put in file_faults(fam.attr, kind).items():
                if pick():
                    out.append(Fault(fam, kind, mode, f"{what} file={ff}", act, before=put, steps=steps))

    add("construct", lambda env: env.cls(**env.store.kwargs(1))())
    add("construct data", lambda env: env.cls(**env.store.kwargs(3), data=CONTENT[kind]), faults=False)
    for n, mk in enumerate(BAD_VALUES):
        add(f"construct bad {n}", (lambda m: lambda env: env.cls(**env.store.kwargs(3), data=m()))(mk),
            faults=False)
    add("construct two", lambda env: env.cls(**env.store.kwargs(1), data=CONTENT[kind], parent=env.x),
        faults=False)
    add("construct none", lambda env: env.cls(data=CONTENT[kind])(), faults=False)
    add("construct unhashable", lambda env: env.cls([]), faults=False)

    def point(env, name):
        env.y.filename = name

    add("filename", lambda env: point(env, env.store.kwargs(3)["filename"]), faults=False)
    add("filename same", lambda env: point(env, env.path), faults=False)
    add("filename unhashable", lambda env: point(env, []), faults=False)

    def nowhere(env):
        point(env, os.path.join(os.path.dirname(env.path), "no", "x.json"))
        try:
            env.touch(env.y)
        finally:
            point(env, env.path)

    add("filename in no directory", nowhere, faults=False)
    add("filename twice", lambda env: (point(env, env.store.kwargs(2)["filename"]), point(env, env.path)),
        faults=False)
    if fam.strat == "none":
        return out

    fill = [("fill", lambda env: env.touch(env.x)), ("fill", lambda env: env.touch(env.z))]

    def shrink(env):
        env.cls.set_buffer_capacity(0)

    if mode != "cap":
        add("capacity 0", shrink, steps=fill)

        def wrong(env):
            old = env.cls.get_buffer_capacity()
            try:
                env.cls.set_buffer_capacity("x")
            finally:
                env.cls.set_buffer_capacity(old)

        add("capacity bad", wrong, steps=fill, faults=False)

    def inner(env, ctx, change=None, raising=False):
        with ctx:
            env.touch(env.x)
            env.touch(env.z)
            env.touch(env.x)
            if change:
                change(env)
            if raising:
                raise RuntimeError("body")

    def external(env):
        restore(env.path, CONTENT[kind][:1] if kind == 1 else {"other": 1234})

    def vanish(env):
        os.remove(env.path)

    for name, mk in (("class context", lambda env: env.cls.buffer_backend()),
                     ("class context 0", lambda env: env.cls.buffer_backend(0)),
                     ("class context bad", lambda env: env.cls.buffer_backend("x")),
                     ("own context", lambda env: env.x.buffered)):
        add(name, (lambda m: lambda env: inner(env, m(env)))(mk))
        add(name + " raising", (lambda m: lambda env: inner(env, m(env), None, True))(mk))
        add(name + " conflict", (lambda m: lambda env: inner(env, m(env), external))(mk), faults=False)
        add(name + " vanish", (lambda m: lambda env: inner(env, m(env), vanish))(mk), faults=False)
        for ff, put in file_faults(fam.attr, kind).items():
            if pick():
                act = (lambda m, p: lambda env: inner(env, m(env), lambda e: p(e.path)))(mk, put)
                out.append(Fault(fam, kind, mode, f"{name} then file={ff}", act, before=lambda path: None))
    return out


# ------------------------------------------------------------------- histories


def trace_of(hist, nt, hdr):
    ev = []
    for h in hist:
        if h[0] == "inv":
            ev.append({"a": "inv", "t": h[1], "must": h[3]})
        elif h[0] == "ret":
            ev.append({"a": "ret", "t": h[1], "res": h[2]})
        else:
            ev.append({"a": "stuck"})
    ev.append({"a": "end"})
    return {"hdr": {"nt": nt, **hdr}, "ev": ev}


def show(t, hist):
    out = []
    for h in hist:
        if h[0] == "inv":
            out.append(f"thread {h[1]} calls {h[2]} ({h[3]})")
        elif h[0] == "ret":
            out.append(f"thread {h[1]} {'returns' if h[2][0] == 'ok' else 'raises ' + h[2][1][0]}")
        else:
            out.append("the remaining threads wait forever")
    return out


def fault_job(spec):
    prop, fam_name, seed, share = spec
    fam = BY_NAME[fam_name]
    rng = random.Random(f"{prop}/{fam_name}/{seed}")
    setup(fam_name)
    root = scratch_root()
    store = fam.store(root)
    try:
        found, runs, kinds = {}, 0, {}

        def one(sc, j=0):
            nonlocal runs
            runs += 1
            env, n, dirty = run_fault(store, sc, j)
            what = sc.what + (f" I/O call {j} of {sc.what} fails ({errno.errorcode[sc.err]})" if j else "")
            key = json.dumps([[h[:2] + h[3:] if h[0] == "inv" else h for h in env.hist]])
            if key not in found:
                found[key] = (trace_of(env.hist, 4, {}), env.hist,
                              f"{fam_name} kind={sc.kind} mode={sc.mode}: {what}")
            if dirty:
                world.reload_library()
                setup(fam_name)
            return n

        for sc in scenarios(fam, rng, share):
            sc.fam = fam
            n = one(sc)
            kinds[sc.mode] = kinds.get(sc.mode, 0) + 1
            if sc.err is not None:
                for j in range(1, n + 1):
                    one(sc, j)
        return verdicts(spec, list(found.values()), runs, kinds, root)
    finally:
        store.close()
        shutil.rmtree(root, ignore_errors=True)


def verdicts(spec, found, runs, kinds, root):
    traces = [f[0] for f in found]
    stats, bad = tlc.validate_lin(traces, values.Interner(), root, module="Progress")
    out = {"stats": stats, "events": sum(len(t["ev"]) for t in traces), "viol": [], "schedules": runs,
           "programs": sum(kinds.values()), "ops": kinds,
           "sample": [found[0][2]] + show(*found[0][:2]) if found else []}
    for i in bad[:5]:
        t, hist, what = found[i]
        stuck = any(e["a"] == "stuck" for e in t["ev"])
        out["viol"].append({"key": f"{spec[1]}:{'stuck' if stuck else 'fails'}", "shown": [what] + show(t, hist),
                            "trace": t, "job": list(spec)})
    out["nviol"] = len(bad)
    return out


def setup(fam):
    sched.patch()
    BY_NAME[fam].cls(1), BY_NAME[fam].cls(2)
    sched.arm(calls=True)


# ------------------------------------------------------ programs of several threads

PAIR = {2: {"a": 1, "c": {"p": 1}, "l": [1]}, 1: [1, {"p": 1}, [1]]}


class World2:
    """Dicts a, a2 (one file) and b; lists m, m2 (one file) and n; a dict x and a
    list y of another family; children of them."""

    def __init__(self, fam, other, store):
        store.wipe()
        self.fam, self.store = fam, store
        D, L = self.D, self.L = fam.cls(2), fam.cls(1)
        for f in (1, 2, 3, 4):
            store.write(f, PAIR[2 if f < 3 else 1])
        store.write(9, PAIR[2])
        store.write(10, PAIR[1])
        self.o = {"a": D(**store.kwargs(1)), "a2": D(**store.kwargs(1)), "b": D(**store.kwargs(2)),
                  "m": L(**store.kwargs(3)), "m2": L(**store.kwargs(3)), "n": L(**store.kwargs(4)),
                  "x": other.cls(2)(**store.kwargs(9)), "y": other.cls(1)(**store.kwargs(10))}
        o = self.o
        o["ac"], o["al"], o["bc"], o["bl"] = o["a"]["c"], o["a"]["l"], o["b"]["c"], o["b"]["l"]
        o["mc"], o["ml"], o["nc"], o["nl"] = o["m"][1], o["m"][2], o["n"][1], o["n"][2]
        o["xc"], o["yl"] = o["x"]["c"], o["y"][2]
        for x in o.values():
            x()


DICTS, LISTS = ["a", "a2", "b", "ac", "bc", "x", "xc"], ["m", "m2", "n", "al", "bl", "ml", "nl", "y", "yl"]
ROOTS = ["a", "a2", "b", "m", "m2", "n"]

DD = {"update": lambda x, y: x.update(y), "updatekw": lambda x, y: x.update(k=y),
      "setitem": lambda x, y: x.__setitem__("k", y), "reset": lambda x, y: x.reset(y),
      "eq": lambda x, y: x == y, "setdefault": lambda x, y: x.setdefault("n", y),
      "nested": lambda x, y: x.__setitem__("k", {"v": [y]}), "ne": lambda x, y: x != y,
      "get": lambda x, y: x.get("none", y), "pop": lambda x, y: x.pop("none", y),
      "updateitems": lambda x, y: x.update(y.items()), "eq2": lambda x, y: x == {"k": y}}
DL = {"setitem": lambda x, y: x.__setitem__("k", y), "updatekw": lambda x, y: x.update(k=y),
      "setdefault": lambda x, y: x.setdefault("n", y), "eq2": lambda x, y: x == {"k": y},
      "nested": lambda x, y: x.update(k={"w": y})}
LL = {"extend": lambda x, y: x.extend(y), "append": lambda x, y: x.append(y), "iadd": lambda x, y: x.__iadd__(y),
      "setslice": lambda x, y: x.__setitem__(slice(0, 0), y), "reset": lambda x, y: x.reset(y),
      "eq": lambda x, y: x == y, "contains": lambda x, y: y in x, "count": lambda x, y: x.count(y),
      "nested": lambda x, y: x.append([y]), "insert": lambda x, y: x.insert(0, y), "eq2": lambda x, y: x == [y]}
LD = {"append": lambda x, y: x.append(y), "insert": lambda x, y: x.insert(0, y), "contains": lambda x, y: y in x,
      "count": lambda x, y: x.count(y), "nested": lambda x, y: x.extend([{"w": y}]),
      "setslice": lambda x, y: x.__setitem__(slice(0, 0), [y])}
D0 = {"setitem": lambda x: x.__setitem__("k", 1), "call": lambda x: x(), "len": len, "clear": lambda x: x.clear(),
      "reset": lambda x: x.reset({"k": 1}), "iter": lambda x: list(x), "items": lambda x: list(x.items()),
      "repr": repr, "popd": lambda x: x.pop("a", None), "getd": lambda x: x.get("c")}
L0 = {"append": lambda x: x.append(1), "call": lambda x: x(), "len": len, "clear": lambda x: x.clear(),
      "reset": lambda x: x.reset([5]), "iter": lambda x: list(x), "repr": repr, "reverse": lambda x: x.reverse()}


class LockProg:
    """Per thread: [(text, function of a World2, must)]."""

    def __init__(self, fam, rng):
        self.fam, self.rng = fam, rng
        self.other = BY_NAME[rng.choice(FAMS)]
        self.mixed = rng.random() < 0.3
        self.outer = None     # capacity of a surrounding backend-wide context
        self.weird = False    # contexts, capacities or file names change
        buffered = fam.strat != "none"
        if buffered and rng.random() < 0.4:
            self.outer = [rng.choice([None, 0, 1, 30])]
        self.special = rng.random() < (0.6 if buffered else 0.3)
        n = 2 if rng.random() < 0.8 else 3
        self.threads = [[self.action() for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
        # a program that re-routes an object or switches buffering may report
        # conflicts that it causes itself
        self.must = "soft" if self.weird else "must"

    def target(self):
        # mostly few objects, so that threads meet
        few = ["a", "x", "y"] if self.mixed else ["a", "b", "m"]
        return self.rng.choice(few if self.rng.random() < 0.5 else DICTS + LISTS)

    def plain(self):
        rng = self.rng
        x = self.target()
        isd = x in DICTS
        if rng.random() < 0.35:
            op, fn = rng.choice(list((D0 if isd else L0).items()))
            return f"{x}.{op}()", lambda w: fn(w.o[x])
        y = self.target()
        table = {(True, True): DD, (True, False): DL, (False, True): LD, (False, False): LL}[isd, y in DICTS]
        op, fn = rng.choice(list(table.items()))
        return f"{x}.{op}({y})", lambda w: fn(w.o[x], w.o[y])

    def action(self):
        rng = self.rng
        if not self.special or rng.random() < 0.5:
            return self.plain()
        r = rng.random()
        if r < 0.25:
            # a2 and m2 leave the shared file, so later calls on them go elsewhere
            x, f = rng.choice([("a2", 5), ("m2", 6), ("a2", 2), ("m2", 4), ("a2", 1)])
            if rng.random() < 0.3:
                self.weird = True
            t, g = self.plain()

            def move(w):
                w.o[x].filename = w.store.kwargs(f)["filename"]
                g(w)
            return f"{x}.filename=file{f}; {t}", move
        if r < 0.5:
            k, f = rng.choice([(2, 1), (2, 2), (1, 3), (1, 7), (2, 8)])
            data = rng.random() < 0.4 and f > 4

            def make(w):
                c = (w.D if k == 2 else w.L)(**w.store.kwargs(f), **({"data": PAIR[k]} if data else {}))
                c.reset(PAIR[k])
                c()
            return f"construct on file{f}", make
        if self.fam.strat == "none":
            return self.plain()
        self.weird = True
        if r < 0.7:
            name, k = rng.choice([("D", 0), ("L", 0), ("D", 1), ("L", 40)])
            return f"{name}.set_buffer_capacity({k})", lambda w: getattr(w, name).set_buffer_capacity(k)
        body = [self.plain() for _ in range(rng.choice([1, 2]))]
        if r < 0.85:
            name, k = rng.choice([("D", None), ("L", None), ("D", 0), ("L", 0)])

            def ctx(w):
                with getattr(w, name).buffer_backend(*([] if k is None else [k])):
                    for _, g in body:
                        g(w)
            return f"with {name}.buffer_backend({k}): {'; '.join(t for t, _ in body)}", ctx
        x = rng.choice(ROOTS)

        def own(w):
            with w.o[x].buffered:
                for _, g in body:
                    g(w)
        return f"with {x}.buffered: {'; '.join(t for t, _ in body)}", own


class LockRun:
    def __init__(self, prog, store):
        self.p, self.store = prog, store

    def setup(self):
        setup(self.p.fam.name)

    def go(self, order, preempts=(), log=None):
        p = self.p
        w = World2(p.fam, p.other, self.store)
        hist = []
        self.dirty = False

        def thread(t):
            def body():
                for what, fn in p.threads[t]:
                    hist.append(["inv", t + 1, what, p.must])
                    try:
                        fn(w)
                        res = ["ok"]
                    except Exception as err:  # noqa: BLE001
                        res = exc_result(err)
                    hist.append(["ret", t + 1, res])
            return body

        ctxs = []
        if p.outer is not None:
            for c in (w.D, w.L):
                ctxs.append(c.buffer_backend() if p.outer[0] is None else c.buffer_backend(p.outer[0]))
                ctxs[-1].__enter__()
        s = sched.Sched([thread(t) for t in range(len(p.threads))], order, preempts, log).run()
        if s.errors:
            raise s.errors[0]
        self.blocked, self.acquired = s.blocked, s.acquired
        if s.hang:
            raise RuntimeError(f"a thread waits for something unknown: {self.text()}")
        if s.deadlock:
            hist.append(["stuck"])
            self.dirty = True
        else:
            for c in reversed(ctxs):
                hist.append(["inv", len(p.threads) + 1, "leave", p.must])
                try:
                    c.__exit__(None, None, None)
                    hist.append(["ret", len(p.threads) + 1, ["ok"]])
                except sched.LockHeld:
                    hist.append(["stuck"])
                    self.dirty = True
                    break
                except Exception as err:  # noqa: BLE001
                    hist.append(["ret", len(p.threads) + 1, exc_result(err)])
                    self.dirty = True
            if p.fam.strat != "none" and not self.dirty:
                try:
                    self.dirty = any(c.get_current_buffer_size() != 0 or c.backend_is_buffered()
                                     for c in (w.D, w.L))
                    for c in (w.D, w.L):
                        c.set_buffer_capacity(2 ** 25 if p.fam.strat == "ser" else 1000)
                except sched.LockHeld:
                    # a lock was not released, so the next call waits forever
                    hist.append(["stuck"])
                    self.dirty = True
        return hist

    def trace(self, hist, plan):
        return trace_of(hist, len(self.p.threads) + 1, {"plan": plan}), hist, self.text() + f" plan={plan}"

    def text(self):
        return (f"{self.p.fam.name} (x, y: {self.p.other.name}) outer={self.p.outer} "
                + " || ".join("; ".join(a for a, _ in t) for t in self.p.threads))


def deadlock_job(spec):
    prop, fam_name, seed, nprogs, extra, pb2 = spec
    fam = BY_NAME[fam_name]
    rng = random.Random(f"{prop}/{fam_name}/{seed}/threads")
    setup(fam_name)
    root = scratch_root()
    store = fam.store(root)
    try:
        found, runs = {}, 0
        for i in range(nprogs):
            p = LockProg(fam, rng)
            mine = {}
            runs += explore(LockRun(p, store), len(p.threads), rng, extra, pb2, mine, last=False)
            for k, t in mine.items():
                found[i, k] = t
        return verdicts(spec, list(found.values()), runs, {"programs": nprogs}, root)
    finally:
        store.close()
        shutil.rmtree(root, ignore_errors=True)


FAMS = JSON
