"""Sequential checks: driver profiles and trace validation against Synced.tla."""

import random
import shutil
import traceback

from . import gen, tlc, values, world
from .backends import BY_NAME, MISSING, scratch_root
from .forbidden import Forbidden
from .gen import Program, Values
from .world import UNSET, Dead, World

ALL = ["json", "jsonattr", "buf", "bufattr", "mem", "memattr", "redis", "mongo", "zarr"]
JSON = ALL[:6]
BUF = ["buf", "bufattr", "mem", "memattr"]


class Env:
    """What a profile needs to build one trace."""

    def __init__(self, fam, store, intern, rng, n, root):
        self.fam, self.store, self.intern, self.rng = fam, store, intern, rng
        self.root = root  # a scratch directory
        self.n = n  # length of the program

    def world(self, rel, disk, kind=None, **kw):
        w = World(self.fam, kind or self.rng.choice([1, 2]), self.store, self.intern, disk, rel, **kw)
        self.w = w
        return w

    def values(self, **kw):
        return Values(self.rng, dots=not self.fam.attr, **kw)

    def opts(self, p=0.2, style=True):
        """Write modes and file names of the JSON families, formatting of outside writers."""
        o = {}
        if self.fam.name in JSON:
            if self.rng.random() < p:
                o = dict(self.rng.choice([{"nothreads": 1}, {"nothreads": 1, "wc": 1}, {"wc": 1}]))
            if self.rng.random() < 0.3 and style:
                o["style"] = 1
            if self.rng.random() < 0.1:
                o["rel"] = 1
        return o

    def limits(self, p, p_cap, style=True):
        """Write modes, and a small capacity in a share of the cases.

        The size of what is buffered matters there, and it is that of the
        library's own encoding, so outside writers do not use another one.
        """
        cap = small_cap(self) if self.rng.random() < p_cap else None
        return {"opts": self.opts(p, style=style and cap is None), "cap": cap}


def docs(env, V, kind, n, p_missing=0.25):
    return [MISSING if env.rng.random() < p_missing else V.container(kind) for _ in range(n)]


# ------------------------------------------------------------------- profiles


def c01(env):
    """One object; mostly mutators, at every depth."""
    rng, V = env.rng, env.values()
    kind = rng.choice([1, 2])
    w = env.world(["disk"], docs(env, V, kind, 1 + spare(env), 0.3), kind, opts=env.opts())
    p = Program(w, rng, V, peek=0.1)
    p.open(1)
    for _ in range(env.n):
        p.random_op(p_read=0.15, attr=True)
        accidents(env, p, 0.05)
        rebind(env, p, 0.08)


def spare(env):
    """In some cases there is a file without objects."""
    return int(env.fam.name in JSON and env.rng.random() < 0.2)


def rebind(env, p, rate, shared=False):
    """Now and then point an object at another file, one without objects unless shared."""
    rng = env.rng
    if p.w.nfiles == 1 or env.fam.name not in JSON or rng.random() >= rate:
        return
    used = set() if shared else {p.ofile[o - 1] for o in p.alive()}
    fs = [f for f in range(1, p.w.nfiles + 1) if f not in used]
    if fs:
        p.bind(rng.choice(p.alive()), rng.choice(fs))


def accidents(env, p, rate):
    """Now and then a save fails, or an object is dropped and another one opened."""
    rng = env.rng
    if rng.random() >= rate:
        return
    if rng.random() < 0.5:
        h = p.pick_handle()
        if h is not None:
            p.fail(h)
    else:
        free = [o for o in p.alive() if not p.octx[o - 1]]
        if free:
            p.reopen(rng.choice(free))


def c02(env):
    """Reads with outside writers and other objects in between."""
    rng, V = env.rng, env.values()
    kind = rng.choice([1, 2])
    w = env.world(["res"], docs(env, V, kind, 1 + spare(env), 0.15), kind, opts=env.opts(0.1))
    p = Program(w, rng, V, peek=0.7, keep_shape=0.85)
    p.open(1)
    if rng.random() < 0.4:
        p.open(1)
    for _ in range(env.n):
        r = rng.random()
        if r < 0.3:
            p.ext(1)
        else:
            p.random_op(p_read=0.75, attr=True)
        accidents(env, p, 0.08)
        rebind(env, p, 0.08, shared=True)


def c03(env):
    """Every operation with every argument form."""
    rng, V = env.rng, env.values(depth=rng_depth(env.rng))
    kind = rng.choice([1, 2])
    w = env.world(["res", "disk"], docs(env, V, kind, 1, 0.1), kind, opts=env.opts(0.05))
    p = Program(w, rng, V, peek=0.8, forms=0.2)
    p.open(1)
    if rng.random() < 0.25:
        p.open(1)
    for _ in range(env.n):
        p.random_op(p_read=0.5, attr=True)
        accidents(env, p, 0.03)


def rng_depth(rng):
    return rng.choice([1, 2, 2, 3, 3, 4])


def c04(env):
    """Several objects on one resource, retained handles everywhere."""
    rng, V = env.rng, env.values()
    kind = rng.choice([1, 2])
    nf = 1 if rng.random() < 0.8 else 2
    w = env.world(["disk", "res"], docs(env, V, kind, nf, 0.1), kind, opts=env.opts(0.05))
    p = Program(w, rng, V, peek=0.3, retained=0.7)
    for f in range(1, nf + 1):
        for _ in range(rng.choice([1, 2, 2, 2, 3])):
            p.open(f)
    for _ in range(env.n):
        r = rng.random()
        if r < 0.05:
            p.ext(1)
        else:
            p.random_op(p_read=0.25, attr=True)
        accidents(env, p, 0.06)
        rebind(env, p, 0.06, shared=True)


def contexts(env, p, stack, pin=0.5, caps=None):
    """Enter or leave a context, well nested."""
    rng = env.rng
    if stack and (rng.random() >= pin or len(stack) >= 4):
        what = stack.pop()
        if what == 0:
            p.cout()
        else:
            p.oout(what)
    elif rng.random() < 0.5:
        cap = rng.choice(caps) if caps and rng.random() < 0.5 else None
        if p.cin(cap):
            stack.append(0)
    else:
        o = rng.choice(p.alive())
        p.oin(o)
        stack.append(o)


def unstack(p, stack):
    while stack:
        what = stack.pop()
        if what == 0:
            p.cout()
        else:
            p.oout(what)


def c05(env):
    """Nested contexts of both kinds, one object per file."""
    rng, V = env.rng, env.values()
    kind = rng.choice([1, 2])
    nf = rng.choice([1, 1, 2])
    w = env.world(["res", "disk", "touch"], docs(env, V, kind, nf + spare(env)), kind,
                  **env.limits(0.05, 0.12))
    p = Program(w, rng, V, peek=0.6)
    for f in range(1, nf + 1):
        p.open(f)
    stack = []
    if rng.random() < 0.8:
        contexts(env, p, stack, 1.0)
    for _ in range(env.n):
        if rng.random() < 0.22:
            contexts(env, p, stack)
        else:
            p.random_op(p_read=0.35, attr=True)
        accidents(env, p, 0.05)
        rebind(env, p, 0.08)
    unstack(p, stack)
    for h in p.live(nested=False):
        p.op(h, "call")


def small_cap(env):
    rng = env.rng
    if env.fam.strat == "mem":
        return rng.choice([0, 1, 1, 2])
    return rng.choice([0, 1, 2, 5, 10, 20, 30, 40, 60, 100])


def c06(env):
    """Several objects on one file, in the same buffered state."""
    rng, V = env.rng, env.values()
    kind = rng.choice([1, 2])
    nf = rng.choice([1, 1, 1, 2])
    w = env.world(["res", "disk"], docs(env, V, kind, nf, 0.15), kind, **env.limits(0.05, 0.1))
    p = Program(w, rng, V, peek=0.5)
    for f in range(1, nf + 1):
        for _ in range(rng.choice([2, 2, 3])):
            p.open(f)
    order = list(range(1, len(p.ofile) + 1))

    def enter(mode):
        if mode == 0:
            p.cin()
        else:
            rng.shuffle(order)
            for o in order:
                p.oin(o)

    def leave(mode):
        if mode == 0:
            p.cout()
        else:
            rng.shuffle(order)
            for o in order:
                p.oout(o)

    done = 0
    while done < env.n:
        k = rng.randint(0, 2)
        for _ in range(k):
            p.random_op(p_read=0.4, attr=True)
        modes = [rng.randint(0, 1) for _ in range(rng.choice([1, 1, 1, 2]))]
        for m in modes:
            enter(m)
            for _ in range(rng.randint(0, 3) if m is not modes[-1] else 0):
                p.random_op(p_read=0.4, attr=True)
                done += 1
        # who only reads, who writes: decided per round
        readers = {o for o in order if rng.random() < 0.35}
        for _ in range(rng.randint(1, 8)):
            p.random_op(p_read=0.4, attr=True, readers=readers)
            rebind(env, p, 0.05, shared=True)
            done += 1
            if rng.random() < 0.04 and 1 not in modes:
                o = rng.choice(order)
                order[order.index(o)] = p.reopen(o)
        for m in reversed(modes):
            leave(m)
        done += 1
        for h in p.live(nested=False):
            if rng.random() < 0.5:
                p.op(h, "call")


def c07(env):
    """Conflicts with outside writers."""
    rng, V = env.rng, env.values(depth=2)
    kind = rng.choice([1, 2])
    nf = rng.choice([1, 2, 2, 3])
    w = env.world(["res", "disk", "touch", "size", "cap", "bound"], docs(env, V, kind, nf, 0.15), kind,
                  lax=True, **env.limits(0.05, 0.15, style=False))
    p = Program(w, rng, V, retain=False, peek=0.6, synced_args=0)
    clsonly = rng.random() < 0.5
    for f in range(1, nf + 1):
        p.open(f)
        if clsonly and rng.random() < 0.25:
            p.open(f)
    objs = list(range(1, len(p.ofile) + 1))
    for _ in range(rng.choice([1, 1, 2])):
        stack = []
        if clsonly:
            p.cin(small_cap(env) if rng.random() < 0.1 else None)
            stack.append(0)
        else:
            for o in rng.sample(objs, rng.randint(1, len(objs))):
                p.oin(o)
                stack.append(o)
            if rng.random() < 0.25:
                p.cin()
                stack.append(0)
        steps, removed = [], set()
        for f in range(1, nf + 1):
            seq = []
            if rng.random() < 0.25:
                seq.append(("ext", f))
            touch = rng.choice(["mod", "mod", "read", "none"])
            if touch != "none":
                seq.append(("read", f) if touch == "read" or rng.random() < 0.3 else ("mod", f))
                if touch == "mod":
                    seq.append(("mod", f))
            if rng.random() < 0.5:
                seq.append(("ext", f))
                if rng.random() < 0.3 and touch != "none":
                    seq.append((rng.choice([touch, "read"]), f))
                elif rng.random() < 0.2 and touch != "none":
                    seq[-1] = ("del", f)
            steps.append(seq)
        while any(steps):
            seq = rng.choice([s for s in steps if s])
            what, f = seq.pop(0)
            if what == "ext":
                how = rng.choice([0, 1, 1, 2])
                p.ext(f, how=how)
            elif what == "del":
                if w.store.read(f) is not MISSING:
                    w.remove(f)
                    removed.add(f)
            else:
                o = rng.choice([o for o in objs if p.ofile[o - 1] == f])
                p.random_op(p_read=1.0 if what == "read" else 0.0, handle=p.root(o))
        if stack and stack[-1] == 0:
            p.cout()
            stack.pop()
        rng.shuffle(stack)
        for o in stack:
            p.oout(o)
        for f in removed:
            p.ext(f)
        for o in objs:
            p.op(p.root(o), "call")
        for o in objs:
            if rng.random() < 0.5:
                p.random_op(p_read=0.0, handle=p.root(o))
        for o in objs:
            p.op(p.root(o), "call")


def c11(env):
    """Forbidden data through every entry point."""
    rng = env.rng
    V = env.values(keys=["a", "b", "c", "d"], depth=3, large=0)
    kind = rng.choice([1, 2])
    nested = {2: lambda: {"a": [V.dict(2), V.list(1)], "b": V.dict(2), "c": V.scalar()},
              1: lambda: [V.dict(2), [V.list(1), V.dict(1)], V.scalar()]}[kind]
    disk = MISSING if rng.random() < 0.25 else nested() if rng.random() < 0.7 else V.container(kind)
    w = env.world(["res", "disk", "touch"], [disk], kind, opts=env.opts(0.1), lax=True)
    w.recycle = rng if rng.random() < 0.5 else None
    p = Program(w, rng, V, peek=0.2, synced_args=0, retained=0.5)
    bad = Forbidden(rng, V, env.fam.attr, env.root)
    while rng.random() < 0.25:
        w.open(1, bad.deep(kind), rejected=True)
    p.open(1, nested() if rng.random() < 0.3 else UNSET)
    ctx = env.fam.strat != "none" and rng.random() < 0.4
    if ctx:
        (p.cin if rng.random() < 0.5 else lambda: p.oin(1))()
    for _ in range(env.n // 3):
        w.nj = True
        if rng.random() < 0.4:
            p.random_op(p_read=0.3)
        h = p.pick_handle()
        if h is None:
            return
        p.op(p.root(1), "call")
        op, args = bad.op(p.node(h))
        if w.recycle and type(args.get("v")) in (dict, list) and op in REPEATED and "form" not in args:
            # first the same call with good data
            p.op(h, op, **{**args, "v": V.dict(2) if type(args["v"]) is dict else V.list(2)})
            p.op(p.root(1), "call")
        w.nj = False
        if p.op(h, op, **args)[0] != "e":
            if not (op == "setdefault" and args["k"] in p.node(h)):
                raise Dead
        p.op(p.root(1), "call")
        if rng.random() < 0.15:
            w.open(1, bad.deep(kind), rejected=True)
    w.nj = True
    p.unwind()
    p.op(p.root(1), "call")


REPEATED = ("append", "insert", "extend", "setitem", "reset", "update")


def c12(env):
    """Rich values through every entry point, read back by a fresh object."""
    rng = env.rng
    V = Values(rng, dots=not env.fam.attr, depth=rng.choice([1, 2, 3, 6]),
               keys=rich_keys(env), scalars=RICH + [rng.choice(RICH) for _ in range(10)]
               + [rich_scalar(rng, env.fam.name) for _ in range(6)])
    if env.fam.name == "mongo":
        V.scalars = [v for v in V.scalars if not (isinstance(v, int) and abs(v) >= 2**63)]
    kind = rng.choice([1, 2])
    w = env.world(["res", "disk"], docs(env, V, kind, 1, 0.5), kind, opts=env.opts(0.2))
    p = Program(w, rng, V, retain=True, peek=0.3)
    o = p.open(1, V.container(kind) if rng.random() < 0.2 else UNSET)
    for _ in range(max(2, env.n // 5)):
        k = rng.random()
        buffered = env.fam.strat != "none" and k < 0.3
        if buffered:
            p.oin(o)
        for _ in range(rng.randint(1, 4)):
            p.random_op(p_read=0.0, attr=True, muts=ENTRY)
        if buffered:
            p.oout(o)
        fresh = p.open(1)
        p.op(p.root(fresh), "call")
        if rng.random() < 0.15:
            p.reopen(fresh)
            fresh = len(p.ofile)
            p.op(p.root(fresh), "call")
        p.retire(fresh)


ENTRY = {2: ["setitem", "setdefault", "update", "reset", "setitem", "update"],
         1: ["setitem", "append", "insert", "extend", "iadd", "setslice", "reset"]}

RICH = [None, True, False, 0, 1, -1, 2**31, -(2**31), 2**53, 2**53 + 1, 2**63 - 1, -(2**63), 2**63,
        2**64, 2**70, -(2**100), 10**60, 0.0, 1.0, -1.0, 0.1, 1e308, -1e308, 5e-324, 2.5e-308, 1e16,
        1e22, 123456789.123456789, 3.0e10, "", " ", "a", "\n", "\t\\\"/", "é", "  ", "😀",
        "\u0000", "\x1f\x7f", "null", "true", "1", "1.0", "NaN", "[]", "{}", "a" * 300, "\\u0041",
        "日本語", "﻿", "'", '"', "ﷺ"]


def rich_keys(env):
    ks = ["a", "b", "", " ", "é", "😀", "null", "1", "\n\"\\", "a b", "日本", "x" * 60, "$a", "__a",
          "data", "_id", "0", "True", " "]
    if env.fam.name != "mongo":
        ks.append("a\u0000b")
    if not env.fam.attr:
        ks += [".", "a.b"]
    return ks


def rich_scalar(rng, fam):
    r = rng.random()
    if r < 0.3:
        bits = 62 if fam == "mongo" else rng.choice([8, 33, 62, 64, 90, 200])
        return rng.getrandbits(bits) * rng.choice([1, -1])
    if r < 0.6:
        while True:
            import struct

            x = struct.unpack("<d", rng.getrandbits(64).to_bytes(8, "little"))[0]
            if x == x and abs(x) != float("inf"):
                return x
    chars = []
    for _ in range(rng.randint(1, 8)):
        c = rng.choice([rng.randint(0, 127), rng.randint(0, 0xFFFF), rng.randint(0, 0x10FFFF)])
        chars.append("x" if 0xD800 <= c < 0xE000 else chr(c))
    return "".join(chars)


def c15(env):
    """Several files, contexts, capacity changes."""
    rng, V = env.rng, env.values()
    kind = rng.choice([1, 2])
    nf = rng.choice([1, 2, 3])
    w = env.world(["size", "bound", "cap", "res", "disk"], docs(env, V, kind, nf + spare(env), 0.2), kind,
                  **env.limits(0.05, 0.6, style=False))
    p = Program(w, rng, V, peek=0.4, synced_args=0.04)
    multi = rng.random() < 0.3   # several objects per file: backend-wide contexts only
    for f in range(1, nf + 1):
        p.open(f)
        if multi and rng.random() < 0.5:
            p.open(f)
    stack = []
    caps = [0, 1, 2, 3] if env.fam.strat == "mem" else [0, 1, 2, 10, 20, 40, 80, 150, 10000]
    if rng.random() < 0.8:
        p.cin(rng.choice(caps) if rng.random() < 0.4 else None)
        stack.append(0)
    for _ in range(env.n):
        r = rng.random()
        if r < 0.12:
            if multi:
                if stack and rng.random() < 0.5:
                    stack.pop()
                    p.cout()
                elif len(stack) < 4:
                    if p.cin(rng.choice(caps) if rng.random() < 0.5 else None):
                        stack.append(0)
            else:
                contexts(env, p, stack, caps=caps)
        elif r < 0.2:
            p.setcap(rng.choice(caps))
        else:
            p.random_op(p_read=0.3, attr=True)
        rebind(env, p, 0.08, shared=multi)
    unstack(p, stack)
    for h in p.live(nested=False):
        p.op(h, "call")


def c16(env):
    """User-held arguments and results are mutated afterwards."""
    rng, V = env.rng, env.values(depth=4)
    kind = rng.choice([1, 2])
    nf = rng.choice([1, 1, 2])
    w = env.world(["res", "disk"], docs(env, V, kind, nf, rng.choice([0.15, 0.8])), kind,
                  opts=env.opts(0.05))
    p = Program(w, rng, V, peek=0.1, synced_args=0.3, forms=0.15)

    def start(f, init):
        w.held.clear()
        if init is UNSET and p.ofile and f not in p.ofile and rng.random() < 0.5:
            # data that contains another collection
            hv = p.pick_handle()
            if hv is None:
                return False
            o = p.open(f, vh=hv, vw=p.wrapping(kind))
        else:
            o = p.open(f, init)
        if w.held and spoil(w, p, rng):
            w.nop("spoiled")
            if rng.random() < 0.5:
                p.op(p.root(o), "call")
        return p.init[o - 1] == (init if init is not UNSET else {} if kind == 2 else [])

    for f in range(1, nf + 1):
        init = V.container(kind) if rng.random() < 0.5 else UNSET
        if start(f, init) and rng.random() < 0.3:
            start(f, init)
    ctx = env.fam.strat != "none" and rng.random() < 0.4
    if ctx:
        p.cin()
    for _ in range(env.n // 2):
        w.held.clear()
        p.removed = []
        if rng.random() < 0.25:
            p.op(rng.choice(p.live()), "call")
        else:
            p.random_op(p_read=0.25, attr=True, muts=COPYING, reads=COPYREADS)
        n = spoil(w, p, rng)
        if n:
            w.nop("spoiled")
            for h in p.live(nested=False):
                p.op(h, "call")
            w.held.clear()
    if ctx:
        p.cout()
    for h in p.live(nested=False):
        p.op(h, "call")


COPYING = {2: ["setitem", "setitem", "setdefault", "update", "update", "reset", "pop", "popitem",
               "delitem"],
           1: ["setitem", "append", "insert", "extend", "iadd", "setslice", "reset", "pop",
               "delitem"]}
COPYREADS = {2: ["call", "values", "items", "get"], 1: ["call", "call", "getslice"]}


def spoil(w, p, rng):
    """Mutate every container reachable from user-held objects."""
    n = 0
    seen = set()

    def poison(x):
        nonlocal n
        if id(x) in seen:
            return
        seen.add(id(x))
        try:
            if isinstance(x, dict):
                for v in list(x.values()):
                    poison(v)
                how = rng.randint(0, 2)
                if how == 0:
                    x["poison"] = ["p"]
                elif how == 1:
                    x.clear()
                else:
                    for k in list(x):
                        x[k] = "poison"
                    x["a"] = "poison"
                n += 1
            elif isinstance(x, list):
                for v in list(x):
                    poison(v)
                how = rng.randint(0, 2)
                if how == 0:
                    x.append("poison")
                elif how == 1:
                    x.clear()
                else:
                    x[:] = ["poison"] * (len(x) + 1)
                n += 1
            elif isinstance(x, tuple):
                for v in x:
                    poison(v)
        except Exception:  # noqa: BLE001  (e.g. resizing during an active export)
            pass

    for x in list(w.held):
        if world.is_synced(x):
            continue
        poison(x)
    for x in list(p.removed):
        # values removed from a collection: mutated through their own methods
        try:
            if world.kind_of(x) == 2:
                rng.choice([lambda: x.__setitem__("poison", [1]), lambda: x.clear(),
                            lambda: x.update(a="poison"), lambda: x.reset({"poison": {}})])()
            elif world.kind_of(x) == 1:
                rng.choice([lambda: x.append("poison"), lambda: x.clear(), lambda: x.extend(["poison", {}]),
                            lambda: x.reset(["poison"]), lambda: x.insert(0, "poison")])()
            n += 1
        except Exception:  # noqa: BLE001
            pass
    return n


def c17(env):
    """Reads only."""
    rng, V = env.rng, env.values()
    kind = rng.choice([1, 2])
    nf = rng.choice([1, 1, 2])
    w = env.world(["touch", "disk"], docs(env, V, kind, nf, 0.35), kind, opts=env.opts(0.2))
    p = Program(w, rng, V, peek=0.6)
    inits = []  # objects on one file agree about its initial content
    for f in range(1, nf + 1):
        inits.append(V.container(kind) if rng.random() < 0.2 else UNSET)
        for _ in range(rng.choice([1, 1, 2])):
            p.open(f, inits[-1])
    stack = []
    cls_only = len(p.ofile) > nf
    for _ in range(env.n):
        r = rng.random()
        if env.fam.strat != "none" and r < 0.15:
            if cls_only:
                if stack and rng.random() < 0.5:
                    stack.pop()
                    p.cout()
                elif len(stack) < 3:
                    p.cin()
                    stack.append(0)
            else:
                contexts(env, p, stack)
        elif r < 0.2 and not stack:
            p.ext(rng.randint(1, nf))
        else:
            p.random_op(p_read=1.0, attr=True)
            if rng.random() < 0.04:
                free = [o for o in p.alive() if not p.octx[o - 1]]
                if free:
                    o = rng.choice(free)
                    p.reopen(o, inits[p.ofile[o - 1] - 1])
    unstack(p, stack)
    w.nop("end")


NAMES = ["a", "b", "name", "data", "root", "parent", "_x", "_", "_y_", "_a_b", "a b", "", "0", "1a", "é",
         "class", "None", "self", "other", "key"]
DUNDERS = ["__class__", "__dict__", "__len__", "__x", "__foo__", "__init__", "__slots__", "__call__"]


def c18(env):
    """Classes of nested containers; attribute syntax with every kind of name."""
    rng = env.rng
    cls = env.fam.cls(2)
    reserved = sorted(getattr(cls, "_PROTECTED_KEYS", ()))
    public = [k for k in dir(cls) if not k.startswith("__")]
    keys = None
    if env.fam.attr:
        keys = (NAMES * 2 + rng.choices(reserved or NAMES, k=8) + rng.choices(public, k=6)
                + rng.choices(DUNDERS, k=4))
        if rng.random() < 0.5:
            keys = rng.sample(keys, 5)  # few names, so that they are used again
    V = env.values(depth=rng.choice([2, 3, 3, 4]), keys=keys)
    kind = rng.choice([1, 2, 2])
    w = env.world(["res", "disk"], docs(env, V, kind, 1, 0.2), kind, opts=env.opts(0.1))
    p = Program(w, rng, V, peek=0.5, keep_shape=0.8)
    init = V.container(kind) if rng.random() < 0.2 else UNSET
    p.open(1, init)
    if rng.random() < 0.3:
        p.open(1, init)
    stack = []
    for _ in range(env.n):
        r = rng.random()
        if env.fam.strat != "none" and r < 0.1 and (stack or rng.random() < 0.6):
            if len(p.ofile) > 1:
                if stack:
                    stack.pop()
                    p.cout()
                elif p.cin():
                    stack.append(0)
            else:
                contexts(env, p, stack)
        elif r < 0.2 and not stack:
            p.ext(1)
        elif r < 0.4 and env.fam.attr and own_attribute(p):
            pass
        elif r < 0.6:
            h = p.pick_handle()
            if h is not None:
                p.op(h, "types")
        else:
            p.random_op(p_read=0.35, attr=True)
    unstack(p, stack)
    for h in p.live(nested=False):
        p.op(h, "types")


def own_attribute(p):
    """Get, set or delete a name that belongs to the object itself."""
    rng, w = p.rng, p.w
    h = p.pick_handle()
    if h is None or gen.kind(p.node(h)) != 2:
        return False
    t = w.hnds[h - 1]
    mine, cls = list(vars(t)), type(t)
    reserved = [k for k in sorted(getattr(cls, "_PROTECTED_KEYS", ())) if k not in mine and hasattr(cls, k)]
    op = rng.choice(["pget", "pget", "pset", "pdel"])
    if op == "pget":
        k = rng.choice([rng.choice(mine), rng.choice([x for x in dir(cls) if x != "__class__"]),
                        rng.choice(reserved or mine)])
    elif op == "pset":
        fit = [x for x in reserved if not hasattr(getattr(cls, x), "__set__")]
        k = rng.choice([rng.choice(mine), rng.choice(fit or mine)])
    else:
        k = rng.choice(mine)
    p.op(h, op, k=k)
    return True


PROFILES = {
    # property: (profile, families, program length)
    "C01": (c01, ALL, 22),
    "C02": (c02, ALL, 24),
    "C03": (c03, ALL, 22),
    "C04": (c04, ALL, 24),
    "C05": (c05, BUF, 24),
    "C06": (c06, BUF, 24),
    "C07": (c07, BUF, 24),
    "C11": (c11, ALL, 24),
    "C12": (c12, ALL, 20),
    "C15": (c15, BUF, 24),
    "C16": (c16, ALL, 24),
    "C17": (c17, ALL, 24),
    "C18": (c18, ALL, 24),
}


# ----------------------------------------------------------------------- jobs


def record(prop, fam_name, seed, ntraces, root):
    """Run ntraces programs of a profile; returns the traces and the interner."""
    profile, _, length = PROFILES[prop]
    fam = BY_NAME[fam_name]
    store = fam.store(root)
    try:
        intern = values.Interner()
        rng = random.Random(f"{prop}/{fam_name}/{seed}")
        traces, crashes = [], []
        for _ in range(ntraces):
            env = Env(fam, store, intern, rng, length, root)
            try:
                profile(env)
            except Dead:
                pass
            except Exception:  # noqa: BLE001  (an error of the driver, or its shadow was misled)
                crashes.append(traceback.format_exc())
                world.reload_library()
            traces.append(env.w.finish())
        return traces, intern, crashes
    finally:
        store.close()


# Open findings, looked for one by one so that they do not hide anything else.
def probe_value(value):
    """A value that a backend cannot hold."""

    def probe(fam, store, intern):
        for kind in (1, 2):
            for args in ({"v": value}, {"v": [value]}):
                w = World(fam, kind, store, intern, [[0] if kind == 1 else {"a": 0}], ["res", "disk"])
                try:
                    w.open(1)
                    w.op(1, "setitem", **({"i": 0} if kind == 1 else {"k": "a"}), **args)
                    w.open(1)
                    w.op(2, "call")
                except Dead:
                    pass
                yield w.finish()

    return probe


def probe_alias(fam, store, intern):
    """Two names of one file."""
    for kind in (1, 2):
        w = World(fam, kind, store, intern, [[0] if kind == 1 else {"a": 0}], ["res", "disk"])
        w.open(1)
        w.open(1, alias=True)
        w.cin()
        w.op(1, "setitem", **({"i": 0} if kind == 1 else {"k": "a"}), v=1)
        w.op(2, "call")
        w.cout()
        yield w.finish()


PROBES = {
    "C06": [("alias-path", "buf", probe_alias), ("alias-path", "mem", probe_alias)],
    "C12": [("mongo-int64", "mongo", probe_value(2**70)),
            ("mongo-nul-key", "mongo", probe_value({"a\u0000b": 1})),
            ("mongo-dbref", "mongo", probe_value({"$ref": "a", "$id": 1}))],
}


def probe_job(spec):
    """Look for the open findings of a property; each has its own key."""
    prop, = spec
    world.arm()
    root = scratch_root()
    out = {"stats": {"states": 0, "transitions": 0, "traces": 0, "cut": 0}, "events": 0, "ops": {},
           "sample": None, "viol": []}
    try:
        for key, fam, probe in PROBES[prop]:
            store, intern = BY_NAME[fam].store(root), values.Interner()
            traces = list(probe(BY_NAME[fam], store, intern))
            stats, bad, dis = tlc.validate(traces, intern, root)
            store.close()
            for k in stats:
                out["stats"][k] += stats[k]
            out["events"] += sum(len(t["ev"]) for t in traces)
            for t, l, cl in bad:
                out["viol"].append({"key": key, "clauses": cl, "event": l, "trace": traces[t],
                                    "shown": show(traces[t], intern, l)})
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def job(spec):
    """One unit of work: record a batch and validate it."""
    prop, fam_name, seed, ntraces = spec
    world.arm()
    root = scratch_root()
    try:
        traces, intern, crashes = record(prop, fam_name, seed, ntraces, root)
        stats, bad, dis = tlc.validate(traces, intern, root)
        if dis and not bad:
            t, l = dis[0]
            raise tlc.TLCError(f"driver issued a disabled event: {spec} trace {t} event {l}: "
                               f"{traces[t]['ev'][l]}")
        if crashes and not bad:
            raise RuntimeError(f"driver: {spec}: {crashes[0]}")
        out = {"stats": stats, "events": sum(len(t["ev"]) for t in traces), "viol": []}
        ops = {}
        for t in traces:
            for e in t["ev"]:
                k = e.get("op", e["a"])
                ops[k] = ops.get(k, 0) + 1
        out["ops"] = ops
        out["sample"] = show(traces[0], intern)
        for t, l, cl in bad[:5]:
            out["viol"].append({
                "key": f"{fam_name}:{'+'.join(cl)}:{traces[t]['ev'][l].get('op', traces[t]['ev'][l]['a'])}",
                "clauses": cl, "event": l, "shown": show(traces[t], intern, l),
                "trace": traces[t], "atoms": [repr(v) for v in intern.vals], "job": list(spec),
            })
        out["nviol"] = len(bad)
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def show(trace, intern, upto=None):
    """A readable rendering of a trace."""
    def val(x):
        return repr(intern.dec(x))[:200]

    def res(r):
        if r[0] in ("v",):
            return val(r[1])
        if r[0] == "seq":
            return "[" + ", ".join(val(x) for x in r[1])[:200] + "]"
        if r[0] == "e":
            return "raises " + r[1][0]
        if r[0] == "be":
            return f"raises BufferedError{r[1]}"
        return " ".join(str(x) for x in r)

    h = trace["hdr"]
    out = [f"{h['fam']} kind={h['kind']} cap={h['cap']} opts={h['opts']} disk="
           + ", ".join(val(d[0]) if d else "missing" for d in h["disk"])]
    for i, e in enumerate(trace["ev"][: len(trace["ev"]) if upto is None else upto + 1]):
        a = [f"{k}={val(e[k]) if k in ('k', 'v', 'kw', 'c', 'init') else e[k]}"
             for k in e if k not in ("a", "op", "res", "fs", "sz", "cap")]
        line = f"{i}: {e['a']}{' ' + e['op'] if 'op' in e else ''} {' '.join(a)} -> {res(e['res'])}"
        if "fs" in e:
            line += " | " + "; ".join(
                f"file{x[0]}=" + ("missing" if x[1] == 0 else "unreadable" if x[1] == 2 else val(x[2]))
                for x in e["fs"])
        if "sz" in e:
            line += f" | size {e['sz']}/{e['cap']}"
        out.append(line)
    return out
