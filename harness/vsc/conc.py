"""Concurrent checks: small multi-threaded programs under every schedule.

The histories (invocations, results, final contents) of the explored schedules
are validated against LinTrace.tla.
"""

import copy
import json
import random
import shutil
import sys
import traceback

from . import sched, tlc, values, world
from .backends import BY_NAME, GARBAGE, MISSING, scratch_root
from .world import OPS, UNSET, is_synced, kind_of, strict

JSON = ["json", "jsonattr", "buf", "bufattr", "mem", "memattr"]
BUF = JSON[2:]

DICT_MUTS = ["setitem", "setitem", "delitem", "pop", "popitem", "clear", "update", "update",
             "setdefault", "reset"]
LIST_MUTS = ["append", "append", "setitem", "insert", "extend", "iadd", "delitem", "remove", "pop",
             "clear", "reverse", "reset", "setslice", "delslice"]
DICT_READS = ["getitem", "get", "len", "iter", "call", "eq", "contains", "keys", "values",
              "items", "repr", "str", "bool", "ne"]
LIST_READS = ["getitem", "len", "iter", "call", "eq", "contains", "index", "count", "getslice", "repr",
              "reversed", "lt", "ge", "str", "bool", "ne"]


class Prog:
    """A program: contents of files, objects, handles, and operations per thread."""

    def __init__(self, fam, kind):
        self.fam, self.kind = fam, kind
        self.disk = []
        self.objs = []     # file of each object
        self.alias = set() # objects bound to another name of their file
        self.lazy = set()  # objects that the first thread that uses them constructs
        self.handles = []  # (object, path)
        self.threads = []  # per thread: [(handle, op, args)]
        self.ctx = None    # None or [capacity or None]: a backend-wide context


# ------------------------------------------------------------------ execution


def encode_value(I, v):
    """Encode a returned value without calling the library."""
    if is_synced(v):
        return [9, kind_of(v)]
    if type(v) is list:
        return [1, [encode_value(I, x) for x in v]]
    return I.enc(strict(v))


def encode_result(I, op, r):
    if op in world.BOOLS:
        return ["b", r] if isinstance(r, bool) else ["v", encode_value(I, r)]
    if op in world.INTS:
        return ["n", r] if type(r) is int else ["v", encode_value(I, r)]
    if op in world.SEQS:
        if op == "items":
            return ["seq", [I.enc([k, strict(v)]) for k, v in r]]
        return ["seq", [encode_value(I, x) for x in r]]
    if op == "iadd":
        return ["self", 0] if isinstance(r, str) and r == "self" else ["v", encode_value(I, r)]
    if op == "popitem":
        if isinstance(r, tuple) and len(r) == 2:
            k, v = r
            return ["pair", I.atom(k), ["k", kind_of(v)] if is_synced(v) else ["v", encode_value(I, v)]]
        return ["v", encode_value(I, r)]
    if op in ("repr", "str"):
        import ast

        try:
            return ["v", I.enc(ast.literal_eval(r))]
        except (ValueError, SyntaxError):
            return ["x", 0]
    if is_synced(r):
        return ["k", kind_of(r)]
    return ["v", encode_value(I, r)]


def exc_result(err):
    return ["e", [c.__name__ for c in type(err).__mro__]]


def slowly(get):
    """Consume an iterable or a view while other threads can run."""

    def call(t, e, v):
        out = []
        for x in get(t):
            out.append(x)
            sched.point()
        return out

    return call


CALLS = dict(OPS, iter=slowly(iter), reversed=slowly(reversed), keys=slowly(lambda t: t.keys()),
             values=slowly(lambda t: t.values()), items=slowly(lambda t: t.items()))


class Run:
    """One execution of a program under one plan."""

    def __init__(self, prog, store, intern):
        self.p, self.store, self.I = prog, store, intern

    def go(self, order, preempts=(), log=None):
        p, store = self.p, self.store
        cls = BY_NAME[p.fam].cls(p.kind)
        store.wipe()
        for f, d in enumerate(p.disk, 1):
            if d is not MISSING:
                store.write(f, d)

        def construct(o):
            return cls(**store.kwargs(p.objs[o], **({"alias": True} if o in p.alias else {})))

        objs = [None if o in p.lazy else construct(o) for o in range(len(p.objs))]

        def navigate(h):
            o, path = p.handles[h]
            if objs[o] is None:
                objs[o] = construct(o)
            t = objs[o]
            for x in path:
                t = t[x]
            hnds[h] = t

        hnds = [None] * len(p.handles)
        for h, (o, path) in enumerate(p.handles):
            if o not in p.lazy:
                navigate(h)
        hist = []
        I = self.I

        def thread(t):
            def body():
                for i, (h, op, args) in enumerate(p.threads[t]):
                    e = copy.deepcopy(args)
                    v = e.get("v", UNSET)
                    hist.append(["inv", t, i])
                    try:
                        if hnds[h] is None:
                            navigate(h)
                        r = CALLS[op](hnds[h], e, v)
                        res = encode_result(I, op, r)
                    except Exception as err:  # noqa: BLE001
                        res = exc_result(err)
                    hist.append(["ret", t, i, res])
            return body

        ctx = None
        end = {"a": "end"}
        buffered = BY_NAME[p.fam].strat != "none"
        if p.ctx is not None:
            cap = p.ctx[0]
            ctx = cls.buffer_backend() if cap is None else cls.buffer_backend(cap)
            ctx.__enter__()
        s = sched.Sched([thread(t) for t in range(len(p.threads))], order, preempts, log).run()
        end["xr"] = ["ok", 0]
        if s.errors:
            raise s.errors[0]
        self.dirty = s.deadlock or s.hang
        self.blocked, self.acquired = s.blocked, s.acquired
        if s.hang:
            raise RuntimeError(f"a thread waits for something unknown: {describe(p)}")
        if s.deadlock:
            hist.append(["stuck"])
        if ctx is not None:
            try:
                ctx.__exit__(None, None, None)
            except Exception as err:  # noqa: BLE001
                end["xr"] = exc_result(err)
                self.dirty = True
        if buffered:
            end["sz"] = world.small(cls.get_current_buffer_size)
            if end["sz"] != 0:
                self.dirty = True
        fs = []
        for f in range(1, len(p.disk) + 1):
            d = store.read(f)
            if d is MISSING:
                fs.append([0, [0, 1]])
            elif d is GARBAGE:
                fs.append([2, [0, 1]])
            else:
                fs.append([1, I.enc(d)])
        end["fs"] = fs
        return hist, end

    def trace(self, hist, plan):
        return trace_of(self.p, self.I, *hist, plan)

    def setup(self):
        setup(self.p.fam)


def encode_path(I, content, path):
    out = []
    for x in path:
        out.append(I.atom(x) if isinstance(content, dict) else x)
        content = content[x]
    return out


def encode_op(I, p, h, op, args):
    o, path = p.handles[h]
    f = p.objs[o]
    e = {"op": op, "f": f,
         "p": encode_path(I, p.disk[f - 1] if path else None, path)}
    if "k" in args:
        e["k"] = I.enc(args["k"])
    if "v" in args:
        e["v"] = I.enc(args["v"])
    if "i" in args:
        e["i"] = [args["i"]]
    if "sl" in args:
        e["sl"] = [[] if x is None else [x] for x in args["sl"]]
    if "kw" in args:
        e["kw"] = I.enc(args["kw"])
    for x in ("lo", "hi"):
        if x in args:
            e[x] = args[x]
    return e


def trace_of(p, I, hist, end, plan):
    ops = [[encode_op(I, p, *x) for x in th] for th in p.threads]
    ev = []
    for h in hist:
        if h[0] == "inv":
            ev.append({"a": "inv", "t": h[1] + 1, "e": ops[h[1]][h[2]]})
        elif h[0] == "ret":
            ev.append({"a": "ret", "t": h[1] + 1, "res": h[3]})
        else:
            ev.append({"a": "stuck"})
    ev.append(end)
    return {"hdr": {"fam": p.fam, "kind": p.kind, "nt": len(p.threads), "nodot": BY_NAME[p.fam].attr,
                    "disk": [[] if d is MISSING else [I.enc(d)] for d in p.disk],
                    "plan": plan}, "ev": ev}


def describe(p):
    out = [f"{p.fam} kind={p.kind} ctx={p.ctx} disk={p.disk} objects on files {p.objs}"
           + "".join(f", obj{o + 1} constructed by its thread" for o in sorted(p.lazy))]
    for t, th in enumerate(p.threads):
        out.append(f"thread {t + 1}: " + "; ".join(
            f"obj{p.handles[h][0] + 1}{''.join(f'[{x!r}]' for x in p.handles[h][1])}.{op}"
            f"({', '.join(f'{k}={v!r}' for k, v in a.items())})" for h, op, a in th))
    return out


# ----------------------------------------------------------------- generation


class Gen:
    """Random small programs whose operations never detach a used handle."""

    def __init__(self, rng, fam):
        self.rng, self.fam = rng, fam
        self.fresh = 0

    def scalar(self):
        self.fresh += 1
        return self.rng.choice([self.fresh, f"s{self.fresh}", None, True])

    def value(self, depth=1):
        r = self.rng.random()
        if depth and r < 0.15:
            return {k: self.value(0) for k in self.rng.sample("xy", self.rng.randint(0, 2))}
        if depth and r < 0.3:
            return [self.value(0) for _ in range(self.rng.randint(0, 2))]
        return self.scalar()

    def content(self, kind):
        rng = self.rng
        items = [self.value(), {"x": self.value(), "y": [1, 2]}, [self.value(), {"z": 1}], self.scalar()]
        rng.shuffle(items)
        items = items[: rng.randint(1, 4)]
        if rng.random() < 0.05:
            items = []
        return dict(zip("abcd", items)) if kind == 2 else items

    def paths(self, v, p=()):
        out = []
        for x in v if isinstance(v, dict) else range(len(v)):
            if isinstance(v[x], (dict, list)):
                out.append(list(p) + [x])
                out += self.paths(v[x], tuple(p) + (x,))
        return out

    def mutator(self, node, op=None, key=None):
        rng = self.rng
        d = isinstance(node, dict)
        least = 0 if op is None else 2  # new elements
        op = op or rng.choice(DICT_MUTS if d else LIST_MUTS)
        a = {}
        if d:
            key = key or (rng.choice(list(node) + list("abxe")) if node else rng.choice("abx"))
            if op in ("setitem", "delitem", "pop", "setdefault"):
                a["k"] = key
            if op in ("setitem", "setdefault") or (op == "pop" and rng.random() < 0.3):
                a["v"] = self.value()
            if op == "update":
                a["v"] = {k: self.value() for k in rng.sample(sorted({key, "n", "m"}), rng.randint(least or 1, least or 2))}
            if op == "reset":
                a["v"] = {k: self.value() for k in rng.sample("abcdmn" if least else "abcd", rng.randint(least, 2))}
            if self.fam.attr and op in ("setitem", "delitem") and rng.random() < 0.4:
                op = {"setitem": "aset", "delitem": "adel"}[op]
        else:
            n = len(node)
            if op in ("setitem", "insert", "delitem") or (op == "pop" and rng.random() < 0.5):
                a["i"] = rng.randint(-1, max(0, n - 1)) if rng.random() < 0.9 else n
            if op in ("setitem", "append", "insert"):
                a["v"] = self.value()
            if op in ("extend", "iadd", "reset", "setslice"):
                a["v"] = [self.value() for _ in range(rng.randint(least, 2))]
            if op in ("setslice", "delslice"):
                a["sl"] = [rng.choice([None, 0, 1]), rng.choice([None, 1, 2]), None]
            if op == "remove":
                plain = [x for x in node if not isinstance(x, (dict, list))]
                a["v"] = rng.choice(plain) if plain and rng.random() < 0.8 else "no"
        return op, a

    def reader(self, node, op=None, key=None):
        rng = self.rng
        d = isinstance(node, dict)
        op = op or rng.choice(DICT_READS if d else LIST_READS)
        a = {}
        if op in ("eq", "ne", "lt", "ge"):
            a["v"] = copy.deepcopy(node) if rng.random() < 0.7 or not d else self.content(2)
        elif d and op in ("getitem", "get", "contains"):
            a["k"] = key or rng.choice(list(node) + ["a", "e"])
            if op == "get" and rng.random() < 0.5:
                a["v"] = 5
            if op == "getitem" and self.fam.attr and rng.random() < 0.4:
                op = "aget"
        elif not d:
            if op == "getitem":
                a["i"] = rng.randint(-1, len(node))
            elif op in ("contains", "index", "count"):
                a["v"] = rng.choice([x for x in node if not isinstance(x, (dict, list))] + [1, "e"])
            elif op == "getslice":
                a["sl"] = [rng.choice([None, 0, 1]), rng.choice([None, 1, 2, -1]), None]
        return op, a

    def program(self, nthreads, nops, nfiles=1, nobjs=None, readers=(), private=False, ctx=None):
        """readers: threads that only read; private: reads on private objects only."""
        rng = self.rng
        p = Prog(self.fam.name, rng.choice([1, 2, 2]))
        p.ctx = ctx
        for _ in range(nfiles):
            p.disk.append(MISSING if rng.random() < 0.06 else self.content(p.kind))
        nobjs = nobjs or rng.choice([1, 1, 2])
        p.objs = [f for f in range(1, nfiles + 1) for _ in range(nobjs)]
        used = set()
        for t in range(nthreads):
            o = rng.randrange(len(p.objs))
            ops = []
            for _ in range(nops if isinstance(nops, int) else rng.choice(nops)):
                if rng.random() < 0.25:
                    o = rng.randrange(len(p.objs))
                d = p.disk[p.objs[o] - 1]
                path = []
                if d is not MISSING and rng.random() < 0.4:
                    path = rng.choice(self.paths(d) or [[]])
                if (o, tuple(path)) not in used:
                    used.add((o, tuple(path)))
                    p.handles.append((o, path))
                ops.append(p.handles.index((o, path)))
            p.threads.append(ops)
        objs = [{p.handles[h][0] for h in hs} for hs in p.threads]
        for t, hs in enumerate(p.threads):
            mine = objs[t] - set().union(*(x for i, x in enumerate(objs) if i != t))
            ops = []
            for h in hs:
                o, path = p.handles[h]
                d = p.disk[p.objs[o] - 1]
                node = d
                if d is MISSING:
                    node = {} if p.kind == 2 else []
                for x in path:
                    node = node[x]
                read = t in readers or (private and o in mine and rng.random() < 0.25)
                for _ in range(200):
                    op, a = self.reader(node) if read else self.mutator(node)
                    if read or self.harmless(p, p.objs[o], path, op, a, node):
                        ops.append((h, op, a))
                        break
            p.threads[t] = ops
            p.lazy |= {o for o in mine if rng.random() < 0.3}
        return p

    def duel(self, kind, first, second, ctx=None):
        """Two threads with one given operation each that have to do with each other."""
        rng = self.rng
        p = Prog(self.fam.name, kind)
        p.ctx = ctx
        d = self.content(kind)
        path = []
        if rng.random() < 0.3:
            # a nested collection of that kind
            inner, outer = d, rng.choice([1, 2])
            d, path = ({"a": inner, "b": self.scalar()}, ["a"]) if outer == 2 else ([inner], [0])
            p.kind = outer
            node = inner
        else:
            node = d
        p.disk = [d]
        p.objs = [1] if rng.random() < 0.7 else [1, 1]
        p.handles = [(o, path) for o in range(len(p.objs))]
        key = rng.choice(list(node) or ["a"]) if kind == 2 and rng.random() < 0.8 else None
        for t, op in enumerate((first, second)):
            gen = self.mutator if op in (DICT_MUTS, LIST_MUTS)[2 - kind] else self.reader
            p.threads.append([(t % len(p.handles), *gen(node, op, key))])
        return p

    def harmless(self, p, f, path, op, a, node):
        """Does the operation leave every used nested handle attached?"""
        n = len(path)
        for o, q in p.handles:
            if p.objs[o] != f or len(q) <= n or q[:n] != path:
                continue
            x = q[n]
            if isinstance(node, dict):
                if op in ("setitem", "delitem", "pop", "setdefault", "aset", "adel"):
                    if a["k"] == x:
                        return False
                elif op == "update":
                    if x in a["v"]:
                        return False
                else:
                    return False
            elif op in ("append", "extend", "iadd"):
                pass
            elif op == "setitem" and 0 <= a["i"] < len(node):
                if a["i"] == x:
                    return False
            else:
                return False
        return True


# ---------------------------------------------------------------- exploration


def explore(run, n, rng, extra, pb2, found, last=True, most=None):
    """Run n threads under many schedules; found collects distinct histories.

    Every thread is preempted once at every line.  Where that lets another thread
    run to its end without waiting for a lock, the other one is preempted, too,
    above all if the first one then needs no lock anymore.
    """
    count = 0

    def go(order, preempts=(), log=None):
        nonlocal count
        count += 1
        try:
            hist = run.go(order, preempts, log)
        except sched.LockHeld:  # the previous execution left a lock behind
            world.reload_library()
            run.setup()
            hist = run.go(order, preempts, log)
        key = json.dumps(hist)
        if key not in found:
            found[key] = run.trace(hist, [list(order), list(preempts)])
        if run.dirty:
            world.reload_library()
            run.setup()
        return run.blocked

    orders = [list(range(n)), list(range(n - 1, -1, -1))]
    if n > 2:
        orders = [rng.sample(range(n), n) for _ in range(2)]
    points, free, inner = [], [], []
    for order in orders:
        log = []
        go(order, (), log)
        locked = {}  # the last step at which each thread took a lock
        for k, t in run.acquired:
            locked[t] = max(k, locked.get(t, 0))
        thread = [x[0] for x in log]
        # no need to preempt the last thread that runs
        while log and log[-1][0] == thread[-1]:
            log.pop()
        # one preemption: at the first and the last execution of every line by
        # every thread, and at some of the others
        ks = set(locations(log).values())
        if last:
            ks |= set(locations(log, True).values())
        rest = [k for k in range(1, len(log) + 1) if k not in ks]
        ks |= set(rng.sample(rest, min(len(rest), extra)))
        if most and len(ks) > most:
            ks = set(rng.sample(sorted(ks), most))
        points.append((order, len(thread), sorted(ks)))
        for k in sorted(ks):
            log = []
            if not go(order, [k], log):
                into = free if k > locked.get(thread[k - 1], 0) else inner
                into += [(order, [k, j]) for j in inside(log, k)]
    pairs = rng.sample(free, min(len(free), pb2)) + rng.sample(inner, min(len(inner), pb2 // 2))
    for order, pre in pairs:
        go(order, pre)
    for _ in range(pb2 // 2):
        order, total, ks = rng.choice(points)
        if not ks:
            break
        k = rng.choice(ks)
        m = rng.choice([1, 1, 2])
        go(order, [k] + [k + rng.randint(1, total) for _ in range(m)])
    return count


def inside(log, k):
    """Where to preempt the thread that was resumed at step k."""
    if k >= len(log) or log[k][0] == log[k - 1][0]:
        return set()
    part = []
    for x in log[k:]:
        if x[0] != log[k][0]:
            break
        part.append(x)
    return sorted(k + j for j in {*locations(part).values(), *locations(part, True).values()})


def locations(log, last=False):
    out = {}
    for k, x in enumerate(log, 1):
        if last or x not in out:
            out[x] = k
    return out


def setup(fam):
    """Import the library with controllable locks."""
    sched.patch()
    BY_NAME[fam].cls(1), BY_NAME[fam].cls(2)
    sched.arm()


def programs(prop, fam, rng):
    g = Gen(rng, fam)
    r = rng.random()
    nt = 2 if r < 0.85 else 3
    if prop == "C09":
        return g.program(nt, [1] if nt == 3 else [1, 1, 2])
    if prop == "C14":
        ctx = None
        if fam.strat != "none" and rng.random() < 0.6:
            ctx = [small_cap(fam, rng)]
        readers = {0} if nt == 2 else rng.choice([{0}, {0, 1}])
        return g.program(nt, [1] if nt == 3 else [1, 1, 2], readers=readers, ctx=ctx)
    if prop == "C13":
        nf = rng.choice([1, 1, 2])
        return g.program(nt, [1] if nt == 3 else [1, 1, 2], nfiles=nf, private=True, ctx=[small_cap(fam, rng)])
    raise ValueError(prop)


def deck(prop, rng):
    """All pairs of operations that threads perform at the same time."""
    out = []
    for kind, muts, reads in ((1, LIST_MUTS, LIST_READS), (2, DICT_MUTS, DICT_READS)):
        muts = sorted(set(muts))
        if prop == "C14":
            out += [(kind, r, m) for r in reads for m in muts]
        else:
            out += [(kind, a, b) for i, a in enumerate(muts) for b in muts[i:]]
    rng.shuffle(out)
    return out


def duel(prop, fam, rng, card):
    ctx = None
    if prop == "C13" or prop == "C14" and fam.strat != "none" and rng.random() < 0.6:
        ctx = [small_cap(fam, rng)]
    return Gen(rng, fam).duel(*card, ctx)


def small_cap(fam, rng):
    if rng.random() < 0.35:
        return None
    if fam.strat == "mem":
        return rng.choice([0, 0, 1, 1, 2])
    return rng.choice([0, 1, 5, 20, 40, 60, 100])


FAMS = {"C09": JSON, "C13": BUF, "C14": JSON}


PROBES = ("C09", "C13")


def probe_job(spec):
    """Two names of one file: an open finding that has a key of its own."""
    prop, = spec
    fam_name = "json" if prop == "C09" else "buf"
    setup(fam_name)
    root = scratch_root()
    store = BY_NAME[fam_name].store(root)
    try:
        intern, found = values.Interner(), {}
        p = Prog(fam_name, 2)
        p.disk, p.objs, p.alias = [{"a": 0}], [1, 1], {1}
        p.handles = [(0, ()), (1, ())]
        p.threads = [[(0, "setitem", {"k": "b", "v": 1})], [(1, "setitem", {"k": "c", "v": 2})]]
        p.ctx = None if prop == "C09" else [None]
        runs = explore(Run(p, store, intern), 2, random.Random(0), 0, 0, found)
        traces = list(found.values())
        stats, bad = tlc.validate_lin(traces, intern, root)
        return {"stats": stats, "events": sum(len(t["ev"]) for t in traces), "schedules": runs,
                "programs": 1, "sample": None, "ops": {}, "nviol": len(bad),
                "viol": [{"key": "alias-path", "shown": describe(p) + show(traces[i], intern),
                          "trace": traces[i], "atoms": [repr(v) for v in intern.vals]}
                         for i in bad[:1]]}
    finally:
        store.close()
        shutil.rmtree(root, ignore_errors=True)


def job(spec):
    prop, fam_name, seed, nprogs, extra, pb2, cards = spec
    fam = BY_NAME[fam_name]
    rng = random.Random(f"{prop}/{fam_name}/{seed}")
    sched.call_points = rng.random() < 0.4
    setup(fam_name)
    root = scratch_root()
    store = fam.store(root)
    try:
        intern = values.Interner()
        found, runs = {}, 0
        shown = []
        plan = [(programs(prop, fam, rng), extra, pb2, True, None) for _ in range(nprogs)]
        plan += [(duel(prop, fam, rng, c), 0, 2 * pb2, False, 250) for c in cards]
        for p, extra, pb2, last, most in plan:
            mine = {}
            runs += explore(Run(p, store, intern), len(p.threads), rng, extra, pb2, mine, last, most)
            for k, t in mine.items():
                t["hdr"]["prog"] = len(shown)
                found[len(shown), k] = t
            shown.append(describe(p))
        traces = list(found.values())
        stats, bad = tlc.validate_lin(traces, intern, root)
        out = {"stats": stats, "events": sum(len(t["ev"]) for t in traces), "viol": [],
               "schedules": runs, "programs": len(plan), "sample": shown[0]}
        ops = {}
        for t in traces:
            for e in t["ev"]:
                if e["a"] == "inv":
                    ops[e["e"]["op"]] = ops.get(e["e"]["op"], 0) + 1
        out["ops"] = ops
        for i in bad[:5]:
            t = traces[i]
            out["viol"].append({
                "key": f"{fam_name}:{'stuck' if any(e['a'] == 'stuck' for e in t['ev']) else 'order'}",
                "shown": shown[t["hdr"]["prog"]] + show(t, intern), "trace": t,
                "atoms": [repr(v) for v in intern.vals], "job": list(spec)})
        out["nviol"] = len(bad)
        return out
    finally:
        store.close()
        shutil.rmtree(root, ignore_errors=True)


def show(t, intern):
    def val(x):
        if x[0] == 9:
            return f"<child {x[1]}>"
        if x[0] == 1:
            return "[" + ", ".join(val(y) for y in x[1]) + "]"
        return repr(intern.dec(x))

    def res(r):
        if r[0] == "v":
            return val(r[1])
        if r[0] == "seq":
            return "[" + ", ".join(val(x) for x in r[1]) + "]"
        if r[0] == "e":
            return "raises " + r[1][0]
        return " ".join(str(x) for x in r)

    out = [f"plan {t['hdr']['plan']}"]
    for e in t["ev"]:
        if e["a"] == "inv":
            out.append(f"thread {e['t']} calls {e['e']['op']}")
        elif e["a"] == "ret":
            out.append(f"thread {e['t']} got {res(e['res'])}")
        elif e["a"] == "stuck":
            out.append("DEADLOCK")
        else:
            out.append("finally " + ", ".join("missing" if x[0] == 0 else "unreadable" if x[0] == 2
                                              else val(x[1]) for x in e["fs"])
                       + f" exit {e['xr']} size {e.get('sz')}")
    return out
