"""Small models of Synced.tla, explored exhaustively and replayed.

A model is a configuration and an alphabet of events.  TLC explores all its
behaviours (MCSynced.tla), checks the properties of the specification, and
prints the transitions; walks through the graph that take every transition are
then executed with the real classes and validated like any other trace.
"""

import copy
import json
import os
import random
import re
import shutil
import traceback
from types import SimpleNamespace

from . import seq, tlc, values, world
from .backends import BY_NAME, MISSING, scratch_root
from .world import UNSET, Dead, World

ROOT = 1  # handle of the first object


def op(h, name, nh=False, **args):
    return ("op", h, name, args, nh)


# ------------------------------------------------------------------ alphabets


def dict_muts(h, small=False):
    out = [op(h, "setitem", k="a", v=1), op(h, "setitem", k="a", v={"x": 1}), op(h, "delitem", k="a"),
           op(h, "clear"), op(h, "reset", v={"b": None})]
    if not small:
        out += [op(h, "update", v={"a": {"x": 2}, "b": 1}), op(h, "pop", k="b"), op(h, "popitem"),
                op(h, "setdefault", k="a", v=[]), op(h, "setitem", k="b", v=None)]
    return out


def dict_reads(h, small=False):
    out = [op(h, "call"), op(h, "getitem", k="a")]
    if not small:
        out += [op(h, "len"), op(h, "contains", k="b"), op(h, "get", k="b", v=0), op(h, "iter"), op(h, "items"),
                op(h, "eq", v={"a": 1})]
    return out


def list_muts(h, small=False):
    out = [op(h, "append", v=1), op(h, "setitem", i=0, v={"x": 1}), op(h, "delitem", i=0), op(h, "clear"),
           op(h, "reset", v=[None])]
    if not small:
        out += [op(h, "insert", i=0, v=[]), op(h, "extend", v=[2, {"x": 2}]), op(h, "pop"), op(h, "reverse"),
                op(h, "remove", v=1), op(h, "setslice", sl=[0, 1, None], v=[2, 1])]
    return out


def list_reads(h, small=False):
    out = [op(h, "call"), op(h, "getitem", i=0)]
    if not small:
        out += [op(h, "len"), op(h, "contains", v=1), op(h, "iter"), op(h, "lt", v=[1, 1]),
                op(h, "eq", v=[1]), op(h, "index", v=1), op(h, "getslice", sl=[None, None, -1])]
    return out


def child_ops(h, small=False):
    """On the dict below the key a, or the index 0."""
    out = [op(h, "setitem", k="x", v=2), op(h, "clear"), op(h, "call")]
    if not small:
        out += [op(h, "reset", v={"y": 1}), op(h, "pop", k="x"), op(h, "update", v={"x": None})]
    return out


CHILD = {2: {"a": {"x": 1}}, 1: [{"x": 1}]}
KEY = {2: {"k": "a"}, 1: {"i": 0}}


def muts(kind, h, small=False):
    return (dict_muts if kind == 2 else list_muts)(h, small)


def reads(kind, h, small=False):
    return (dict_reads if kind == 2 else list_reads)(h, small)


class Model:
    def __init__(self, kind, disk, setup, events, maxlen=2, maxctx=2, maxhnd=None, shared=True, cap=None):
        self.kind, self.disk, self.setup, self.events = kind, disk, setup, events
        self.maxlen, self.maxctx, self.shared, self.cap = maxlen, maxctx, shared, cap
        self.maxhnd = maxhnd or sum(e[0] == "open" or (e[0] == "op" and e[4]) for e in setup)


def single(kind, n=1, more=False):
    """One object on one resource and n handles on its child."""
    setup = [("open", 1)] + [op(1, "getitem", nh=True, **KEY[kind])] * n
    return setup


def m_c01(kind, strat, big):
    ev = muts(kind, 1) + [op(1, "call"), op(1, "getitem", nh=True, **KEY[kind])]
    return [Model(kind, [CHILD[kind]], single(kind), ev + child_ops(2) + child_ops(3, True), maxhnd=3,
                  maxlen=3 if big else 2),
            Model(kind, [MISSING], [("open", 1)], muts(kind, 1) + [op(1, "call")], maxlen=3 if big else 2)]


def m_c02(kind, strat, big):
    docs = ([{}, {"a": {"x": 1}}, {"a": {"x": 3, "y": 1}}, {"a": None}, {"a": [1]}, {"b": 1}] if kind == 2
            else [[], [{"x": 1}], [{"x": 3}, 2], [None], [[1]], [2, {"x": 1}]])
    ev = [("ext", 1, d) for d in docs] + reads(kind, 1) + [op(2, "call"), op(2, "setitem", k="x", v=2)]
    ev += [op(1, "getitem", nh=True, **KEY[kind]), op(3, "call"), op(3, "clear"), op(3, "len")]
    ev += muts(kind, 1, True)
    return [Model(kind, [CHILD[kind]], single(kind), ev, maxhnd=3, shared=False)]


def m_c03(kind, strat, big):
    ev = muts(kind, 1) + reads(kind, 1) + [op(1, "eq", vh=1), op(1, "ne", v=CHILD[kind])]
    ev += [op(2, "len"), op(2, "setitem", k="x", v=1)]
    return [Model(kind, [CHILD[kind]], single(kind), ev, maxlen=3 if big else 2)]


def m_c04(kind, strat, big):
    setup = [("open", 1), ("open", 1), op(1, "getitem", nh=True, **KEY[kind]), op(2, "getitem", nh=True, **KEY[kind])]
    ev = (muts(kind, 1, not big) + muts(kind, 2, True) + [op(1, "call"), op(2, "call")]
          + child_ops(3, not big) + child_ops(4, not big) + [op(3, "reset", v={"y": 1})])
    return [Model(kind, [CHILD[kind]], setup, ev)]


def ctx_events(objs, cls=True, caps=()):
    ev = [("oin", o) for o in objs] + [("oout", o) for o in objs]
    if cls:
        ev += [("cin", None), ("cout",)] + [("cin", n) for n in caps]
    return ev


def m_c05(kind, strat, big):
    ev = muts(kind, 1, True) + reads(kind, 1, True) + child_ops(2, True) + ctx_events([1])
    return [Model(kind, [CHILD[kind]], single(kind), ev),
            Model(kind, [MISSING], [("open", 1)], muts(kind, 1, not big) + [op(1, "call")] + ctx_events([1]))]


def m_c06(kind, strat, big):
    setup = [("open", 1), ("open", 1)]
    ev = muts(kind, 1, True) + muts(kind, 2, True)[:3] + [op(1, "call"), op(2, "call")]
    return [Model(kind, [CHILD[kind]], setup, ev + [("cin", None), ("cout",)], maxctx=1 if not big else 2),
            # per-object contexts of both objects, entered and left together
            Model(kind, [CHILD[kind]], setup, ev + [("both", [1, 2]), ("leave", [1, 2]), ("leave", [2, 1])],
                  maxctx=1)]


def m_c07(kind, strat, big):
    docs = [{}, {"b": 5}] if kind == 2 else [[], [5, 6]]
    setup = [("open", 1), ("open", 2)]
    ev = [("ext", 1, d) for d in docs] + [("ext", 2, docs[1])]
    ev += [op(h, *x) for h in (1, 2) for x in [("call",)]]
    ev += [op(1, "setitem", k="a", v=1), op(1, "clear"), op(2, "setitem", k="a", v=1)] if kind == 2 else [
        op(1, "append", v=1), op(1, "clear"), op(2, "append", v=1)]
    ev += [("cin", None), ("cout",)]
    if big:
        ev += [("oin", 1), ("oout", 1)]
    caps = [0] if strat == "mem" else [2]
    return [Model(kind, [CHILD[kind], MISSING], setup, ev, shared=False, maxctx=1, maxlen=2),
            Model(kind, [CHILD[kind], CHILD[kind]], setup,
                  [e for e in ev if e not in (("ext", 1, docs[0]), ("cin", None))]
                  + [("cin", caps[0])], shared=False, maxctx=1, maxlen=2),
            Model(kind, [CHILD[kind]], [("open", 1)],
                  [("ext", 1, d) for d in docs] + muts(kind, 1, True)[:3] + [op(1, "call")] + ctx_events([1]),
                  shared=False, maxctx=2)]


def m_c15(kind, strat, big):
    setup = [("open", 1), ("open", 2)]
    caps = [0, 1] if strat == "mem" else [2, 25] if kind == 1 else [2, 14, 25]
    ev = [op(h, "call") for h in (1, 2)] + [muts(kind, 2, True)[0], muts(kind, 2, True)[3]]
    ev += muts(kind, 1, True)[: 3 if big or kind == 2 else 1]
    ev += [("cin", None), ("cout",)] + [("cin", n) for n in caps[:2]] + [("cap", n) for n in caps]
    return [Model(kind, [MISSING, CHILD[kind]], setup, ev, maxctx=2 if big else 1, cap=caps[-1])]


def m_c17(kind, strat, big):
    setup = single(kind) + [("open", 2)]
    ev = reads(kind, 1) + [op(2, "call"), op(2, "len"), op(3, "call"), op(3, "len"), op(3, "iter")]
    if strat != "none":
        ev += ctx_events([1, 2])
    return [Model(kind, [CHILD[kind], MISSING], setup, ev)]


def m_c18(kind, strat, big):
    docs = [{"a": {"x": {}}}, {"a": [{}]}] if kind == 2 else [[{"x": {}}], [[{}]]]
    ev = muts(kind, 1) + [op(1, "types"), op(2, "types"), op(2, "setitem", k="x", v=[{}]),
                          op(2, "setitem", k="x", v={"y": []})]
    shared = strat != "none"
    if shared:
        ev += [("cin", None), ("cout",)]
    else:
        ev += [("ext", 1, d) for d in docs]
    return [Model(kind, [CHILD[kind]], single(kind), ev, shared=shared, maxctx=1)]


MODELS = {"C01": m_c01, "C02": m_c02, "C03": m_c03, "C04": m_c04, "C05": m_c05, "C06": m_c06, "C07": m_c07,
          "C15": m_c15, "C17": m_c17, "C18": m_c18}


# ---------------------------------------------------------------- exploration


def flat(ev):
    """The elementary events of an alphabet entry."""
    if ev[0] == "both":
        return [("oin", o) for o in ev[1]]
    if ev[0] == "leave":
        return [("oout", o) for o in ev[1]]
    return [ev]


def encode(I, kind, ev):
    a = ev[0]
    if a == "open":
        return {"a": "open", "f": ev[1], "init": I.enc({} if kind == 2 else [])}
    if a == "op":
        e = World._encode_op(SimpleNamespace(intern=I), ev[1], ev[2], ev[3])
        if ev[4]:
            e["nh"] = 1
        return e
    if a == "ext":
        return {"a": "ext", "f": ev[1], "c": I.enc(ev[2])}
    if a in ("oin", "oout"):
        return {"a": a, "o": ev[1]}
    if a in ("both", "leave"):
        return {"a": a, "os": list(ev[1])}
    if a == "cin":
        return {"a": "cin", "n": [] if ev[1] is None else [ev[1]]}
    if a == "cap":
        return {"a": "cap", "n": ev[1]}
    return {"a": a}


_EDGE = re.compile(r'^<<"EDGE", (-?\d+), (-?\d+), (\d+), (-?\d+), (-?\d+)>>$', re.M)


class Graph:
    def __init__(self):
        self.next = {}  # node -> {event: [successors]}
        self.edges = 0

    def add(self, a, i, b):
        succ = self.next.setdefault(a, {}).setdefault(i, [])
        self.next.setdefault(b, {})
        if b not in succ:
            succ.append(b)
            self.edges += 1

    def tours(self, start, rng, length):
        """Walks from the start that take every (state, event) once or more."""
        todo = {a: set(ev) for a, ev in self.next.items()}
        left = sum(len(x) for x in todo.values())
        while left:
            at, walk = start, []
            while len(walk) < length:
                if todo[at]:
                    i = rng.choice(sorted(todo[at]))
                    todo[at].discard(i)
                    left -= 1
                    walk.append((at, i))
                    at = rng.choice(self.next[at][i])
                    continue
                path = self.nearest(at, todo)
                if path is None:
                    break
                for i, b in path:
                    walk.append((at, i))
                    at = b
            if not walk:
                return  # the rest cannot be reached
            yield walk

    def nearest(self, at, todo):
        """The shortest way to a state with something left to do."""
        back, queue = {at: None}, [at]
        for a in queue:
            if todo[a]:
                path = []
                while back[a] is not None:
                    b, i = back[a]
                    path.append((i, a))
                    a = b
                return path[::-1]
            for i, bs in self.next[a].items():
                for b in bs:
                    if b not in back:
                        back[b] = (a, i)
                        queue.append(b)
        return None


def explore(model, fam, intern, scratch, cap):
    hdr = {"strat": fam.strat, "nodot": fam.attr, "cap": cap,
           "disk": [[] if d is MISSING else [intern.enc(d)] for d in model.disk]}
    data = {"hdr": hdr, "setup": [encode(intern, model.kind, e) for e in model.setup],
            "events": [encode(intern, model.kind, e) for e in model.events],
            "maxlen": model.maxlen, "maxctx": model.maxctx, "maxhnd": model.maxhnd, "shared": model.shared}
    data["atoms"] = intern.table()
    path = os.path.join(scratch, "model.json")
    with open(path, "w") as fh:
        json.dump(data, fh, separators=(",", ":"))
    rc, out = tlc.run("MCSynced", env={"MODEL": path}, scratch=scratch, heap="3g")
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        out = _EDGE.sub("", out)
        out = out[out.find("Error:"):]
        raise tlc.TLCError(f"model {path} (exit {rc}):\n{re.sub(r"\n+", "\n", out)[:9000]}")
    g = Graph()
    start = None
    for a1, a2, i, b1, b2 in _EDGE.findall(out):
        if start is None:
            start = (a1, a2)
        g.add((a1, a2), int(i), (b1, b2))
    gen, distinct = tlc.counts(out)
    return g, start, {"states": distinct, "transitions": gen}


# --------------------------------------------------------------------- replay


def perform(w, ev):
    a = ev[0]
    if a == "open":
        w.open(ev[1])
    elif a == "op":
        if ev[1] > len(w.hnds):
            raise Dead  # the code chose another of the allowed results than the walk
        w.op(ev[1], ev[2], peek=False, nh=ev[4], **copy.deepcopy(ev[3]))
    elif a == "ext":
        w.ext(ev[1], ev[2])
    elif a == "oin":
        w.oin(ev[1])
    elif a == "oout":
        w.oout(ev[1])
    elif a == "cin":
        w.cin(ev[1])
    elif a == "cout":
        w.cout()
    elif a == "cap":
        w.setcap(ev[1])


REL = {"C01": ["disk"], "C02": ["res"], "C03": ["res", "disk"], "C04": ["disk", "res"],
       "C05": ["res", "disk", "touch"], "C06": ["res", "disk"],
       "C07": ["res", "disk", "touch", "size", "cap", "bound"],
       "C15": ["size", "bound", "cap", "res", "disk"], "C17": ["touch", "disk"], "C18": ["res", "disk"]}


def job(spec):
    prop, fam_name, kind, seed, big, length = spec
    fam = BY_NAME[fam_name]
    rng = random.Random(f"{prop}/{fam_name}/{kind}/{seed}/model")
    world.arm()
    root = scratch_root()
    store = fam.store(root)
    try:
        out = {"stats": {"states": 0, "transitions": 0, "traces": 0, "cut": 0}, "events": 0, "viol": [],
               "nviol": 0, "ops": {}, "sample": [], "model_states": 0, "model_transitions": 0,
               "pairs": 0, "pairs_replayed": 0}
        for n, model in enumerate(MODELS[prop](kind, fam.strat, big)):
            intern = values.Interner()
            cls = fam.cls(kind)
            cap = model.cap
            if cap is None:
                cap = cls.get_buffer_capacity() if fam.strat != "none" else 0
            graph, start, stats = explore(model, fam, intern, root, cap)
            out["model_states"] += stats["states"]
            out["model_transitions"] += stats["transitions"]
            traces, done, crashes = [], set(), []
            for walk in graph.tours(start, rng, length):
                w = World(fam, kind, store, intern, model.disk, REL[prop], lax=True,
                          cap=model.cap if fam.strat != "none" else None)
                try:
                    for ev in model.setup:
                        perform(w, ev)
                    for at, i in walk:
                        for ev in flat(model.events[i - 1]):
                            perform(w, ev)
                        done.add((at, i))
                    unwind(w)
                except Dead:
                    pass
                except Exception:  # noqa: BLE001
                    crashes.append(traceback.format_exc())
                    world.reload_library()
                traces.append(w.finish())
            out["pairs"] += sum(len(ev) for ev in graph.next.values())
            out["pairs_replayed"] += len(done)
            stats, bad, dis = tlc.validate(traces, intern, root)
            if crashes and not bad:
                raise RuntimeError(f"driver: {spec}: {crashes[0]}")
            for k in out["stats"]:
                out["stats"][k] += stats[k]
            out["events"] += sum(len(t["ev"]) for t in traces)
            for t in traces:
                for e in t["ev"]:
                    k = e.get("op", e["a"])
                    out["ops"][k] = out["ops"].get(k, 0) + 1
            for t, l, cl in bad[:5]:
                e = traces[t]["ev"][l]
                out["viol"].append({
                    "key": f"{fam_name}:{'+'.join(cl)}:{e.get('op', e['a'])}", "clauses": cl, "event": l,
                    "shown": seq.show(traces[t], intern, l), "trace": traces[t],
                    "atoms": [repr(v) for v in intern.vals], "job": list(spec), "model": n})
            out["nviol"] += len(bad)
        return out
    finally:
        store.close()
        shutil.rmtree(root, ignore_errors=True)


def unwind(w):
    """Leave all contexts so that the next walk starts from scratch."""
    while w.cctx:
        w.cout()
    depth = {}
    for e in w.events:
        if e["a"] == "oin":
            depth[e["o"]] = depth.get(e["o"], 0) + 1
        elif e["a"] == "oout":
            depth[e["o"]] -= 1
    for o, n in depth.items():
        for _ in range(n):
            w.oout(o)
