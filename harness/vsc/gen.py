"""Random programs over collections.

The generator keeps a plain shadow of the expected content only to pick
meaningful arguments and to avoid handles that are no longer attached; it never
judges anything.
"""

import copy
import json

from .backends import GARBAGE, MISSING
from .world import OPS, UNSET, World, wrapped

KEYS = ["a", "b", "c", "d"]
ODD_KEYS = ["", "a b", "é", "0", "None", "x" * 5]
SCALARS = [None, True, False, 0, 1, 2, -3, 1.0, 0.5, "", "x", "ab", "é"]


class Values:
    def __init__(self, rng, dots=True, depth=3, keys=None, scalars=None, large=0.015):
        self.rng = rng
        self.keys = list(keys or (KEYS + KEYS + KEYS + ODD_KEYS + (["a.b"] if dots else [])))
        self.scalars = list(scalars or SCALARS)
        self.depth = depth
        self.large = large  # the share of large containers

    def key(self):
        return self.rng.choice(self.keys)

    def scalar(self):
        return self.rng.choice(self.scalars)

    def value(self, depth=None):
        depth = self.depth if depth is None else depth
        r = self.rng.random()
        if depth <= 0 or r < 0.5:
            return self.scalar()
        if r > 1 - self.large / 3:
            v = self.value(1)
            for _ in range(self.rng.randint(3, 7)):
                v = [v] if self.rng.random() < 0.5 else {self.key(): v}
            return v
        if r < 0.75:
            return self.dict(depth)
        return self.list(depth)

    def dict(self, depth=None):
        depth = self.depth if depth is None else depth
        d = {self.key(): self.value(depth - 1) for _ in range(self.rng.randint(0, 3))}
        if self.rng.random() < self.large:
            d.update((f"k{i}", self.scalar()) for i in range(self.rng.randint(5, 20)))
        return d

    def list(self, depth=None):
        depth = self.depth if depth is None else depth
        x = [self.value(depth - 1) for _ in range(self.rng.randint(0, 3))]
        if self.rng.random() < self.large:
            x += [self.scalar() for i in range(self.rng.randint(5, 20))]
        return x

    def container(self, kind, depth=None):
        return self.dict(depth) if kind == 2 else self.list(depth)


def kind(v):
    return 2 if isinstance(v, dict) else 1 if isinstance(v, list) else 0


def at(v, path):
    for x in path:
        v = v[x]
    return v


def kinds_along(v, path):
    out = [kind(v)]
    for x in path:
        try:
            v = v[x]
        except (KeyError, IndexError, TypeError):
            return out
        out.append(kind(v))
    return out


def has_path(v, path):
    for x in path:
        if isinstance(v, dict):
            if x not in v:
                return False
        elif isinstance(v, list):
            if not (isinstance(x, int) and 0 <= x < len(v)):
                return False
        else:
            return False
        v = v[x]
    return True


class Handle:
    __slots__ = ("o", "path", "ok")

    def __init__(self, o, path):
        self.o, self.path, self.ok = o, path, True


DICT_READS = ["getitem", "get", "contains", "len", "bool", "iter", "keys", "values", "items",
              "call", "repr", "str", "eq", "ne"]
LIST_READS = ["getitem", "getslice", "contains", "len", "bool", "iter", "reversed", "call", "repr",
              "str", "eq", "ne", "lt", "le", "gt", "ge", "index", "count"]
DICT_MUTS = ["setitem", "setitem", "setitem", "delitem", "pop", "popitem", "clear", "update",
             "update", "setdefault", "reset"]
LIST_MUTS = ["setitem", "setitem", "append", "append", "insert", "extend", "iadd", "delitem",
             "remove", "pop", "clear", "reverse", "reset", "setslice", "delslice"]


class Program:
    """Generates and executes one random program in a World."""

    def __init__(self, world, rng, vals, retain=True, peek=0.5, synced_args=0.08, keep_shape=0.5,
                 forms=0.0, retained=0.35):
        self.w, self.rng, self.vals = world, rng, vals
        self.retain, self.peek = retain, peek
        self.synced_args = synced_args
        self.keep_shape = keep_shape
        self.hs = []          # Handle per world handle
        self.ofile = []       # file of each object
        self.init = []
        self.octx = []
        self.nc = 0
        self.bufc = {}
        self.fails = 0
        self.forms, self.retained = forms, retained
        self.removed = []     # children that were just removed by pop, popitem or del
        self.rooth = []       # root handle of each object

    # ------------------------------------------------------------- shadow
    def buffered(self, o):
        return self.octx[o - 1] > 0 or self.nc > 0

    def disk(self, f, o=None):
        d = self.w.store.read(f)
        if d is MISSING or d is GARBAGE:
            d = self.init[o - 1] if o else ({} if self.w.kind == 2 else [])
        return d

    def logical(self, o):
        f = self.ofile[o - 1]
        if self.buffered(o) and f in self.bufc:
            return self.bufc[f]
        return self.disk(f, o)

    def snapshot(self):
        return {o: copy.deepcopy(self.logical(o)) for o in range(1, len(self.ofile) + 1)}

    def reattach(self, before):
        for h in self.hs:
            if h.ok and h.path and h.o in before:
                now = self.logical(h.o)
                if not has_path(now, h.path) or kinds_along(now, h.path) != kinds_along(
                    before[h.o], h.path
                ):
                    h.ok = False

    def live(self, nested=None):
        return [
            i + 1 for i, h in enumerate(self.hs)
            if h.ok and has_path(self.logical(h.o), h.path)
            and (nested is None or bool(h.path) == nested)
        ]

    # ------------------------------------------------------------- events
    def open(self, f, init=UNSET, vh=None, vw=()):
        if vh:
            init = wrapped(copy.deepcopy(self.node(vh)), vw)
            self.w.open(f, vh=vh, vw=vw)
        else:
            self.w.open(f, init)
        self.ofile.append(f)
        self.octx.append(0)
        self.init.append({} if self.w.kind == 2 else [])
        if init is not UNSET:
            self.init[-1] = copy.deepcopy(init)
        self.hs.append(Handle(len(self.ofile), []))
        self.rooth.append(len(self.hs))
        return len(self.ofile)

    def root(self, o):
        return self.rooth[o - 1]

    def retire(self, o):
        """Do not use object o any more."""
        for h in self.hs:
            if h.o == o:
                h.ok = False

    def alive(self):
        """The objects in use."""
        return [o for o in range(1, len(self.ofile) + 1) if self.hs[self.rooth[o - 1] - 1].ok]

    def reopen(self, o, init=UNSET):
        """Drop object o; a new one takes its place."""
        self.retire(o)
        self.removed = []
        self.w.drop(o, [i + 1 for i, h in enumerate(self.hs) if h.o == o])
        return self.open(self.ofile[o - 1], init)

    def fail(self, h):
        """An operation of an unbuffered object whose save fails."""
        o = self.hs[h - 1].o
        if self.buffered(o) or self.w.store.read(self.ofile[o - 1]) in (MISSING, GARBAGE):
            return
        if isinstance(self.node(h), dict):
            self.w.fail(h, self.rng.choice(["setitem", "setdefault", "update"]), "zz")
        else:
            self.w.fail(h, self.rng.choice(["append", "extend", "iadd"]))

    def ext(self, f, data=None, how=None):
        before = self.snapshot()
        old = self.w.store.read(f)
        if data is None:
            for _ in range(20):
                if old is not MISSING and self.rng.random() < self.keep_shape:
                    data = self.mutate(copy.deepcopy(old))
                else:
                    data = self.vals.container(self.w.kind)
                if data != old or repr(data) != repr(old):
                    break
            else:
                return
        if how is None:
            how = self.rng.randint(0, 1)
        if how == 2 and (old is MISSING or old is GARBAGE
                         or len(json.dumps(old)) == len(json.dumps(data))):
            how = 1
        self.w.ext(f, data, how)
        self.reattach(before)

    def mutate(self, v):
        """Change a document somewhere: any old value to any new value."""
        paths = []

        def walk(x, p):
            if isinstance(x, dict):
                for k in x:
                    paths.append(p + [k])
                    walk(x[k], p + [k])
            elif isinstance(x, list):
                for i in range(len(x)):
                    paths.append(p + [i])
                    walk(x[i], p + [i])

        walk(v, [])
        r = self.rng.random()
        if not paths or r < 0.25:
            conts = [[]] + [p for p in paths if kind(at(v, p))]
            c = at(v, self.rng.choice(conts))
            if isinstance(c, dict):
                c[self.vals.key()] = self.vals.value(2)
            else:
                c.insert(self.rng.randint(0, len(c)), self.vals.value(2))
            return v
        p = self.rng.choice(paths)
        parent = at(v, p[:-1])
        if r < 0.4:
            del parent[p[-1]]
        else:
            parent[p[-1]] = self.rng.choice(
                [lambda: None, self.vals.scalar, lambda: self.vals.dict(2), lambda: self.vals.list(2),
                 lambda: twin(parent[p[-1]], self.rng)]
            )()
        return v

    def op(self, h, op, nh=False, **args):
        hd = self.hs[h - 1]
        o, f = hd.o, self.ofile[hd.o - 1]
        before = self.snapshot()
        content = copy.deepcopy(before[o])
        node = at(content, hd.path)
        peek = self.rng.random() < self.peek
        gone = self.children_at(hd, node, op, args)
        res = self.w.op(h, op, peek=peek, nh=nh, **args)
        failed = res[0] in ("e", "be")
        if not failed:
            self.removed += gone
            if op == "popitem" and isinstance(self.w.last_raw, tuple):
                self.removed += self.w.last_raw[1:]
            elif op == "pop" and "k" in args and isinstance(args["k"], str) and args["k"] in node:
                self.removed.append(self.w.last_raw)
            elif op == "pop" and "k" not in args:
                self.removed.append(self.w.last_raw)
        if res[0] == "be" or (failed and "MetadataError" in res[1]):
            self.conflict()
            return res
        # shadow effect
        if self.buffered(o) and f not in self.bufc:
            self.bufc[f] = before[o]
        if not failed and op not in ("getitem", "get", "aget"):
            touched = self.apply(content, node, hd.path, op, args, res, before)
            if touched is not None and self.buffered(o):
                self.bufc[f] = content
            if touched is not None:
                for g in self.hs:
                    if g.ok and g.o == o and len(g.path) > len(hd.path) and (
                        g.path[: len(hd.path)] == hd.path
                    ) and (touched == "all" or touched(g.path[len(hd.path)])):
                        g.ok = False
        self.reattach(before)
        if nh and res[0] == "k":
            key = args["k"] if "k" in args else args["i"]
            if kind(node) == 1 and key < 0:
                key += len(node)
            self.hs.append(Handle(o, hd.path + [key]))
        return res

    def children_at(self, hd, node, op, args):
        """The retained child objects that del is about to remove."""
        if op not in ("delitem", "adel"):
            return []
        key = args["k"] if "k" in args else args["i"]
        if kind(node) == 1 and isinstance(key, int) and key < 0:
            key += len(node)
        path = hd.path + [key]
        return [self.w.hnds[i] for i, g in enumerate(self.hs)
                if g.ok and g.o == hd.o and g.path[: len(path)] == path]

    def apply(self, content, node, path, op, args, res, before):
        """Apply a successful op to the shadow; what did it detach?"""
        from .world import READS

        if op in READS:
            return None
        a = copy.deepcopy(args)
        if "vh" in a:
            hv = self.hs[a["vh"] - 1]
            a["v"] = wrapped(copy.deepcopy(at(before[hv.o], hv.path)), a.get("vw", ()))
        n = len(node)
        try:
            if op == "aset":
                node[a["k"]] = a["v"]
                return lambda x: x == a["k"]
            if op == "adel":
                del node[a["k"]]
                return lambda x: x == a["k"]
            if op == "reset":
                if isinstance(node, dict):
                    node.clear()
                    node.update(a["v"])
                else:
                    node[:] = a["v"]
                return "all"
            if op == "pop" and isinstance(node, dict):
                node.pop(a["k"], None)
                return lambda x: x == a["k"]
            if op == "popitem":
                k = self.w.intern.vals[res[1] - 1]
                node.pop(k, None)
                return lambda x: x == k
            if op == "remove":
                i = node.index(a["v"])
                del node[i]
                return lambda x: x >= i
            OPS[op](node, a, a.get("v", UNSET))
        except Exception:  # noqa: BLE001  (the real object disagreed; be careful)
            return "all"
        if isinstance(node, dict):
            if op in ("setitem", "delitem"):
                return lambda x: x == a["k"]
            if op == "setdefault":
                return lambda x: False
            if op == "update":
                ks = set(dict(a.get("v", {}))) | set(a.get("kw", {}))
                return lambda x: x in ks
            return "all"
        if op in ("append", "extend", "iadd"):
            return lambda x: False
        if op in ("setitem",):
            i = a["i"] + (n if a["i"] < 0 else 0)
            return lambda x: x == i
        if op in ("delitem", "pop"):
            i = a.get("i", -1)
            i += n if i < 0 else 0
            return lambda x: x >= i
        if op == "insert":
            i = a["i"] + (n if a["i"] < 0 else 0)
            i = max(0, min(i, n))
            return lambda x: x >= i
        return "all"

    def conflict(self):
        self.bufc.clear()
        self.fails += 1
        for h in self.hs:
            if h.path:
                h.ok = False

    def _exit(self, before, res):
        if res[0] != "ok":
            self.conflict()
        for f in list(self.bufc):
            if not any(self.ofile[o - 1] == f and self.buffered(o)
                       for o in range(1, len(self.ofile) + 1)):
                del self.bufc[f]
        self.reattach(before)

    def bind(self, o, f):
        """Point object o at the existing file f."""
        old = self.ofile[o - 1]
        if f == old or self.w.store.read(f) in (MISSING, GARBAGE):
            return
        if self.w.bind(o, f)[0] != "ok":
            self.conflict()
            return
        if self.buffered(o):
            self.bufc.pop(old, None)
        self.ofile[o - 1] = f
        for h in self.hs:
            if h.path and self.ofile[h.o - 1] in (old, f):
                h.ok = False

    def oin(self, o):
        hs = [h for h in self.live(nested=True) if self.hs[h - 1].o == o]
        self.w.oin(o, self.rng.choice(hs) if hs and self.rng.random() < 0.3 else None)
        self.octx[o - 1] += 1

    def oout(self, o):
        before = self.snapshot()
        self.octx[o - 1] -= 1
        self._exit(before, self.w.oout(o, self.rng.random() < 0.15))

    def cin(self, cap=None):
        if self.w.cin(cap)[0] == "ok":
            self.nc += 1
            return True
        self.conflict()
        return False

    def cout(self):
        before = self.snapshot()
        self.nc -= 1
        self._exit(before, self.w.cout(self.rng.random() < 0.15))

    def setcap(self, n):
        if self.w.setcap(n)[0] != "ok":
            self.conflict()

    def unwind(self):
        while self.nc:
            self.cout()
        for o in self.alive():
            while self.octx[o - 1]:
                self.oout(o)

    # ---------------------------------------------------- random arguments
    def somekey(self, node, present=0.7):
        if node and self.rng.random() < present:
            return self.rng.choice(list(node))
        return self.vals.key()

    def idx(self, node):
        n = len(node)
        r = self.rng.random()
        if n and r < 0.8:
            return self.rng.randint(-n, n - 1)
        return self.rng.choice([-n - 1, n, n + 2, -n - 3, 0, -1])

    def slc(self, node):
        n = len(node)

        def b():
            return None if self.rng.random() < 0.3 else self.rng.randint(-n - 2, n + 2)

        st = self.rng.choice([None, None, None, 1, 2, -1, -2, 3])
        if self.rng.random() < 0.03:
            st = 0
        return [b(), b(), st]

    def elem(self, node):
        """A value likely to be equal to an element."""
        vals = list(node.values()) if isinstance(node, dict) else list(node)
        if vals and self.rng.random() < 0.6:
            v = copy.deepcopy(self.rng.choice(vals))
            return twin(v, self.rng) if self.rng.random() < 0.2 else v
        return self.vals.value(1)

    def operand(self, node):
        r = self.rng.random()
        if r < 0.4:
            return copy.deepcopy(node)
        if r < 0.7:
            return self.mutate(copy.deepcopy(node))
        if r < 0.9:
            return self.vals.container(kind(node), 2)
        return self.vals.value(2)

    def args(self, node, op, h):
        """Arguments for op on the container node."""
        rng, V = self.rng, self.vals
        d = isinstance(node, dict)
        a = {}
        if op in ("eq", "ne", "lt", "le", "gt", "ge"):
            live = self.live()
            if rng.random() < 0.25 and live:
                a["vh"] = rng.choice(live)
            else:
                a["v"] = self.operand(node)
                if rng.random() < 0.25:
                    a["swap"] = True
            return a
        if d:
            if op in ("getitem", "delitem", "contains", "get", "pop", "setdefault", "setitem",
                      "aget", "aset", "adel"):
                a["k"] = self.somekey(node, 0.75 if op not in ("setitem", "setdefault") else 0.5)
                if op in ("getitem", "delitem", "contains", "get", "pop") and rng.random() < 0.04:
                    a["k"] = rng.choice([1, None, [], {}])
            if op in ("get", "pop", "setdefault") and rng.random() < 0.5:
                a["v"] = V.value(2)
            if op in ("setitem", "aset"):
                a["v"] = V.value()
            if op == "update":
                r = rng.random()
                if r < 0.5:
                    a["v"] = V.dict()
                elif r < 0.65:
                    a["v"] = [[V.key(), V.value(2)] for _ in range(rng.randint(0, 3))]
                elif r < 0.7:
                    a["v"] = rng.choice([5, 0, False, 0.0, "ab", [1], ["ab"], [[1]], [["a", 1, 2]], "", ["a"],
                                         [[[], 1]], []])
                if rng.random() < 0.4:
                    a["kw"] = {k: V.value(1) for k in rng.sample(KEYS, rng.randint(0, 2))}
                if rng.random() < 0.03:
                    a["kw"] = {rng.choice(["other", "self_", "key", "data"]): V.value(1)}
            if op == "reset":
                a["v"] = V.dict() if rng.random() < 0.9 else rng.choice([[], None, 5, 0, False, "", "ab", [["a", 1]]])
        else:
            if op in ("getitem", "setitem", "delitem", "insert"):
                a["i"] = self.idx(node)
                if rng.random() < 0.03 and op != "getitem":
                    a["i"] = "a"
            if op == "pop" and rng.random() < 0.5:
                a["i"] = self.idx(node)
            if op in ("getslice", "setslice", "delslice"):
                a["sl"] = self.slc(node)
            if op in ("setitem", "append", "insert"):
                a["v"] = V.value()
            if op == "setslice":
                r = rng.random()
                if r < 0.75:
                    a["v"] = V.list()
                    st = a["sl"][2]
                    if st not in (None, 1, 0) and rng.random() < 0.7:
                        m = len(range(len(node))[slice(*a["sl"])])
                        a["v"] = [V.value(1) for _ in range(m)]
                else:
                    a["v"] = rng.choice([5, 0, False, None, "ab", {"a": 1, "b": 2}, "", {}])
            if op in ("extend", "iadd"):
                a["v"] = V.list() if rng.random() < 0.85 else rng.choice([5, 0, False, None, "ab", {"a": 1}, {}, "", 0.5])
            if op in ("remove", "contains", "count", "index"):
                a["v"] = self.elem(node)
            if op == "index" and rng.random() < 0.5:
                a["lo"] = rng.randint(-len(node) - 1, len(node) + 1)
                if rng.random() < 0.6:
                    a["hi"] = rng.randint(-len(node) - 1, len(node) + 1)
            if op == "reset":
                a["v"] = V.list() if rng.random() < 0.9 else rng.choice([{}, None, 5, 0, False, "", "ab"])
        if "v" in a and op in ("setitem", "append", "insert", "setdefault", "aset", "update", "reset",
                               "extend", "iadd", "setslice") and rng.random() < self.synced_args:
            live = self.live()
            if live:
                hv = rng.choice(live)
                kv = kind(at(self.logical(self.hs[hv - 1].o), self.hs[hv - 1].path))
                if rng.random() < 0.4:
                    del a["v"]
                    outer = (2 if op == "update" else kind(node) if op == "reset"
                             else 1 if op in ("extend", "iadd", "setslice") else rng.choice([1, 2]))
                    a["vh"], a["vw"] = hv, self.wrapping(outer)
                    if outer == 2 and op != "setslice" and rng.random() < 0.3:
                        a["form"] = (rng.choice(["odict", "chain", "udict", "proxy"])
                                     if op == "update" else "odict")
                    return a
                if op not in ("update", "reset") or kv == kind(node):
                    if op not in ("extend", "iadd", "setslice") or kv == 1:
                        del a["v"]
                        a["vh"] = hv
        if "v" in a and self.forms and rng.random() < self.forms:
            f = self.form(op, a["v"], d)
            if f:
                a["form"] = f
        return a

    def wrapping(self, outer):
        """Containers around an operand, from the inside to the outside."""
        ks = [1, 2] if self.rng.random() < 0.3 else []
        self.rng.shuffle(ks)
        return [None if k == 1 else self.vals.key() for k in ks[:1] + [outer]]

    def form(self, op, v, d):
        """Another way of passing the same data."""
        if op in ("setitem", "append", "insert", "setdefault", "aset", "setslice", "reset"):
            if isinstance(v, dict):
                return None if op == "setslice" else "odict"
            if isinstance(v, list):
                if all(type(x) is int and 0 <= x < 256 for x in v) and self.rng.random() < 0.7:
                    return "bytes"
                return "tuple"
        if op in ("extend", "iadd") and isinstance(v, list):
            return self.rng.choice(["tuple", "gen", "iter"])
        if op == "update" and isinstance(v, dict):
            return "odict"
        if op == "update" and isinstance(v, list) and all(
                isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) for x in v):
            return self.rng.choice(["pairs", "zip", "gen", "tuple"])
        return None

    def attr_ok(self, k):
        """May attribute syntax be used for key k?"""
        cls = self.w.fam.cls(2)
        return not (k.startswith("__") or hasattr(cls, k) or k in protected(self.w))

    def node(self, h):
        hd = self.hs[h - 1]
        return at(self.logical(hd.o), hd.path)

    def pick_handle(self, start=None):
        """A root or nested handle, retained or freshly navigated."""
        rng = self.rng
        r = rng.random()
        if self.retain and r < self.retained and start is None:
            live = self.live(nested=True)
            if live:
                return rng.choice(live)
        roots = self.live(nested=False)
        h = start or rng.choice(roots)
        while rng.random() < 0.55:
            node = self.node(h)
            ks = list(node) if isinstance(node, dict) else list(range(len(node)))
            ks = [k for k in ks if kind(node[k])]
            if not ks:
                break
            k = rng.choice(ks)
            if isinstance(node, dict):
                res = self.op(h, rng.choice(["getitem", "getitem", "getitem", "get"]), nh=True, k=k)
            else:
                if rng.random() < 0.2:
                    k -= len(node)
                res = self.op(h, "getitem", nh=True, i=k)
            if res[0] != "k":
                return None
            if not self.hs[-1].ok:
                return None
            h = len(self.hs)
        return h

    def random_op(self, p_read=0.4, muts=None, attr=False, reads=None, handle=None, readers=()):
        """One random operation; readers is a set of objects that only read."""
        h = self.pick_handle(handle)
        if h is None:
            return None
        node = self.node(h)
        d = isinstance(node, dict)
        if self.rng.random() < p_read or self.hs[h - 1].o in readers:
            op = self.rng.choice(reads[2 if d else 1] if reads else DICT_READS if d else LIST_READS)
        else:
            op = self.rng.choice(muts[2 if d else 1] if muts else (DICT_MUTS if d else LIST_MUTS))
        if op in ("clear", "reset") and self.rng.random() < 0.5:
            op = "setitem" if d else "append"
        args = self.args(node, op, h)
        if d and self.w.fam.attr and op in ("getitem", "setitem", "delitem") and attr:
            k = args.get("k")
            if isinstance(k, str) and self.attr_ok(k) and self.rng.random() < 0.5:
                op = {"getitem": "aget", "setitem": "aset", "delitem": "adel"}[op]
        nh = op in ("getitem", "get", "setdefault", "aget") and self.retain and self.rng.random() < 0.4
        if nh and ("k" in args and not isinstance(args["k"], str)):
            nh = False
        if nh and (op in ("get", "setdefault") and args.get("k") not in node):
            nh = op == "setdefault"
        return self.op(h, op, nh=nh, **args)


def protected(w):
    """The internal names of attribute dicts: what instances carry or reserve."""
    names = {k for k in getattr(w.fam.cls(2), "_PROTECTED_KEYS", ()) if k.startswith("_")}
    for t in w.hnds:
        if t is not None:
            names.update(vars(t))
    return names


def twin(v, rng):
    """A value that Python considers equal but that is different JSON."""
    if v is True:
        return rng.choice([1, 1.0])
    if v is False:
        return rng.choice([0, 0.0])
    if isinstance(v, int) and abs(v) < 1000:
        return rng.choice([float(v)] + ([bool(v)] if v in (0, 1) else []))
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, dict):
        return {k: twin(x, rng) for k, x in v.items()}
    if isinstance(v, list):
        return [twin(x, rng) for x in v]
    return v
