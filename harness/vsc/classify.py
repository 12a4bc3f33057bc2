"""Checks that classifying values leaves no trace (C19).

An operation is a way into the library (a validator, a method of a collection)
applied to a value of a pool.  Its outcome as the first operation of a process
is compared with its outcomes in processes that performed other operations
before; ResolverTrace.tla judges.  Every operation uses a collection of its own.
"""

import array
import collections
import enum
import gc
import json
import os
import pickle
import random
import re
import shutil
import signal
import tempfile
import types
import unittest.mock

import numpy as np

from . import forbidden, tlc, world
from .backends import BY_NAME, scratch_root
from .forbidden import OwnMapping, OwnSequence, Pair, Str, _cell

# ----------------------------------------------------------------- the values


class D(dict):
    pass


class L(list):
    pass


class T(tuple):
    pass


class I(int):
    pass


class F(float):
    pass


class B(bytes):
    pass


class Num(enum.IntEnum):
    ONE = 1


class Word(enum.StrEnum):
    A = "a"


class MapSeq(collections.abc.Mapping, collections.abc.Sequence):
    """Both a mapping and a sequence."""

    def __getitem__(self, k):
        return {"a": 1, 0: "a"}[k]

    def __iter__(self):
        return iter(["a"])

    def __len__(self):
        return 1


class StrMap(str, collections.abc.Mapping):
    """Both a string and a mapping."""

    def __getitem__(self, k):
        return 1 if k == "a" else str.__getitem__(self, k)

    def __iter__(self):
        return iter(["a"])

    def __len__(self):
        return 1

    __hash__ = str.__hash__


class ListMap(list, collections.abc.Mapping):
    """Both a list and a mapping."""


class Registered(dict):
    pass


class Virtual:
    """A mapping by registration only."""

    def __getitem__(self, k):
        return {"a": 1}[k]

    def __iter__(self):
        return iter(["a"])

    def __len__(self):
        return 1

    def keys(self):
        return ["a"]

    def items(self):
        return [("a", 1)]

    def values(self):
        return [1]


collections.abc.Mapping.register(Virtual)


class VirtualSeq:
    """A sequence by registration only."""

    def __getitem__(self, i):
        return [1, 2][i]

    def __iter__(self):
        return iter([1, 2])

    def __len__(self):
        return 2


collections.abc.Sequence.register(VirtualSeq)


class Sized:
    """A collection, but neither a mapping nor a sequence."""

    def __iter__(self):
        return iter([1])

    def __len__(self):
        return 1

    def __contains__(self, x):
        return x == 1


class Proxy:
    """Pretends to be of the class of something else."""

    def __init__(self, target):
        object.__setattr__(self, "target", target)

    @property
    def __class__(self):
        return type(self.target)

    def __getattr__(self, k):
        return getattr(self.target, k)

    def __getitem__(self, k):
        return self.target[k]

    def __iter__(self):
        return iter(self.target)

    def __len__(self):
        return len(self.target)


class Array(np.ndarray):
    pass


def namesake(base):
    """A class that shares its name with others."""
    return type("Namesake", (base,), {"__module__": __name__})


NAMESAKES = {b: namesake(b) for b in (dict, list, str, int, float, object, tuple)}


def passing(base, *args):
    """An object of a class that exists only as long as the object."""
    return type("Passing", (base,), {})(*args)


def masked():
    return np.ma.masked_array([1, 2], mask=[0, 1])


PERMITTED = {
    "dict": lambda: {"a": 1}, "empty dict": dict, "list": lambda: [1, "x"], "empty list": list,
    "tuple": lambda: (1, 2), "empty tuple": tuple, "str": lambda: "ab", "empty str": str, "int": lambda: 1,
    "float": lambda: 0.5, "bool": lambda: True, "none": lambda: None, "nested": lambda: {"a": [{"b": (1, None)}]},
    "dict subclass": lambda: D(a=1), "list subclass": lambda: L([1]), "tuple subclass": lambda: T((1, 2)),
    "str subclass": lambda: Str("s"), "int subclass": lambda: I(3), "float subclass": lambda: F(1.5),
    "namedtuple": lambda: Pair(1, 2), "ordered dict": lambda: collections.OrderedDict(a=1),
    "defaultdict": lambda: collections.defaultdict(int, a=1), "counter": lambda: collections.Counter("aab"),
    "chainmap": lambda: collections.ChainMap({"a": 1}), "userdict": lambda: collections.UserDict(a=1),
    "userlist": lambda: collections.UserList([1]), "proxy": lambda: types.MappingProxyType({"a": 1}),
    "deque": lambda: collections.deque([1]), "own mapping": lambda: OwnMapping({"a": 1}),
    "own sequence": lambda: OwnSequence([1, 2]), "bytes": lambda: b"ab", "bytearray": lambda: bytearray(b"ab"),
    "bytes subclass": lambda: B(b"ab"), "range": lambda: range(3), "array": lambda: array.array("i", [1, 2]),
    "memoryview": lambda: memoryview(b"ab"), "intenum": lambda: Num.ONE, "strenum": lambda: Word.A,
    "mapping and sequence": MapSeq, "str and mapping": lambda: StrMap("s"), "list and mapping": lambda: ListMap([1]),
    "virtual mapping": Virtual, "virtual sequence": VirtualSeq, "sized": Sized,
    "np int": lambda: np.int64(3), "np float": lambda: np.float32(0.5), "np bool": lambda: np.bool_(True),
    "np str": lambda: np.str_("ab"), "np bytes": lambda: np.bytes_(b"ab"),
    "np array": lambda: np.arange(3), "np 2d": lambda: np.eye(2), "np 0d": lambda: np.array(3),
    "np 0d float": lambda: np.array(1.5), "np 0d str": lambda: np.array("ab"), "np empty": lambda: np.array([]),
    "np bool array": lambda: np.array([True]), "np str array": lambda: np.array(["a", "b"]),
    "np 0d bool": lambda: np.array(False), "np object dict": lambda: _cell(of={"a": 1}),
    "np object list": lambda: _cell(of=[1, 2]), "np object array": lambda: _cell(2, of={"a": 1}),
    "np object none": lambda: _cell(of=None), "np object str": lambda: _cell(of="x"),
    "np subclass": lambda: np.arange(2).view(Array), "np subclass 0d": lambda: np.array(2).view(Array),
    "np subclass complex": lambda: np.array([1j]).view(Array), "np matrix": lambda: np.matrix([[1, 2]]),
    "np masked": masked, "np masked 0d": lambda: np.ma.masked_array(3), "np masked constant": lambda: np.ma.masked,
    "np record": lambda: np.array([(1, 2.0)], dtype=[("a", int), ("b", float)]),
    "np record item": lambda: np.array([(1, 2.0)], dtype=[("a", int), ("b", float)])[0],
    "np recarray": lambda: np.rec.array([(1, 2.0)]), "np int 0d array of array": lambda: _cell(of=np.arange(2)),
}
ODD = {
    "mock dict": lambda: unittest.mock.MagicMock(spec=dict), "mock list": lambda: unittest.mock.MagicMock(spec=list),
    "mock str": lambda: unittest.mock.NonCallableMock(spec=str), "mock": lambda: unittest.mock.NonCallableMock(),
    "proxy of dict": lambda: Proxy({"a": 1}), "proxy of list": lambda: Proxy([1]), "proxy of str": lambda: Proxy("s"),
    "proxy of int": lambda: Proxy(1), "proxy of object": lambda: Proxy(object()),
    "proxy of np": lambda: Proxy(np.arange(2)), "proxy of np 0d": lambda: Proxy(np.array(1)),
    "passing dict": lambda: passing(dict, {"a": 1}), "passing list": lambda: passing(list, [1]),
    "passing str": lambda: passing(str, "s"), "passing object": lambda: passing(object),
    "passing int": lambda: passing(int, 1), "passing tuple": lambda: passing(tuple, (1,)),
    "key subclass": lambda: {Str("a"): 1}, "int key": lambda: {1: 2}, "none key": lambda: {None: 1},
    "np str key": lambda: {np.str_("a"): 1}, "bytes key": lambda: {b"a": 1}, "dotted": lambda: {"a.b": 1},
    "enum key": lambda: {Word.A: 1}, "intenum key": lambda: {Num.ONE: 1}, "dotted subclass": lambda: {Str("a.b"): 1},
}
for _b, _c in NAMESAKES.items():
    ODD[f"namesake {_b.__name__}"] = _c
    ODD[f"list of namesake {_b.__name__}"] = (lambda c: lambda: [c()])(_c)
    ODD[f"dict of namesake {_b.__name__}"] = (lambda c: lambda: {"a": c()})(_c)

POOL = {k: v for k, v in PERMITTED.items()}
POOL.update({"odd " + k: v for k, v in ODD.items()})
POOL.update({"bad " + i.what: i.make for i in forbidden.VALUES})
POOL.update({"in list " + k: (lambda m: lambda: [0, m()])(v) for k, v in {**PERMITTED, **ODD}.items()})
POOL.update({"in dict " + k: (lambda m: lambda: {"s": m()})(v) for k, v in {**PERMITTED, **ODD}.items()})

SYNCED = {"synced dict": ("json", 2), "synced list": ("json", 1), "synced attr dict": ("jsonattr", 2),
          "synced buf dict": ("buf", 2), "synced buf list": ("buf", 1), "synced mem dict": ("mem", 2),
          "synced mem list": ("mem", 1)}

# ------------------------------------------------------------ the ways into the library


ADDRESS = re.compile(r"0x[0-9a-f]+|id='\d+'")


def plain(x):
    """A description of data without calling anything that classifies it."""
    if type(x) is dict:
        return {repr(k): plain(v) for k, v in x.items()}
    if type(x) is list:
        return [plain(v) for v in x]
    return f"{type(x).__name__}:{ADDRESS.sub('', repr(x))}"


def seen(c):
    """What a collection contains afterwards."""
    out = [plain(world.strict(c()))]
    items = [c[k] for k in c] if world.kind_of(c) == 2 else [c[i] for i in range(len(c))]
    out.append([type(x).__name__ for x in items])
    return out


def d_setitem(c, v):
    c["k"] = v


def l_setitem(c, v):
    c[0] = v


def l_setslice(c, v):
    c[0:1] = v


def d_merge(c, v):
    h = c["m"]
    c.reset({"m": v})
    return h is c["m"]


def l_merge(c, v):
    h = c[1]
    c.reset([0, v])
    return h is c[1]


def d_merge_list(c, v):
    h = c["l"]
    c.reset({"m": 1, "l": v})
    return h is c["l"]


def d_iadd(c, v):
    c["l"] += v


def l_iadd(c, v):
    c += v


BASE = {2: {"a": 1, "m": {"x": 1}, "l": [1, {"y": 2}]}, 1: [1, {"x": 1}, [1, {"y": 2}]]}

WAYS = {
    2: {"setitem": d_setitem, "update": lambda c, v: c.update(v), "updatekey": lambda c, v: c.update({"k": v}),
        "updatekw": lambda c, v: c.update(k=v), "updatepairs": lambda c, v: c.update([("k", v)]),
        "setdefault": lambda c, v: c.setdefault("k", v), "reset": lambda c, v: c.reset(v),
        "resetkey": lambda c, v: c.reset({"k": v}), "eq": lambda c, v: bool(c == v),
        "eqkey": lambda c, v: bool(c == {"k": v}), "merge": d_merge, "mergelist": d_merge_list,
        "get": lambda c, v: type(c.get("none", v)).__name__, "childset": lambda c, v: c["m"].update(k=v),
        "childappend": lambda c, v: c["l"].append(v), "childextend": lambda c, v: c["l"].extend(v),
        "childreset": lambda c, v: c["m"].reset(v), "childiadd": d_iadd,
        "attr": lambda c, v: setattr(c, "k", v)},
    1: {"setitem": l_setitem, "setslice": l_setslice, "append": lambda c, v: c.append(v),
        "insert": lambda c, v: c.insert(0, v), "extend": lambda c, v: c.extend(v),
        "extendlist": lambda c, v: c.extend([v]), "iadd": l_iadd, "reset": lambda c, v: c.reset(v),
        "resetlist": lambda c, v: c.reset([v]), "eq": lambda c, v: bool(c == v), "eqlist": lambda c, v: bool(c == [v]),
        "contains": lambda c, v: bool(v in c), "lt": lambda c, v: bool(c < v), "merge": l_merge,
        "childset": lambda c, v: c[1].update(k=v), "childappend": lambda c, v: c[2].append(v),
        "childreset": lambda c, v: c[2].reset(v)},
}
FAMILIES = ["json", "jsonattr", "buf", "mem", "memattr", "bufattr", "mongo", "zarr"]


def validators():
    from synced_collections import validators as m
    from synced_collections.backends import collection_json as j

    out = {n: getattr(m, n) for n in ("no_dot_in_key", "require_string_key", "json_format_validator")}
    out["json_attr_dict_validator"] = j.json_attr_dict_validator
    return out


def encoder(v):
    from synced_collections.utils import SyncedCollectionJSONEncoder

    return json.dumps(v, cls=SyncedCollectionJSONEncoder)


def operations():
    """All operations: (family, kind, way, value)."""
    out = []
    values = list(POOL) + list(SYNCED)
    for v in values:
        for w in ("no_dot_in_key", "require_string_key", "json_format_validator", "json_attr_dict_validator",
                  "encoder"):
            out.append(("validator", 0, w, v))
        for f in FAMILIES:
            for k in (2, 1):
                out.append((f, k, "construct", v))
                for w in WAYS[k]:
                    if w != "attr" or BY_NAME[f].attr:
                        out.append((f, k, w, v))
    return out


class Places:
    """Fresh resources."""

    def __init__(self, root):
        self.root, self.n = root, 0
        self.stores = {}

    def store(self, fam):
        if fam not in self.stores:
            self.stores[fam] = BY_NAME[fam].store(self.root)
        return self.stores[fam]

    def collection(self, fam, kind, **kw):
        self.n += 1
        s = self.store(fam)
        return s, self.n, lambda: BY_NAME[fam].cls(kind)(**s.kwargs(self.n), **kw)


def value(places, name):
    if name in SYNCED:
        fam, kind = SYNCED[name]
        s, n, make = places.collection(fam, kind)
        s.write(n, BASE[kind])
        return make()
    return POOL[name]()


def perform(places, op):
    """Perform an operation; returns its outcome as text."""
    fam, kind, way, name = op
    try:
        v = value(places, name)
        if fam == "validator":
            if way == "encoder":
                return json.dumps(["ok", encoder(v)])
            validators()[way](v)
            return json.dumps(["ok"])
        if way == "construct":
            s, n, make = places.collection(fam, kind, data=v)
            c = make()
            r = None
        else:
            s, n, make = places.collection(fam, kind)
            s.write(n, BASE[kind])
            c = make()
            r = WAYS[kind][way](c, v)
        got = s.read(n)
        return json.dumps(["ok", plain(r), seen(c), plain(got) if isinstance(got, (dict, list)) else "none"])
    except Exception as err:  # noqa: BLE001
        return json.dumps(["raises", type(err).__name__])
    finally:
        v = c = None  # noqa: F841
        if "passing" in name:
            gc.collect(0)


def in_process(root, ops):
    """Perform operations in a process of their own; returns their outcomes."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            np.seterr(all="ignore")
            places = Places(tempfile.mkdtemp(dir=root))
            out = [perform(places, op) for op in ops]
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        finally:
            os._exit(7)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) != 0:
        raise RuntimeError(f"process ended with {status}: {ops[:3]}")
    return pickle.loads(b"".join(chunks))


def job(spec):
    prop, seed, nops, nruns = spec
    rng = random.Random(f"{prop}/{seed}")
    import warnings

    warnings.simplefilter("ignore")
    world.reload_library()
    for f in FAMILIES:
        BY_NAME[f].cls(1), BY_NAME[f].cls(2)
    root = scratch_root()
    try:
        every = operations()
        ops = choose(every, nops, rng)
        outcomes = []   # texts
        index = {}

        def number(text):
            if text not in index:
                index[text] = len(outcomes)
                outcomes.append(text)
            return index[text]

        fresh = [number(in_process(root, [op])[0]) for op in ops]
        traces = []
        n = len(ops)
        for _ in range(nruns):
            seq = rng.sample(range(n), n)
            traces.append([[i + 1, number(o)] for i, o in zip(seq, in_process(root, [ops[i] for i in seq]))])
        # again and again the same operation
        for _ in range(3):
            seq = [i for i in rng.sample(range(n), n // 3) for _ in range(2)]
            traces.append([[i + 1, number(o)] for i, o in zip(seq, in_process(root, [ops[i] for i in seq]))])
        path = os.path.join(root, "res.json")
        with open(path, "w") as fh:
            json.dump({"fresh": fresh, "traces": traces}, fh)
        rc, out = tlc.run("ResolverTrace", env={"TRACE": path}, scratch=root)
        stats, bad, _ = tlc.parse(rc, out, len(traces), path)
        kinds = {}
        for f, _, w, _ in ops:
            kinds[w] = kinds.get(w, 0) + 1
        res = {"stats": stats, "events": sum(len(t) for t in traces), "viol": [], "ops": kinds,
               "operations": n, "processes": n + len(traces), "outcomes": len(outcomes),
               "sample": [f"{' '.join(map(str, ops[i]))}: {outcomes[fresh[i]][:150]}" for i in range(4)]}
        for t, l, _ in bad[:5]:
            i, o = traces[t][l]
            res["viol"].append({
                "key": f"{ops[i - 1][3]}", "job": list(spec), "trace": traces[t][: l + 1],
                "shown": [f"after {l} operations on other collections:",
                          f"{ops[i - 1]}", f"first operation of a process: {outcomes[fresh[i - 1]][:600]}",
                          f"here: {outcomes[o][:600]}"]})
        res["nviol"] = len(bad)
        return res
    finally:
        shutil.rmtree(root, ignore_errors=True)


def choose(every, n, rng):
    """Operations; half of them concern few values, so that these meet in many ways."""
    names = rng.sample(sorted({o[3] for o in every}), 25)
    some = [o for o in every if o[3] in names]
    return rng.sample(some, min(len(some), n // 2)) + rng.sample(every, n - n // 2)
