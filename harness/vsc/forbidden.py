"""Data that collections must not accept."""

import collections
import copy
import datetime
import decimal
import enum
import fractions
import os
import pathlib
import types

import numpy as np

from .world import Item


class Opaque:
    pass


class Colour(enum.Enum):
    RED = 1


class Str(str):
    pass


class OwnMapping(collections.abc.Mapping):
    """A minimal user-defined mapping."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class OwnSequence(collections.abc.Sequence):
    """A minimal user-defined sequence."""

    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        return self.s[i]

    def __len__(self):
        return len(self.s)


Pair = collections.namedtuple("Pair", "a b")


def _cycle():
    x = [1]
    x.append({"a": x})
    return x


def _cell(*shape, of):
    a = np.empty(shape, dtype=object)
    a[...] = None
    a[tuple(0 for _ in shape)] = of
    return a


def items(table):
    return [Item(k, v) for k, v in table.items()]


# Objects that are not JSON-representable and not containers of JSON data either.
VALUES = items({
    "object": Opaque, "set": lambda: {1}, "empty set": set, "frozenset": lambda: frozenset("a"),
    "complex": lambda: 1j, "complex real": lambda: complex(1, 0),
    "decimal": lambda: decimal.Decimal(1), "fraction": lambda: fractions.Fraction(1, 2),
    "datetime": lambda: datetime.datetime(2020, 1, 1), "timedelta": lambda: datetime.timedelta(1),
    "path": lambda: pathlib.Path("a"), "enum": lambda: Colour.RED, "class": lambda: Opaque,
    "function": lambda: len, "lambda": lambda: (lambda: 0), "module": lambda: os,
    "ellipsis": lambda: ..., "notimplemented": lambda: NotImplemented, "slice": lambda: slice(1),
    "generator": lambda: (x for x in [1]), "iterator": lambda: iter([1]), "map": lambda: map(str, [1]),
    "keys view": lambda: {"a": 1}.keys(), "values view": lambda: {"a": 1}.values(),
    "namespace": lambda: types.SimpleNamespace(a=1), "exception": lambda: ValueError("x"),
    "userstring": lambda: collections.UserString("ab"), "cycle": _cycle,
    "np complex": lambda: np.complex64(1), "np longdouble": lambda: np.longdouble(1),
    "np datetime": lambda: np.datetime64("2020"), "np timedelta": lambda: np.timedelta64(1, "s"),
    "np complex array": lambda: np.array([1 + 2j]), "np complex 0d": lambda: np.array(1 + 2j),
    "np complex 2d": lambda: np.array([[1j, 0], [0, 1]]),
    "np longdouble array": lambda: np.array([1], dtype=np.longdouble),
    "np longdouble 0d": lambda: np.array(1, dtype=np.longdouble),
    "np datetime array": lambda: np.array(["2020"], dtype="M8[Y]"),
    "np void": lambda: np.void(b"ab"),
    "np object array": lambda: _cell(2, of=Opaque()), "np object 0d": lambda: _cell(of=Opaque()),
    "np object 2d": lambda: _cell(2, 2, of=Opaque()), "np set": lambda: _cell(1, of={1}),
})

# Keys that are not strings.
KEYS = items({
    "int key": lambda: 1, "zero key": lambda: 0, "float key": lambda: 0.5, "none key": lambda: None,
    "true key": lambda: True, "bytes key": lambda: b"a", "tuple key": lambda: ("a",),
    "empty tuple key": tuple, "frozenset key": lambda: frozenset("a"), "object key": Opaque,
    "np int key": lambda: np.int64(1), "enum key": lambda: Colour.RED, "class key": lambda: str,
    "userstring key": lambda: collections.UserString("no such key"),
})


def wrapped(bad, what):
    """Containers other than dict and list around forbidden content."""
    return items({
        f"tuple of {what}": lambda: (1, bad()),
        f"tuple of dict of {what}": lambda: ({"a": bad()},),
        f"namedtuple of {what}": lambda: Pair(1, bad()),
        f"deque of {what}": lambda: collections.deque([bad()]),
        f"userlist of {what}": lambda: collections.UserList([1, [bad()]]),
        f"own sequence of {what}": lambda: OwnSequence([bad()]),
        f"ordered dict of {what}": lambda: collections.OrderedDict(a=1, b=bad()),
        f"defaultdict of {what}": lambda: collections.defaultdict(list, a=[bad()]),
        f"userdict of {what}": lambda: collections.UserDict(a={"b": bad()}),
        f"own mapping of {what}": lambda: OwnMapping({"a": bad()}),
        f"chainmap of {what}": lambda: collections.ChainMap({"a": 1}, {"b": bad()}),
        f"proxy of {what}": lambda: types.MappingProxyType({"a": bad()}),
        f"np array of {what}": lambda: _cell(2, of=bad()),
        f"np 0d array of {what}": lambda: _cell(of=bad()),
    })


def keyed(bad, what):
    """Mappings other than dict with a forbidden key."""
    return items({
        f"ordered dict with {what}": lambda: collections.OrderedDict([("a", 1), (bad(), 2)]),
        f"userdict with {what}": lambda: collections.UserDict({bad(): 2}),
        f"own mapping with {what}": lambda: OwnMapping({bad(): 1}),
        f"chainmap with {what}": lambda: collections.ChainMap({"a": 1}, {bad(): 1}),
        f"proxy with {what}": lambda: types.MappingProxyType({"a": {bad(): 1}}),
        f"tuple of dict with {what}": lambda: (0, {bad(): 1}),
        f"np array of dict with {what}": lambda: _cell(1, of={bad(): 1}),
        f"np 0d array of dict with {what}": lambda: _cell(of={bad(): 1}),
    })


VALUES_ANY = (VALUES * 2 + wrapped(Opaque, "object") + wrapped(lambda: {1}, "set")
              + keyed(lambda: 1, "int key") + keyed(lambda: None, "none key")
              + keyed(lambda: ("a",), "tuple key"))

# Only forbidden in the attribute-access families.
DOTTED = ["a.b", ".", "a.", ".a", "..", "a.b.c", "é.x", " . "]
DOTTED_ITEMS = items({"str subclass with dot": lambda: Str("a.b"),
                      "np str with dot": lambda: np.str_("x.y")})
VALUES_ATTR = keyed(lambda: "a.b", "dotted key") + keyed(lambda: Str("."), "dotted str subclass")


def synced_dotted(root):
    """Synced collections without the restriction, holding dotted keys."""
    def make(nest):
        from synced_collections.backends.collection_json import JSONDict, JSONList

        n = len(os.listdir(root))
        if nest:
            return JSONList(os.path.join(root, f"foreign{n}.json"), data=[0, {"a.b": 1}])
        return JSONDict(os.path.join(root, f"foreign{n}.json"), data={"x": [{"a.b": 1}]})

    return [Item("JSONDict with dotted key", lambda: make(False)),
            Item("JSONList with dotted key", lambda: make(True))]


class Forbidden:
    def __init__(self, rng, vals, attr, root):
        self.rng, self.vals, self.attr = rng, vals, attr
        self.values = VALUES_ANY + (VALUES_ATTR * 2 + synced_dotted(root) if attr else [])

    def value(self):
        return self.rng.choice(self.values)

    def key(self):
        if self.attr and self.rng.random() < 0.5:
            return self.rng.choice(DOTTED + DOTTED_ITEMS)
        return self.rng.choice(KEYS)

    def plant(self, v):
        """Put one forbidden item somewhere inside the container v."""
        v = copy.deepcopy(v)
        spots = []

        def walk(x):
            spots.append(x)
            for y in x.values() if isinstance(x, dict) else x:
                if isinstance(y, (dict, list)):
                    walk(y)

        walk(v)
        # deep positions as often as shallow ones
        c = self.rng.choice([v, spots[-1], self.rng.choice(spots)])
        if isinstance(c, dict):
            old = list(c.items())
            c.clear()
            new = ((self.key(), self.vals.value(1)) if self.rng.random() < 0.5
                   else (self.vals.key(), self.value()))
            old = [p for p in old if p[0] != new[0]]
            old.insert(self.rng.randint(0, len(old)), new)
            c.update(old)
        else:
            c.insert(self.rng.randint(0, len(c)), self.value())
        return v

    def deep(self, kind=None):
        """A container with a forbidden item at depth 1 to 3."""
        r = self.rng.random()
        base = self.vals.container(kind or self.rng.choice([1, 2]), self.rng.choice([1, 2, 3]))
        if r < 0.3:
            return self.plant(base)
        inner = self.plant(self.vals.container(self.rng.choice([1, 2]), 1))
        if r < 0.6:
            inner = self.rng.choice([lambda x: [x], lambda x: {"k": x}, lambda x: [0, x, {}]])(inner)
        if isinstance(base, dict):
            base[self.vals.key()] = inner
        else:
            base.insert(self.rng.randint(0, len(base)), inner)
        return base

    def arg(self):
        """A forbidden value argument."""
        return self.value() if self.rng.random() < 0.4 else self.deep()

    def op(self, node):
        """An entry point of the container with one forbidden item: (op, arguments)."""
        rng, V = self.rng, self.vals
        if isinstance(node, dict):
            op = rng.choice(["setitem", "setitem", "setdefault", "setdefault", "update", "update",
                             "update", "reset", "aset"])
            if op == "aset" and not self.attr:
                op = "setitem"
            if op in ("setitem", "setdefault", "aset"):
                if rng.random() < 0.4 and not op == "aset":
                    return op, {"k": self.key(), "v": V.value(1)}
                if op == "aset" and rng.random() < 0.4:
                    return op, {"k": rng.choice(DOTTED), "v": V.value(1)}
                k = V.key()
                if op == "aset":
                    k = rng.choice(["a", "b", "c"])
                elif op == "setdefault" and k in node:
                    k = "new"
                return op, {"k": k, "v": self.arg()}
            if op == "reset":
                return op, {"v": self.deep(2) if rng.random() < 0.8 else self.value()}
            r = rng.random()
            if r < 0.4:
                return op, {"v": self.deep(2)}
            if r < 0.7:
                pairs = [[V.key(), V.value(1)] for _ in range(rng.randint(0, 2))]
                bad = [self.key(), V.value(1)] if rng.random() < 0.5 else ["z", self.arg()]
                pairs.insert(rng.randint(0, len(pairs)), bad)
                return op, {"v": pairs, **({"form": rng.choice(["pairs", "zip", "gen", "tuple"])}
                                           if rng.random() < 0.5 else {})}
            kw = {k: V.value(1) for k in rng.sample(["a", "b", "q"], rng.randint(0, 2))}
            kw["r"] = self.arg()
            if self.attr and rng.random() < 0.4:
                del kw["r"]
                kw[rng.choice(DOTTED)] = V.value(1)
            return op, {"kw": kw, **({"v": V.dict(1)} if rng.random() < 0.4 else {})}
        op = rng.choice(["setitem", "setslice", "append", "insert", "extend", "iadd", "reset"])
        if op == "setitem" and not node:
            op = "append"
        if op in ("setitem", "insert", "append"):
            a = {"v": self.arg()}
            if op == "setitem":
                a["i"] = rng.randint(-len(node), len(node) - 1)
            elif op == "insert":
                a["i"] = rng.randint(-len(node) - 1, len(node) + 1)
            return op, a
        if op == "reset":
            return op, {"v": self.deep(1) if rng.random() < 0.8 else self.value()}
        a = {"v": self.deep(1)}
        if op == "setslice":
            n = len(node)
            a["sl"] = [rng.randint(-n, n), rng.randint(-n, n), None]
            if rng.random() < 0.3:
                a["v"] = [self.value() if i == 0 else V.value(1) for i in range(len(node[::2]) or 1)]
                a["sl"] = [None, None, 2]
        elif rng.random() < 0.3:
            a["form"] = rng.choice(["gen", "iter", "tuple"])
        return op, a
