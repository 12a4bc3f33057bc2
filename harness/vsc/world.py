"""Execution of events on real collections and recording of what happened."""

import ast
import collections
import copy
import gc
import os
import signal
import sys
import threading
import types

from .backends import GARBAGE, MISSING, JSONStore
from .values import Bad

UNSET = object()
OP_LIMIT = 30.0  # seconds; an operation that runs longer counts as failed


class Dead(Exception):
    """The world cannot continue; what was recorded so far is judged."""


class Item:
    """A placeholder for a forbidden object inside an argument."""

    def __init__(self, what, make):
        self.what, self.make = what, make

    def __repr__(self):
        return f"<{self.what}>"


def dup(v):
    """A fresh copy of an argument; placeholders become the real objects."""
    if type(v) is dict:
        return {dup(k): dup(x) for k, x in v.items()}
    if type(v) in (list, tuple):
        return type(v)(dup(x) for x in v)
    return v.make() if isinstance(v, Item) else v


def wrapped(v, vw):
    """Put v into lists (None) and dicts (a key)."""
    for k in vw:
        v = [v] if k is None else {k: v}
    return v


class OpTimeout(Exception):
    """An operation did not return in time."""


def _alarm(signum, frame):
    raise OpTimeout("the operation does not return")


def arm():
    """Install the handler that turns a hanging operation into an exception."""
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGALRM, _alarm)


def limited(f, *args):
    if threading.current_thread() is not threading.main_thread():
        return f(*args)
    signal.setitimer(signal.ITIMER_REAL, OP_LIMIT)
    try:
        return f(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def reload_library():
    """Forget the library so that the next import starts from pristine classes."""
    for name in [m for m in sys.modules if m.split(".")[0] == "synced_collections"]:
        del sys.modules[name]


def is_synced(x):
    from synced_collections.data_types.synced_collection import SyncedCollection

    return isinstance(x, SyncedCollection)


def kind_of(x):
    """2 for dict-likes, 1 for list-likes, 0 otherwise."""
    from collections.abc import Mapping, Sequence

    if isinstance(x, Mapping):
        return 2
    if isinstance(x, Sequence) and not isinstance(x, (str, bytes)):
        return 1
    return 0


def plain(x):
    """Plain data of a result, through the public API only."""
    if is_synced(x):
        return plain(x())
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def strict(x):
    """Like plain, but anything that is not built-in data stays recognizable."""
    if type(x) is dict:
        return {k: strict(v) for k, v in x.items()}
    if type(x) is list:
        return [strict(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return Bad(f"not built-in: {type(x).__name__}")


def small(f):
    """The int returned by f, or -1 if it is not an int that TLC can represent."""
    try:
        n = f()
    except Exception:  # noqa: BLE001
        return -1
    return n if type(n) is int and abs(n) < 2**31 else -1


FORMS = {
    "iter": lambda v: iter(v),
    "gen": lambda v: (x for x in v),
    "bytes": lambda v: bytes(v),
    "bytearray": lambda v: bytearray(v),
    "pairs": lambda v: [tuple(x) for x in v],
    "zip": lambda v: zip([x[0] for x in v], [x[1] for x in v]),
    "odict": lambda v: collections.OrderedDict(v),
    "chain": lambda v: collections.ChainMap(v),
    "proxy": lambda v: types.MappingProxyType(v),
    "udict": lambda v: collections.UserDict(v),
    "ulist": lambda v: collections.UserList(v),
}


def _tuples(v):
    if isinstance(v, list):
        return tuple(_tuples(x) for x in v)
    if isinstance(v, dict):
        return {k: _tuples(x) for k, x in v.items()}
    return v


def slice_of(sl):
    return slice(*[None if x is None else x for x in sl])


# ---------------------------------------------------------------- operations
# Every operation is a function of the target and the event; v is the value
# argument (already resolved to the object to pass).


def _index(t, e, v):
    if "hi" in e:
        return t.index(v, e["lo"], e["hi"])
    if "lo" in e:
        return t.index(v, e["lo"])
    return t.index(v)


def _iadd(t, e, v):
    t0 = t
    t += v
    return "self" if t is t0 else t


def _setitem(t, e, v):
    t[e["k"] if "k" in e else e["i"]] = v


def _delitem(t, e, v):
    del t[e["k"] if "k" in e else e["i"]]


def _setslice(t, e, v):
    t[slice_of(e["sl"])] = v


def _delslice(t, e, v):
    del t[slice_of(e["sl"])]


def _get(t, e, v):
    return t.get(e["k"]) if v is UNSET else t.get(e["k"], v)


def _pop(t, e, v):
    if "i" in e:
        return t.pop(e["i"])
    if "k" in e:
        return t.pop(e["k"]) if v is UNSET else t.pop(e["k"], v)
    return t.pop()


def _setdefault(t, e, v):
    return t.setdefault(e["k"]) if v is UNSET else t.setdefault(e["k"], v)


def _update(t, e, v):
    kw = e.get("kw", {})
    return t.update(**kw) if v is UNSET else t.update(v, **kw)


def _cmp(name):
    import operator

    fwd = getattr(operator, name)
    swapped = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}[name]
    rev = getattr(operator, swapped)

    def f(t, e, v):
        return rev(v, t) if e.get("swap") else fwd(t, v)

    return f


def own(t, name):
    """The object's own attribute, wherever attribute access may lead."""
    return object.__getattribute__(t, name)


def _pget(t, e, v):
    a, b = getattr(t, e["k"]), own(t, e["k"])
    return a is b or bool(a == b)


def _pset(t, e, v):
    """Assign its own value to a protected attribute."""
    k, mine = e["k"], own(t, "__dict__")
    inherited = k not in mine
    a = own(t, k)
    setattr(t, k, a)
    if inherited:
        ok = k in mine
        mine.pop(k, None)
        return ok
    return own(t, k) is a


def _pdel(t, e, v):
    """Delete an attribute of the object, and put it back."""
    k, mine = e["k"], own(t, "__dict__")
    a = mine[k]
    try:
        delattr(t, k)
        return k not in mine
    finally:
        mine[k] = a


OPS = {
    "getitem": lambda t, e, v: t[e["k"] if "k" in e else e["i"]],
    "getslice": lambda t, e, v: t[slice_of(e["sl"])],
    "setitem": _setitem,
    "delitem": _delitem,
    "setslice": _setslice,
    "delslice": _delslice,
    "get": _get,
    "pop": _pop,
    "popitem": lambda t, e, v: t.popitem(),
    "clear": lambda t, e, v: t.clear(),
    "update": _update,
    "setdefault": _setdefault,
    "reset": lambda t, e, v: t.reset(v),
    "len": lambda t, e, v: len(t),
    "bool": lambda t, e, v: bool(t),
    "iter": lambda t, e, v: [x for x in t],
    "keys": lambda t, e, v: list(t.keys()),
    "values": lambda t, e, v: t.values(),
    "items": lambda t, e, v: t.items(),
    "call": lambda t, e, v: t(),
    "repr": lambda t, e, v: repr(t),
    "str": lambda t, e, v: str(t),
    "contains": lambda t, e, v: (e["k"] if "k" in e else v) in t,
    "eq": _cmp("eq"),
    "ne": _cmp("ne"),
    "lt": _cmp("lt"),
    "le": _cmp("le"),
    "gt": _cmp("gt"),
    "ge": _cmp("ge"),
    "append": lambda t, e, v: t.append(v),
    "insert": lambda t, e, v: t.insert(e["i"], v),
    "extend": lambda t, e, v: t.extend(v),
    "iadd": _iadd,
    "remove": lambda t, e, v: t.remove(v),
    "reverse": lambda t, e, v: t.reverse(),
    "reversed": lambda t, e, v: [x for x in reversed(t)],
    "index": _index,
    "count": lambda t, e, v: t.count(v),
    "aget": lambda t, e, v: getattr(t, e["k"]),
    "aset": lambda t, e, v: setattr(t, e["k"], v),
    "adel": lambda t, e, v: delattr(t, e["k"]),
    "types": lambda t, e, v: t,
    "pget": _pget,
    "pset": _pset,
    "pdel": _pdel,
}
READS = {"types", "pget", "pset", "pdel", "getitem", "getslice", "get", "contains", "len", "bool", "iter", "keys", "values",
         "items", "call", "repr", "str", "eq", "ne", "lt", "le", "gt", "ge", "reversed", "count",
         "index", "aget"}

BOOLS = {"pget", "pset", "pdel", "contains", "eq", "ne", "lt", "le", "gt", "ge", "bool"}
INTS = {"len", "count", "index"}
SEQS = {"iter", "keys", "values", "items", "reversed"}


class World:
    """One trace: real objects of one family on a few resources."""

    def __init__(self, fam, kind, store, intern, disk, rel, cap=None, lax=False, opts=None,
                 prop=None):
        self.fam, self.kind, self.store, self.intern = fam, kind, store, intern
        self.opts = opts or {}
        self.cls = fam.cls(kind)
        if self.opts.get("nothreads"):
            fam.cls(1).disable_multithreading()
            fam.cls(2).disable_multithreading()
        self.nfiles = len(disk)
        self.objs, self.hnds, self.ctxs = [], [], []
        self.cctx, self.octx = [], {}
        store.wipe()
        if isinstance(store, JSONStore):
            store.styled, store.relative = "style" in self.opts, "rel" in self.opts
            if store.relative:
                os.chdir(store.dir)
        for f, d in enumerate(disk, 1):
            if d is not MISSING:
                store.write(f, copy.deepcopy(d))
        self.buffered = fam.strat != "none"
        if self.buffered:
            self.default_cap = self.cls.get_buffer_capacity()
            if cap is not None:
                self.cls.set_buffer_capacity(cap)
        cap0 = self.cls.get_buffer_capacity() if self.buffered else 0
        self.sigs = [store.sig(f) for f in range(1, self.nfiles + 1)]
        self.hdr = {
            "fam": fam.name, "kind": kind, "strat": fam.strat, "nodot": fam.attr,
            "disk": [[] if d is MISSING else [intern.enc(d)] for d in disk],
            "cap": cap0, "rel": list(rel), "lax": lax, "opts": self.opts,
        }
        self.events = []
        self.nj = False  # TRUE: operations are recorded as not judged
        self.last_raw = self.last_exc = None
        self.held = []  # user-held containers: arguments and results
        self.recycle, self.args = None, {}

    # -- observation -------------------------------------------------------
    def _observe(self, ev, own=()):
        fs = []
        for f in range(1, self.nfiles + 1):
            sig = self.store.sig(f)
            if sig != self.sigs[f - 1] or f in own:
                self.sigs[f - 1] = sig
                d = self.store.read(f)
                if d is MISSING:
                    fs.append([f, 0, [0, 1], True])
                elif d is GARBAGE:
                    fs.append([f, 2, [0, 1], True])
                else:
                    fs.append([f, 1, self.intern.enc(d), True])
        if fs:
            ev["fs"] = fs
        if self.buffered:
            ev["sz"] = small(self.cls.get_current_buffer_size)
            ev["cap"] = small(self.cls.get_buffer_capacity)
        self.events.append(ev)

    def _exc(self, err):
        if type(err).__name__ == "BufferedError":
            names = {self.store.kwargs(f)["filename"]: f for f in range(1, self.nfiles + 1)}
            return ["be", sorted(names.get(x, 0) for x in err.files)]
        return ["e", [c.__name__ for c in type(err).__mro__]]

    # -- events ------------------------------------------------------------
    def open(self, f, init=UNSET, rejected=False, vh=None, vw=(), alias=False):
        """A new object; rejected: the data is forbidden, no object is expected.

        The data can be (or contain, see vw) another collection.
        """
        kw = self.store.kwargs(f, **({"write_concern": True} if self.opts.get("wc") else {}),
                               **({"alias": True} if alias else {}))
        if vh:
            kw["data"] = wrapped(self.hnds[vh - 1], vw)
            self.held.append(kw["data"])
        elif init is not UNSET:
            kw["data"] = dup(init)
            self.held.append(kw["data"])
        ini = init if init is not UNSET else ({} if self.kind == 2 else [])
        ev = {"a": "open", "f": f, "init": self.intern.enc(ini), "res": ["ok", 0]}
        if init is not UNSET or vh:
            ev["data"] = 1
        if vh:
            ev["vh"], ev["vw"] = vh, self._wrapping(vw)
        obj = None
        try:
            obj = limited(lambda: self.cls(**kw))
        except Exception as err:  # noqa: BLE001
            ev["res"] = self._exc(err)
        self._observe(ev)
        if (obj is None) != rejected:
            raise Dead
        if rejected:
            return None
        self.objs.append(obj)
        self.hnds.append(obj)
        return len(self.objs)

    def ext(self, f, data, how=0):
        self.store.write(f, copy.deepcopy(data), how)
        self._observe({"a": "ext", "f": f, "c": self.intern.enc(data), "res": ["ok", 0]}, own=(f,))

    def recycled(self, v):
        """Pass the object of an earlier argument, now with different content."""
        if self.recycle and type(v) in (dict, list):
            old = self.args.get(type(v))
            if old is not None and self.recycle.random() < 0.4:
                old.clear()
                old.update(v) if type(v) is dict else old.extend(v)
                return old
            self.args[type(v)] = v
        return v

    def remove(self, f):
        os.unlink(self.store.path(f))
        self._observe({"a": "del", "f": f, "res": ["ok", 0]}, own=(f,))

    def op(self, h, op, peek=True, nh=False, **args):
        """Perform op on handle h; returns the recorded result."""
        e = dict(args)
        t = self.hnds[h - 1]
        enc = self._encode_op(h, op, e)
        if self.nj:
            enc["nj"] = 1
        if "vh" in e:
            v = self.hnds[e["vh"] - 1]
            if e.get("vw"):
                v = wrapped(v, e["vw"])
                self.held.append(v)
                if e.get("form"):
                    v = FORMS[e["form"]](v)
                    self.held.append(v)
        elif "v" in e:
            v = self.recycled(dup(e["v"]))
            if isinstance(v, (dict, list)):
                self.held.append(v)
            if e.get("form") == "tuple":
                v = dup(_tuples(e["v"]))  # placeholders must not be converted
                self.held.append(v)
            elif e.get("form"):
                v = FORMS[e["form"]](v)
                self.held.append(v)
        else:
            v = UNSET
        if "k" in e:
            e["k"] = dup(e["k"])
        if "kw" in e:
            e["kw"] = dup(e["kw"])
            self.held.extend(x for x in e["kw"].values() if isinstance(x, (dict, list)))
        self.last_raw = None
        try:
            r = limited(OPS[op], t, e, v)
            self.last_raw = r
            res, new = self._result(op, r, peek or nh is None, nh)
        except Exception as err:  # noqa: BLE001
            res, new = self._exc(err), None
            self.last_exc = err
        if new is not None:
            self.hnds.append(new)
            enc["nh"] = 1
        elif nh:
            # asked for a handle but got a scalar or an error: the
            # specification decides whether that is right
            enc["nh"] = 1
        enc["res"] = res
        if op in ("setdefault", "pop", "popitem") and not nh and res[0] != "k":
            r = self.last_raw
            if is_synced(r[1] if isinstance(r, tuple) and len(r) == 2 else r):
                enc["pk"] = 1
        self._observe(enc)
        return res

    def _wrapping(self, vw):
        return [0 if k is None else self.intern.atom(k) for k in vw]

    def _encode_op(self, h, op, e):
        enc = {"a": "op", "h": h, "op": op}
        I = self.intern
        if "k" in e:
            enc["k"] = I.enc(e["k"])
        if "v" in e:
            enc["v"] = I.enc(e["v"])
        if "vh" in e:
            enc["vh"] = e["vh"]
            if e.get("vw"):
                enc["vw"] = self._wrapping(e["vw"])
        if "i" in e:
            enc["i"] = [e["i"]] if isinstance(e["i"], int) else []
        if "sl" in e:
            enc["sl"] = [[] if x is None else [x] for x in e["sl"]]
        if "kw" in e:
            enc["kw"] = I.enc(e["kw"])
        for x in ("lo", "hi"):
            if x in e:
                enc[x] = e[x]
        if e.get("swap"):
            enc["swap"] = 1
        if e.get("form"):
            enc["form"] = e["form"]
        return enc

    def _result(self, op, r, peek, nh):
        I = self.intern
        if op == "types":
            return ["types", *self._types(r)], None
        if op in BOOLS:
            return (["b", r] if isinstance(r, bool) else ["v", I.enc(plain(r))]), None
        if op in INTS:
            return (["n", r] if type(r) is int else ["v", I.enc(plain(r))]), None
        if op in SEQS:
            items = list(r)
            if op in ("values", "items"):
                self.held.append(items)
                conv = strict if op == "values" else lambda p: [p[0], strict(p[1])]
                return ["seq", [I.enc(conv(x)) for x in items]], None
            return ["seq", [I.enc(plain(x)) for x in items]], None
        if op == "iadd":
            return (["self", 0] if isinstance(r, str) and r == "self" else ["v", I.enc(plain(r))]), None
        if op == "popitem":
            if not (isinstance(r, tuple) and len(r) == 2):
                return ["v", I.enc(plain(r))], None
            k, v = r
            self.held.append(v)
            if is_synced(v) and not peek:
                return ["pair", I.atom(k), ["k", kind_of(v)]], None
            return ["pair", I.atom(k), ["v", I.enc(plain(v))]], None
        if op in ("repr", "str"):
            try:
                return ["v", I.enc(ast.literal_eval(r))], None
            except (ValueError, SyntaxError):
                return ["x", 0], None
        if op == "call":
            self.held.append(r)
            return ["v", I.enc(strict(r))], None
        if nh and is_synced(r):
            return ["k", kind_of(r)], r
        if not peek and kind_of(r):
            return ["k", kind_of(r)], None
        if isinstance(r, (dict, list)) or is_synced(r):
            if op in ("getslice", "pop"):
                self.held.append(r)
        return ["v", I.enc(plain(r))], None

    def _types(self, root):
        """Walk over a collection through item access: how many dict-likes and
        list-likes of its family, how many other containers."""
        n = {2: 0, 1: 0}
        other = 0
        todo = [root]
        while todo:
            x = todo.pop()
            k = kind_of(x)
            if type(x) is self.fam.cls(k):
                n[k] += 1
            else:
                other += 1
            for y in list(x) if k == 2 else range(len(x)):
                if kind_of(x[y]):
                    todo.append(x[y])
        return n[2], n[1], other

    def bind(self, o, f):
        """Point object o at file f."""

        def bind():
            self.objs[o - 1].filename = self.store.kwargs(f)["filename"]

        return self._ctx({"a": "bind", "o": o, "f": f}, bind)

    def oin(self, o, h=None):
        """Enter the context of object o, maybe by way of its child h."""
        ctx = []

        def enter():
            c = (self.objs[o - 1] if h is None else self.hnds[h - 1]).buffered
            c.__enter__()
            ctx.append(c)

        self._ctx({"a": "oin", "o": o, **({} if h is None else {"h": h})}, enter)
        self.octx.setdefault(o, []).extend(ctx)

    def oout(self, o, exc=False):
        """Leave the context of object o; exc: because of an exception."""
        c = self.octx[o].pop()
        return self._ctx({"a": "oout", "o": o, **({"exc": 1} if exc else {})}, lambda: self._leave(c, exc))

    def cin(self, cap=None):
        ctx = []

        def enter():
            c = self.cls.buffer_backend() if cap is None else self.cls.buffer_backend(cap)
            c.__enter__()
            ctx.append(c)

        res = self._ctx({"a": "cin", "n": [] if cap is None else [cap]}, enter)
        if ctx:
            self.cctx.append(ctx[0])
        return res

    def cout(self, exc=False):
        c = self.cctx.pop()
        return self._ctx({"a": "cout", **({"exc": 1} if exc else {})}, lambda: self._leave(c, exc))

    def _leave(self, ctx, exc):
        if not exc:
            ctx.__exit__(None, None, None)
            return
        class Left(Exception):
            pass

        err = Left("leaving the context")
        try:
            swallowed = ctx.__exit__(Left, err, None)
        except Left:
            return
        if swallowed:
            raise AssertionError("the context swallowed the exception")

    def setcap(self, n):
        return self._ctx({"a": "cap", "n": n}, lambda: self.cls.set_buffer_capacity(n))

    def _ctx(self, ev, f):
        try:
            limited(f)
            res = ["ok", 0]
        except Exception as err:  # noqa: BLE001
            res = self._exc(err)
            self.last_exc = err
        ev["res"] = res
        self._observe(ev)
        return res

    def fail(self, h, op, k=None):
        """An operation whose save fails: no format stores such a number."""
        v = 10**5000
        t = self.hnds[h - 1]
        e = {"a": "fail", "h": h, "op": op, "nj": 1}
        try:
            if op in ("setitem", "setdefault"):
                limited(OPS[op], t, {"k": k}, v)
            elif op == "update":
                limited(OPS[op], t, {}, {k: [v]})
            else:
                limited(OPS[op], t, {}, v if op == "append" else [1, {"n": v}])
            e["res"] = ["ok", 0]
        except Exception as err:  # noqa: BLE001
            e["res"] = self._exc(err)
        self._observe(e)
        return e["res"]

    def drop(self, o, hs):
        """Forget object o and the handles hs on it."""
        self.objs[o - 1] = None
        for h in hs:
            self.hnds[h - 1] = None
        self.held.clear()
        self.last_raw = self.last_exc = None
        gc.collect()
        self.nop("dropped")

    def nop(self, what=None):
        ev = {"a": "nop", "res": ["ok", 0]}
        if what:
            ev["what"] = what
        self._observe(ev)

    # -- end ---------------------------------------------------------------
    def finish(self):
        """Restore the class settings; reload the library if the class is dirty."""
        dirty = False
        if self.buffered:
            try:
                self.cls.set_buffer_capacity(self.default_cap)
                dirty = (self.cls.get_current_buffer_size() != 0 or self.cls.backend_is_buffered()
                         or self.cls.get_buffer_capacity() != self.default_cap)
            except Exception:  # noqa: BLE001
                dirty = True
        if dirty:
            reload_library()
        elif self.opts.get("nothreads"):
            self.fam.cls(1).enable_multithreading()
            self.fam.cls(2).enable_multithreading()
        if "rel" in self.opts:
            os.chdir("/")
        return {"hdr": self.hdr, "ev": self.events}
