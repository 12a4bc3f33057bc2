"""Encoding of JSON-like Python data into the value representation of PyData.tla."""

import functools
import json


class Bad:
    """Stands for an object that is not JSON-representable."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<bad {self.what}>"


class Interner:
    """Maps scalars to atoms and produces the atom table.

    Atoms 1, 2, 3 are None, True and False.
    """

    def __init__(self):
        self.ids = {}
        self.vals = []
        for v in (None, True, False):
            self.atom(v)

    def atom(self, v):
        if isinstance(v, float):
            v = float(v)
            if v == 0.0:
                v = 0.0
        elif isinstance(v, int) and type(v) not in (int, bool):
            v = int(v)
        elif isinstance(v, str) and type(v) is not str:
            v = str.__str__(v)
        try:
            key = (type(v).__name__, repr(v))
        except Exception:  # noqa: BLE001
            v = Bad("unprintable")
            key = (type(v).__name__, repr(v))
        a = self.ids.get(key)
        if a is None:
            self.vals.append(v)
            a = self.ids[key] = len(self.vals)
            if isinstance(v, str) and 1 < len(v) <= 4:
                for ch in v:
                    self.atom(ch)
        return a

    def enc(self, v):
        if isinstance(v, dict):
            return [2, [[self.atom(k), self.enc(x)] for k, x in v.items()]]
        if isinstance(v, (list, tuple, bytes, bytearray)):
            return [1, [self.enc(x) for x in v]]
        return [0, self.atom(v)]

    def dec(self, e):
        """The inverse of enc, fresh containers every time."""
        if e[0] == 0:
            return self.vals[e[1] - 1]
        if e[0] == 1:
            return [self.dec(x) for x in e[1]]
        return {self.vals[k - 1]: self.dec(x) for k, x in e[1]}

    def table(self):
        nums, strs = [], []
        for v in self.vals:
            if isinstance(v, (bool, int, float)):
                nums.append(v)
            elif isinstance(v, str):
                strs.append(v)
        numrank = _ranks(nums)
        strrank = _ranks(strs)
        out = []
        for v in list(self.vals):
            rec = {"t": "bad", "c": 3, "r": len(out), "e": 0, "ch": [], "d": False}
            if v is None:
                rec.update(t="null", c=0, r=0)
            elif isinstance(v, bool):
                rec.update(t="bool", c=1, r=_find(numrank, v))
            elif isinstance(v, int):
                rec.update(t="int", c=1, r=_find(numrank, v))
            elif isinstance(v, float):
                rec.update(t="float", c=1, r=_find(numrank, v))
            elif isinstance(v, str):
                rec.update(t="str", c=2, r=_find(strrank, v), d="." in v)
                if len(v) <= 4:
                    rec["ch"] = [self.ids[("str", repr(ch))] for ch in v] if len(v) != 1 else [
                        self.ids[("str", repr(v))]
                    ]
            if rec["t"] != "bad":
                rec["e"] = len(json.dumps(v).encode())
            out.append(rec)
        return out


def _cmp(a, b):
    return -1 if a < b else (1 if b < a else 0)


def _ranks(vals):
    out = []
    for v in sorted(vals, key=functools.cmp_to_key(_cmp)):
        if not out or out[-1] != v:
            out.append(v)
    return out


def _find(sorted_vals, v):
    lo, hi = 0, len(sorted_vals)
    while lo < hi:
        mid = (lo + hi) // 2
        if sorted_vals[mid] < v:
            lo = mid + 1
        else:
            hi = mid
    return lo
