"""Change one observation in every recorded trace; the specification has to notice.

python -m vsc.selftest [property [family [traces]]]

Prints, per kind of event and kind of change, how many of the changed traces
were rejected.  What is accepted is either not observable through the changed
field or a gap of the specification.
"""

import copy
import os
import random
import shutil
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from . import backends, seq, tlc, world  # noqa: E402


def other(v, rng):
    """A value that differs from v (encoded)."""
    if v[0] == 0:
        return [1, []] if rng.random() < 0.5 else [0, 2 if v[1] != 2 else 1]
    s = list(v[1])
    if s and rng.random() < 0.5:
        i = rng.randrange(len(s))
        s[i] = other(s[i], rng) if v[0] == 1 else [s[i][0], other(s[i][1], rng)]
    elif s and rng.random() < 0.5:
        s.pop(rng.randrange(len(s)))
    elif v[0] == 1:
        s.append([0, 1])
    else:
        return [1, [[0, 3]]]
    return [v[0], s]


def change_res(e, rng):
    r = e["res"]
    if r[0] == "v":
        r[1] = other(r[1], rng)
    elif r[0] in ("b", "n"):
        r[1] = (not r[1]) if r[0] == "b" else r[1] + 1
    elif r[0] == "seq":
        r[1] = other([1, r[1]], rng)[1]
    elif r[0] == "k":
        r[1] = 3 - r[1] if r[1] else 1
    elif r[0] == "e":
        e["res"] = ["e", ["ZeroDivisionError", "ArithmeticError", "Exception", "BaseException", "object"]]
    elif r[0] == "ok":
        e["res"] = ["e", ["OSError", "Exception", "BaseException", "object"]]
    elif r[0] == "be":
        e["res"] = ["ok", 0]
    else:
        return False
    return True


def change_raise(e, rng):
    if e["res"][0] in ("e", "be"):
        return False
    e["res"] = ["e", ["RuntimeError", "Exception", "BaseException", "object"]]
    return True


def change_fs(e, rng):
    fs = [x for x in e.get("fs", []) if x[1] == 1]
    if not fs or e["a"] in ("ext",):
        return False
    x = rng.choice(fs)
    x[2] = other(x[2], rng)
    return True


def drop_fs(e, rng):
    return e["a"] not in ("ext",) and e.pop("fs", None) is not None


def lose_fs(e, rng):
    fs = [x for x in e.get("fs", []) if x[1] == 1]
    if not fs or e["a"] in ("ext",):
        return False
    x = rng.choice(fs)
    x[1], x[2] = 0, [0, 1]
    return True


def change_sz(e, rng):
    if "sz" not in e:
        return False
    e["sz"] += rng.choice([-1, 1, 7])
    return True


def change_cap(e, rng):
    if "cap" not in e:
        return False
    e["cap"] += rng.choice([-1, 1])
    return True


# what is changed, and the clause of the specification that has to notice
CHANGES = {"result": (change_res, "res"), "raises": (change_raise, "res"), "content": (change_fs, "disk"),
           "not written": (drop_fs, "disk"), "lost": (lose_fs, "disk"), "size": (change_sz, "size"),
           "capacity": (change_cap, "cap")}


def main():
    prop = sys.argv[1] if len(sys.argv) > 1 else "C05"
    fam = sys.argv[2] if len(sys.argv) > 2 else "buf" if prop in ("C05", "C06", "C07", "C15") else "json"
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 60
    rng = random.Random(os.environ.get("VERIF_SEED", "1"))
    world.arm()
    root = backends.scratch_root()
    table, accepted = {}, {}
    try:
        traces, intern, _ = seq.record(prop, fam, "selftest", n, root)
        batch, what = [], []
        for t in traces:
            for name, (fn, clause) in CHANGES.items():
                if clause not in t["hdr"]["rel"]:
                    continue
                for _ in range(6):
                    c = copy.deepcopy(t)
                    i = rng.randrange(len(c["ev"]))
                    e = c["ev"][i]
                    if fn(e, rng):
                        batch.append(c)
                        what.append((e.get("op", e["a"]), name, i))
        stats, bad, dis = tlc.validate(batch, intern, root)
        caught = {b[0] for b in bad} | {d[0] for d in dis}
        for t, (op, name, i) in enumerate(what):
            x = table.setdefault((name, op), [0, 0])
            x[0] += 1
            x[1] += t in caught
            if t not in caught:
                accepted.setdefault((name, op), []).append((t, i))
        for (name, op), (a, b) in sorted(table.items()):
            print(f"{name:12} {op:12} {b:4} of {a:4}")
            if a != b:
                t, i = accepted[name, op][0]
                for line in seq.show(batch[t], intern, i)[-int(os.environ.get("SHOW", "3")):]:
                    print("        ", line[:300])
        a, b = sum(x[0] for x in table.values()), sum(x[1] for x in table.values())
        print(f"{prop} {fam}: {b} of {a} changed traces rejected")
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
