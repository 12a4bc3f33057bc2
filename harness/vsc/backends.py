"""The concrete collection families and how their resources are observed.

Resources are created, read and written here without going through
synced_collections; a resource is identified by a small integer.
"""

import json
import os
import shutil
import subprocess
import tempfile
import time
import warnings

MISSING = object()
GARBAGE = object()


SCRATCH = None  # the scratch directory of the running check


def scratch_root():
    base = SCRATCH or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    return tempfile.mkdtemp(prefix="vsc-", dir=base)


STYLES = [{}, {"indent": 2}, {"separators": (",", ":")}, {"sort_keys": True, "ensure_ascii": False},
          {"indent": 0, "ensure_ascii": False}]


class JSONStore:
    """Files in a scratch directory."""

    def __init__(self, root):
        self.dir = tempfile.mkdtemp(prefix="j", dir=root)
        self._tick = 0
        self.relative = False  # whether objects get relative file names
        self.styled = False  # whether outside writers format files in their own way

    def path(self, f):
        return os.path.join(self.dir, self.name(f))

    def name(self, f):
        return f"f{f} é" if self.relative else f"f{f}.json"

    def encode(self, data):
        if not self.styled:
            return json.dumps(data).encode()
        n = self._tick % 7
        return json.dumps(data, **STYLES[n % 5]).encode() + (b"\n" if n in (1, 5, 6) else b"")

    def read(self, f):
        try:
            with open(self.path(f), "rb") as fh:
                blob = fh.read()
        except FileNotFoundError:
            return MISSING
        try:
            return json.loads(blob)
        except ValueError:
            return GARBAGE

    def write(self, f, data, how=0):
        """Write as an outside program: in place (0) or by replacement (1).

        The modification time always differs from every earlier one of the
        file, unless how is 2: then it is left as it was before the write (the
        caller makes sure that the size differs).
        """
        p = self.path(f)
        before = None
        if how == 2:
            before = os.stat(p).st_mtime_ns
        blob = data if isinstance(data, bytes) else self.encode(data)
        if how == 2 and len(blob) == os.stat(p).st_size:
            blob += b" "
        if how == 1:
            with open(p + ".ext", "wb") as fh:
                fh.write(blob)
            os.replace(p + ".ext", p)
        else:
            with open(p, "wb") as fh:
                fh.write(blob)
        if before is None:
            self._tick += 1
            before = time.time_ns() // 1000000 * 1000000 + 7 + 1000 * self._tick
        os.utime(p, ns=(before, before))

    def sig(self, f):
        try:
            s = os.stat(self.path(f))
        except FileNotFoundError:
            return None
        try:
            with open(self.path(f), "rb") as fh:
                blob = fh.read()
        except OSError:
            blob = None
        return (s.st_ino, s.st_mtime_ns, s.st_size, s.st_ctime_ns, blob)

    def extra_files(self):
        return [x for x in os.listdir(self.dir) if not x.startswith("f")]

    def kwargs(self, f, alias=False, **kw):
        """The arguments for file f; alias: another name of the same file."""
        if alias:
            return dict(filename=os.path.join(self.dir, ".", self.name(f)), **kw)
        return dict(filename=self.name(f) if self.relative else self.path(f), **kw)

    def wipe(self):
        for x in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, x))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class CountingRedis:
    """Factory of a redis client that counts write commands per key."""

    READS = {"GET", "EXISTS", "STRLEN", "PING", "TYPE", "TTL", "INFO", "CLIENT", "SELECT", "HELLO"}

    @staticmethod
    def make(sock):
        import redis

        class Client(redis.Redis):
            writes: dict = {}

            def execute_command(self, *args, **options):
                name = str(args[0]).upper()
                if name not in CountingRedis.READS and len(args) > 1:
                    key = args[1].decode() if isinstance(args[1], bytes) else str(args[1])
                    self.writes[key] = self.writes.get(key, 0) + 1
                return super().execute_command(*args, **options)

        return Client(unix_socket_path=sock)


class RedisServer:
    def __init__(self, root):
        self.dir = tempfile.mkdtemp(prefix="r", dir=root)
        self.sock = os.path.join(self.dir, "s")
        self.proc = subprocess.Popen(
            ["redis-server", "--port", "0", "--unixsocket", self.sock, "--save", "",
             "--appendonly", "no", "--dir", self.dir, "--daemonize", "no"],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
        )
        import redis

        for _ in range(200):
            try:
                redis.Redis(unix_socket_path=self.sock).ping()
                return
            except redis.exceptions.RedisError:
                time.sleep(0.05)
        self.close()
        raise RuntimeError("redis-server did not start")

    def close(self):
        self.proc.terminate()
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            self.proc.kill()


class RedisStore:
    _n = 0

    def __init__(self, root):
        import redis

        self.server = RedisServer(root)
        self.client = CountingRedis.make(self.server.sock)
        self.raw = redis.Redis(unix_socket_path=self.server.sock)
        self.gen = 0

    def key(self, f):
        return f"g{self.gen}k{f}"

    def read(self, f):
        blob = self.raw.get(self.key(f))
        if blob is None:
            return MISSING
        try:
            return json.loads(blob)
        except ValueError:
            return GARBAGE

    def write(self, f, data, how=0):
        self.raw.set(self.key(f), json.dumps(data).encode())

    def sig(self, f):
        return self.client.writes.get(self.key(f), 0)

    def kwargs(self, f, **kw):
        return dict(client=self.client, key=self.key(f))

    def wipe(self):
        self.raw.flushall()
        self.client.writes.clear()
        self.gen += 1

    def close(self):
        self.server.close()
        shutil.rmtree(self.server.dir, ignore_errors=True)


class FakeMongo:
    """The part of a pymongo Collection that MongoDBCollection may use.

    Documents are stored BSON-encoded, so what comes back went through the real
    wire format.
    """

    def __init__(self):
        self.docs = []
        self.writes = 0
        self.log = {}

    def _match(self, flt):
        import bson

        for i, blob in enumerate(self.docs):
            doc = bson.decode(blob)
            if all(k in doc and doc[k] == v for k, v in flt.items()):
                return i, doc
        return None, None

    def find_one(self, filter=None, *args, **kwargs):
        return self._match(filter or {})[1]

    def find(self, filter=None, *args, **kwargs):
        doc = self.find_one(filter)
        return iter([] if doc is None else [doc])

    def count_documents(self, filter, *args, **kwargs):
        return 0 if self._match(filter)[0] is None else 1

    def replace_one(self, filter, replacement, upsert=False, *args, **kwargs):
        import bson

        blob = bson.encode(replacement)
        self.writes += 1
        k = repr(sorted(filter.items()))
        self.log[k] = self.log.get(k, 0) + 1
        i, _ = self._match(filter)
        if i is not None:
            self.docs[i] = blob
        elif upsert:
            self.docs.append(blob)

    def update_one(self, filter, update, upsert=False, *args, **kwargs):
        _, doc = self._match(filter)
        doc = dict(doc or filter)
        doc.update(update.get("$set", {}))
        self.replace_one(filter, doc, upsert)

    def insert_one(self, document, *args, **kwargs):
        self.replace_one({k: v for k, v in document.items() if k != "data"}, document, True)

    def delete_one(self, filter, *args, **kwargs):
        i, _ = self._match(filter)
        self.writes += 1
        if i is not None:
            del self.docs[i]


class MongoStore:
    def __init__(self, root):
        self.wipe()

    def uid(self, f):
        return {"uid": f"doc{f}"}

    def read(self, f):
        doc = self.coll.find_one(self.uid(f))
        return MISSING if doc is None else doc.get("data", GARBAGE)

    def write(self, f, data, how=0):
        import bson

        i, _ = self.coll._match(self.uid(f))
        blob = bson.encode({**self.uid(f), "data": data})
        if i is None:
            self.coll.docs.append(blob)
        else:
            self.coll.docs[i] = blob

    def sig(self, f):
        return self.coll.log.get(repr(sorted(self.uid(f).items())), 0)

    def kwargs(self, f, **kw):
        return dict(collection=self.coll, uid=self.uid(f))

    def wipe(self):
        self.coll = FakeMongo()

    def close(self):
        pass


class ZarrStore:
    """Zarr arrays in an in-memory store that counts modifications per array."""

    def __init__(self, root):
        self.wipe()

    def wipe(self):
        import zarr

        counts = self.counts = {}

        class Counting(dict):
            def __setitem__(s, k, v):
                top = k.split("/")[0]
                counts[top] = counts.get(top, 0) + 1
                super().__setitem__(k, v)

            def __delitem__(s, k):
                top = k.split("/")[0]
                counts[top] = counts.get(top, 0) + 1
                super().__delitem__(k)

        self.store = Counting()
        self.group = zarr.group(store=self.store)

    def name(self, f):
        return f"a{f}"

    def read(self, f):
        import zarr

        g = zarr.open_group(store=self.store, mode="r")
        if self.name(f) not in g:
            return MISSING
        try:
            return g[self.name(f)][0]
        except Exception:  # noqa: BLE001
            return GARBAGE

    def write(self, f, data, how=0):
        import numcodecs
        import numpy

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            saved = dict(self.counts)
            ds = self.group.require_dataset(
                self.name(f), overwrite=True, shape=1, dtype="object",
                object_codec=numcodecs.JSON(),
            )
            cell = numpy.empty(1, dtype=object)
            cell[0] = data
            ds[:] = cell
            self.counts.clear()
            self.counts.update(saved)

    def sig(self, f):
        return self.counts.get(self.name(f), 0)

    def kwargs(self, f, **kw):
        return dict(group=self.group, name=self.name(f))

    def close(self):
        pass


class Family:
    """A backend family: its dict class, its list class, its store."""

    def __init__(self, name, module, dict_cls, list_cls, store, strat="none", attr=False):
        self.name = name
        self.module = module
        self.names = {2: dict_cls, 1: list_cls}
        self.store = store
        self.strat = strat
        self.attr = attr

    def cls(self, kind):
        import importlib

        return getattr(importlib.import_module(self.module), self.names[kind])


_J = "synced_collections.backends.collection_json"
FAMILIES = [
    Family("json", _J, "JSONDict", "JSONList", JSONStore),
    Family("jsonattr", _J, "JSONAttrDict", "JSONAttrList", JSONStore, attr=True),
    Family("buf", _J, "BufferedJSONDict", "BufferedJSONList", JSONStore, "ser"),
    Family("bufattr", _J, "BufferedJSONAttrDict", "BufferedJSONAttrList", JSONStore, "ser", True),
    Family("mem", _J, "MemoryBufferedJSONDict", "MemoryBufferedJSONList", JSONStore, "mem"),
    Family("memattr", _J, "MemoryBufferedJSONAttrDict", "MemoryBufferedJSONAttrList", JSONStore,
           "mem", True),
    Family("redis", "synced_collections.backends.collection_redis", "RedisDict", "RedisList",
           RedisStore),
    Family("mongo", "synced_collections.backends.collection_mongodb", "MongoDBDict", "MongoDBList",
           MongoStore),
    Family("zarr", "synced_collections.backends.collection_zarr", "ZarrDict", "ZarrList", ZarrStore),
]
BY_NAME = {f.name: f for f in FAMILIES}
