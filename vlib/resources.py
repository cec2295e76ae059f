"""The 18 concrete classes and library-independent access to their resources."""
import json
import os
import subprocess
import time

from .base import Inconclusive
from .values import MISSING, clone

JSON_FAMILIES = ["JSON", "BufferedJSON", "MemoryBufferedJSON"]


class Spec:
    """One concrete class."""

    def __init__(self, name, cls, kind, backend, attr=False, buffered=None):
        self.name = name
        self.cls = cls
        self.kind = kind  # "dict" | "list"
        self.backend = backend  # json redis mongo zarr
        self.attr = attr
        self.buffered = buffered  # None | "serialized" | "memory"

    def __repr__(self):
        return self.name

    @property
    def dots(self):
        return not self.attr

    @property
    def big(self):
        # BSON has no integers beyond 64 bits.
        return self.backend != "mongo"


def all_specs(json=True, redis=True, mongo=True, zarr=True):
    from synced_collections.backends import collection_json as cj

    specs = []
    if json:
        for pre in JSON_FAMILIES:
            buf = {"JSON": None, "BufferedJSON": "serialized", "MemoryBufferedJSON": "memory"}[pre]
            for attr in (False, True):
                for kind in ("dict", "list"):
                    name = pre + ("Attr" if attr else "") + kind.capitalize()
                    specs.append(Spec(name, getattr(cj, name), kind, "json", attr, buf))
    if redis:
        from synced_collections.backends import collection_redis as cr

        specs += [
            Spec("RedisDict", cr.RedisDict, "dict", "redis"),
            Spec("RedisList", cr.RedisList, "list", "redis"),
        ]
    if mongo:
        from synced_collections.backends import collection_mongodb as cm

        specs += [
            Spec("MongoDBDict", cm.MongoDBDict, "dict", "mongo"),
            Spec("MongoDBList", cm.MongoDBList, "list", "mongo"),
        ]
    if zarr:
        from synced_collections.backends import collection_zarr as cz

        specs += [
            Spec("ZarrDict", cz.ZarrDict, "dict", "zarr"),
            Spec("ZarrList", cz.ZarrList, "list", "zarr"),
        ]
    return specs


def spec_by_name(name):
    for s in all_specs():
        if s.name == name:
            return s
    raise KeyError(name)


def buffered_specs():
    return [s for s in all_specs(redis=False, mongo=False, zarr=False) if s.buffered]


# ---------------------------------------------------------------------------
class FakeRedis:
    """Dict-based stand-in used when no redis-server can be started."""

    def __init__(self):
        self.store = {}
        self.writes = 0

    @staticmethod
    def _b(v):
        if isinstance(v, str):
            return v.encode()
        if isinstance(v, (int, float)):
            return repr(v).encode()
        return bytes(v)

    def get(self, name):
        return self.store.get(self._b(name))

    def set(self, name, value, **kw):
        self.writes += 1
        self.store[self._b(name)] = self._b(value)
        return True

    def exists(self, *names):
        return sum(self._b(n) in self.store for n in names)

    def delete(self, *names):
        self.writes += 1
        return sum(self.store.pop(self._b(n), None) is not None for n in names)

    def getset(self, name, value):
        old = self.get(name)
        self.set(name, value)
        return old

    def strlen(self, name):
        return len(self.store.get(self._b(name), b""))

    def __getitem__(self, name):
        v = self.get(name)
        if v is None:
            raise KeyError(name)
        return v

    def __setitem__(self, name, value):
        self.set(name, value)

    def __delitem__(self, name):
        self.delete(name)

    def __contains__(self, name):
        return bool(self.exists(name))


READ_COMMANDS = {"GET", "MGET", "EXISTS", "STRLEN", "TYPE", "GETRANGE", "TTL", "PING", "SCAN",
                 "KEYS", "INFO", "HELLO", "CLIENT", "SELECT"}


class RedisServer:
    """A private redis-server on a unix socket below the scratch directory."""

    def __init__(self, scratch):
        self.sock = os.path.join(scratch, "redis.sock")
        self.proc = None
        try:
            self.proc = subprocess.Popen(
                ["redis-server", "--port", "0", "--unixsocket", self.sock, "--save", "",
                 "--appendonly", "no", "--daemonize", "no", "--dir", scratch],
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                start_new_session=False,
            )
            import redis

            for _ in range(200):
                try:
                    if redis.Redis(unix_socket_path=self.sock).ping():
                        break
                except Exception:
                    time.sleep(0.02)
                    if self.proc.poll() is not None:
                        raise OSError("redis-server exited")
            else:
                raise OSError("redis-server does not answer")
            self.real = True
        except Exception:
            self.stop()
            self.real = False

    def client(self):
        import redis

        class CountingRedis(redis.Redis):
            """Counts the commands that may write."""

            writes = 0

            def execute_command(self, *args, **kw):
                if str(args[0]).upper() not in READ_COMMANDS:
                    self.writes += 1
                return super().execute_command(*args, **kw)

            def pipeline(self, *args, **kw):
                self.writes += 1
                return super().pipeline(*args, **kw)

        return CountingRedis(unix_socket_path=self.sock)

    def stop(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        self.proc = None


_redis_server = None
_redis_client = (None, None)
_redis_writer = (None, None)


def start_redis(scratch):
    """Start the private server (call once in the parent process)."""
    global _redis_server
    if _redis_server is None:
        _redis_server = RedisServer(scratch)
        import atexit

        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and _redis_server.stop())
    return _redis_server


def _client():
    """The per-process client handed to the library."""
    global _redis_client
    if _redis_client[0] != os.getpid():
        if _redis_server is not None and _redis_server.real:
            _redis_client = (os.getpid(), _redis_server.client())
        else:
            _redis_client = (os.getpid(), FakeRedis())
    return _redis_client[1]


def _raw_client():
    """A second connection, used by the monitors."""
    global _redis_writer
    if _redis_server is not None and _redis_server.real:
        if _redis_writer[0] != os.getpid():
            _redis_writer = (os.getpid(), _redis_server.client())
        return _redis_writer[1]
    return _client()


class _Res:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class FakeMongoCollection:
    """In-memory collection; every stored document is real BSON."""

    def __init__(self):
        self.docs = []  # list of (filter-able dict, bson bytes)
        self.writes = 0
        self.fail = None
        self._next = 0

    def _match(self, doc, flt):
        return all(k in doc and doc[k] == v for k, v in (flt or {}).items())

    def _find(self, flt):
        import bson

        for i, blob in enumerate(self.docs):
            doc = bson.decode(blob)
            if self._match(doc, flt):
                return i, doc
        return None, None

    def _enc(self, doc):
        import bson

        doc = dict(doc)
        if "_id" not in doc:
            self._next += 1
            doc = {"_id": self._next, **doc}
        return bson.encode(doc)

    def find_one(self, filter=None, *args, **kw):
        if filter is not None and not isinstance(filter, dict):
            filter = {"_id": filter}
        return self._find(filter)[1]

    def find(self, filter=None, *args, **kw):
        import bson

        return iter([d for d in map(bson.decode, self.docs) if self._match(d, filter)])

    def count_documents(self, filter, *args, **kw):
        return len(list(self.find(filter)))

    def replace_one(self, filter, replacement, upsert=False, **kw):
        i, old = self._find(filter)
        if i is None:
            if upsert:
                blob = self._enc(replacement)
                self.writes += 1
                self.docs.append(blob)
            return _Res(matched_count=0, modified_count=0, upserted_id=self._next)
        blob = self._enc({"_id": old["_id"], **{k: v for k, v in replacement.items() if k != "_id"}})
        self.writes += 1
        self.docs[i] = blob
        return _Res(matched_count=1, modified_count=1, upserted_id=None)

    def find_one_and_replace(self, filter, replacement, upsert=False, **kw):
        old = self.find_one(filter)
        self.replace_one(filter, replacement, upsert)
        return old

    def update_one(self, filter, update, upsert=False, **kw):
        i, old = self._find(filter)
        doc = dict(old) if old is not None else dict(filter)
        for op, fields in update.items():
            if op in ("$set",) or (op == "$setOnInsert" and old is None):
                doc.update(fields)
            elif op == "$unset":
                for k in fields:
                    doc.pop(k, None)
        if old is None and not upsert:
            return _Res(matched_count=0, modified_count=0, upserted_id=None)
        blob = self._enc(doc)
        self.writes += 1
        if i is None:
            self.docs.append(blob)
        else:
            self.docs[i] = blob
        return _Res(matched_count=int(i is not None), modified_count=1, upserted_id=None)

    def find_one_and_update(self, filter, update, upsert=False, **kw):
        old = self.find_one(filter)
        self.update_one(filter, update, upsert)
        return old

    def insert_one(self, doc, **kw):
        blob = self._enc(doc)
        self.writes += 1
        self.docs.append(blob)
        return _Res(inserted_id=self._next)

    def delete_one(self, filter, **kw):
        i, _ = self._find(filter)
        if i is not None:
            self.writes += 1
            del self.docs[i]
        return _Res(deleted_count=int(i is not None))

    def delete_many(self, filter, **kw):
        n = 0
        while self.delete_one(filter).deleted_count:
            n += 1
        return _Res(deleted_count=n)


def counting_store():
    import zarr

    class CountingStore(zarr.storage.KVStore):
        def __init__(self):
            super().__init__(dict())
            self.writes = 0

        def __setitem__(self, k, v):
            self.writes += 1
            super().__setitem__(k, v)

        def __delitem__(self, k):
            self.writes += 1
            super().__delitem__(k)

    return CountingStore()


N_STYLES = 12
FILENAMES = ["doc.json", "doc.json", "d\u00f6c \u2603.json", "doc", ".hidden", "a.b.json"]


def write_file(path, blob, how=0):
    """An outside write: replaced or in place, with or without a new modification time."""
    try:
        st = os.stat(path)
    except FileNotFoundError:
        st = None
    if how in (0, 3) or st is None:
        tmp = path + ".outside"
        with open(tmp, "wb") as f:
            f.write(blob)
        os.replace(tmp, path)
    else:
        with open(path, "r+b") as f:
            f.write(blob)
            f.truncate()
    if how >= 2 and st is not None:
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))


# ---------------------------------------------------------------------------
class Resource:
    """One backing resource plus independent raw access to it."""

    counter = 0

    def __init__(self, spec, scratch, write_concern=False):
        Resource.counter += 1
        self.spec = spec
        self.write_concern = write_concern
        n = f"{os.getpid()}_{Resource.counter}"
        if spec.backend == "json":
            self.dir = os.path.join(scratch, f"res{n}")
            os.makedirs(self.dir)
            self.filename = os.path.join(self.dir, FILENAMES[Resource.counter % len(FILENAMES)])
        elif spec.backend == "redis":
            self.key = f"k{n}"
        elif spec.backend == "mongo":
            self.coll = FakeMongoCollection()
            self.uid = {"MongoDBCollection::name": "x"}
            # an unrelated document which must stay as it is
            self.coll.insert_one({"MongoDBCollection::name": "other", "data": {"keep": 1}})
        elif spec.backend == "zarr":
            self.store = counting_store()
            import zarr

            self.group = zarr.group(self.store)
            self.zname = "doc"

    def make(self, cls=None, **kw):
        """A new collection object bound to this resource."""
        s = self.spec
        if s.backend == "json":
            return (cls or s.cls)(filename=self.filename, write_concern=self.write_concern, **kw)
        if s.backend == "redis":
            return s.cls(client=_client(), key=self.key, **kw)
        if s.backend == "mongo":
            return s.cls(collection=self.coll, uid=self.uid, **kw)
        return s.cls(group=self.group, name=self.zname, **kw)

    def raw_read(self):
        """Content read without the library; MISSING when there is none."""
        b = self.spec.backend
        if b == "json":
            try:
                with open(self.filename, "rb") as f:
                    blob = f.read()
            except FileNotFoundError:
                return MISSING
            return json.loads(blob)
        if b == "redis":
            blob = _raw_client().get(self.key)
            return MISSING if blob is None else json.loads(blob)
        if b == "mongo":
            docs = list(self.coll.find(self.uid))
            if not docs:
                return MISSING
            if len(docs) > 1:
                raise ValueError(f"{len(docs)} documents stored for one uid")
            return _unbson(docs[0]["data"])
        import zarr

        try:
            arr = zarr.group(self.store)[self.zname]
        except KeyError:
            return MISSING
        return arr[0]

    def raw_write(self, data, style=0):
        """Rewrite the content behind the library's back."""
        b = self.spec.backend
        if b in ("json", "redis"):
            blob = [
                lambda: json.dumps(data),
                lambda: json.dumps(data, indent=2) + "\n",
                lambda: json.dumps(data, separators=(",", ":"), ensure_ascii=False),
            ][style % 3]().encode("utf-8", "surrogatepass")
        if b == "json":
            write_file(self.filename, blob, style // 3)
        elif b == "redis":
            _raw_client().set(self.key, blob)
        elif b == "mongo":
            self.coll.replace_one(self.uid, {**self.uid, "data": clone(data)}, True)
        else:
            import numcodecs
            import zarr

            g = zarr.group(self.store)
            ds = g.require_dataset(
                self.zname, shape=1, dtype="object", object_codec=numcodecs.JSON()
            )
            ds[0] = clone(data)

    def delete(self):
        b = self.spec.backend
        if b == "json":
            if os.path.exists(self.filename):
                os.unlink(self.filename)
        elif b == "redis":
            _raw_client().delete(self.key)
        elif b == "mongo":
            self.coll.delete_many(self.uid)
        else:
            import zarr

            g = zarr.group(self.store)
            if self.zname in g:
                del g[self.zname]

    def fingerprint(self):
        """Something that changes whenever the resource is written."""
        b = self.spec.backend
        if b == "json":
            try:
                st = os.stat(self.filename)
                with open(self.filename, "rb") as f:
                    blob = f.read()
                me = (st.st_ino, st.st_mtime_ns, st.st_size, blob)
            except FileNotFoundError:
                me = None
            return me, tuple(sorted(os.listdir(self.dir)))
        if b == "redis":
            # writes counts commands issued by the library's own client
            return _client().writes, _raw_client().get(self.key)
        if b == "mongo":
            return self.coll.writes, tuple(self.coll.docs)
        return self.store.writes, tuple(sorted((k, bytes(v)) for k, v in self.store.items()))

    def content_stamp(self):
        """The bytes stored, and whether there are any (not how often written)."""
        b = self.spec.backend
        if b == "json":
            try:
                with open(self.filename, "rb") as f:
                    return f.read()
            except FileNotFoundError:
                return None
        if b == "redis":
            return _raw_client().get(self.key)
        if b == "mongo":
            return tuple(self.coll.docs)
        return tuple(sorted((k, bytes(v)) for k, v in self.store.items()))

    def dispose(self):
        b = self.spec.backend
        if b == "json":
            for f in os.listdir(self.dir):
                os.unlink(os.path.join(self.dir, f))
            os.rmdir(self.dir)
        elif b == "redis":
            _raw_client().delete(self.key)


def _unbson(v):
    """bson.Int64 and SON are subclasses of int and dict; make them plain."""
    if isinstance(v, dict):
        return {k: _unbson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_unbson(x) for x in v]
    if isinstance(v, int) and not isinstance(v, bool):
        return int(v)
    return v


def need_redis(run):
    srv = start_redis(run.scratch)
    run.notes.append("redis-server" if srv.real else "dict-based redis client")
    return srv


__all__ = [n for n in dir() if not n.startswith("_")] + ["Inconclusive"]
