"""An in-memory, strongly consistent object store behind google.cloud.storage.Client."""
import datetime

from google.api_core import exceptions as gexc

from . import core


class _Obj:
    def __init__(self, data, gen, updated):
        self.data, self.gen, self.updated = data, gen, updated


class Store:
    def __init__(self, sim, skew=0.0):
        self.sim = sim
        self.buckets = {}
        self.gen = 0
        self.skew = skew
        self.watch = {}  # "bucket/name" -> callback

    def now(self):
        # updated has millisecond resolution
        return round(self.sim.clock + self.skew, 3)

    # oracle side
    def put(self, bucket, name, data):
        self.gen += 1
        self.buckets.setdefault(bucket, {})[name] = _Obj(
            bytes(data), self.gen, self.now()
        )
        cb = self.watch.get(bucket + "/" + name)
        if cb:
            cb(self.sim, bucket + "/" + name)

    def get(self, bucket, name):
        o = self.buckets.get(bucket, {}).get(name)
        return None if o is None else o.data

    def files(self, prefix):
        """{'bucket/name': bytes} below the prefix 'bucket/dir'."""
        out = {}
        for b, objs in self.buckets.items():
            for n, o in objs.items():
                k = b + "/" + n
                if k == prefix or k.startswith(prefix.rstrip("/") + "/"):
                    out[k] = o.data
        return out

    def delete(self, bucket, name):
        self.buckets.get(bucket, {}).pop(name, None)
        cb = self.watch.get(bucket + "/" + name)
        if cb:
            cb(self.sim, bucket + "/" + name)


def _request(kind, bucket, name, anonymous=False):
    """One request: returns (store, after), after() raising if the reply is lost."""
    s = core.current()
    if s is None:
        raise core.SimAbort("object store used outside a simulated task")
    path = "gs://%s/%s" % (bucket, name)
    if anonymous:
        s.point("gcs.denied", path)
        raise gexc.Forbidden("anonymous caller does not have access to " + path)
    act = s.point("gcs." + kind, path)
    if act == "503":
        raise gexc.ServiceUnavailable("injected: backend error on " + path)
    if act == "429":
        raise gexc.TooManyRequests("injected: rate limit on " + path)
    if act == "conn":
        raise ConnectionError("injected: connection reset on " + path)

    def after():
        if act == "503_after":
            raise gexc.ServiceUnavailable("injected: reply lost on " + path)
        # the reply travels back: another place where others may run
        s.point("gcs.reply", path)

    return s.gcs, after


class Blob:
    def __init__(self, bucket, name, obj=None):
        self.bucket, self.name, self._obj = bucket, name, obj
        self.metadata = None

    @property
    def etag(self):
        return "etag%d" % self._obj.gen

    @property
    def generation(self):
        return self._obj.gen

    @property
    def size(self):
        return len(self._obj.data)

    @property
    def updated(self):
        return datetime.datetime.fromtimestamp(
            self._obj.updated, tz=datetime.timezone.utc
        )

    def exists(self, *a, **k):
        store, after = _request("get", self.bucket.name, self.name, self.bucket.anonymous)
        r = store.get(self.bucket.name, self.name) is not None
        after()
        return r

    def download_to_filename(self, filename, *a, **k):
        store, after = _request("download", self.bucket.name, self.name, self.bucket.anonymous)
        data = store.get(self.bucket.name, self.name)
        if data is None:
            raise gexc.NotFound("no such object: " + self.name)
        after()
        with open(filename, "wb") as f:
            f.write(data)

    def download_as_bytes(self, *a, **k):
        store, after = _request("download", self.bucket.name, self.name, self.bucket.anonymous)
        data = store.get(self.bucket.name, self.name)
        if data is None:
            raise gexc.NotFound("no such object: " + self.name)
        after()
        return data

    download_as_string = download_as_bytes

    def download_as_text(self, *a, **k):
        return self.download_as_bytes().decode("utf-8")

    def upload_from_filename(self, filename, *a, **k):
        with open(filename, "rb") as f:
            data = f.read()
        self.upload_from_string(data)

    def upload_from_string(self, data, *a, **k):
        if isinstance(data, str):
            data = data.encode("utf-8")
        store, after = _request("upload", self.bucket.name, self.name, self.bucket.anonymous)
        store.put(self.bucket.name, self.name, data)
        after()

    def delete(self, *a, **k):
        store, after = _request("delete", self.bucket.name, self.name, self.bucket.anonymous)
        if store.get(self.bucket.name, self.name) is None:
            raise gexc.NotFound("no such object: " + self.name)
        store.delete(self.bucket.name, self.name)
        after()

    def patch(self, *a, **k):
        store, after = _request("patch", self.bucket.name, self.name, self.bucket.anonymous)
        o = store.buckets.get(self.bucket.name, {}).get(self.name)
        if o is None:
            raise gexc.NotFound("no such object: " + self.name)
        o.updated = store.now()
        after()


class Bucket:
    def __init__(self, name, anonymous=False):
        self.name = name
        self.anonymous = anonymous

    def blob(self, name, *a, **k):
        return Blob(self, name)

    def get_blob(self, name, *a, **k):
        store, after = _request("get", self.name, name, self.anonymous)
        o = store.buckets.get(self.name, {}).get(name)
        after()
        return None if o is None else Blob(self, name, _Obj(o.data, o.gen, o.updated))

    def list_blobs(self, prefix=None, max_results=None, delimiter=None, **k):
        store, after = _request("list", self.name, prefix or "", self.anonymous)
        names = sorted(
            n for n in store.buckets.get(self.name, {}) if n.startswith(prefix or "")
        )
        if max_results is not None:
            names = names[:max_results]
        after()
        return [Blob(self, n, store.buckets[self.name].get(n)) for n in names]

    def copy_blob(self, blob, destination_bucket, new_name=None, **k):
        store, after = _request(
            "copy", destination_bucket.name, new_name or blob.name, self.anonymous
        )
        data = store.get(self.name, blob.name)
        if data is None:
            raise gexc.NotFound("no such object: " + blob.name)
        store.put(destination_bucket.name, new_name or blob.name, data)
        after()
        return Blob(destination_bucket, new_name or blob.name)

    def delete_blob(self, name, **k):
        Blob(self, name).delete()


class Client:
    def __init__(self, *a, **k):
        s = core.current()
        if s is None:
            raise core.SimAbort("object store client outside a simulated task")
        self.anonymous = False

    @classmethod
    def create_anonymous_client(cls):
        """Can reach public buckets only, and the simulated bucket is not public."""
        c = cls()
        c.anonymous = True
        return c

    def bucket(self, name, *a, **k):
        return Bucket(name, self.anonymous)

    get_bucket = bucket

    def list_blobs(self, bucket, **k):
        name = bucket if isinstance(bucket, str) else bucket.name
        return Bucket(name, self.anonymous).list_blobs(**k)


def install():
    from google.cloud import storage

    storage.Client = Client
    import cloudpathlib.gs.gsclient as g

    g.StorageClient = Client
