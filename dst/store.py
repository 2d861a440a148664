"""Object store personality: an fsspec filesystem with implicit directories,
atomic put on close and no rename, kept in World.kv. Registered as simstore://"""
import io
import fsspec
from fsspec.spec import AbstractFileSystem, AbstractBufferedFile

from . import simos


class SimStoreFile(AbstractBufferedFile):
    """Writes are collected and put atomically at close; reads are range gets and,
    like those of a stream from the network, may give less than was asked for."""

    def read(self, length=-1):
        w = self.fs._w
        cap = w.readcap if w is not None else None
        if cap and length is not None and length > cap:
            length = cap
            w.fired_kinds["get:short"] = w.fired_kinds.get("get:short", 0) + 1
        return super().read(length)

    def _initiate_upload(self):
        self._parts = []

    def _upload_chunk(self, final=False):
        self.buffer.seek(0)
        self._parts.append(self.buffer.read())
        if final:
            self.fs._put(self.path, b"".join(self._parts))
        return True

    def _fetch_range(self, start, end):
        return self.fs._get(self.path, start, end)


class SimStoreFS(AbstractFileSystem):
    protocol = "simstore"
    cachable = False
    root_marker = ""

    @property
    def _w(self):
        return simos.CUR

    @classmethod
    def _strip_protocol(cls, path):
        path = str(path)
        if path.startswith("simstore://"):
            path = path[len("simstore://"):]
        return path.strip("/")

    def _path(self, key):
        return simos.MNT + "/@kv/" + key

    def _put(self, key, data):
        w = self._w

        def apply(_k):
            node = w.kv.get(key)
            created = node is None
            node = simos.File(data, 0, w.clock)
            w.kv[key] = node
            w.note_mut("create" if created else "write", self._path(key))
        w.op("put", self._path(key), len(data), apply=apply)

    def _get(self, key, start, end):
        w = self._w
        w.op("get", self._path(key), end - start)
        if key not in w.kv:
            raise FileNotFoundError(key)
        return bytes(w.kv[key].data[start:end])

    def info(self, path, **kw):
        path = self._strip_protocol(path)
        w = self._w
        w.op("stat", self._path(path))
        return self._info(path)

    def _info(self, path):
        w = self._w
        node = w.kv.get(path)
        if node is not None:
            return {"name": path, "size": len(node.data), "type": "file", "mtime": node.mtime}
        pre = path + "/" if path else ""
        if any(k.startswith(pre) for k in w.kv) or path in w.buckets or path == "":
            return {"name": path, "size": 0, "type": "directory"}
        raise FileNotFoundError(path)

    def ls(self, path, detail=True, **kw):
        path = self._strip_protocol(path)
        w = self._w
        w.op("listdir", self._path(path))
        if path in w.kv:
            out = [self._info(path)]
        else:
            pre = path + "/" if path else ""
            names = {}
            for k in w.kv:
                if k.startswith(pre):
                    rest = k[len(pre):]
                    head, sep, _ = rest.partition("/")
                    names[pre + head] = bool(sep) or names.get(pre + head, False) and True
            if not names and path not in w.buckets and path != "":
                raise FileNotFoundError(path)
            out = []
            for n in w.order(self._path(path), list(names)):
                node = w.kv.get(n)
                if node is not None:
                    out.append({"name": n, "size": len(node.data), "type": "file", "mtime": node.mtime})
                else:
                    out.append({"name": n, "size": 0, "type": "directory"})
        if detail:
            return out
        return [o["name"] for o in out]

    def mkdir(self, path, create_parents=True, **kw):
        path = self._strip_protocol(path)
        self._w.op("stat", self._path(path))
        if "/" not in path and path:
            self._w.buckets.add(path)

    def makedirs(self, path, exist_ok=False):
        self.mkdir(path)

    def rmdir(self, path):
        pass

    def _rm(self, path):
        path = self._strip_protocol(path)
        w = self._w

        def apply(_k):
            if path not in w.kv:
                raise FileNotFoundError(path)
            del w.kv[path]
            w.note_mut("unlink", self._path(path))
        w.op("delete", self._path(path), apply=apply)

    def rm_file(self, path):
        self._rm(path)

    def cp_file(self, path1, path2, **kw):
        self._put(self._strip_protocol(path2), bytes(self._w.kv[self._strip_protocol(path1)].data))

    def created(self, path):
        return None

    def modified(self, path):
        return None

    def _open(self, path, mode="rb", block_size=None, autocommit=True, cache_options=None, **kw):
        path = self._strip_protocol(path)
        w = self._w
        if mode == "rb":
            w.op("open_r", self._path(path))
            if path not in w.kv:
                raise FileNotFoundError(path)
        else:
            w.op("open_w", self._path(path))
        return SimStoreFile(self, path, mode, block_size or 5 * 2 ** 20, autocommit, cache_options=cache_options,
                            size=len(w.kv[path].data) if mode == "rb" else None)


def register():
    fsspec.register_implementation("simstore", SimStoreFS, clobber=True)


def kv_snapshot(w, prefix):
    """(files, dirs) under key prefix, directories implied."""
    files, dirs = {}, set()
    pre = prefix + "/"
    for k, node in w.kv.items():
        if k.startswith(pre):
            r = k[len(pre):]
            files[r] = bytes(node.data)
            d = r
            while "/" in d:
                d = d.rsplit("/", 1)[0]
                dirs.add(d)
    if files:
        dirs.add("")
    return files, dirs


def kv_restore(w, prefix, snap):
    pre = prefix + "/"
    for k in [k for k in w.kv if k.startswith(pre)]:
        del w.kv[k]
    for r, data in snap[0].items():
        w.kv[pre + r] = simos.File(data)
