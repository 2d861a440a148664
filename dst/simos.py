"""Simulated operating system storage seam.

Patches the Python level operating system interface (builtins.open, os.*,
time, datetime, os.urandom) so that every path below MNT lives on an
in-memory, fault injecting disk (`Disk`) driven by the current `World`.

The code under test (ocfl, fsspec, s3fs base classes, bagit, zipfile, shutil,
io.Buffered*/TextIOWrapper) runs unmodified on top.  Outside MNT reads pass
through to the real system, and while a World is active every *mutating*
call outside MNT is blocked and recorded as an escape.

Must be imported (and install() called) before any of the code under test.
"""
import builtins
import datetime as _dtmod
import errno
import io
import os
import posixpath
import random as _random
import stat as _stat
import tempfile
import time as _time
import shutil

MNT = "/dst-sim"

R = {}          # real functions
CUR = None      # current World, or None


class SimCrash(BaseException):
    """The simulated process was killed at this point."""


class File:
    __slots__ = ("data", "ino", "mtime", "mode", "gen")

    def __init__(self, data=b"", ino=0, mtime=0.0):
        self.data = bytearray(data)
        self.ino = ino
        self.mtime = mtime
        self.mode = 0o644
        self.gen = 0    # bumped on each content change


class Dir:
    __slots__ = ("children", "ino", "mtime", "mode")

    def __init__(self, ino=0, mtime=0.0):
        self.children = {}
        self.ino = ino
        self.mtime = mtime
        self.mode = 0o755


class Disk:
    """In-memory tree of File and Dir nodes rooted at MNT."""

    def __init__(self):
        self.next_ino = 2
        self.root = Dir(1)

    def ino(self):
        self.next_ino += 1
        return self.next_ino

    # -- raw access used by the harness itself (no ops, no faults) --
    @staticmethod
    def parts(path):
        assert path == MNT or path.startswith(MNT + "/"), path
        rel = path[len(MNT):].strip("/")
        return rel.split("/") if rel else []

    def lookup(self, path):
        """Node at absolute normalized path; raises like the kernel would."""
        node = self.root
        for part in self.parts(path):
            if not isinstance(node, Dir):
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
            if len(part.encode("utf-8", "surrogateescape")) > 255:
                raise OSError(errno.ENAMETOOLONG, os.strerror(errno.ENAMETOOLONG), path)
            try:
                node = node.children[part]
            except KeyError:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path) from None
        return node

    def get(self, path):
        try:
            return self.lookup(path)
        except OSError:
            return None

    def parent(self, path):
        head, tail = posixpath.split(path)
        node = self.lookup(head)
        if not isinstance(node, Dir):
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        if len(tail.encode("utf-8", "surrogateescape")) > 255:
            raise OSError(errno.ENAMETOOLONG, os.strerror(errno.ENAMETOOLONG), path)
        return node, tail

    def h_mkdirs(self, path):
        node = self.root
        for part in self.parts(path):
            if part not in node.children:
                node.children[part] = Dir(self.ino())
            node = node.children[part]
        return node

    def h_write(self, path, data):
        self.h_mkdirs(posixpath.dirname(path))
        par, name = self.parent(path)
        par.children[name] = File(data, self.ino())

    def h_remove(self, path):
        par, name = self.parent(path)
        par.children.pop(name, None)

    def h_read(self, path):
        return bytes(self.lookup(path).data)

    def snapshot(self, path=MNT):
        """(files, dirs): {relpath: bytes}, set(relpath) below path ('' for itself)."""
        files, dirs = {}, set()
        node = self.get(path)
        if node is None:
            return files, dirs
        if isinstance(node, File):
            files[""] = bytes(node.data)
            return files, dirs
        dirs.add("")
        stack = [("", node)]
        while stack:
            rel, d = stack.pop()
            for name, child in d.children.items():
                r = rel + "/" + name if rel else name
                if isinstance(child, Dir):
                    dirs.add(r)
                    stack.append((r, child))
                else:
                    files[r] = bytes(child.data)
        return files, dirs

    def restore(self, path, snap):
        """Replace what is below path by snapshot snap (files, dirs)."""
        files, dirs = snap
        if path == MNT:
            self.root.children.clear()
        elif self.get(path) is not None:
            self.h_remove(path)
        if not files and not dirs:
            return
        if "" in files:
            self.h_write(path, files[""])
            return
        self.h_mkdirs(path)
        for d in sorted(dirs):
            if d:
                self.h_mkdirs(path + "/" + d)
        for f, data in files.items():
            self.h_write(path + "/" + f, data)


def _err(no, path):
    return OSError(no, os.strerror(no), path)     # OSError maps to subclass


# ---------------------------------------------------------------- path logic
def _sim(path):
    """Absolute normalized simulated path, or None if path is a real one."""
    if CUR is None:
        return None
    if isinstance(path, int) or path is None:
        return None
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        if CUR.cwd is None:
            return None
        p = CUR.cwd + "/" + p
    if MNT not in p:
        return None
    if "\0" in p:
        raise ValueError("embedded null byte")
    p = posixpath.normpath(p)
    if p.startswith("//"):
        p = p[1:]
    if p == MNT or p.startswith(MNT + "/"):
        return p
    return None


def _guard(what, path):
    """A mutating call outside the simulated disk."""
    if CUR is None or not CUR.guarding:
        return
    p = path
    try:
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
    except TypeError:
        pass
    if p == os.devnull:
        return
    CUR.escapes.append((what, str(p)))
    raise PermissionError(errno.EACCES, "blocked by simulator (outside simulated disk)", str(p))


# ---------------------------------------------------------------- open files
class SimRaw(io.RawIOBase):
    """Raw simulated file."""

    def __init__(self, world, node, path, read, write, append, fd=None):
        self.world, self.node, self.path = world, node, path
        self._r, self._w, self._a = read, write, append
        self.pos = 0
        self.proc = world.proc
        self.name = path
        self.mode = "rb+" if read and write else ("rb" if read else "wb")
        self.dirty = False
        self._fd = world.new_fd(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.node.data) + off
        if self.pos < 0:
            self.pos = 0
            raise _err(errno.EINVAL, self.path)
        return self.pos

    def readinto(self, buf):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        n = len(buf)
        avail = max(0, len(self.node.data) - self.pos)
        n = min(n, avail)
        n = self.world.op("read", self.path, n, proc=self.proc)
        # content may have changed while we were scheduled out
        chunk = self.node.data[self.pos:self.pos + n]
        buf[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        b = bytes(b)
        node = self.node

        def apply(k):
            if self._a:
                self.pos = len(node.data)
            if self.pos > len(node.data):
                node.data.extend(b"\0" * (self.pos - len(node.data)))
            node.data[self.pos:self.pos + k] = b[:k]
            self.pos += k
            node.gen += 1
            node.mtime = self.world.clock
            self.world.note_write(self.path, node)
        n = self.world.op("write", self.path, len(b), apply=apply, proc=self.proc)
        return n

    def truncate(self, size=None):
        if size is None:
            size = self.pos

        def apply(_k):
            d = self.node.data
            if size < len(d):
                del d[size:]
            else:
                d.extend(b"\0" * (size - len(d)))
            self.node.gen += 1
            self.world.note_write(self.path, self.node)
        self.world.op("truncate", self.path, size, apply=apply, proc=self.proc)
        return size

    def close(self):
        if self.closed:
            return
        w = self.world
        w.fds.pop(self._fd, None)
        super().close()
        if self._w and w is CUR and not w.finished:
            w.op("close", self.path, proc=self.proc, node=self.node)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if CUR is None:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        raw = CUR.fds.get(file)
        if raw is None:
            return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        return _wrap(raw, mode, buffering, encoding, errors, newline)
    path = _sim(file)
    if path is None:
        if any(c in mode for c in "wax+"):
            if os.fspath(file) != os.devnull:
                _guard("open:" + mode, file)
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    base = mode.replace("b", "").replace("t", "")
    if base not in ("r", "w", "a", "x", "r+", "w+", "a+", "x+"):
        raise ValueError("invalid mode: %r" % mode)
    raw = _open_raw(path, base)
    return _wrap(raw, mode, buffering, encoding, errors, newline)


def _open_raw(path, base, excl=False):
    w = CUR
    plus = "+" in base
    if base[0] == "r":
        w.op("open_r" if not plus else "open_w", path)
        node = w.disk.lookup(path)
        if isinstance(node, Dir):
            raise _err(errno.EISDIR, path)
        return SimRaw(w, node, path, True, plus, False)

    box = []

    def apply(_k):
        par, name = w.disk.parent(path)
        node = par.children.get(name)
        if isinstance(node, Dir):
            raise _err(errno.EISDIR, path)
        if node is not None and (base[0] == "x" or excl):
            raise _err(errno.EEXIST, path)
        if node is None:
            node = File(b"", w.disk.ino(), w.clock)
            par.children[name] = node
            w.note_mut("create", path)
            w.note_write(path, node, created=True)
        elif base[0] == "w":
            w.note_mut("truncate", path)
            w.note_write(path, node)
            node.data = bytearray()
            node.gen += 1
        else:
            w.note_mut("append", path)
        box.append(node)
    w.op("open_w", path, apply=apply)
    return SimRaw(w, box[0], path, plus, True, base[0] == "a")


def _wrap(raw, mode, buffering, encoding, errors, newline):
    binary = "b" in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if raw._r and raw._w:
        buf = io.BufferedRandom(raw, size)
    elif raw._w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


# ------------------------------------------------------------------ os.* shims
def _statres(node):
    if isinstance(node, Dir):
        mode, size, nlink = _stat.S_IFDIR | node.mode, 4096, 2
    else:
        mode, size, nlink = _stat.S_IFREG | node.mode, len(node.data), 1
    t = node.mtime
    return os.stat_result((mode, node.ino, 77, nlink, 0, 0, size, int(t), int(t), int(t)))


def _s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int) and CUR is not None and path in CUR.fds:
        return _statres(CUR.fds[path].node)
    p = _sim(path)
    if p is None:
        return R["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    CUR.op("stat", p)
    return _statres(CUR.disk.lookup(p))


def _s_lstat(path, *, dir_fd=None):
    p = _sim(path)
    if p is None:
        return R["lstat"](path, dir_fd=dir_fd)
    return _s_stat(p)


def _names(p):
    CUR.op("listdir", p)
    node = CUR.disk.lookup(p)
    if not isinstance(node, Dir):
        raise _err(errno.ENOTDIR, p)
    return CUR.order(p, list(node.children)), node


def _s_listdir(path="."):
    p = _sim(path)
    if p is None:
        return R["listdir"](path)
    return _names(p)[0]


class _DEMeta(type):
    def __instancecheck__(cls, obj):
        return type.__instancecheck__(cls, obj) or isinstance(obj, R["DirEntry"])


class SimDirEntry(metaclass=_DEMeta):
    def __init__(self, dirpath, name, node):
        self.name = name
        self.path = posixpath.join(dirpath, name)
        self._node = node

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return "<DirEntry %r>" % self.name

    def is_dir(self, *, follow_symlinks=True):
        return isinstance(self._node, Dir)

    def is_file(self, *, follow_symlinks=True):
        return isinstance(self._node, File)

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._node.ino

    def stat(self, *, follow_symlinks=True):
        # fstatat at call time, may have vanished since the listing
        return _s_stat(self.path)


class _ScandirIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _s_scandir(path="."):
    p = _sim(path)
    if p is None:
        return R["scandir"](path)
    names, node = _names(p)
    shown = os.fspath(path)
    return _ScandirIter([SimDirEntry(shown, n, node.children[n]) for n in names])


def _s_mkdir(path, mode=0o777, *, dir_fd=None):
    p = _sim(path)
    if p is None:
        _guard("mkdir", path)
        return R["mkdir"](path, mode, dir_fd=dir_fd)

    def apply(_k):
        if p == MNT:
            raise _err(errno.EEXIST, p)
        par, name = CUR.disk.parent(p)
        if name in par.children:
            raise _err(errno.EEXIST, p)
        par.children[name] = Dir(CUR.disk.ino(), CUR.clock)
        CUR.note_mut("mkdir", p)
    CUR.op("mkdir", p, apply=apply)


def _s_rmdir(path, *, dir_fd=None):
    p = _sim(path)
    if p is None:
        _guard("rmdir", path)
        return R["rmdir"](path, dir_fd=dir_fd)

    def apply(_k):
        node = CUR.disk.lookup(p)
        if not isinstance(node, Dir):
            raise _err(errno.ENOTDIR, p)
        if node.children:
            raise _err(errno.ENOTEMPTY, p)
        CUR.disk.h_remove(p)
        CUR.note_mut("rmdir", p)
    CUR.op("rmdir", p, apply=apply)


def _s_unlink(path, *, dir_fd=None):
    p = _sim(path)
    if p is None:
        _guard("unlink", path)
        return R["unlink"](path, dir_fd=dir_fd)

    def apply(_k):
        node = CUR.disk.lookup(p)
        if isinstance(node, Dir):
            raise _err(errno.EISDIR, p)
        CUR.disk.h_remove(p)
        CUR.note_mut("unlink", p)
    CUR.op("unlink", p, apply=apply)


def _s_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    a, b = _sim(src), _sim(dst)
    if a is None and b is None:
        _guard("rename", src)
        return R["rename"](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
    if a is None or b is None:
        raise _err(errno.EXDEV, str(src))

    def apply(_k):
        d = CUR.disk
        node = d.lookup(a)
        par, name = d.parent(b)
        old = par.children.get(name)
        if old is not None and old is not node:
            if isinstance(old, Dir) != isinstance(node, Dir):
                raise _err(errno.EISDIR if isinstance(old, Dir) else errno.ENOTDIR, b)
            if isinstance(old, Dir) and old.children:
                raise _err(errno.ENOTEMPTY, b)
        if isinstance(node, Dir) and (b + "/").startswith(a + "/") and a != b:
            raise _err(errno.EINVAL, b)
        apar, aname = d.parent(a)
        del apar.children[aname]
        par.children[name] = node
        CUR.note_mut("rename_from", a)
        CUR.note_mut("rename_to", b)
    CUR.op("rename", b, apply=apply)


def _s_link(src, dst, **kw):
    a, b = _sim(src), _sim(dst)
    if a is None and b is None:
        _guard("link", dst)
        return R["link"](src, dst, **kw)

    def apply(_k):
        node = CUR.disk.lookup(a)
        par, name = CUR.disk.parent(b)
        if name in par.children:
            raise _err(errno.EEXIST, b)
        par.children[name] = node
        CUR.note_mut("link", b)
    CUR.op("link", b, apply=apply)


def _s_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    if _sim(dst) is None:
        _guard("symlink", dst)
        return R["symlink"](src, dst, target_is_directory, dir_fd=dir_fd)
    raise _err(errno.EPERM, str(dst))


def _s_readlink(path, *, dir_fd=None):
    p = _sim(path)
    if p is None:
        return R["readlink"](path, dir_fd=dir_fd)
    CUR.disk.lookup(p)
    raise _err(errno.EINVAL, p)


def _s_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    p = _sim(path)
    if p is None:
        return R["access"](path, mode, dir_fd=dir_fd, effective_ids=effective_ids, follow_symlinks=follow_symlinks)
    return CUR.disk.get(p) is not None


def _meta(name):
    def f(path, *a, **k):
        if isinstance(path, int) and CUR is not None and path in CUR.fds:
            return None
        p = _sim(path)
        if p is None:
            _guard(name, path)
            return R[name](path, *a, **k)
        node = CUR.disk.lookup(p)
        if name == "chmod":
            node.mode = a[0] & 0o7777 if a else node.mode
        if name == "truncate" and isinstance(node, File):
            raw = _open_raw(p, "r+")
            try:
                raw.truncate(a[0])
            finally:
                raw.close()
        return None
    return f


def _s_getcwd():
    if CUR is not None and CUR.cwd is not None:
        return CUR.cwd
    return R["getcwd"]()


def _s_chdir(path):
    p = _sim(path)
    if p is None:
        if CUR is not None:
            CUR.cwd = None if CUR.cwd is None else CUR.cwd
        return R["chdir"](path) if CUR is None else _chdir_real(path)
    if not isinstance(CUR.disk.lookup(p), Dir):
        raise _err(errno.ENOTDIR, p)
    CUR.cwd = p


def _chdir_real(path):
    CUR.cwd = None
    return R["chdir"](path)


def _s_osopen(path, flags, mode=0o777, *, dir_fd=None):
    p = _sim(path)
    wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if p is None:
        if wr:
            _guard("os.open", path)
        return R["osopen"](path, flags, mode, dir_fd=dir_fd)
    acc = flags & (os.O_WRONLY | os.O_RDWR)
    if acc == 0:
        node = CUR.disk.get(p)
        if isinstance(node, Dir):
            # directory descriptor: usable for fsync only
            CUR.op("open_r", p)
            raw = SimRaw(CUR, File(b""), p, True, False, False)
            CUR.keep.append(raw)
            return raw._fd
        raw = _open_raw(p, "r")
    elif flags & os.O_CREAT:
        excl = bool(flags & os.O_EXCL)
        base = "w" if flags & os.O_TRUNC or excl else ("a" if flags & os.O_APPEND else "w" if CUR.disk.get(p) is None else "r+")
        if acc == os.O_RDWR and "+" not in base:
            base += "+"
        raw = _open_raw(p, base, excl=excl)
    else:
        raw = _open_raw(p, "r+")
        if flags & os.O_TRUNC:
            raw.truncate(0)
    CUR.keep.append(raw)
    return raw._fd


def _fdfun(name, fn):
    def f(fd, *a, **k):
        if CUR is not None and isinstance(fd, int) and fd in CUR.fds:
            return fn(CUR.fds[fd], *a, **k)
        return R[name](fd, *a, **k)
    return f


def _fsync(raw, *a):
    CUR.op("fsync", raw.path, proc=raw.proc)
    CUR.note_fsync(raw.path, raw.node)


def _s_sendfile(*a, **k):
    raise OSError(errno.ENOTSOCK, "no sendfile in simulation")


def _s_utime(path, *a, **k):
    if _sim(path) is None and not isinstance(path, int):
        _guard("utime", path)
        return R["utime"](path, *a, **k)
    return None


def _s_urandom(n):
    if CUR is not None:
        return CUR.entropy.randbytes(n)
    return R["urandom"](n)


def _listxattr(path=None, *a, **k):
    if _sim(path) is None:
        return R["listxattr"](path, *a, **k)
    return []


# ------------------------------------------------------------------ time
def _t_time():
    return CUR.now() if CUR is not None else R["time"]()


def _t_time_ns():
    return int(CUR.now() * 1e9) if CUR is not None else R["time_ns"]()


def _t_gmtime(secs=None):
    if secs is None:
        secs = _t_time()
    return R["gmtime"](secs)


def _t_localtime(secs=None):
    if secs is None:
        secs = _t_time()
    return R["localtime"](secs)


def set_tz(name):
    """Local time zone of the simulated machine (POSIX TZ string)."""
    if os.environ.get("TZ") != name:
        os.environ["TZ"] = name
        _time.tzset()


def _t_sleep(secs):
    if CUR is not None:
        CUR.clock += secs
        CUR.op("sleep", "")
        return
    R["sleep"](secs)


_RealDT, _RealDate = _dtmod.datetime, _dtmod.date


class _DateMeta(type(_RealDate)):
    def __instancecheck__(cls, obj):
        if cls is SimDate:
            return isinstance(obj, _RealDate)
        if cls is SimDateTime:
            return isinstance(obj, _RealDT)
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SimDate:
            return issubclass(sub, _RealDate)
        if cls is SimDateTime:
            return issubclass(sub, _RealDT)
        return type.__subclasscheck__(cls, sub)


class SimDateTime(_RealDT, metaclass=_DateMeta):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_t_time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_t_time(), _dtmod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(_t_time())


class SimDate(_RealDate, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        d = _RealDT.fromtimestamp(_t_time())
        return cls(d.year, d.month, d.day)


class SimText(io.TextIOWrapper):
    """Text files opened without an encoding get that of the simulated machine."""

    def __init__(self, buffer, encoding=None, *args, **kwargs):
        if encoding is None and CUR is not None and CUR.encoding:
            encoding = CUR.encoding
        super().__init__(buffer, encoding, *args, **kwargs)


_installed = False


def install():
    """Patch the interpreter; idempotent."""
    global _installed
    if _installed:
        return
    _installed = True
    os.environ["TZ"] = "UTC0"
    _time.tzset()
    R["open"] = builtins.open
    R["DirEntry"] = os.DirEntry
    R["osopen"] = os.open
    for n in ("stat", "lstat", "listdir", "scandir", "mkdir", "rmdir", "unlink", "remove", "rename", "replace", "link",
              "symlink", "readlink", "access", "chmod", "utime", "truncate", "chown", "getcwd", "chdir",
              "close", "read", "write", "fsync", "fdatasync", "fstat", "ftruncate", "lseek", "isatty", "urandom", "sendfile", "listxattr"):
        R[n] = getattr(os, n)
    for n in ("time", "time_ns", "gmtime", "localtime", "sleep"):
        R[n] = getattr(_time, n)
    builtins.open = _open
    io.open = _open
    io.TextIOWrapper = SimText
    os.DirEntry = SimDirEntry
    for n, f in (("stat", _s_stat), ("lstat", _s_lstat), ("listdir", _s_listdir), ("scandir", _s_scandir), ("mkdir", _s_mkdir),
                 ("rmdir", _s_rmdir), ("unlink", _s_unlink), ("remove", _s_unlink), ("rename", _s_rename), ("replace", _s_rename),
                 ("link", _s_link), ("symlink", _s_symlink), ("readlink", _s_readlink), ("access", _s_access),
                 ("chmod", _meta("chmod")), ("truncate", _meta("truncate")), ("chown", _meta("chown")), ("utime", _s_utime),
                 ("getcwd", _s_getcwd), ("chdir", _s_chdir), ("open", _s_osopen), ("urandom", _s_urandom), ("listxattr", _listxattr)):
        setattr(os, n, f)
    os.close = _fdfun("close", lambda raw: raw.close())
    os.read = _fdfun("read", lambda raw, n: raw.read(n))
    os.write = _fdfun("write", lambda raw, b: raw.write(b))
    os.fsync = _fdfun("fsync", _fsync)
    os.fdatasync = _fdfun("fdatasync", _fsync)
    os.fstat = _fdfun("fstat", lambda raw: _statres(raw.node))
    os.ftruncate = _fdfun("ftruncate", lambda raw, n: raw.truncate(n))
    os.lseek = _fdfun("lseek", lambda raw, o, w: raw.seek(o, w))
    os.isatty = _fdfun("isatty", lambda raw: False)
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    _time.time, _time.time_ns, _time.gmtime, _time.localtime, _time.sleep = _t_time, _t_time_ns, _t_gmtime, _t_localtime, _t_sleep
    _dtmod.datetime, _dtmod.date = SimDateTime, SimDate
    tempfile._get_candidate_names()


def set_world(w):
    global CUR
    CUR = w
    if w is not None:
        _random.seed(w.seed)
        tempfile._name_sequence = _Names(w)
        tempfile.tempdir = None


class _Names:
    def __init__(self, w):
        self.rng = _random.Random("tmp%s" % w.seed)

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))
