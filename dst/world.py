"""The simulated world: disk, clock, fault engine, scheduler, event log."""
import errno
import gc
import hashlib
import os
import random
import threading

from . import simos
from .simos import Disk, SimCrash, MNT, File, Dir

MAX_OPS = 400000
MAX_SHORT = 3000         # short reads and writes of one fault, then whole ones


class SimHang(BaseException):
    """The code under test performed an absurd number of storage operations."""


class Proc:
    """A simulated OS process (dies as a whole)."""

    def __init__(self, name):
        self.name = name
        self.dead = False


class Client:
    def __init__(self, name, fn, proc):
        self.name, self.fn, self.proc = name, fn, proc
        self.sem = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.thread = None
        self.at = None          # op the client is parked on


class World:
    def __init__(self, seed=0, clock=1700000000.0):
        self.seed = seed
        self.disk = Disk()
        self.kv = {}            # object store: key -> File
        self.buckets = {"bucket"}
        self.clock = clock
        self.cwd = None
        self.guarding = True
        self.escapes = []
        self.fds = {}
        self.keep = []
        self.encoding = None        # of text files by default, as the locale of the machine has it; None: utf-8
        self.finished = False
        self._nextfd = 10_000_000
        self._main = Proc("main")
        self._tl = threading.local()
        self.entropy = random.Random("entropy%s" % seed)
        self.order_seed = None      # None: insertion order; else seeded permutation per listing
        self.hash = hashlib.blake2b(digest_size=16)
        self.total_ops = 0
        self.base_ops = 0
        # fault engine
        self.faults = None
        self.opn = 0
        self.quota = None
        self.readcap = None
        self.fired = []             # [(index, kind, path, act)]
        self.fired_kinds = {}
        self.recording = None       # list of (kind, path, n)
        self.muts = None            # list of (what, path)
        self.dirty = {}             # id(node) -> [node, durable bytes]
        # scheduler
        self.clients = None
        self._ctl = threading.Semaphore(0)
        self.schedule_taken = []
        self.hard_hash = set()
        self.stretches, self.stretch = [], clock
        self.on_rot = None          # called when a "rot" fault strikes
        self.listcount = 0

    # ------------------------------------------------------------ processes
    @property
    def proc(self):
        return getattr(self._tl, "proc", None) or self._main

    def restart(self):
        """All simulated processes die; a fresh one starts."""
        self._main.dead = True
        self._main = Proc("main")
        self.fds.clear()
        self.keep.clear()
        self.cwd = None

    def new_fd(self, raw):
        self._nextfd += 1
        self.fds[self._nextfd] = raw
        return self._nextfd

    def now(self):
        self.clock += 0.0001
        return self.clock

    def jump(self, delta):
        """The system clock is set; the stretches it showed are remembered."""
        self.stretches.append((self.stretch, self.clock))
        self.clock = max(0.0, self.clock + delta)
        self.stretch = self.clock

    def shown(self):
        """Intervals of clock values since mark()."""
        return self.stretches + [(self.stretch, self.clock)]

    def mark(self):
        self.stretches = []
        self.stretch = self.clock

    # ---------------------------------------------------------- fault engine
    def arm(self, faults=(), quota=None, record=False):
        """Start a window: op counter at 0, faults relative to it."""
        self.faults = [dict(f) for f in faults]
        self.quota = quota
        self.readcap = None         # object store reads give at most that many bytes at once
        for f in self.faults:
            if f.get("act") == "short" and f.get("sticky") and "read" in (f.get("kinds") or ()):
                self.readcap = max(7, int(70000 * f.get("part", 0.5)))
        self.opn = 0
        self.base_ops = self.total_ops
        self.dirty = {}
        self.fired = []
        self.recording = [] if record else None
        self.muts = []

    def disarm(self):
        self.faults = None
        self.readcap = None
        self.quota = None
        rec = self.recording
        self.recording = None
        return rec

    def _match(self, idx, kind, path, procname):
        for f in self.faults:
            if f.get("client") is not None and f["client"] != procname:
                continue
            if "nth" in f:
                if f.get("sticky") and not f.get("spent"):
                    if idx < f["nth"] or (f.get("kinds") and kind not in f["kinds"]):
                        continue
                elif idx != f["nth"] or f.get("spent"):
                    continue
                return f
        return None

    def op(self, kind, path, n=0, apply=None, proc=None, node=None):
        """One primitive storage operation. Returns the byte count allowed."""
        if self.finished:
            return n
        p = proc or self.proc
        if p.dead:
            raise SimCrash()
        cl = getattr(self._tl, "client", None)
        if cl is not None:
            self._park(cl, kind, path)
            if p.dead:
                raise SimCrash()
        self.total_ops += 1
        if self.total_ops - self.base_ops > MAX_OPS:
            raise SimHang()
        self.clock += 0.00005
        act = None
        f = None
        if self.faults is not None:
            if cl is not None:
                idx = cl.opn = getattr(cl, "opn", -1) + 1
            else:
                idx = self.opn
            self.opn += 1
            if self.recording is not None:
                self.recording.append((kind, path, n))
            if self.faults:
                f = self._match(idx, kind, path, cl.name if cl else None)
                if f is not None and not applicable(kind, f["act"]):
                    f = None
                if f is not None:
                    act = f["act"]
                    f["fires"] = f.get("fires", 0) + 1
                    if not f.get("sticky") or act == "short" and f["fires"] >= MAX_SHORT:
                        f["spent"] = True
                    label = act if act != "err" else f["errno"]
                    self.fired.append((idx, kind, path, label))
                    key = kind + ":" + label
                    self.fired_kinds[key] = self.fired_kinds.get(key, 0) + 1
        self.hash.update(("%s|%s|%s|%s|%s\n" % (p.name, kind, path, n, act)).encode("utf-8", "surrogateescape"))
        if act == "crash":
            p.dead = True
            raise SimCrash()
        if act == "err":
            part = f.get("part")
            if part is not None and kind in ("write", "put") and apply:
                k = int(n * part)
                if k:
                    apply(k)
            if kind == "close" and node is not None and f.get("lose") is not None:
                keep = int(len(node.data) * f["lose"])
                del node.data[keep:]
            raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])), path)
        if act == "torn":
            if apply:
                k = int(n * f.get("part", 0.5))
                if kind == "put":
                    pass            # object puts are atomic: nothing stored
                elif k:
                    apply(k)
            p.dead = True
            raise SimCrash()
        if act == "short" and n > 1:
            n = max(1, min(n - 1, int(n * f.get("part", 0.5))))
        if act == "jump":
            self.jump(f["delta"])
        if act == "rot":
            self.on_rot()
        if self.quota is not None and kind in ("write", "put"):
            if n > self.quota:
                k = self.quota if kind == "write" else 0
                self.quota = 0
                self.fired.append((self.opn, kind, path, "ENOSPC-quota"))
                self.fired_kinds[kind + ":ENOSPC-quota"] = self.fired_kinds.get(kind + ":ENOSPC-quota", 0) + 1
                if k and apply:
                    apply(k)
                    return k
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            self.quota -= n
        if apply is not None:
            apply(n)
        if act == "crash_after":
            p.dead = True
            raise SimCrash()
        return n

    # -------------------------------------------------------------- observers
    def note_mut(self, what, path):
        if self.muts is not None:
            self.muts.append((what, path))

    def note_write(self, path, node, created=False):
        if self.muts is not None and not created:
            if not self.muts or self.muts[-1] != ("write", path):
                self.muts.append(("write", path))
        if id(node) not in self.dirty:
            self.dirty[id(node)] = [node, b"" if created else bytes(node.data), path]

    def note_fsync(self, path, node):
        if id(node) in self.dirty:
            self.dirty[id(node)][1] = bytes(node.data)

    def power_loss(self, rng):
        """Un-synced data of files written in this window is partly lost."""
        lost = 0
        for node, durable, _path in self.dirty.values():
            cur = bytes(node.data)
            c = rng.random()
            if c < 0.35:
                continue
            if c < 0.75:
                new = cur[:rng.randrange(len(cur) + 1)]
            else:
                new = durable
            if new != cur:
                node.data[:] = new
                lost += 1
        if lost:
            self.fired_kinds["power:lost-data"] = self.fired_kinds.get("power:lost-data", 0) + lost
        return lost

    def order(self, path, names):
        """Directory listing order (seeded; a real fs promises none)."""
        if self.order_seed is None:
            return names
        self.listcount += 1
        names = sorted(names)
        random.Random("%s|%s|%s" % (self.order_seed, path, self.listcount if self.order_seed % 2 else 0)).shuffle(names)
        return names

    # -------------------------------------------------------------- scheduler
    def _park(self, cl, kind, path):
        cl.at = (kind, path)
        self._ctl.release()
        cl.sem.acquire()

    def run_clients(self, specs, choose):
        """Run [(name, fn)] as concurrent simulated processes.

        choose(runnable list of Client, step) -> index decides who does the next
        storage operation. Returns {name: result tuple}.
        """
        clients = [Client(n, f, Proc(n)) for n, f in specs]
        self.clients = clients
        self.schedule_taken = []
        for i, cl in enumerate(clients):
            cl.idx = i

        def body(cl):
            self._tl.client = cl
            self._tl.proc = cl.proc
            cl.sem.acquire()
            try:
                cl.result = outcome(cl.fn)
            except BaseException as e:      # pylint: disable=broad-except
                cl.result = ("harness", repr(e))
            finally:
                cl.done = True
                self._tl.client = None
                self._ctl.release()
        for cl in clients:
            cl.thread = threading.Thread(target=body, args=(cl,), daemon=True)
            cl.thread.start()
        step = 0
        while True:
            runnable = [c for c in clients if not c.done]
            if not runnable:
                break
            i = choose(runnable, step)
            cl = runnable[i % len(runnable)]
            self.schedule_taken.append(clients.index(cl))
            step += 1
            cl.sem.release()
            self._ctl.acquire()
        for cl in clients:
            cl.thread.join()
        self.clients = None
        return {c.name: c.result for c in clients}


def outcome(fn):
    """('ok', value) | ('err', ExceptionTypeName, message) | ('crash',) | ('hang',)."""
    try:
        return ("ok", fn())
    except SimCrash:
        return ("crash",)
    except SimHang:
        return ("hang",)
    except SystemExit as e:
        return ("exit", e.code)
    except Exception as e:     # pylint: disable=broad-except
        r = ("err", type(e).__name__, str(e)[:300])
        e.__traceback__ = None
        return r


ERRABLE = {
    "listdir": ("EIO", "EACCES"), "mkdir": ("EIO", "ENOSPC", "EACCES"), "open_r": ("EIO", "EMFILE", "EACCES"),
    "open_w": ("EIO", "ENOSPC", "EMFILE", "EACCES"), "read": ("EIO",), "write": ("EIO", "ENOSPC"),
    "close": ("EIO", "ENOSPC"), "unlink": ("EIO", "EACCES"), "rename": ("EIO", "ENOSPC"), "get": ("EIO",), "put": ("EIO", "ENOSPC"),
    "delete": ("EIO",), "rmdir": ("EIO",), "link": ("EIO",), "fsync": ("EIO",), "truncate": ("EIO",),
}


def applicable(kind, act):
    if act in ("crash", "crash_after", "jump", "rot"):
        return True
    if act == "err":
        return kind in ERRABLE
    if act == "torn":
        return True
    if act == "short":
        return kind in ("read", "write")
    return False


class Sim:
    """Context manager that makes a World current."""

    def __init__(self, seed=0, clock=1700000000.0):
        self.w = World(seed, clock)

    def __enter__(self):
        simos.set_world(self.w)
        return self.w

    def __exit__(self, *a):
        simos.set_tz("UTC0")
        self.w.finished = True
        self.w.fds.clear()
        self.w.keep.clear()
        simos.set_world(None)
        return False


def fresh_gc():
    gc.collect()
