"""Result collection shared by all property modules."""
import hashlib

from .world import Sim
from .lib import jdump


class Res:
    """Outcome of running one scenario."""

    def __init__(self):
        self.violations = []        # [{"cls","msg"}]
        self.runs = 0               # simulated executions
        self.simtime = 0.0
        self.ops = 0
        self.fired = {}
        self.states = set()         # distinct interleavings / states reached
        self.probes = {}
        self.hash = hashlib.blake2b(digest_size=16)
        self.nontrivial = False

    def V(self, cls, msg, focus=None):
        v = {"cls": cls, "msg": str(msg)[:900]}
        if focus:
            v["focus"] = focus
        self.violations.append(v)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def absorb(self, w):
        """Account for a finished world."""
        self.runs += 1
        self.simtime += max(0.0, w.clock - w.clock0)
        self.ops += w.total_ops
        for k, n in w.fired_kinds.items():
            self.fired[k] = self.fired.get(k, 0) + n
        self.hash.update(w.hash.digest())

    def sim(self, seed=0, clock=1700000000.0, order=None):
        return _S(self, seed, clock, order)

    def state(self, *parts):
        self.states.add(hashlib.blake2b(jdump(parts).encode(), digest_size=8).hexdigest())


class _S:
    def __init__(self, res, seed, clock, order):
        self.res, self.sim, self.order = res, Sim(seed, clock), order

    def __enter__(self):
        w = self.sim.__enter__()
        w.clock0 = w.clock
        w.order_seed = self.order
        if self.order is not None:      # the locale of the machine
            w.encoding = {0: "ascii", 1: "latin-1", 2: "cp1252"}.get(self.order % 7)
        return w

    def __exit__(self, *a):
        self.sim.__exit__(*a)
        if a[0] is None:
            self.res.absorb(self.sim.w)
        return False
