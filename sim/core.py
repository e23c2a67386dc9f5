"""The simulator kernel: one recorded choice sequence decides everything; virtual time; event log; counters."""
import hashlib
import heapq
import random


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, cls, text):
        super().__init__(text)
        self.cls = cls
        self.text = text


class Discard(Exception):
    """This run turned out to be outside the property's scope (counted, never a verdict)."""


class Choices:
    """Every nondeterministic decision. Fresh: drawn from a PRNG and recorded. Replay: read back, 0 when exhausted."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.rec = []

    def draw(self, n):
        """An integer in [0, n); 0 is the simplest choice."""
        if n <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            i = len(self.rec)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = v % n
        self.rec.append(v)
        return v

    def chance(self, num, den):
        """True with probability num/den; the simplest choice is False."""
        return self.draw(den) >= den - num

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        t = self.draw(sum(p[0] for p in pairs))
        for wt, v in pairs:
            if t < wt:
                return v
            t -= wt

    def shuffle(self, seq):
        s = list(seq)
        for i in range(len(s) - 1):
            j = i + self.draw(len(s) - i)
            s[i], s[j] = s[j], s[i]
        return s


class Sim:
    """One simulated run."""

    def __init__(self, choices, worlds, nodes, tier="quick"):
        self.c = choices
        self.worlds = worlds          # [World]
        self.nodes = nodes            # {lang: Node}
        self.tier = tier
        self.now = 0                  # virtual microseconds
        self._seq = 0
        self._q = []
        self.log = []
        self.h = hashlib.blake2b(digest_size=8)
        self.sched = hashlib.blake2b(digest_size=8)
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.checks = 0
        self.trivial = True
        self.sample = None
        self.listed = {}              # known findings of this property
        self.found = {}

    # ---- events ----
    def at(self, delay, fn, *a):
        self._seq += 1
        heapq.heappush(self._q, (self.now + max(0, delay), self._seq, fn, a))

    def run(self, max_steps=100000):
        """Runs events in time order until none is left. Returns False when the step bound was hit."""
        while self._q:
            if self.steps >= max_steps:
                return False
            t, s, fn, a = heapq.heappop(self._q)
            self.now = t
            self.steps += 1
            fn(*a)
        return True

    # ---- recording ----
    def event(self, text):
        self.log.append(f"t={self.now} {text}")
        self.h.update(f"{self.now} {text}\n".encode())

    def order(self, text):
        """Contributes to the measure of distinct interleavings."""
        self.sched.update(text.encode() + b";")

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.sched.update(kind.encode() + b"!")

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def known(self, key, cls, text):
        """A failure: excused when the committed known-findings file lists exactly this one, a violation otherwise."""
        if key not in self.listed:
            raise Violation(cls, f"{text} [{key}]")
        self.found[key] = self.found.get(key, 0) + 1

    def fail(self, cls, text):
        raise Violation(cls, text)

    def check(self, cond, cls, text):
        self.checks += 1
        if not cond:
            raise Violation(cls, text() if callable(text) else text)
