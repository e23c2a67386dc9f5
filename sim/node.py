"""A hosted node: generated code of one language running real code behind the simulator's seams."""
from . import codec
from .core import Violation
from .build import HarnessError
from .worker import WorkerDied


class Resp:
    """A parsed response. ok: bool; text: rest."""
    __slots__ = ("ok", "text", "t")

    def __init__(self, line):
        self.ok = line.startswith("ok")
        self.text = line
        self.t = line.split(" ")


HAS_CURSOR = {"c", "csharp", "go", "rust", "typescript"}
CAN_EXHAUST = {"c", "csharp", "typescript"}
HAS_ALLOC = {"c", "zig"}
STREAMING = {"go", "csharp"}


class Node:
    """Binds a worker to one simulated run. Handles are allocated per run; everything is released at the end of the run."""

    def __init__(self, sim, lang, worker, name=None):
        self.sim, self.lang, self.wk = sim, lang, worker
        self.name = name or lang
        self.nh = self.nl = self.nc = self.ns = self.nt = 0
        self.handles, self.lists, self.srcs, self.sinks = {}, {}, set(), set()
        self.tasks = {}
        self.used = False

    # ---- raw ----
    def classify(self, line, resp):
        sim = self.sim
        self.used = True
        sim.h.update(self.lang.encode() + line.encode() + b">" + resp.encode() + b"\n")
        if resp.startswith("fatal"):
            raise HarnessError(f"{self.lang}: {line[:300]} -> {resp[:300]}")
        if resp.startswith("panic") or resp.startswith("done panic"):
            raise Violation("crash", f"{self.lang} node crashed on `{short(line)}`: {resp[:300]}")
        if resp.startswith("bad") or resp.startswith("done bad"):
            raise Violation("memory", f"{self.lang} node broke its contract on `{short(line)}`: {resp[:300]}")
        return resp

    def raw(self, line):
        try:
            r = self.wk.request(line)
        except WorkerDied as e:
            raise Violation("hang" if e.how == "hung" else "crash", f"{self.lang} node {e.how} on `{short(line)}`: {e.detail}")
        return self.classify(line, r)

    def raws(self, lines):
        try:
            rs = self.wk.requests(lines)
        except WorkerDied as e:
            raise Violation("hang" if e.how == "hung" else "crash",
                            f"{self.lang} node {e.how} within `{short(' ; '.join(lines), 300)}`: {e.detail}")
        return [self.classify(l, r) for l, r in zip(lines, rs)]

    def op(self, wi, text):
        return Resp(self.raw(f"{wi} {text}"))

    def ops(self, wi, texts):
        return [Resp(r) for r in self.raws([f"{wi} {t}" for t in texts])]

    # ---- objects ----
    def h(self):
        self.nh += 1
        return self.nh

    def load(self, wi, m, v):
        """Builds the value natively; returns a handle."""
        w = self.sim.worlds[wi]
        h = self.h()
        r = self.op(wi, f"load {h} {w.mnames.index(m)} " + " ".join(codec.tokens(w, m, False, v, [])))
        if not r.ok:
            raise Violation("value", f"{self.lang}: {m} cannot be filled in: {r.text[:200]}")
        self.handles[h] = wi
        return h

    def new(self, wi, m, flavor=0):
        w = self.sim.worlds[wi]
        h = self.h()
        r = self.op(wi, f"new {h} {w.mnames.index(m)} {flavor}")
        if r.ok:
            self.handles[h] = wi
        return h, r

    def refill(self, h, m, v, i=-1):
        """Gives the object (or element i of the list) h new content, member by member, in place."""
        wi = (self.handles if i < 0 else self.lists)[h]
        w = self.sim.worlds[wi]
        r = self.op(wi, f"refill {h} {i} {w.mnames.index(m)} " + " ".join(codec.tokens(w, m, False, v, [])))
        if not r.ok:
            raise Violation("value", f"{self.lang}: {m} cannot be filled in again: {r.text[:200]}")

    def get(self, h):
        return self.op(self.handles[h], f"get {h}")

    def free(self, h, flavor=0):
        wi = self.handles.pop(h)
        self.op(wi, f"free {h} {flavor}")

    def mklist(self, wi, hs):
        self.nl += 1
        L = self.nl
        self.op(wi, f"mklist {L} " + " ".join(map(str, hs)))
        for x in hs:
            self.handles.pop(x, None)
        self.lists[L] = wi
        return L

    def lfree(self, L):
        wi = self.lists.pop(L)
        return self.op(wi, f"lfree {L}")

    # ---- sources ----
    def src(self, wi, data, c=None):
        if c is None:
            self.nc += 1
            c = self.nc
        self.op(wi, f"src {c} {bytes(data).hex()}")
        self.srcs.add((c, wi))
        return c

    def parse(self, wi, r):
        """(pos, messages) of a successful proc/unpack/lget response `ok pos n ...`."""
        w = self.sim.worlds[wi]
        it = iter(r.t[1:])
        pos = int(next(it))
        return pos, self.parse_list(wi, it, r.text)

    def parse_list(self, wi, it, text=""):
        w = self.sim.worlds[wi]
        out = []
        try:
            n = int(next(it))
            for _ in range(n):
                m = w.mnames[int(next(it))]
                out.append((m, codec.parse_tokens(w, m, False, it)))
        except (StopIteration, ValueError, IndexError, AssertionError):
            raise Violation("value", f"{self.lang} node produced a malformed object: {text[:300]}")
        return out

    def proc(self, wi, c, max_=-1, L=-1):
        """ProcessRawBytes. Returns (ok, pos, messages)."""
        r = self.op(wi, f"proc {c} {max_} {L}")
        if not r.ok:
            return False, None, []
        if L >= 0:
            self.lists[L] = wi
        pos, ms = self.parse(wi, r)
        return True, pos, ms

    def unpack(self, wi, c, L=-1):
        r = self.op(wi, f"unpack {c} {L}")
        if not r.ok:
            return False, None, []
        if L >= 0:
            self.lists[L] = wi
        pos, ms = self.parse(wi, r)
        return True, pos, ms

    def read(self, wi, c, m, h=-1):
        w = self.sim.worlds[wi]
        r = self.op(wi, f"read {c} {w.mnames.index(m)} {h}")
        return self.parse_read(wi, r, h)

    def parse_read(self, wi, r, h=-1):
        w = self.sim.worlds[wi]
        if not r.ok:
            return False, None, None
        if h >= 0:
            self.handles[h] = wi
        it = iter(r.t[1:])
        try:
            pos = int(next(it))
            mm = w.mnames[int(next(it))]
            return True, pos, (mm, codec.parse_tokens(w, mm, False, it))
        except (StopIteration, ValueError, IndexError, AssertionError):
            raise Violation("value", f"{self.lang} node produced a malformed object: {r.text[:300]}")

    def newlist(self):
        self.nl += 1
        return self.nl

    # ---- sinks ----
    def sink(self, wi, cap, pre=0):
        self.ns += 1
        s = self.ns
        self.op(wi, f"sink {s} {cap} {pre}")
        self.sinks.add((s, wi))
        return s

    def sinkget(self, wi, s):
        r = self.op(wi, f"sinkget {s}")
        return bytes.fromhex(r.t[1][1:])

    def write_all(self, wi, h, tag=True, size=None, generic=0):
        """Writes one message into a buffer of exactly the right size; returns the bytes."""
        if size is None:
            size = self.size(wi, h) + (1 if tag else 0)
        s = self.sink(wi, size)
        r = self.op(wi, f"write {s} {h} {1 if tag else 0} {generic}")
        out = self.sinkget(wi, s) if r.ok else None
        self.sinkclose(wi, s)
        return r.ok, out

    def sinkclose(self, wi, s):
        self.op(wi, f"sinkclose {s}")
        self.sinks.discard((s, wi))

    def srcclose(self, wi, c):
        self.op(wi, f"srcclose {c}")
        self.srcs.discard((c, wi))

    def size(self, wi, h, generic=0):
        r = self.op(wi, f"size {h} {generic}")
        if not r.ok:
            raise Violation("size", f"{self.lang}: size of a valid message reported an error: {r.text[:200]}")
        return int(r.t[1])

    def live(self, wi=0):
        r = self.op(wi, "live")
        return [int(x) for x in r.t[1:]]

    # ---- tasks ----
    def spawn(self, wi, text):
        self.nt += 1
        t = self.nt % 60
        while t in self.tasks:
            t = (t + 1) % 60
        self.tasks[t] = True
        return t, self._tr(t, self.raw(f"spawn {t} {wi} {text}"))

    def resume(self, t, action):
        return self._tr(t, self.raw(f"resume {t} {action}"))

    def _tr(self, t, r):
        if r.startswith("done "):
            del self.tasks[t]
            return ("done", Resp(r[5:]))
        if not r.startswith("park "):
            raise HarnessError(f"task: {r[:200]}")
        return ("park", r[5:].split(" "))

    # ---- life cycle ----
    def restart(self):
        """Process restart: everything volatile is gone."""
        self.cleanup()

    def cleanup(self):
        if self.wk.p is None or not self.used:
            return
        lines = [f"{wi} free {h}" for h, wi in self.handles.items()]
        lines += [f"{wi} lfree {L}" for L, wi in self.lists.items()]
        lines += [f"{wi} srcclose {c}" for c, wi in sorted(self.srcs)]
        lines += [f"{wi} sinkclose {s}" for s, wi in sorted(self.sinks)]
        if self.lang in HAS_ALLOC:
            lines.insert(0, "0 alloc 0")
        self.handles, self.lists, self.srcs, self.sinks = {}, {}, set(), set()
        if lines:
            self.raws(lines)


def short(line, n=160):
    return line if len(line) <= n else line[:n] + f"…({len(line)} characters)"
