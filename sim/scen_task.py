"""C13 interleaved tasks in one process, C15 streams that misbehave."""
from . import codec
from .build import LANGS
from .node import HAS_CURSOR, STREAMING
from .scen_mem import parse_new
from .scen_net import brief, chunk_size, names, pick_world
from .values import Gen


# ------------------------------------------------------------------ C13
ALLOCS = ("c", "zig", "rust")      # where tasks are preempted at allocations rather than at streams


class Task:
    """One logical task: a read, a write or a creation, preempted wherever the code meets a seam."""

    def __init__(self, sim, n, wi, nm, g, idx, crowded=False):
        c = sim.c
        self.sim, self.n, self.wi, self.idx = sim, n, wi, idx
        self.w = sim.worlds[wi]
        kinds = ["read", "proc", "unpack", "read"]
        if n.lang in ("go", "csharp", "rust"):
            kinds += ["write", "pack"]
        if n.lang in ("c", "rust"):
            kinds += ["new"]
        if crowded:      # lists that outgrow what they were given first
            self.kind = c.pick(["proc", "proc", "unpack"])
            self.msgs = g.crowd(nm, 70)[:c.pick([9, 12, 17, 33, 70])]
        else:
            self.kind = c.pick(kinds)
            k = 1 if self.kind in ("read", "write", "new") else 1 + c.draw(4)
            self.msgs = [g.message(nm) for _ in range(k)] if k == 1 else g.several(k, nm, 120, 300)
        k = len(self.msgs)
        w = self.w
        self.hd = self.L = -1
        self.failing = False
        m, v = self.msgs[0]
        if self.kind == "read":
            self.data = codec.encode(w, m, v)
            self.hd = n.h()
            self.cmd = f"read {{s}} {w.mnames.index(m)} {self.hd}"
        elif self.kind == "proc":
            self.data = b"".join(codec.encode(w, *x, tag=True) for x in self.msgs)
            self.L = n.newlist()
            self.cmd = f"proc {{s}} {c.pick([-1, k])} {self.L}"
        elif self.kind == "unpack":
            self.data = codec.pack(w, self.msgs)
            self.L = n.newlist()
            self.cmd = f"unpack {{s}} {self.L}"
        elif self.kind == "new":
            self.msgs = [(m, codec.default(w, m))]
            self.hd = n.h()
            self.cmd = f"new {self.hd} {w.mnames.index(m)} {c.draw(2)}"
        elif self.kind == "write":
            self.data = codec.encode(w, m, v, True)
            self.obj = n.load(wi, m, v)
            self.cmd = f"write {{s}} {self.obj} 1"
        else:
            self.data = codec.pack(w, self.msgs)
            self.obj = n.mklist(wi, [n.load(wi, *x) for x in self.msgs])
            self.cmd = f"lpack {{s}} {self.obj}"
        self.p = 0
        self.truncate = len(self.data) if self.kind in ("read", "proc", "unpack", "write", "pack") else 0
        if self.kind in ("read", "unpack", "proc") and n.lang not in ALLOCS and len(self.data) > 1 and c.chance(1, 5):
            self.truncate = c.draw(len(self.data) - (1 if self.kind == "unpack" else 0))
            if self.kind == "proc":
                # a cut on a boundary is a complete, shorter stream
                ends, q = [0], 0
                for x in self.msgs:
                    q += len(codec.encode(w, *x, tag=True))
                    ends.append(q)
                if self.truncate in ends:
                    self.truncate = len(self.data)
            if self.truncate < len(self.data):
                self.failing = True
                sim.fault("one task's stream is truncated")
        self.st = None
        self.done = False

    def step(self):
        """Runs the task until its next seam."""
        sim, n, wi, c = self.sim, self.n, self.wi, self.sim.c
        if self.st is None:
            self.s = None
            if self.kind in ("write", "pack"):
                n.ns += 1
                self.s = n.ns
                n.op(wi, f"sinkpark {self.s}")
            elif self.kind != "new":
                n.nc += 1
                self.s = n.nc
                if n.lang in ALLOCS:
                    n.src(wi, self.data, self.s)
                else:
                    n.op(wi, f"srcpark {self.s} {self.truncate}" if n.lang == "csharp" else f"srcpark {self.s}")
            self.t, self.st = n.spawn(wi, self.cmd.format(s=self.s))
        elif n.lang in ALLOCS:
            if not self.failing and n.lang != "rust" and c.chance(1, 60 if len(self.msgs) < 9 else 600):
                self.failing = True
                sim.fault("one task's allocation failed")
                self.st = n.resume(self.t, "f")
                self.maybe = True
            else:
                self.st = n.resume(self.t, "k")
        elif self.kind in ("write", "pack"):
            if not self.failing and n.lang == "csharp" and c.chance(1, 60):
                self.failing = True
                sim.fault("one task's device failed")
                self.st = n.resume(self.t, "x 0")
            else:
                self.st = n.resume(self.t, "k" if not self.failing else "x 0")
        else:
            want = int(self.st[1][1])
            left = self.truncate - self.p
            if left <= 0 and want:
                self.st = n.resume(self.t, "de")
            else:
                k = chunk_size(c, min(want, left)) if want else 0
                d = self.data[self.p:self.p + k]
                self.p += k
                self.st = n.resume(self.t, "d " + d.hex())
        if self.st[0] == "done":
            self.finish(self.st[1])

    def finish(self, r):
        sim, n, wi, w = self.sim, self.n, self.wi, self.w
        self.done = True
        who = lambda: f"{n.lang} task {self.idx} ({self.kind} of {[brief(*x) for x in self.msgs][:3]})"
        sim.event(f"task {self.idx} {self.kind} done: {r.text[:50]}")
        if self.failing:
            if r.ok:      # a failing allocation may be survivable; success means the whole result
                sim.check(n.lang in ALLOCS, "isolation", lambda: f"{who()}: reports success although its stream was cut")
                self.result(r, who)
            else:
                self.hd = self.L = -1
            if self.kind in ("write", "pack"):
                n.op(wi, f"sinkclose {self.s}")
            return
        sim.check(r.ok, "isolation", lambda: f"{who()}: fails when interleaved with others: {r.text[:160]}")
        self.result(r, who)

    def result(self, r, who):
        sim, n, wi, w = self.sim, self.n, self.wi, self.w
        if self.kind in ("write", "pack"):
            out = n.sinkget(wi, self.s)
            sim.check(out == self.data, "isolation", lambda: f"{who()}: wrote {out.hex()[:160]} when interleaved with others, alone {self.data.hex()[:160]}")
            n.op(wi, f"sinkclose {self.s}")
            return
        if self.kind == "read":
            n.handles[self.hd] = wi
            got = [n.parse_read(wi, r)[2]]
        elif self.kind == "new":
            n.handles[self.hd] = wi
            got = [parse_new(sim, n, wi, r)]
        else:
            n.lists[self.L] = wi
            got = n.parse(wi, r)[1]
        sim.check(got == self.msgs, "isolation", lambda: f"{who()}: got {[brief(*x) for x in got][:3]} when interleaved with others")
        if self.s is not None:
            n.op(wi, f"srcclose {self.s}")

    def recheck(self):
        n, wi, sim = self.n, self.wi, self.sim
        if self.kind in ("write", "pack") or not self.done:
            return
        if self.hd >= 0:
            got = [parse_new(sim, n, wi, n.get(self.hd))]
        elif self.L >= 0:
            r = n.op(wi, f"lget {self.L}")
            got = n.parse_list(wi, iter(r.t[1:]), r.text)
        else:
            return
        sim.check(got == self.msgs, "isolation", lambda: f"{n.lang}: the result of task {self.idx} {[brief(*x) for x in self.msgs][:3]} became {[brief(*x) for x in got][:3]} while other tasks ran")


def interleaved(sim):
    """Several tasks in one process, each with its own stream, buffer and objects, preempted at every read, write or allocation in an
    order the scheduler draws. Each must produce what it produces alone."""
    c = sim.c
    lang = c.pick(["c", "csharp", "go", "zig", "rust"])
    n = sim.node(lang)
    tasks = []
    k = 2 + c.draw(4)
    crowded = c.chance(1, 6)
    if crowded:
        k = 2 + c.draw(2)
        n.restart()          # nothing left over from what this process did before
        sim.probe("tasks growing their lists at the same time")
    one = pick_world(sim)
    for i in range(k):
        wi = one if c.chance(3, 4) else pick_world(sim)
        nm = names(sim, wi)
        if c.chance(1, 2):
            nm = nm[:2] if len(nm) > 2 else nm
        tasks.append(Task(sim, n, wi, nm, Gen(c, sim.worlds[wi], budget=250, long=(1, 300)), i, crowded and i < 2))
    sim.event(f"{lang}: {[(t.kind, t.w.name) for t in tasks]}")
    guard = 0
    try:
        while not all(t.done for t in tasks):
            guard += 1
            sim.check(guard < 200000, "liveness", f"{lang}: tasks make no progress")
            t = c.pick([t for t in tasks if not t.done])
            sim.now += 1 + c.draw(5)
            sim.order(str(t.idx))
            for _ in range(c.weighted([(6, 1), (2, 3), (1, 12)])):
                if not t.done:
                    t.step()
            if c.chance(1, 10):        # other work of the same process in between
                m, v = Gen(c, t.w, budget=60).message(names(sim, t.wi))
                h = n.load(t.wi, m, v)
                ok, b = n.write_all(t.wi, h, True)
                sim.check(ok and b == codec.encode(t.w, m, v, True), "isolation", lambda: f"{lang} writes {brief(m, v)} as {b.hex()[:100] if b else 'an error'} between the steps of other tasks")
                n.free(h)
            if c.chance(1, 12):
                for q in tasks:
                    q.recheck()
        for q in tasks:
            q.recheck()
    finally:
        # a violation discards the worker; otherwise every task has finished
        pass
    sim.fault("task preempted at a seam", guard)
    sim.trivial = guard < 4


def interleaved_calls(sim):
    """The same at the granularity of calls, for every language: many cursors, sinks and objects in one process, used in turn."""
    c = sim.c
    lang = c.pick(LANGS)
    n = sim.node(lang)
    flows = []
    one = pick_world(sim)
    for i in range(2 + c.draw(4)):
        wi = one if c.chance(2, 3) else pick_world(sim)
        w = sim.worlds[wi]
        nm = names(sim, wi)
        g = Gen(c, w, budget=250, long=(1, 200))
        kind = c.draw(3)
        f = {"i": i, "wi": wi, "w": w, "kind": kind, "k": 0, "held": []}
        f["msgs"] = [g.message(nm) for _ in range(1 + c.draw(5))]
        f["enc"] = [codec.encode(w, *x, tag=True) for x in f["msgs"]]
        if kind == 0:        # reads its stream message by message
            f["src"] = n.src(wi, b"".join(f["enc"]))
        elif kind == 1:      # appends message by message to one buffer
            f["sink"] = n.sink(wi, sum(map(len, f["enc"])), pre=c.draw(4))
            f["hs"] = [n.load(wi, *x) for x in f["msgs"]]
        else:                # decodes untagged messages and keeps the objects
            f["src"] = n.src(wi, b"".join(e[1:] for e in f["enc"]))
        flows.append(f)
    sim.event(f"{lang}: {[(f['kind'], f['w'].name, len(f['msgs'])) for f in flows]}")
    while True:
        act = [f for f in flows if f["k"] < len(f["msgs"])]
        if not act:
            break
        f = c.pick(act)
        sim.now += 5
        sim.order(str(f["i"]))
        k, wi, w = f["k"], f["wi"], f["w"]
        f["k"] += 1
        m, v = f["msgs"][k]
        if f["kind"] == 0:
            L = n.newlist()
            if lang in HAS_CURSOR:
                s = f["src"]
            else:
                s = n.src(wi, b"".join(f["enc"][k:]))
            ok, pos, got = n.proc(wi, s, 1, L)
            sim.check(ok and got == [(m, v)], "isolation", lambda: f"{lang} flow {f['i']}: message {k} of its stream is {[brief(*x) for x in got] if ok else 'an error'} instead of {brief(m, v)} when other flows run in between")
            f["held"].append(("l", L, m, v))
        elif f["kind"] == 1:
            r = n.op(wi, f"write {f['sink']} {f['hs'][k]} 1 {c.draw(2)}")
            sim.check(r.ok, "isolation", lambda: f"{lang} flow {f['i']}: cannot append message {k}: {r.text[:120]}")
            out = n.sinkget(wi, f["sink"])
            want = b"".join(f["enc"][:k + 1])
            sim.check(out == want, "isolation", lambda: f"{lang} flow {f['i']}: its buffer holds {out.hex()[:160]} after {k + 1} messages, expected {want.hex()[:160]}")
        else:
            h = n.h()
            if lang in HAS_CURSOR:
                s = f["src"]
            else:
                s = n.src(wi, b"".join(e[1:] for e in f["enc"][k:]))
            ok, pos, got = n.read(wi, s, m, h)
            sim.check(ok and got == (m, v), "isolation", lambda: f"{lang} flow {f['i']}: object {k} is {brief(*got) if ok else 'an error'} instead of {brief(m, v)}")
            f["held"].append(("o", h, m, v))
        if c.chance(1, 6):
            # a failing call somewhere else in the process
            wj = pick_world(sim)
            s = n.src(wj, bytes(c.draw(256) for _ in range(c.draw(9))))
            n.proc(wj, s, -1)
            n.srcclose(wj, s)
            sim.fault("failing call in between")
        for q in flows:
            if q["held"] and c.chance(1, 4):
                at = c.draw(len(q["held"]))
                what, x, m, v = q["held"][at]
                got = [parse_new(sim, n, q["wi"], n.get(x))] if what == "o" else n.parse_list(q["wi"], iter(n.op(q["wi"], f"lget {x}").t[1:]))
                sim.check(got == [(m, v)], "isolation", lambda: f"{lang} flow {q['i']}: earlier result {brief(m, v)} became {[brief(*y) for y in got]}")
                if c.chance(1, 6):
                    # its owner changes it, which is nobody else's business
                    v = Gen(c, q["w"], budget=150).message([m])[1]
                    n.refill(x, m, v, -1 if what == "o" else 0)
                    q["held"][at] = (what, x, m, v)
                    sim.probe("earlier result changed by its owner")
    sim.fault("flow switched", sum(len(f["msgs"]) for f in flows))
    sim.trivial = len(flows) < 2


# ------------------------------------------------------------------ C15
def faulty_stream(sim):
    """Go and C# read from streams that deliver what the interface contracts allow (short reads, empty reads, the end together with data)
    and from streams that fail at a drawn byte. Legal behaviour never changes the result; an error is always reported, never turned into
    a shorter result; and messages completed before the error can be had by reading up to them."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    g = Gen(c, w, budget=350, long=(1, 100))
    for _ in range(1 + c.draw(3)):
        lang = c.pick(["go", "csharp"])
        n = sim.node(lang)
        sim.now += 20
        kind = c.pick(["read", "proc", "procmax", "unpack"])
        msgs = [g.message(nm)] if kind == "read" else g.several(1 + c.draw(5), nm, 80, 300)
        if kind == "read":
            data = codec.encode(w, *msgs[0])
            cmd = f"read {{s}} {w.mnames.index(msgs[0][0])} -1"
        elif kind == "unpack":
            data = codec.pack(w, msgs)
            cmd = "unpack {s} -1"
        else:
            data = b"".join(codec.encode(w, *x, tag=True) for x in msgs)
            if kind == "proc" and c.chance(1, 4):
                data += b"\0"
                sim.probe("terminated stream")
            cmd = "proc {s} -1 -1" if kind == "proc" else f"proc {{s}} {len(msgs)} -1"
        terminated = kind == "proc" and data.endswith(b"\0") and len(data) > sum(len(codec.encode(w, *x, tag=True)) for x in msgs)
        fail_at = None
        if c.chance(1, 2):
            fail_at = c.pick([c.draw(len(data) + 1), len(data), 0]) if len(data) else 0
            if kind == "proc" and not terminated and c.chance(1, 2):
                q, ends = 0, [0]
                for x in msgs:
                    q += len(codec.encode(w, *x, tag=True))
                    ends.append(q)
                fail_at = c.pick(ends)
        needed = len(data)
        if kind == "unpack":
            needed = len(data) - 1         # the closing terminator need not be read
        # is the error met at all?
        n.nc += 1
        s = n.nc
        total = len(data) + (1 if fail_at is not None else 0)
        n.op(wi, f"srcpark {s} {total}" if lang == "csharp" else f"srcpark {s}")
        t, st = n.spawn(wi, cmd.format(s=s))
        p, idle, met, guard = 0, 0, False, 0
        while st[0] == "park":
            guard += 1
            sim.check(guard < 200000, "hang", f"{lang} keeps reading a stream that has ended or failed")
            want = int(st[1][1])
            sim.now += 1 + c.draw(20)
            end = len(data) if fail_at is None else fail_at
            if met:
                st = n.resume(t, "dx")
                continue
            if p >= end and want > 0:
                if fail_at is not None:
                    met = True
                    sim.fault("stream error")
                    st = n.resume(t, "dx")
                else:
                    st = n.resume(t, "de")
                continue
            if lang == "go" and idle < 4 and c.chance(1, 8):
                idle += 1
                sim.fault("empty read")
                st = n.resume(t, "d")
                continue
            idle = 0
            k = chunk_size(c, min(want, end - p)) if want else 0
            d = data[p:p + k]
            p += k
            if k < want:
                sim.fault("short read")
            if lang == "go" and k and p == end and c.chance(1, 3):
                if fail_at is not None:
                    # io.Reader may return data together with the error
                    met = True
                    sim.fault("stream error together with the last bytes")
                    st = n.resume(t, "dx " + d.hex())
                else:
                    sim.fault("end of stream together with the last bytes")
                    st = n.resume(t, "de " + d.hex())
            else:
                st = n.resume(t, "d " + d.hex())
        r = st[1]
        n.op(wi, f"srcclose {s}")
        sim.order(f"{lang}{kind}{fail_at is not None}{met}")
        sim.event(f"{lang} {kind} of {len(data)} bytes, error at {fail_at}: {r.text[:60]}")
        who = lambda: f"{lang} {kind} of {[brief(*x) for x in msgs][:3]}"
        if met and not r.ok:
            pass
        elif met:
            # the error arrived, and the call claims success: only right if everything it was asked for had been delivered already
            sim.check(p >= needed and (kind != "proc" or terminated), "surfaced", lambda: f"{who()}: the stream failed after {p} of {len(data)} bytes and the call reports success: {r.text[:160]}")
        else:
            sim.check(r.ok, "legal", lambda: f"{who()}: fails although the stream only did what its interface allows: {r.text[:160]}")
        if r.ok:
            got = [n.parse_read(wi, r)[2]] if kind == "read" else n.parse(wi, r)[1]
            sim.check(got == msgs, "legal", lambda: f"{who()}: returns {[brief(*x) for x in got][:3]} from a stream that only did what its interface allows")
        # what was complete before the failure is still to be had, and the node is unharmed
        if met and kind in ("proc", "procmax") and not r.ok:
            q = k = 0
            for x in msgs:
                q += len(codec.encode(w, *x, tag=True))
                if q > p:
                    break
                k += 1
            if k:
                s = n.src(wi, data[:p])
                ok, pos, got = n.proc(wi, s, k)
                n.srcclose(wi, s)
                sim.check(ok and got == msgs[:k], "recovery", lambda: f"{who()}: the {k} messages before the failure cannot be read")
    sim.trivial = not sim.faults
