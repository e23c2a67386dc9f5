"""C01 delivery over a simulated network, C02 replica convergence on canonical bytes."""
from . import codec
from .build import LANGS
from .core import Discard
from .node import STREAMING
from .values import Gen


def pick_world(sim):
    big = [i for i, w in enumerate(sim.worlds) if not w.d.get("tiny")]
    small = [i for i, w in enumerate(sim.worlds) if w.d.get("tiny")]
    return sim.c.pick(big * 5 + small)


def names(sim, wi):
    """A small working set of message types (all of them for ordinary worlds)."""
    w = sim.worlds[wi]
    if len(w.mnames) > 20:
        return [w.mnames[sim.c.draw(len(w.mnames))] for _ in range(6)] + [w.mnames[0], w.mnames[-1]]
    return w.mnames


def brief(m, v):
    s = repr(v)
    return f"{m}{s if len(s) < 80 else s[:80] + '…'}"


def chunk_size(c, n):
    """How much of n pending bytes arrives next."""
    k = c.draw(5)
    if k == 0:
        return n
    if k == 1:
        return 1
    if k == 2:
        return min(n, 1 + c.draw(4))
    if k == 3:
        return min(n, 1 + c.draw(64))
    return min(n, 1 + c.draw(n))


# ------------------------------------------------------------------ C01: byte streams
class Hop:
    """A simulated connection carrying tagged messages from one peer to the next. The session layer (resume from the number of
    messages the receiver has completed) is a stub; encoding and decoding are the generated code."""

    def __init__(self, sim, idx, up, down):
        self.sim, self.idx, self.up, self.down = sim, idx, up, down
        self.conn = 0
        self.pending = b""
        self.sent = 0          # messages handed to this connection
        self.pumping = False
        self.alive = True

    def push(self):
        """Hands newly available messages of the upstream log to the connection."""
        if not self.alive:
            return
        while self.sent < len(self.up.log):
            self.pending += self.up.log[self.sent]
            self.sent += 1
        self.kick()

    def kick(self):
        if self.pending and not self.pumping:
            self.pumping = True
            self.sim.at(1 + self.sim.c.draw(200), self.pump, self.conn)

    def pump(self, conn):
        if conn != self.conn or not self.alive:
            return
        self.pumping = False
        n = chunk_size(self.sim.c, len(self.pending))
        d, self.pending = self.pending[:n], self.pending[n:]
        if n > 1 or self.pending:
            self.sim.fault("fragmented delivery") if self.pending else None
        self.sim.event(f"hop{self.idx} delivers {n} bytes, {len(self.pending)} pending")
        self.sim.order(f"h{self.idx}")
        self.down.on_data(self, d)
        self.kick()

    def cut(self):
        """The connection breaks: bytes in flight are lost, the receiver's partial message is void."""
        if not self.alive:
            return
        self.alive = False
        self.conn += 1
        self.pumping = False
        self.sim.fault("connection cut")
        if self.pending:
            self.sim.fault("bytes lost in flight", 1)
        self.pending = b""
        self.sim.event(f"hop{self.idx} cut")
        self.sim.order(f"cut{self.idx}")
        self.down.on_close(self)
        self.sim.at(50 + self.sim.c.draw(2000), self.reopen)

    def reopen(self):
        self.alive = True
        self.sent = self.down.count()     # the receiver says how many complete messages it has
        self.sim.event(f"hop{self.idx} reconnected at message {self.sent}")
        self.down.on_open(self)
        self.push()


class Peer:
    def __init__(self, sim, idx, lang, wi, expect, blocking):
        self.sim, self.idx, self.lang, self.wi, self.expect = sim, idx, lang, wi, expect
        self.node = sim.node(lang)
        self.log = []          # durable: encoded messages this peer can forward (re-encoded natively)
        self.buf = b""
        self.next = None
        self.prev = None
        self.blocking = blocking and lang in STREAMING
        self.task = None
        self.src = None

    def count(self):
        return len(self.log)

    def accept(self, L, msgs):
        sim = self.sim
        for m, v in msgs:
            i = len(self.log)
            sim.check(i < len(self.expect), "delivery", f"{self.lang} peer {self.idx} delivered more messages than were sent: extra {brief(m, v)}")
            sim.check((m, v) == self.expect[i], "delivery",
                      lambda: f"{self.lang} peer {self.idx} delivered message {i} as {brief(m, v)}, sent as {brief(*self.expect[i])}")
            self.log.append(None)
        # re-encode natively for the next hop
        n0 = len(self.log) - len(msgs)
        size = sum(len(codec.encode(sim.worlds[self.wi], m, v, True)) for m, v in msgs)
        s = self.node.sink(self.wi, size)
        r = self.node.op(self.wi, f"lwrite {s} {L}")
        sim.check(r.ok, "delivery", lambda: f"{self.lang} peer {self.idx} could not re-encode {len(msgs)} delivered messages: {r.text[:200]}")
        out = self.node.sinkget(self.wi, s)
        self.node.sinkclose(self.wi, s)
        self.node.lfree(L)
        if len(msgs) == 1:
            self.log[n0] = out
        else:   # split on the reference lengths: the stub session layer counts messages
            p = 0
            for k, (m, v) in enumerate(msgs):
                n = len(codec.encode(sim.worlds[self.wi], m, v, True))
                self.log[n0 + k] = out[p:p + n]
                p += n
        sim.event(f"peer{self.idx}({self.lang}) has {len(self.log)} messages")
        if self.next:
            self.next.push()

    # -- blocking readers (Go io.Reader, C# Stream): the read call is parked inside the simulated connection
    def step(self, st):
        while True:
            kind, r = st
            if kind == "park":
                want = int(r[1])
                n = min(want, len(self.buf))
                if n == 0 and want > 0:
                    self.task = (self.task[0], want, self.task[2])
                    return
                if n > 1:
                    n = chunk_size(self.sim.c, n)
                d, self.buf = self.buf[:n], self.buf[n:]
                st = self.node.resume(self.task[0], "d " + d.hex())
            else:
                L = self.task[2]
                self.task = None
                self.sim.check(r.ok, "delivery", lambda: f"{self.lang} peer {self.idx} reported an error on an intact stream: {r.text[:200]}")
                pos, ms = self.node.parse(self.wi, r)
                self.node.lists[L] = self.wi
                self.sim.check(len(ms) == 1, "delivery", f"{self.lang} peer {self.idx}: a read limited to 1 message returned {len(ms)}")
                self.accept(L, ms)
                if not self.start():
                    return
                st = self.first

    def start(self):
        if len(self.log) >= len(self.expect):
            return False
        L = self.node.newlist()
        t, self.first = self.node.spawn(self.wi, f"proc {self.src} 1 {L}")
        self.task = (t, 0, L)
        return True

    def on_open(self, hop):
        self.prev = hop
        self.buf = b""
        if self.blocking:
            self.node.nc += 1
            self.src = self.node.nc
            self.node.op(self.wi, f"srcpark {self.src} {1 << 30}" if self.lang == "csharp" else f"srcpark {self.src}")
            self.node.srcs.add((self.src, self.wi))
            if self.start():
                self.step(self.first)

    def on_close(self, hop):
        self.buf = b""
        if self.blocking and self.task:
            # end of stream inside a message: the parked call must fail, whatever it has consumed
            kind, r = "park", None
            consumed = None
            t, want, L = self.task
            st = self.node.resume(t, "de")
            k = 0
            while st[0] == "park" and k < 1000:
                st = self.node.resume(t, "de")
                k += 1
            self.task = None
            r = st[1]
            if r.ok:   # nothing consumed: an empty stream has no messages
                pos, ms = self.node.parse(self.wi, r)
                self.node.lists[L] = self.wi
                self.node.lfree(L)
                self.sim.check(ms == [], "delivery", lambda: f"{self.lang} peer {self.idx} invented a message when the stream ended: {brief(*ms[0])}")

    def on_data(self, hop, d):
        if self.blocking:
            self.buf += d
            if self.task:
                t = self.task[0]
                n = chunk_size(self.sim.c, min(self.task[1], len(self.buf)))
                x, self.buf = self.buf[:n], self.buf[n:]
                self.step(self.node.resume(t, "d " + x.hex()))
            return
        self.buf += d
        while self.buf and len(self.log) < len(self.expect):
            c = self.node.src(self.wi, self.buf)
            mx = 1 + (self.sim.c.draw(4) if self.sim.c.chance(1, 4) else 0)
            L = self.node.newlist()
            ok, pos, ms = self.node.proc(self.wi, c, mx, L)
            self.node.srcclose(self.wi, c)
            if not ok and mx > 1:
                # part of a later message is missing: take what is complete one at a time
                c = self.node.src(self.wi, self.buf)
                ok, pos, ms = self.node.proc(self.wi, c, 1, L)
                self.node.srcclose(self.wi, c)
            if not ok:
                self.sim.fault("message cut by a fragment boundary")
                return
            self.sim.check(len(ms) >= 1 and 0 < pos <= len(self.buf), "delivery",
                           f"{self.lang} peer {self.idx} took {len(ms)} messages and {pos} of {len(self.buf)} bytes")
            self.buf = self.buf[pos:]
            self.accept(L, ms)

    def crash(self):
        """Restart with only the durable log."""
        self.sim.fault("node crash and restart")
        self.sim.event(f"peer{self.idx} crashes")
        self.sim.order(f"crash{self.idx}")
        for h in (self.prev, self.next):
            if h:
                h.cut()


def deliver_stream(sim):
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    g = Gen(c, w, budget=900)
    nm = names(sim, wi)
    msgs = g.several(1 + c.draw(10), nm, most=260)
    hops = 1 + c.draw(4)
    blocking = c.chance(1, 2)
    peers = [Peer(sim, i, c.pick(LANGS), wi, msgs, blocking) for i in range(hops + 1)]
    sim.event(f"world {w.name} list={w.list_t} string={w.string_t}; path {' > '.join(p.lang for p in peers)}; {len(msgs)} messages")
    links = []
    for i in range(hops):
        h = Hop(sim, i, peers[i], peers[i + 1])
        peers[i].next = h
        links.append(h)
        peers[i + 1].on_open(h)
    # the application on peer 0 appends messages over time
    p0 = peers[0]

    def produce(i):
        m, v = msgs[i]
        h = p0.node.load(wi, m, v)
        ok, b = p0.node.write_all(wi, h, True)
        sim.check(ok and b is not None, "delivery", f"{p0.lang} producer could not encode {brief(m, v)}")
        p0.node.free(h)
        p0.log.append(b)
        sim.event(f"produce {i} {brief(m, v)}")
        if p0.next:
            p0.next.push()
        if i + 1 < len(msgs):
            sim.at(c.draw(300), produce, i + 1)
    sim.at(0, produce, 0)
    for _ in range(c.weighted([(3, 0), (3, 1), (2, 2), (1, 4)])):
        t = c.draw(3000)
        if c.chance(1, 3):
            p = peers[1 + c.draw(hops)]
            sim.at(t, p.crash)
        else:
            sim.at(t, links[c.draw(hops)].cut)
    done = sim.run(60000)
    last = peers[-1]
    sim.check(done and len(last.log) == len(msgs), "liveness",
              lambda: f"faults stopped and {len(last.log)} of {len(msgs)} messages arrived at the end of {' > '.join(p.lang for p in peers)}")
    for p in peers[1:]:
        if p.blocking and p.task:
            p.on_close(None)
    sim.trivial = not (sim.faults and hops)


# ------------------------------------------------------------------ C01: datagrams
def deliver_datagram(sim):
    """Packed batches in frames that are lost, duplicated, delayed and reordered; sequence numbers and retransmission are a stub."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    hops = 1 + c.draw(3)
    langs = [c.pick(LANGS) for _ in range(hops + 1)]
    nb = 1 + c.draw(5)
    g = Gen(c, w, budget=900)
    batches = [g.several(c.weighted([(4, 1), (3, 2), (2, 0), (2, 5), (1, 9), (1, 17)]), nm, 80) for _ in range(nb)]
    sim.event(f"world {w.name}; path {' > '.join(langs)}; batches {[len(b) for b in batches]}")
    frames = [[None] * nb for _ in range(hops + 1)]     # durable per peer: encoded batch
    delivered = [[False] * nb for _ in range(hops + 1)]
    rate = c.pick([0, 10, 25, 40])
    budget = [12]
    part = [-1]

    def encode0(b):
        n = sim.node(langs[0])
        hs = [n.load(wi, m, v) for m, v in batches[b]]
        L = n.mklist(wi, hs)
        frames[0][b] = pack_list(sim, n, wi, L, batches[b], "delivery")
        n.lfree(L)
        sim.event(f"batch {b} packed by {langs[0]}")
        send(0, b)

    def send(hop, b):
        if delivered[hop + 1][b]:
            return
        lost = budget[0] > 0 and (c.chance(rate, 100) if rate else False)
        if part[0] == hop and budget[0] > 0:
            lost = True
        if lost:
            budget[0] -= 1
            sim.fault("frame lost")
            sim.event(f"hop{hop} frame {b} lost")
        else:
            d = 1 + c.draw(400)
            sim.at(d, arrive, hop, b)
            if budget[0] > 0 and rate and c.chance(rate, 200):
                budget[0] -= 1
                sim.fault("frame duplicated")
                sim.at(d + c.draw(900), arrive, hop, b)
        sim.at(500 + c.draw(200), send, hop, b)         # retransmission timer

    def arrive(hop, b):
        sim.order(f"{hop}.{b}")
        n = sim.node(langs[hop + 1])
        src = n.src(wi, frames[hop][b])
        L = n.newlist()
        ok, pos, ms = n.unpack(wi, src, L)
        n.srcclose(wi, src)
        sim.check(ok, "delivery", f"{n.lang} rejected an intact batch of {len(batches[b])} messages packed by {langs[hop]}")
        sim.check(ms == batches[b], "delivery", lambda: f"{n.lang} unpacked batch {b} as {[brief(*x) for x in ms][:4]}, sent {[brief(*x) for x in batches[b]][:4]}")
        if delivered[hop + 1][b]:
            sim.fault("duplicate suppressed by sequence number")
        elif any(not delivered[hop + 1][x] for x in range(b)):
            sim.fault("frame reordered")
        if not delivered[hop + 1][b]:
            delivered[hop + 1][b] = True
            sim.event(f"peer{hop + 1}({n.lang}) batch {b} delivered")
            if hop + 1 < hops:
                frames[hop + 1][b] = pack_list(sim, n, wi, L, batches[b], "delivery")
                send(hop + 1, b)
        n.lfree(L)
    if rate and c.chance(1, 3):
        h = c.draw(hops)

        def on():
            part[0] = h
            sim.fault("partition")

        def off():
            part[0] = -1
        sim.at(c.draw(500), on)
        sim.at(500 + c.draw(2000), off)
    for b in range(nb):
        sim.at(c.draw(600), encode0, b)
    done = sim.run(20000)
    sim.check(done and all(delivered[-1]), "liveness", lambda: f"faults stopped and batches {[i for i, d in enumerate(delivered[-1]) if not d]} never arrived")
    sim.trivial = not sim.faults and hops < 2


# ------------------------------------------------------------------ C01: frames that look alike
def deliver_lookalikes(sim):
    """Frames of exactly the same length, with different contents, arrive in one process after another, repeated, damaged and out of order.
    Each says what its bytes say, and what earlier ones said stays."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    langs = [c.pick(LANGS) for _ in range(1 + c.draw(2))]
    g = Gen(c, w, budget=c.pick([200, 900, 6000]), long=c.pick([(1, 60), (1, 4)]))
    kind = c.pick(["read", "proc", "unpack"])
    first = [g.message(nm) for _ in range(1 if kind == "read" else 1 + c.draw(3))]
    frames = [first]
    for _ in range(1 + c.draw(4)):
        frames.append([g.twin(*x) for x in c.pick(frames)])
    enc = []
    for f in frames:
        n = sim.node(c.pick(langs))
        enc.append(codec.encode(w, *f[0]) if kind == "read" else b"".join(codec.encode(w, *x, tag=True) for x in f) if kind == "proc" else codec.pack(w, f))
        hs = [n.load(wi, *x) for x in f]
        if kind == "unpack":
            L = n.mklist(wi, hs)
            got = pack_list(sim, n, wi, L, f, "delivery")
            n.lfree(L)
        else:
            got = b""
            for h in hs:
                ok, b = n.write_all(wi, h, kind == "proc")
                sim.check(ok, "delivery", lambda: f"{n.lang} cannot write one of {[brief(*x) for x in f][:3]}")
                got += b
                n.free(h)
        sim.check(got == enc[-1], "delivery", lambda: f"{n.lang} writes {[brief(*x) for x in f][:3]} as {got.hex()[:120]}, after others of the same length")
    sim.event(f"world {w.name}; {kind}; {len(frames)} frames of {len(enc[0])} bytes to {langs}")
    held = []
    for _ in range(3 + c.draw(8)):
        i = c.draw(len(frames))
        n = sim.node(c.pick(langs))
        sim.order(f"{n.lang}{i}")
        sim.now += 1 + c.draw(50)
        data = enc[i]
        broken = len(data) > 1 and c.chance(1, 6)
        if broken and kind == "proc":
            ends = {0}
            q = 0
            for x in frames[i]:
                q += len(codec.encode(w, *x, tag=True))
                ends.add(q)
            cut = c.draw(len(data))
            broken = cut not in ends
            data = data[:cut] if broken else data
        elif broken:
            data = data[:c.draw(len(data) - (1 if kind == "unpack" else 0))]
        s = n.src(wi, data)
        if kind == "read":
            h = n.h()
            ok, pos, got = n.read(wi, s, frames[i][0][0], h)
            got = [got]
        else:
            L = n.newlist()
            ok, pos, got = n.proc(wi, s, -1, L) if kind == "proc" else n.unpack(wi, s, L)
        n.srcclose(wi, s)
        if broken:
            sim.fault("frame cut short")
            sim.check(not ok, "delivery", lambda: f"{n.lang} accepts {len(data)} of the {len(enc[i])} bytes of {[brief(*x) for x in frames[i]][:3]}")
            continue
        sim.check(ok and got == frames[i], "delivery", lambda: f"{n.lang} reads {[brief(*x) for x in got][:3] if ok else 'an error'} from the bytes of {[brief(*x) for x in frames[i]][:3]}, after frames of the same length")
        sim.fault("frame of the same length as the one before")
        held.append((n, h if kind == "read" else L, i))
        if c.chance(1, 12):
            n.restart()
            held = [x for x in held if x[0] is not n]
            sim.fault("node crash and restart")
    for n, x, i in held:
        got = [parse_obj(sim, n, wi, n.get(x))] if kind == "read" else n.parse_list(wi, iter(n.op(wi, f"lget {x}").t[1:]))
        sim.check(got == frames[i], "delivery", lambda: f"{n.lang}: {[brief(*x) for x in frames[i]][:3]} became {[brief(*x) for x in got][:3]} when frames of the same length followed")
        n.free(x) if kind == "read" else n.lfree(x)
    sim.trivial = len(held) < 2


def parse_obj(sim, n, wi, r):
    from .scen_mem import parse_new
    return parse_new(sim, n, wi, r)


def pack_list(sim, n, wi, L, msgs, cls):
    size = len(codec.pack(sim.worlds[wi], msgs))
    s = n.sink(wi, size)
    r = n.op(wi, f"lpack {s} {L}")
    sim.check(r.ok, cls, lambda: f"{n.lang} could not pack {len(msgs)} messages into the {size} bytes they need: {r.text[:200]}")
    out = n.sinkget(wi, s)
    n.sinkclose(wi, s)
    return out


# ------------------------------------------------------------------ C02: replicas
def replicas(sim):
    """A replicated log held natively by nodes in different languages; entries travel re-encoded by whichever replica has them, over
    a lossy network; afterwards every replica's encoding of the log must be the same bytes, the documented ones."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    langs = c.shuffle(LANGS)[:2 + c.draw(5)]
    n_ent = 1 + c.draw(7)
    g = Gen(c, w, budget=900)
    entries = [g.message(nm) for _ in range(n_ent)]
    ref = [codec.encode(w, m, v, True) for m, v in entries]
    have = [dict() for _ in langs]      # replica -> entry -> native list handle (one message)
    sim.event(f"world {w.name}; replicas {langs}; {n_ent} entries")
    budget = [10]
    rate = c.pick([0, 15, 35])

    def encode_at(r, e, what):
        n = sim.node(langs[r])
        m, v = entries[e]
        k = c.draw(4)
        if k == 1 and n.lang in ("c", "csharp", "typescript") and len(ref[e]) > 0:
            # a failed attempt first: it must leave no trace in what follows
            s = n.sink(wi, c.draw(len(ref[e])))
            rr = n.op(wi, f"lwrite {s} {have[r][e]}")
            n.sinkclose(wi, s)
            sim.fault("write into a buffer that is too small")
        s = n.sink(wi, len(ref[e]), pre=c.draw(5))
        rr = n.op(wi, f"lwrite {s} {have[r][e]}")
        sim.check(rr.ok, "encoding", lambda: f"{n.lang} could not encode {brief(m, v)} into its {len(ref[e])} bytes: {rr.text[:200]}")
        out = n.sinkget(wi, s)
        n.sinkclose(wi, s)
        sim.check(out == ref[e], "encoding", lambda: f"{n.lang} encodes {brief(m, v)} ({what}) as {out.hex()[:200]}, the documented format is {ref[e].hex()[:200]}")
        return out

    def originate(e):
        r = c.draw(len(langs))
        n = sim.node(langs[r])
        m, v = entries[e]
        if c.chance(1, 4):
            # the object was something else before, and was written as that
            h = n.load(wi, *g.message([m]))
            n.write_all(wi, h, bool(c.draw(2)))
            n.refill(h, m, v)
            sim.probe("object changed after it was written")
        else:
            h = n.load(wi, m, v)
        if c.chance(1, 3):
            b = codec.encode(w, m, v)
            ok, out = n.write_all(wi, h, False, size=len(b), generic=c.draw(2))
            sim.check(ok and out == b, "encoding", lambda: f"{n.lang} encodes untagged {brief(m, v)} as {out.hex()[:200] if out is not None else 'an error'}, the documented format is {b.hex()[:200]}")
        have[r][e] = n.mklist(wi, [h])
        sim.event(f"entry {e} originates at {langs[r]}")
        spread(r, e)

    def spread(r, e):
        out = encode_at(r, e, "spread")
        for q in range(len(langs)):
            if q != r and e not in have[q]:
                transmit(r, q, e, out)

    def transmit(r, q, e, out):
        if e in have[q]:
            return
        if budget[0] > 0 and rate and c.chance(rate, 100):
            budget[0] -= 1
            sim.fault("frame lost")
            sim.at(300 + c.draw(500), transmit, r, q, e, out)
            return
        sim.at(1 + c.draw(400), arrive, r, q, e, out)
        if budget[0] > 0 and rate and c.chance(rate, 200):
            budget[0] -= 1
            sim.fault("frame duplicated")
            sim.at(200 + c.draw(600), arrive, r, q, e, out)

    def arrive(r, q, e, out):
        sim.order(f"{r}{q}{e}")
        if e in have[q]:
            sim.fault("stale frame ignored")
            return
        n = sim.node(langs[q])
        s = n.src(wi, out)
        L = n.newlist()
        ok, pos, ms = n.proc(wi, s, c.pick([-1, 1]), L)
        n.srcclose(wi, s)
        sim.check(ok and len(ms) == 1, "encoding", f"{n.lang} cannot decode {out.hex()[:200]} as written by {langs[r]}")
        have[q][e] = L
        if c.chance(1, 6):
            # somebody changes it, writes it, and changes it back
            m, v = entries[e]
            v2 = g.message([m])[1]
            n.refill(L, m, v2, 0)
            b2 = codec.encode(w, m, v2, True)
            s = n.sink(wi, len(b2))
            r2 = n.op(wi, f"lwrite {s} {L}")
            sim.check(r2.ok and n.sinkget(wi, s) == b2, "encoding", lambda: f"{n.lang}: a decoded message changed to {brief(m, v2)} is not written as {b2.hex()[:200]}: {r2.text[:100]}")
            n.sinkclose(wi, s)
            n.refill(L, m, v, 0)
            sim.probe("decoded message changed")
        if c.chance(1, 4):
            spread(q, e)

    def restart(q):
        """The replica persists its log as bytes, restarts, and reads it back."""
        n = sim.node(langs[q])
        es = sorted(have[q])
        if not es:
            return
        sim.fault("replica restart from its own log")
        data = b"".join(encode_at(q, e, "restart") for e in es)
        for e in es:
            n.lfree(have[q].pop(e))
        s = n.src(wi, data)
        for e in es:
            L = n.newlist()
            ok, pos, ms = n.proc(wi, s, 1, L)
            sim.check(ok and len(ms) == 1, "encoding", f"{n.lang} cannot read back its own log at entry {e}")
            have[q][e] = L
        n.srcclose(wi, s)
        sim.event(f"{n.lang} restarted with {len(es)} entries")
        sim.order(f"r{q}")
    for e in range(n_ent):
        sim.at(c.draw(1000), originate, e)
    for _ in range(c.draw(3)):
        sim.at(c.draw(2500), restart, c.draw(len(langs)))
    done = sim.run(20000)
    sim.check(done and all(len(h) == n_ent for h in have), "liveness", "faults stopped and the replicas did not converge")
    whole = b"".join(ref)
    packed = codec.pack(w, entries)
    for r, l in enumerate(langs):
        n = sim.node(l)
        for e in range(n_ent):
            encode_at(r, e, "final")
        # the packed snapshot of the whole log
        data = whole
        s = n.src(wi, data)
        L = n.newlist()
        ok, pos, ms = n.proc(wi, s, -1, L)
        n.srcclose(wi, s)
        sim.check(ok and ms == entries, "encoding", lambda: f"{l} decodes the canonical log as {[brief(*x) for x in ms][:5]}")
        out = pack_list(sim, n, wi, L, entries, "encoding")
        sim.check(out == packed, "encoding", lambda: f"{l} packs the log as {out.hex()[:300]}, the documented format is {packed.hex()[:300]}")
        n.lfree(L)
        for e in list(have[r]):
            n.lfree(have[r].pop(e))
    sim.trivial = n_ent < 1
