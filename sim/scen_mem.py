"""C11 failing allocations, C12 ownership histories, C14 fresh messages."""
from . import codec
from .build import LANGS
from .node import HAS_ALLOC, STREAMING
from .scen_fault import corrupt, marks
from .scen_net import brief, names, pick_world
from .values import Gen

MEM = ["c", "zig"]


def parse_new(sim, n, wi, r):
    it = iter(r.t[1:])
    w = sim.worlds[wi]
    try:
        m = w.mnames[int(next(it))]
        return m, codec.parse_tokens(w, m, False, it)
    except (StopIteration, ValueError, IndexError, AssertionError):
        sim.fail("value", f"{n.lang} produced a malformed object: {r.text[:200]}")


# ------------------------------------------------------------------ C11
def failing_allocations(sim):
    """The allocator of a node fails at drawn points (once, or from then on) while it reads, unpacks, creates, measures and writes. Each
    call either reports an error or does all of its work; what it allocated is given back; with memory available again it works."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    lang = c.pick(MEM)
    n = sim.node(lang)
    g = Gen(c, w, budget=500, long=(1, 200))
    zero = lang == "c" and c.chance(1, 4)
    if zero:
        n.op(0, "zalloc 1")
        sim.fault("malloc(0) returns NULL")
    sim.event(f"world {w.name} list={w.list_t} string={w.string_t}, {lang}")
    keep = []                      # objects that must survive all of this untouched: (handle or list, expected)
    base0 = n.live(wi)[0]
    try:
        for _ in range(1 + c.draw(4)):
            sim.now += 50
            k = c.draw(8)
            if k <= 3:
                m, v = g.message(nm)
                msgs = [(m, v)]
                data = codec.encode(w, m, v)
                cmd = f"read {{s}} {w.mnames.index(m)} -1"
                kind = "read"
            elif k <= 5:
                msgs = g.several(c.pick([1, 2, 3, 5, 9, 17, 33]), nm, 60)
                if k == 4:
                    data = b"".join(codec.encode(w, *x, tag=True) for x in msgs)
                    cmd, kind = "proc {s} -1 -1", "proc"
                else:
                    data = codec.pack(w, msgs)
                    cmd, kind = "unpack {s} -1", "unpack"
            elif k == 6 and lang == "c":
                m = c.pick(nm)
                msgs = [(m, codec.default(w, m))]
                data, cmd, kind = b"", None, "new"
            else:
                m, v = g.message(nm)
                msgs = [(m, v)]
                data, cmd, kind = b"", None, "write"
            damaged = kind in ("read", "proc", "unpack") and c.chance(1, 4)
            if damaged:
                ms = []
                if kind == "read":
                    marks(w, msgs[0][0], False, msgs[0][1], 0, ms)
                data, what = corrupt(sim, w, data, ms)
                sim.fault("damaged input as well: " + what)
            bystander = None
            if c.chance(1, 3):
                bm, bv = g.message(nm)
                bystander = n.load(wi, bm, bv)
                keep.append((bystander, bm, bv))

            def once():
                """Runs the operation. Returns (response, result or None)."""
                if kind == "new":
                    h, r = n.new(wi, msgs[0][0], c.draw(2) if first[0] else fl[0])
                    if r.ok:
                        got = [parse_new(sim, n, wi, r)]
                        n.free(h)
                        return r, got
                    return r, None
                if kind == "write":
                    h = n.load(wi, *msgs[0])
                    full = codec.encode(w, *msgs[0], tag=True)
                    s = n.sink(wi, len(full))
                    r = n.op(wi, f"write {s} {h} 1")
                    if r.ok:
                        out = n.sinkget(wi, s)
                        sim.check(out == full, "result", lambda: f"{lang} wrote {out.hex()[:160]} for {brief(*msgs[0])}, expected {full.hex()[:160]}")
                    n.sinkclose(wi, s)
                    n.free(h)
                    return r, msgs if r.ok else None
                s = n.src(wi, data)
                r = n.op(wi, cmd.format(s=s))
                n.srcclose(wi, s)
                if not r.ok:
                    return r, None
                return r, ([n.parse_read(wi, r)[2]] if kind == "read" else n.parse(wi, r)[1])
            first, fl = [False], [c.draw(2)]
            live0 = n.live(wi)[0]
            n.op(wi, "alloc 0")
            r0, got0 = once()
            lv = n.live(wi)
            total = lv[2]
            sim.check(lv[0] == live0, "leak", lambda: f"{lang}: {kind} of {[brief(*x) for x in msgs][:3]} left {lv[0] - live0} blocks behind without any failure (result {r0.text[:60]})")
            if not damaged:
                sim.check(r0.ok and got0 == msgs, "result", lambda: f"{lang}: {kind} of {[brief(*x) for x in msgs][:3]} without any failure: {r0.text[:160]}")
            if total == 0:
                sim.probe("operation allocates nothing")
                continue
            for at in sorted({1 + c.draw(total) for _ in range(1 + c.draw(4))} | ({total} if c.chance(1, 3) else set())):
                sticky = c.draw(2)
                n.op(wi, f"alloc {at} {sticky}")
                r, got = once()
                lv = n.live(wi)
                n.op(wi, "alloc 0")
                sim.fault("allocation failed, and every later one" if sticky else "allocation failed once")
                sim.order(f"{lang}{kind}{at}{sticky}")
                sim.event(f"{lang} {kind} with allocation {at} of {total} failing{' for good' if sticky else ''}: {r.text[:50]}")
                if r.ok:
                    sim.check(got == (got0 if r0.ok else None), "result", lambda: f"{lang}: {kind} reports success with allocation {at} of {total} failing, but returns {[brief(*x) for x in got][:3]} for {[brief(*x) for x in msgs][:3]}")
                sim.check(lv[3] > 0 or r.ok == r0.ok, "result", "the failure was never reached although the operation is deterministic")
                sim.check(lv[0] == live0, "leak", lambda: f"{lang}: {kind} of {[brief(*x) for x in msgs][:3]} leaves {lv[0] - live0} blocks behind when allocation {at} of {total} fails (result {r.text[:60]})")
            r, got = once()
            sim.check(r.ok == r0.ok and got == got0, "recovery", lambda: f"{lang}: {kind} of {[brief(*x) for x in msgs][:3]} fails with memory available again: {r.text[:120]}")
            for h, bm, bv in keep:
                got = parse_new(sim, n, wi, n.get(h))
                sim.check(got == (bm, bv), "result", lambda: f"{lang}: an unrelated object changed from {brief(bm, bv)} to {brief(*got)} during a failing {kind}")
        for h, bm, bv in keep:
            n.free(h)
        lv = n.live(wi)
        sim.check(lv[0] == base0, "leak", lambda: f"{lang}: {lv[0] - base0} blocks left at the end")
    finally:
        if zero and n.wk.p is not None:
            n.op(0, "zalloc 0")
    sim.trivial = not sim.faults


# ------------------------------------------------------------------ C12
def ownership(sim):
    """A long life of one node with manual memory: objects and lists are created, decoded, measured, written, kept, and released in drawn
    orders through every documented way of releasing them, with failed reads in between and input buffers reused under them."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    lang = c.pick(MEM)
    n = sim.node(lang)
    g = Gen(c, w, budget=1200, long=(1, 100))
    sim.event(f"world {w.name} list={w.list_t} string={w.string_t}, {lang}")
    if lang == "c" and c.chance(1, 6):
        n.op(0, "zalloc 1")
        sim.fault("malloc(0) returns NULL")
    base = n.live(wi)[0]
    objs = {}           # handle -> (m, v)
    lists = {}          # list -> [(m, v)]

    def encode_list(ms, tag=True):
        return b"".join(codec.encode(w, m, v, tag) for m, v in ms)
    for _ in range(4 + c.draw(22)):
        sim.now += 10
        k = c.draw(16)
        sim.order(f"{lang}{k}")
        if k == 0:
            m = c.pick(nm)
            h, r = n.new(wi, m, c.draw(2))
            got = parse_new(sim, n, wi, r) if r.ok else None
            sim.check(r.ok and got == (m, codec.default(w, m)), "content", lambda: f"{lang}: a fresh {m} is {r.text[:100]}")
            objs[h] = (m, codec.default(w, m))
        elif k == 1:
            m, v = g.message(nm)
            objs[n.load(wi, m, v)] = (m, v)
        elif k in (2, 3):
            m, v = g.message(nm)
            s = n.src(wi, codec.encode(w, m, v))
            h = n.h()
            ok, pos, got = n.read(wi, s, m, h)
            n.srcclose(wi, s)          # the input buffer is gone: the object must not refer to it
            sim.check(ok and got == (m, v), "content", lambda: f"{lang} reads {brief(m, v)} as {brief(*got) if ok else 'an error'}")
            objs[h] = (m, v)
            sim.fault("input buffer released under a decoded object")
        elif k in (4, 5):
            ms = g.several(c.pick([0, 1, 2, 3, 9, 17]), nm, 60)
            s = n.src(wi, codec.pack(w, ms) if k == 5 else encode_list(ms))
            L = n.newlist()
            ok, pos, got = n.unpack(wi, s, L) if k == 5 else n.proc(wi, s, -1, L)
            n.srcclose(wi, s)
            sim.check(ok and got == ms, "content", lambda: f"{lang} reads a list of {len(ms)} messages as {[brief(*x) for x in got][:3] if ok else 'an error'}")
            lists[L] = ms
            sim.fault("input buffer released under a decoded list")
        elif k in (6, 7):
            ms = [g.message(nm) for _ in range(1 + c.draw(3))]
            which = c.draw(3)
            data = codec.encode(w, *ms[0]) if which == 0 else encode_list(ms) if which == 1 else codec.pack(w, ms)
            mk = []
            if which == 0:
                marks(w, ms[0][0], False, ms[0][1], 0, mk)
            if c.chance(1, 2):
                data = data[:c.draw(len(data) + 1)]
                sim.fault("read of truncated bytes")
            else:
                data, what = corrupt(sim, w, data, mk)
                sim.fault("read of bytes with " + what)
            before = n.live(wi)[0]
            s = n.src(wi, data)
            if which == 0:
                n.read(wi, s, ms[0][0])
            elif which == 1:
                n.proc(wi, s, c.pick([-1, 1, 2]))
            else:
                n.unpack(wi, s)
            n.srcclose(wi, s)
            after = n.live(wi)[0]
            sim.check(after == before, "leak", lambda: f"{lang}: reading damaged bytes {data.hex()[:160]} leaves {after - before} blocks behind")
        elif k in (8, 9) and objs:
            h = c.pick(sorted(objs))
            m, v = objs[h]
            full = codec.encode(w, m, v, True)
            cap = len(full)
            if lang == "c" and c.chance(1, 3):
                cap = c.draw(len(full))
                sim.fault("write into a buffer that is too small")
            s = n.sink(wi, cap)
            r = n.op(wi, f"write {s} {h} 1 {c.draw(2)}")
            if cap == len(full):
                sim.check(r.ok and n.sinkget(wi, s) == full, "content", lambda: f"{lang}: object {brief(m, v)} no longer writes as it should: {r.text[:100]}")
            n.sinkclose(wi, s)
        elif k == 10 and objs:
            h = c.pick(sorted(objs))
            fl = c.draw(3)
            n.free(h, fl)
            del objs[h]
            sim.event(f"{lang} released an object, way {fl}")
        elif k == 11 and lists:
            L = c.pick(sorted(lists))
            n.lfree(L)
            del lists[L]
            sim.event(f"{lang} released a list")
        elif k == 12 and lists:
            L = c.pick(sorted(lists))
            ms = lists[L]
            data = codec.pack(w, ms)
            r = n.op(wi, f"lpsize {L}")
            sim.check(r.ok and int(r.t[1]) == len(data), "content", lambda: f"{lang}: packed size of a kept list is {r.text[:40]}, should be {len(data)}")
            s = n.sink(wi, len(data))
            r = n.op(wi, f"lpack {s} {L}")
            sim.check(r.ok and n.sinkget(wi, s) == data, "content", lambda: f"{lang}: a kept list of {len(ms)} no longer packs as it should")
            n.sinkclose(wi, s)
        elif k == 13 and objs:
            hs = c.shuffle(sorted(objs))[:1 + c.draw(3)]
            L = n.mklist(wi, hs)
            lists[L] = [objs.pop(h) for h in hs]
            sim.event(f"{lang} moved {len(hs)} objects into a list")
        elif k == 14 and objs:
            h = c.pick(sorted(objs))
            objs[h] = g.message([objs[h][0]])
            n.refill(h, *objs[h])
            sim.probe("object changed in place")
        elif k == 15 and any(lists.values()):
            L = c.pick([L for L in sorted(lists) if lists[L]])
            i = c.draw(len(lists[L]))
            lists[L] = list(lists[L])
            lists[L][i] = g.message([lists[L][i][0]])
            n.refill(L, *lists[L][i], i)
            sim.probe("list element changed in place")
        # everything still held is what it was
        if c.chance(1, 3):
            for h, (m, v) in objs.items():
                got = parse_new(sim, n, wi, n.get(h))
                sim.check(got == (m, v), "content", lambda: f"{lang}: object {brief(m, v)} became {brief(*got)}")
            for L, ms in lists.items():
                r = n.op(wi, f"lget {L}")
                got = n.parse_list(wi, iter(r.t[1:]), r.text)
                sim.check(got == ms, "content", lambda: f"{lang}: kept list {[brief(*x) for x in ms][:3]} became {[brief(*x) for x in got][:3]}")
    for what in c.shuffle([("o", h) for h in objs] + [("l", L) for L in lists]):
        if what[0] == "o":
            n.free(what[1], c.draw(3))
        else:
            n.lfree(what[1])
    end = n.live(wi)[0]
    if lang == "c":
        n.op(0, "zalloc 0")
    sim.check(end == base, "leak", lambda: f"{lang}: {end - base} blocks are still allocated after everything was released")
    sim.trivial = False


# ------------------------------------------------------------------ C14
def fresh(sim):
    """However a node was used before, a newly created message holds the documented defaults and encodes as such."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    if c.chance(1, 2):
        nm = [c.pick(nm) for _ in range(2)]
    lang = c.pick(LANGS)
    n = sim.node(lang)
    g = Gen(c, w, budget=800)
    held = []
    sim.event(f"world {w.name}, {lang}")
    for _ in range(3 + c.draw(12)):
        sim.now += 10
        k = c.draw(10)
        sim.order(f"{lang}{k}")
        m, v = g.message(nm)
        if k == 0:
            held.append((n.load(wi, m, v), m, v))          # created, then filled in place
            sim.fault("object filled in place")
        elif k == 1:
            s = n.src(wi, codec.encode(w, m, v))
            h = n.h()
            ok, pos, got = n.read(wi, s, m, h)
            n.srcclose(wi, s)
            sim.check(ok, "defaults", lambda: f"{lang} cannot read {brief(m, v)}")
            held.append((h, m, v))
        elif k == 2:
            data = codec.encode(w, m, v)
            ms = []
            marks(w, m, False, v, 0, ms)
            if c.chance(1, 2):
                data = data[:c.draw(len(data) + 1)]
                sim.fault("read of truncated bytes")
            else:
                data, what = corrupt(sim, w, data, ms)
                sim.fault("read of bytes with " + what)
            s = n.src(wi, data)
            n.read(wi, s, m)
            n.srcclose(wi, s)
        elif k == 3 and held:
            h, m, v = held.pop(c.draw(len(held)))
            n.free(h, c.draw(3))
        elif k == 4 and held:
            h, m, v = c.pick(held)
            ok, b = n.write_all(wi, h, True)
            sim.check(ok and b == codec.encode(w, m, v, True), "defaults", lambda: f"{lang}: object {brief(m, v)} writes as {b.hex()[:100] if b else 'an error'} after others were created")
        elif k in (6, 7) and held:
            i = c.draw(len(held))
            h, m, _ = held[i]
            v = g.message([m])[1]
            n.refill(h, m, v)
            held[i] = (h, m, v)
            sim.fault("object filled in place")
        elif k in (8, 9):
            # several messages decoded together, one of them changed
            ms = [g.message(nm) for _ in range(1 + c.draw(4))]
            s = n.src(wi, codec.pack(w, ms) if k == 8 else b"".join(codec.encode(w, *x, True) for x in ms))
            L = n.newlist()
            ok, pos, got = n.unpack(wi, s, L) if k == 8 else n.proc(wi, s, -1, L)
            n.srcclose(wi, s)
            sim.check(ok and got == ms, "defaults", lambda: f"{lang} cannot read {len(ms)} messages")
            for _ in range(1 + c.draw(2)):
                i = c.draw(len(ms))
                ms[i] = g.message([ms[i][0]])
                n.refill(L, *ms[i], i)
            r = n.op(wi, f"lget {L}")
            got = n.parse_list(wi, iter(r.t[1:]), r.text)
            sim.check(got == ms, "defaults", lambda: f"{lang}: after filling in one of {len(ms)} decoded messages they are {[brief(*x) for x in got][:4]}, not {[brief(*x) for x in ms][:4]}")
            if c.chance(1, 2):
                n.lfree(L)
            sim.fault("decoded message filled in place")
        elif k == 5 and lang == "c":
            n.op(wi, f"alloc {1 + c.draw(3)} {c.draw(2)}")
            h, r = n.new(wi, m, c.draw(2))
            n.op(wi, "alloc 0")
            if r.ok:
                n.free(h)
            sim.fault("allocation failed while creating")
        m = m if c.chance(1, 2) or not held else c.pick(held)[1]
        h, r = n.new(wi, m, c.draw(2))
        d = codec.default(w, m)
        sim.check(r.ok, "defaults", lambda: f"{lang} cannot create {m}: {r.text[:100]}")
        got = parse_new(sim, n, wi, r)
        sim.check(got == (m, d), "defaults", lambda: f"{lang}: a fresh {m} holds {brief(*got)}, the documented defaults are {brief(m, d)}")
        ok, b = n.write_all(wi, h, True)
        sim.check(ok and b == codec.encode(w, m, d, True), "defaults", lambda: f"{lang}: a fresh {m} writes as {b.hex()[:100] if b else 'an error'}, the defaults are {codec.encode(w, m, d, True).hex()[:100]}")
        if c.chance(1, 2):
            held.append((h, m, d))
        else:
            n.free(h, c.draw(3))
    for h, m, v in held:
        got = parse_new(sim, n, wi, n.get(h))
        sim.check(got == (m, v), "defaults", lambda: f"{lang}: object {brief(m, v)} became {brief(*got)} while others were created")
    sim.trivial = not sim.faults
