"""C03 size accounting in shared storage, C04 exhausted output, C05 truncation, C06 torn append logs, C09 packed batches."""
from . import codec
from .build import LANGS
from .node import CAN_EXHAUST, HAS_CURSOR, STREAMING
from .scen_net import brief, chunk_size, names, pick_world
from .values import Gen


# ------------------------------------------------------------------ C03
def change(sim, g, objs, lang, h, m):
    """The object's members get other values, after it was measured and written before."""
    v = g.message([m])[1]
    sim.node(lang).refill(h, m, v)
    for i, o in enumerate(objs):
        if o[:2] == (lang, h):
            objs[i] = (lang, h, m, v)
    sim.event(f"{lang} changes an object to {brief(m, v)}")
    sim.probe("record changed after it was written")


def size_history(sim):
    """Nodes share a segment store: each asks how many bytes its record needs, reserves exactly that in the current segment, and writes.
    Records come from local objects, from decoded bytes of other languages, and after failed attempts; segments fill up."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    g = Gen(c, w, budget=1500, long=(1, 25))
    segcap = c.pick([40, 100, 400, 2000, 100000])
    seg = []            # (lang, bytes) of the current segment
    used = 0
    objs = []           # (lang, handle, m, v)
    steps = 3 + c.draw(14)
    sim.event(f"world {w.name} list={w.list_t} string={w.string_t}, segments of {segcap}")
    for _ in range(steps):
        sim.now += 1 + c.draw(50)
        k = c.draw(10)
        if k <= 3 or not objs:
            lang = c.pick(LANGS)
            n = sim.node(lang)
            m, v = g.message(nm)
            if c.chance(1, 3):     # arrives as bytes from elsewhere
                s = n.src(wi, codec.encode(w, m, v))
                h = n.h()
                ok, pos, got = n.read(wi, s, m, h)
                sim.check(ok, "size", lambda: f"{lang} cannot read {brief(m, v)}")
                n.srcclose(wi, s)
                sim.probe("decoded record")
            elif c.chance(1, 6):
                m = c.pick(nm)
                v = codec.default(w, m)
                h, r = n.new(wi, m)
                sim.check(r.ok, "size", "a fresh message could not be created")
                sim.probe("fresh record")
            else:
                h = n.load(wi, m, v)
            objs.append((lang, h, m, v))
            sim.order("o" + lang)
        elif k <= 7:
            lang, h, m, v = c.pick(objs)
            n = sim.node(lang)
            want = len(codec.encode(w, m, v))
            tag = c.draw(2)
            sz = n.size(wi, h, c.draw(2) if lang == "c" else 0)
            sim.check(sz == want, "size", lambda: f"{lang} announces {sz} bytes for {brief(m, v)}, writing takes {want}")
            need = sz + tag
            if used + need > segcap:
                if lang in CAN_EXHAUST and used < segcap and c.chance(1, 2):
                    s = n.sink(wi, segcap - used, pre=3)
                    r = n.op(wi, f"write {s} {h} {tag}")
                    sim.fault("segment full inside a record")
                    sim.check(not r.ok or need <= segcap - used, "size", lambda: f"{lang} claims to have written {need} bytes into {segcap - used}")
                    n.sinkclose(wi, s)
                sim.fault("segment rolled")
                seg, used = [], 0
                if need > segcap:
                    continue
            s = n.sink(wi, need, pre=c.draw(4))
            r = n.op(wi, f"write {s} {h} {tag}")
            sim.check(r.ok, "size", lambda: f"{lang} could not write {brief(m, v)} into the {need} bytes it announced: {r.text[:200]}")
            out = n.sinkget(wi, s)
            n.sinkclose(wi, s)
            sim.check(len(out) == need, "size", lambda: f"{lang} announced {need} bytes for {brief(m, v)} and wrote {len(out)}")
            seg.append(out)
            used += need
            if c.chance(1, 3):
                change(sim, g, objs, lang, h, m)
            sim.order("w" + lang)
            sim.event(f"{lang} appended {need} bytes")
        elif k == 8:
            # a packed batch of everything one language holds
            lang = c.pick(objs)[0]
            n = sim.node(lang)
            mine = [o for o in objs if o[0] == lang]
            how = c.draw(4)
            if how <= 1:
                take = mine[:c.draw(len(mine) + 1)]
                msgs = [(m, v) for _, _, m, v in take]
                for o in take:
                    objs.remove(o)
                L = n.mklist(wi, [o[1] for o in take])
            else:
                # the list itself was decoded, from a stream or from a batch, with something behind it now and then
                msgs = g.several(c.weighted([(3, 1), (2, 2), (1, 0), (1, 5), (1, 9)]), nm)
                data = codec.pack(w, msgs) if how == 3 else b"".join(codec.encode(w, m, v, True) for m, v in msgs)
                s = n.src(wi, data)
                L = n.newlist()
                ok, pos, got = n.unpack(wi, s, L) if how == 3 else n.proc(wi, s, -1, L)
                sim.check(ok and got == msgs, "size", lambda: f"{lang} cannot decode {[brief(*x) for x in msgs][:4]}")
                n.srcclose(wi, s)
                sim.probe("decoded list")
            want = len(codec.pack(w, msgs))
            r = n.op(wi, f"lpsize {L}")
            sim.check(r.ok and int(r.t[1]) == want, "size", lambda: f"{lang} announces {r.text[:50]} bytes for a batch of {[brief(*x) for x in msgs][:4]}, packing takes {want}")
            s = n.sink(wi, want, pre=c.draw(3))
            r = n.op(wi, f"lpack {s} {L}")
            sim.check(r.ok, "size", lambda: f"{lang} could not pack {len(msgs)} messages into the {want} bytes it announced: {r.text[:200]}")
            out = n.sinkget(wi, s)
            sim.check(len(out) == want, "size", lambda: f"{lang} announced {want} bytes for a batch and wrote {len(out)}")
            n.sinkclose(wi, s)
            if msgs and c.chance(1, 3):
                # one of its messages gets new content, and the batch is announced and packed again
                i = c.draw(len(msgs))
                msgs = list(msgs)
                msgs[i] = g.message([msgs[i][0]])
                n.refill(L, *msgs[i], i)
                ref = codec.pack(w, msgs)
                r = n.op(wi, f"lpsize {L}")
                sim.check(r.ok and int(r.t[1]) == len(ref), "size", lambda: f"{lang} announces {r.text[:50]} bytes for a batch whose message {i} was changed to {brief(*msgs[i])}, packing takes {len(ref)}")
                s = n.sink(wi, len(ref), pre=c.draw(3))
                r = n.op(wi, f"lpack {s} {L}")
                sim.check(r.ok and n.sinkget(wi, s) == ref, "size", lambda: f"{lang} could not pack a batch whose message {i} was changed into the {len(ref)} bytes it takes: {r.text[:200]}")
                n.sinkclose(wi, s)
                sim.probe("batch changed after it was packed")
            n.lfree(L)
            sim.order("p" + lang)
            sim.probe("batch")
        elif c.chance(1, 2):
            change(sim, g, objs, *c.pick(objs)[:3])
        else:
            i = c.draw(len(objs))
            lang, h, m, v = objs.pop(i)
            sim.node(lang).free(h)
    for lang, h, m, v in objs:     # sizes are stable over the history
        want = len(codec.encode(w, m, v))
        sz = sim.node(lang).size(wi, h)
        sim.check(sz == want, "size", lambda: f"{lang} announces {sz} bytes for {brief(m, v)} at the end of the history, writing takes {want}")
    sim.trivial = False


# ------------------------------------------------------------------ C04
def exhausted_buffer(sim):
    """Output space runs out at every kind of place; C and TypeScript write into fixed buffers, C# into fixed streams."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    lang = c.pick(sorted(CAN_EXHAUST))
    n = sim.node(lang)
    g = Gen(c, w, budget=500)
    for _ in range(1 + c.draw(4)):
        m, v = g.message(nm)
        what = c.draw(3)
        pre = c.draw(9)
        if what < 2:
            tag = what
            full = codec.encode(w, m, v, bool(tag))
            h = n.load(wi, m, v)
            cmd = f"write {{s}} {h} {tag} {c.draw(2) if lang == 'c' else 0}"
            desc = brief(m, v)
        else:
            msgs = [(m, v)] + g.several(c.draw(4), nm)
            if c.chance(1, 8):
                msgs = []
            full = codec.pack(w, msgs)
            L = n.mklist(wi, [n.load(wi, *x) for x in msgs])
            cmd = f"lpack {{s}} {L}"
            desc = f"a batch of {[brief(*x) for x in msgs][:4]}"
        if not full:
            continue
        cuts = set()
        for _ in range(1 + c.draw(5)):
            cuts.add(c.pick([len(full) - 1, 0, c.draw(len(full)), max(0, len(full) - 1 - c.draw(9))]))
        for cut in sorted(cuts):
            sim.now += 10
            s = n.sink(wi, cut, pre)
            r = n.op(wi, cmd.format(s=s))
            sim.fault("output full")
            sim.order(f"{lang}{what}{cut * 8 // len(full)}")
            sim.event(f"{lang} writes {desc} ({len(full)} bytes) into {cut}: {r.text[:80]}")
            sim.check(not r.ok, "silent", lambda: f"{lang} reported success writing {desc}, {len(full)} bytes, into a buffer with {cut} left")
            n.op(wi, f"sinkget {s}")       # checks the canaries around the buffer
            n.sinkclose(wi, s)
        # once there is space the same object is written in full
        s = n.sink(wi, len(full), pre)
        r = n.op(wi, cmd.format(s=s))
        sim.check(r.ok, "recovery", lambda: f"{lang} cannot write {desc} after earlier attempts ran out of space: {r.text[:200]}")
        out = n.sinkget(wi, s)
        sim.check(out == full, "recovery", lambda: f"{lang} wrote {out.hex()[:160]} for {desc} after earlier attempts ran out of space, expected {full.hex()[:160]}")
        n.sinkclose(wi, s)
    sim.trivial = not sim.faults


def failing_writer(sim):
    """C# writes through a Stream, Go through an io.Writer, whose device fails at a drawn write, taking a drawn part of it, and stays broken."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    lang = c.pick(["csharp", "csharp", "go"])
    n = sim.node(lang)
    g = Gen(c, w, budget=400)
    m, v = g.message(nm)
    batch = c.chance(1, 3)
    if batch:
        msgs = [(m, v)] + g.several(c.draw(3), nm)
        full = codec.pack(w, msgs)
        L = n.mklist(wi, [n.load(wi, *x) for x in msgs])
        cmd = f"lpack {{s}} {L}"
    else:
        full = codec.encode(w, m, v, True)
        h = n.load(wi, m, v)
        cmd = f"write {{s}} {h} 1"
    fail_at = c.draw(len(full) + 1)      # the device takes this many bytes
    for attempt in (0, 1):
        n.ns += 1
        s = n.ns
        n.op(wi, f"sinkpark {s}")
        t, st = n.spawn(wi, cmd.format(s=s))
        taken = 0
        failed = False
        while st[0] == "park":
            sim.now += 5
            d = bytes.fromhex(st[1][1]) if len(st[1]) > 1 else b""
            sim.order(f"w{len(d)}")
            if attempt == 0 and not failed and taken + len(d) > fail_at:
                part = fail_at - taken
                failed = True
                sim.fault("device error inside a write")
                sim.event(f"device fails after {taken}+{part} bytes")
                st = n.resume(t, f"x {part}")
                taken += part
            elif failed:
                st = n.resume(t, "x 0")
            else:
                taken += len(d)
                st = n.resume(t, "k")
        r = st[1]
        if failed:
            if r.ok and lang == "go":
                sim.known("go-packed-writer-error" if batch else "go-writer-error", "silent", f"{lang} reported success although the device failed after {taken} of {len(full)} bytes")
            else:
                sim.check(not r.ok, "silent", lambda: f"{lang} reported success although the device failed after {taken} of {len(full)} bytes")
            got = n.sinkget(wi, s)
            sim.check(got == full[:len(got)], "silent", "bytes taken before the failure are not a prefix of the encoding")
        else:
            sim.check(r.ok, "recovery", lambda: f"{lang} reported an error on a healthy device: {r.text[:200]}")
            out = n.sinkget(wi, s)
            sim.check(out == full, "recovery", lambda: f"{lang} wrote {out.hex()[:160]} to a healthy device, expected {full.hex()[:160]}")
            n.sinkclose(wi, s)
            break
        n.sinkclose(wi, s)
    sim.trivial = not sim.faults


# ------------------------------------------------------------------ C05
def truncated(sim):
    """The sender dies inside a message or a packed batch: what arrived is a strict prefix, possibly in fragments."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    g = Gen(c, w, budget=500)
    rounds = 1 + c.draw(5)
    for _ in range(rounds):
        lang = c.pick(LANGS)
        n = sim.node(lang)
        shape = c.weighted([(4, "message"), (3, "batch"), (3, "stream"), (1, "count")])
        if shape == "message":
            m, v = g.message(nm)
            msgs = [(m, v)]
            full = codec.encode(w, m, v)
            cmd = f"read {{s}} {w.mnames.index(m)} -1"
            if not full:
                continue
            cut = pick_cut(c, 0, len(full))
            desc = brief(m, v)
        else:
            msgs = g.several(1 + c.weighted([(4, 0), (3, 1), (2, 3), (1, 12)]), nm)
            if shape == "batch":
                full = codec.pack(w, msgs)
                cut = pick_cut(c, 0, len(full) - 1)         # without the closing terminator all messages are there
                cmd = "unpack {s} -1"
            else:      # tagged messages one after the other, cut strictly inside one of them
                full = b"".join(codec.encode(w, *x, True) for x in msgs)
                k = c.draw(len(msgs))
                lo = sum(len(codec.encode(w, *x, True)) for x in msgs[:k])
                hi = lo + len(codec.encode(w, *msgs[k], True))
                if hi - lo < 2:
                    continue
                cut = pick_cut(c, lo + 1, hi)
                if shape == "stream":
                    cmd = "proc {s} -1 -1"
                else:                                        # asking for more than arrived whole
                    cmd = f"proc {{s}} {k + 1 + c.draw(len(msgs) - k)} -1"
            desc = f"{shape} of {[brief(*x) for x in msgs][:3]}"
        data = full[:cut]
        sim.now += 20
        sim.fault(f"sender died inside a {'stream' if shape == 'count' else shape}")
        sim.order(f"{lang}{shape}{cut * 16 // len(full)}")
        if lang in STREAMING and c.chance(1, 2):
            r = blocking_read(sim, n, wi, cmd, data, len(data))
            sim.fault("fragmented delivery")
        else:
            s = n.src(wi, data)
            r = n.op(wi, cmd.format(s=s))
            n.srcclose(wi, s)
        sim.event(f"{lang} gets {cut} of {len(full)} bytes of {desc}: {r.text[:60]}")
        sim.check(not r.ok, "accepted", lambda: f"{lang} accepted {cut} of the {len(full)} bytes of {desc} as complete: {r.text[:200]}")
        # the sender comes back and the whole thing arrives
        if c.chance(1, 2):
            if shape == "count":
                cmd = "proc {s} -1 -1"
            s = n.src(wi, full)
            r = n.op(wi, cmd.format(s=s))
            n.srcclose(wi, s)
            sim.check(r.ok, "recovery", lambda: f"{lang} rejects {desc} in full after an earlier truncated attempt: {r.text[:200]}")
            if shape != "message":
                pos, ms = n.parse(wi, r)
                sim.check(ms == msgs, "recovery", lambda: f"{lang} decodes {desc} as {[brief(*x) for x in ms][:3]} after an earlier truncated attempt")
            else:
                ok, pos, mv = n.parse_read(wi, r)
                sim.check(mv == (m, v) and pos == len(full) or lang == "zig" and mv == (m, v), "recovery", lambda: f"{lang} decodes {desc} as {brief(*mv)}, {pos} bytes, after an earlier truncated attempt")
    sim.trivial = not sim.faults


def pick_cut(c, lo, hi):
    """A cut in [lo, hi)."""
    n = hi - lo
    return lo + c.pick([c.draw(n), n - 1, c.draw(min(n, 12)), max(0, n - 1 - c.draw(12))])


def blocking_read(sim, n, wi, cmd, data, total, end="de", err_at=None, zero_reads=False):
    """Runs a read command against a stream that delivers data in drawn fragments and then ends. Returns the response."""
    c = sim.c
    n.nc += 1
    s = n.nc
    n.op(wi, f"srcpark {s} {total}" if n.lang == "csharp" else f"srcpark {s}")
    t, st = n.spawn(wi, cmd.format(s=s))
    p = 0
    idle = 0
    guard = 0
    while st[0] == "park":
        guard += 1
        sim.check(guard < 3000 + 2 * len(data), "hang", f"{n.lang} keeps reading a stream that has ended")
        want = int(st[1][1])
        sim.now += 1 + c.draw(20)
        if p >= len(data):
            st = n.resume(t, end)
            continue
        if zero_reads and n.lang == "go" and idle < 3 and c.chance(1, 8):
            idle += 1
            sim.fault("empty read")
            st = n.resume(t, "d")
            continue
        idle = 0
        k = chunk_size(c, min(want, len(data) - p)) if want and guard < 1500 else min(want, len(data) - p)
        d = data[p:p + k]
        p += k
        if k < want:
            sim.fault("short read")
        if p == len(data) and n.lang == "go" and end == "de" and c.chance(1, 3):
            sim.fault("end of stream together with the last bytes")
            st = n.resume(t, "de " + d.hex())
        else:
            st = n.resume(t, "d " + d.hex())
    n.op(wi, f"srcclose {s}")
    return st[1]


# ------------------------------------------------------------------ C06
def append_log(sim):
    """An append-only log on a simulated disk. Nodes in changing languages append records, sync now and then, and crash; after a crash
    the synced part and a drawn prefix of the rest survive. The next incarnation recovers and carries on from the last whole record."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    g = Gen(c, w, budget=900)
    disk = b""                 # what a reader sees now
    synced = 0
    recs = []                  # (m, v, end offset)
    for inc in range(1 + c.draw(4)):
        lang = c.pick(LANGS)
        n = sim.node(lang)
        # ---- recovery
        sim.now += 100
        ends = [e for _, _, e in recs]
        whole = len(disk) in ends or len(disk) == 0
        complete = [(m, v) for m, v, e in recs if e <= len(disk)]
        good = max([e for e in ends if e <= len(disk)] + [0])
        zero_tail = 0
        data = disk
        ref, err = complete, None if whole else "torn"
        if c.chance(1, 4):
            zero_tail = 1 + c.draw(16)        # preallocated space after what was written reads as zeros
            data = disk + bytes(zero_tail)
            sim.fault("zero-filled tail")
            if not whole:
                # the zeros may complete the torn record; the format then says what it is
                ref, _, err, odd = codec.decode_stream(w, data)
                sim.fault("torn record followed by zeros")
                err = err.kind if err else None
        s = n.src(wi, data)
        ok, pos, ms = n.proc(wi, s, -1)
        n.srcclose(wi, s)
        sim.event(f"incarnation {inc} in {lang}: {len(data)} bytes on disk, {len(complete)} whole records, cut on a boundary: {whole}; reading all of it: {'ok' if ok else 'error'}")
        if zero_tail and not whole and (odd.negative or odd.bad_utf8):
            pass          # the format leaves open what to do
        elif err is None:
            sim.check(ok, "recovery", lambda: f"{lang} rejects a log of {len(ref)} whole records ({len(data)} bytes)")
            sim.check(ms == ref, "recovery", lambda: f"{lang} recovered {[brief(*x) for x in ms][:4]} from a log holding {[brief(*x) for x in ref][:4]}")
        else:
            sim.check(not ok, "recovery", lambda: f"{lang} reports success on a log torn inside record {len(complete)} ({len(data) - good} of its bytes), returning {len(ms)} messages")
        got = []
        s = n.src(wi, data)
        while len(got) < len(complete) or len(got) == len(complete) and not (zero_tail and not whole):
            k = 1 if not c.chance(1, 5) else 1 + c.draw(3)
            k = min(k, max(1, len(complete) - len(got)))
            ok, pos, ms = n.proc(wi, s, k)
            if not ok or not ms:
                break
            got += ms
        n.srcclose(wi, s)
        sim.check(got == complete, "recovery", lambda: f"{lang} recovers {len(got)} records one by one where {len(complete)} are whole: {[brief(*x) for x in got][:4]} instead of {[brief(*x) for x in complete][:4]}")
        recs = [r for r in recs if r[2] <= len(disk)]
        disk = disk[:good]
        synced = good
        # ---- append
        sim.order(f"i{lang}{len(complete)}")
        for m, v in g.several(c.draw(6) + (inc == 0), nm, 60):
            h = n.load(wi, m, v)
            ok, b = n.write_all(wi, h, True)
            n.free(h)
            sim.check(ok, "recovery", lambda: f"{lang} cannot append {brief(m, v)}")
            disk += b
            recs.append((m, v, len(disk)))
            if c.chance(1, 3):
                synced = len(disk)
                sim.event(f"{lang} synced at {synced}")
                sim.order("s")
        # ---- crash
        keep = synced + (c.pick([c.draw(len(disk) - synced + 1), len(disk) - synced, max(0, len(disk) - synced - 1 - c.draw(5))]))
        keep = min(keep, len(disk))
        if keep < len(disk):
            sim.fault("crash lost unsynced bytes")
        else:
            sim.fault("crash")
        if keep not in [e for _, _, e in recs] and keep:
            sim.fault("record torn")
        sim.event(f"crash: {keep} of {len(disk)} bytes survive, {synced} were synced")
        disk = disk[:keep]
        n.restart()
    # final recovery by every language
    ends = [e for _, _, e in recs]
    whole = len(disk) in ends or len(disk) == 0
    complete = [(m, v) for m, v, e in recs if e <= len(disk)]
    for lang in LANGS:
        n = sim.node(lang)
        s = n.src(wi, disk)
        ok, pos, ms = n.proc(wi, s, -1)
        n.srcclose(wi, s)
        sim.check(ok == whole, "recovery", lambda: f"{lang} {'accepts' if ok else 'rejects'} a log of {len(disk)} bytes whose whole records are {len(complete)}, boundary {whole}")
        if ok:
            sim.check(ms == complete, "recovery", lambda: f"{lang} recovered {[brief(*x) for x in ms][:4]} from a log holding {[brief(*x) for x in complete][:4]}")
        if complete:
            s = n.src(wi, disk)
            ok, pos, ms = n.proc(wi, s, len(complete))
            n.srcclose(wi, s)
            sim.check(ok and ms == complete, "recovery", lambda: f"{lang} cannot recover the {len(complete)} whole records before the tear")
    sim.trivial = False


# ------------------------------------------------------------------ C09
def batches(sim):
    """Packed batches stored back to back and damaged in their header, count, or length."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    g = Gen(c, w, budget=700)
    for _ in range(1 + c.draw(4)):
        sim.now += 30
        n_msgs = c.weighted([(2, 1), (2, 2), (2, 0), (2, 3), (1, 7), (1, 8), (1, 9), (1, 16), (1, 17), (1, 33)])
        msgs = g.several(n_msgs, nm, most=1100)
        n_msgs = len(msgs)
        src_l = c.pick(LANGS)
        n0 = sim.node(src_l)
        L = n0.mklist(wi, [n0.load(wi, *x) for x in msgs])
        from .scen_net import pack_list
        before = [g.message(nm) for _ in range(c.draw(3))] if c.chance(1, 3) else []
        if before:
            # the batch goes into an output that holds records already, and gets one more after it
            after = g.message(nm)
            ref = [b"".join(codec.encode(w, *x, True) for x in before), codec.pack(w, msgs), codec.encode(w, *after, True)]
            s = n0.sink(wi, sum(map(len, ref)), c.draw(3))
            for x in before + [None, after]:
                r = n0.op(wi, f"write {s} {n0.load(wi, *x)} 1" if x else f"lpack {s} {L}")
                sim.check(r.ok, "batch", lambda: f"{src_l} cannot write {'a record' if x else 'a batch'} into space that is there, {len(before)} records before it: {r.text[:200]}")
            out = n0.sinkget(wi, s)
            n0.sinkclose(wi, s)
            sim.check(out == b"".join(ref), "batch", lambda: f"{src_l} writes a batch between records as {out.hex()[:200]}, the format says {b''.join(ref).hex()[:200]}")
            data = bytearray(ref[1])
            sim.probe("batch between records")
        else:
            data = bytearray(pack_list(sim, n0, wi, L, msgs, "batch"))
            sim.check(data == codec.pack(w, msgs), "batch", lambda: f"{src_l} packs {[brief(*x) for x in msgs][:3]} as {data.hex()[:200]}, the format says {codec.pack(w, msgs).hex()[:200]}")
        n0.lfree(L)
        kind = c.draw(8)
        if kind == 1:
            i = c.draw(4)
            data[i] ^= 1 << c.draw(8)
            sim.fault("magic damaged")
        elif kind == 2:
            more = [n_msgs + 1 + c.draw(3), n_msgs + ((1 + c.draw(255)) << 8), n_msgs + ((1 + c.draw(255)) << 16), n_msgs + ((1 + c.draw(255)) << 24),
                    n_msgs | 1 << c.draw(32)]
            data[4:8] = c.pick([x for x in more if n_msgs < x < 1 << 32]).to_bytes(4, "little")
            sim.fault("count too large")
        elif kind == 3 and n_msgs:
            data[4:8] = c.draw(n_msgs).to_bytes(4, "little")
            sim.fault("count too small")
        elif kind == 4:
            data[4:8] = c.pick([0xffffffff, 0x80000000, 0x7fffffff, 1 << 24]).to_bytes(4, "little")
            sim.fault("count enormous")
        elif kind == 5:
            data = data[:c.draw(len(data))]
            sim.fault("batch truncated")
        elif kind == 6 and n_msgs:
            # a message boundary overwritten by a terminator
            offs = [8]
            for m, v in msgs[:-1]:
                offs.append(offs[-1] + len(codec.encode(w, m, v, True)))
            data[c.pick(offs)] = 0
            sim.fault("terminator in the middle")
        elif kind == 7:
            data += bytes(c.draw(256) for _ in range(1 + c.draw(12)))
            sim.fault("bytes after the batch")
        data = bytes(data)
        ref, rpos, rerr, len_ = codec.unpack(w, data)
        if len_.negative or len_.bad_utf8:
            continue
        for lang in c.shuffle(LANGS)[:2 + c.draw(3)]:
            n = sim.node(lang)
            sim.order(f"{lang}{kind}{min(n_msgs, 9)}")
            if lang in STREAMING and c.chance(1, 3):
                r = blocking_read(sim, n, wi, "unpack {s} -1", data, len(data))
            elif before and lang in HAS_CURSOR:
                # the records before the batch are read first, from the same input
                head = b"".join(codec.encode(w, *x, True) for x in before)
                s = n.src(wi, head + data)
                ok, pos, ms = n.proc(wi, s, len(before))
                sim.check(ok and ms == before and pos == len(head), "batch", lambda: f"{lang} cannot read the {len(before)} records before a batch")
                r = n.op(wi, f"unpack {s} -1")
                n.srcclose(wi, s)
                sim.probe("batch after records")
            else:
                s = n.src(wi, data)
                r = n.op(wi, f"unpack {s} -1")
                n.srcclose(wi, s)
            sim.event(f"{lang} unpacks {n_msgs} messages with damage {kind}: {r.text[:60]}")
            announced = int.from_bytes(data[4:8], "little") if len(data) >= 8 else None
            if rerr is not None:
                sim.check(not r.ok, "batch", lambda: f"{lang} accepts a batch ({rerr.kind}; announced {announced}, {len(data)} bytes): {r.text[:200]}")
            else:
                sim.check(r.ok, "batch", lambda: f"{lang} rejects a batch holding the {announced} messages it announces: {r.text[:200]}")
                pos, ms = n.parse(wi, r)
                sim.check(len(ms) == announced, "batch", lambda: f"{lang} returned {len(ms)} messages from a batch announcing {announced}")
                sim.check(ms == ref, "batch", lambda: f"{lang} unpacked {[brief(*x) for x in ms][:4]}, the batch holds {[brief(*x) for x in ref][:4]}")
    sim.trivial = False
