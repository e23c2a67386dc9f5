"""C07 corrupted bytes, C08 mixed protocol versions, C10 bounded reads with a resumable position."""
from . import codec
from .build import LANGS
from .node import HAS_CURSOR, STREAMING
from .scen_net import brief, chunk_size, names, pick_world
from .scen_store import blocking_read
from .values import Gen
from .worlds import SIZES


# ------------------------------------------------------------------ structure of an encoding
def marks(w, t, is_list, v, pos, out):
    """Offsets worth hitting: (offset, width, kind) of every length, enum and bool. Returns the end."""
    if is_list:
        out.append((pos, SIZES[w.list_t], "list length"))
        pos += SIZES[w.list_t]
        for x in v:
            pos = marks(w, t, False, x, pos, out)
        return pos
    if t == "string":
        out.append((pos, SIZES[w.string_t], "string length"))
        out.append((pos + SIZES[w.string_t], max(1, len(v)), "string body"))
        return pos + SIZES[w.string_t] + len(v)
    if t in SIZES:
        if t == "bool":
            out.append((pos, 1, "bool"))
        return pos + SIZES[t]
    if t in w.enums:
        n = SIZES[w.enums[t]["enc"]]
        out.append((pos, n, "enum"))
        return pos + n
    for (f, mt, ml), x in zip(w.members(t), v):
        pos = marks(w, mt, ml, x, pos, out)
    return pos


def corrupt(sim, w, data, ms):
    """One media or network fault on data. Returns (data, kind)."""
    c = sim.c
    b = bytearray(data)
    k = c.draw(9)
    if not b:
        k = 8
    if k <= 1:
        i = c.draw(len(b))
        b[i] ^= 1 << c.draw(8)
        return bytes(b), "bit flipped"
    if k == 2:
        i = c.draw(len(b))
        b[i] = c.pick([0, 255, 127, 128, c.draw(256)])
        return bytes(b), "byte replaced"
    if k in (3, 4) and ms:
        o, n, kind = c.pick(ms)
        if o + n <= len(b):
            v = int.from_bytes(b[o:o + n], "little")
            nv = c.pick([v + 1, v - 1, 0, (1 << 8 * n) - 1, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1, v ^ (1 << c.draw(8 * n)), c.draw(256), v + c.draw(300)])
            b[o:o + n] = (nv & ((1 << 8 * n) - 1)).to_bytes(n, "little")
            return bytes(b), kind + " damaged"
    if k == 5:
        i = c.draw(len(b))
        j = min(len(b), i + 1 + c.draw(16))
        return bytes(b[:i] + b[j:]), "bytes lost"
    if k == 6:
        i = c.draw(len(b))
        j = min(len(b), i + 1 + c.draw(16))
        return bytes(b[:j] + b[i:j] + b[j:]), "bytes duplicated"
    if k == 7:
        i = c.draw(len(b))
        j = min(len(b), i + 1 + c.draw(8))
        for q in range(i, j):
            b[q] = c.draw(256)
        return bytes(b), "sector of garbage"
    i = c.draw(len(b) + 1)
    ins = bytes(c.draw(256) for _ in range(1 + c.draw(8)))
    return bytes(b[:i] + ins + b[i:]), "garbage inserted"


def norm_msgs(w, ms, len_):
    return [(m, codec.normal(w, m, False, v, len_)) for m, v in ms]


def corrupted(sim):
    """Stored or received bytes are damaged. A node either reports an error or returns exactly what the damaged bytes say; it never
    crashes, hangs, or touches memory outside the buffer, and afterwards it still reads intact data."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    g = Gen(c, w, budget=400)
    for _ in range(1 + c.draw(5)):
        sim.now += 40
        shape = c.draw(3)
        msgs = [g.message(nm) for _ in range(1 if shape == 0 else 1 + c.draw(4))]
        ms = []
        pos = 0 if shape == 0 else 8 if shape == 2 else 0
        for m, v in msgs:
            pos = marks(w, m, False, v, pos + (shape > 0), ms)
        if shape == 0:
            m0 = msgs[0][0]
            data = codec.encode(w, *msgs[0])
        elif shape == 1:
            data = b"".join(codec.encode(w, m, v, True) for m, v in msgs)
        else:
            data = codec.pack(w, msgs)
        good = data
        for _ in range(c.weighted([(5, 1), (3, 2), (1, 4)])):
            data, kind = corrupt(sim, w, data, ms)
            sim.fault(kind)
        len_ = codec.Lenient()
        if shape == 0:
            try:
                v, p = codec.decode_value(w, m0, False, data, 0, len_)
                ref, err = [(m0, v)], None
            except codec.DecodeError as e:
                ref, err = None, e
            cmd = f"read {{s}} {w.mnames.index(m0)} -1"
        elif shape == 1:
            ref, p, err, len_ = codec.decode_stream(w, data)
            cmd = "proc {s} -1 -1"
        else:
            ref, p, err, len_ = codec.unpack(w, data)
            cmd = "unpack {s} -1"
        for lang in c.shuffle(LANGS)[:1 + c.draw(3)]:
            n = sim.node(lang)
            sim.order(f"{lang}{shape}")

            def attempt(bytes_):
                if lang in STREAMING and c.chance(1, 4):
                    return blocking_read(sim, n, wi, cmd, bytes_, len(bytes_))
                s = n.src(wi, bytes_)
                r = n.op(wi, cmd.format(s=s))
                n.srcclose(wi, s)
                return r
            r = attempt(data)
            sim.event(f"{lang} reads {len(data)} damaged bytes ({kind}), reference says {err.kind if err else 'ok'}: {r.text[:60]}")
            loose = len_.negative or len_.bad_utf8
            if not r.ok:
                sim.check(err is not None or loose, "corruption", lambda: f"{lang} rejects bytes that are a valid encoding: {data.hex()[:200]} says {[brief(*x) for x in ref][:3]}; {r.text[:120]}")
                sim.probe("damage reported")
            else:
                if shape == 0:
                    ok, pos, mv = n.parse_read(wi, r)
                    got = [mv]
                else:
                    pos, got = n.parse(wi, r)
                for m, v in got:
                    check_enums(sim, w, m, False, v, lang)
                sim.check(err is None or loose, "corruption", lambda: f"{lang} accepts bytes that are not a valid encoding ({err.kind}): {data.hex()[:200]} as {[brief(*x) for x in got][:3]}")
                if err is None:
                    sim.check(norm_msgs(w, got, len_.bad_utf8) == norm_msgs(w, ref, len_.bad_utf8), "corruption",
                              lambda: f"{lang} reads {data.hex()[:200]} as {[brief(*x) for x in got][:3]}, the bytes say {[brief(*x) for x in ref][:3]}")
                sim.probe("damage invisible, value as the bytes say")
            r = attempt(good)
            sim.check(r.ok, "recovery", lambda: f"{lang} rejects intact bytes after a damaged input: {good.hex()[:200]}: {r.text[:120]}")
            got = [n.parse_read(wi, r)[2]] if shape == 0 else n.parse(wi, r)[1]
            sim.check(got == msgs, "recovery", lambda: f"{lang} reads intact bytes as {[brief(*x) for x in got][:3]} after a damaged input, written as {[brief(*x) for x in msgs][:3]}")
    sim.trivial = not sim.faults


def check_enums(sim, w, t, is_list, v, lang):
    if is_list:
        for x in v:
            check_enums(sim, w, t, False, x, lang)
    elif t in w.enums:
        sim.check(v in [x for _, x in w.enums[t]["values"]], "enum", lambda: f"{lang} returned {v} for enum {t}, which declares {w.enums[t]['values'][:8]}")
    elif t not in SIZES and t != "string":
        for (f, mt, ml), x in zip(w.members(t), v):
            check_enums(sim, w, mt, ml, x, lang)


def noise(sim):
    """A peer that speaks something else entirely: random bytes, all zeros, another protocol's messages, half a log of another world."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    for _ in range(2 + c.draw(6)):
        sim.now += 40
        k = c.draw(5)
        if k == 0:
            data = bytes(c.draw(256) for _ in range(c.draw(60)))
            sim.fault("random bytes")
        elif k == 1:
            data = bytes([c.draw(256)]) * c.draw(300)
            sim.fault("constant bytes")
        elif k == 2:
            data = bytes(c.pick([0, 1, 2, 3, 255]) for _ in range(c.draw(80)))
            sim.fault("small random bytes")
        else:
            o = pick_world(sim)
            g = Gen(c, sim.worlds[o], budget=200)
            data = b"".join(codec.encode(sim.worlds[o], *g.message(names(sim, o)), tag=True) for _ in range(1 + c.draw(3)))
            sim.fault("another protocol's stream")
        if k == 4:
            data = b"BSCI" + c.pick([1, 2, len(data), 0xffffffff, 0x80000000]).to_bytes(4, "little") + data
            sim.fault("plausible batch header")
        for lang in c.shuffle(LANGS)[:2]:
            n = sim.node(lang)
            which = c.draw(3)
            if which == 0:
                m0 = c.pick(nm)
                len_ = codec.Lenient()
                try:
                    v, p = codec.decode_value(w, m0, False, data, 0, len_)
                    ref, err = [(m0, v)], None
                except codec.DecodeError as e:
                    ref, err = None, e
                cmd = f"read {{s}} {w.mnames.index(m0)} -1"
            elif which == 1:
                ref, p, err, len_ = codec.decode_stream(w, data)
                cmd = "proc {s} -1 -1"
            else:
                ref, p, err, len_ = codec.unpack(w, data)
                cmd = "unpack {s} -1"
            sim.order(f"{lang}{which}{k}")
            s = n.src(wi, data)
            r = n.op(wi, cmd.format(s=s))
            n.srcclose(wi, s)
            sim.event(f"{lang} is fed {len(data)} bytes of noise {k}, reference says {err.kind if err else 'ok'}: {r.text[:60]}")
            loose = len_.negative or len_.bad_utf8
            if not r.ok:
                sim.check(err is not None or loose, "corruption", lambda: f"{lang} rejects bytes that are a valid encoding: {data.hex()[:200]} says {[brief(*x) for x in ref][:3]}; {r.text[:120]}")
            else:
                got = [n.parse_read(wi, r)[2]] if which == 0 else n.parse(wi, r)[1]
                for m, v in got:
                    check_enums(sim, w, m, False, v, lang)
                sim.check(err is None or loose, "corruption", lambda: f"{lang} accepts bytes that are not a valid encoding ({err.kind}): {data.hex()[:200]} as {[brief(*x) for x in got][:3]}")
                if err is None:
                    sim.check(norm_msgs(w, got, len_.bad_utf8) == norm_msgs(w, ref, len_.bad_utf8), "corruption",
                              lambda: f"{lang} reads {data.hex()[:200]} as {[brief(*x) for x in got][:3]}, the bytes say {[brief(*x) for x in ref][:3]}")
    sim.trivial = not sim.faults


# ------------------------------------------------------------------ C08
def version_worlds(seed, tier):
    """Pairs of worlds: an old protocol, and the new one that adds message types after the old ones."""
    from .worlds import make_worlds
    out = []
    for i, w in enumerate(make_worlds(seed)):
        if i in (1, 2, 5, 6) or w.get("tiny"):
            continue
        keep = {0: 5, 3: 1, 4: 8, 7: 3, 8: 200}.get(i, 4)
        keep = min(keep, len(w["messages"]) - 1)
        old = dict(w, name=f"V{i}old", messages=w["messages"][:keep], opts={})
        new = dict(w, name=f"V{i}new", opts={})
        out += [old, new]
    return out


def rolling_upgrade(sim):
    """A log shared by nodes of which some run the old protocol and some the new one, upgraded one by one while the log grows. An old
    node that meets a message type it does not have says so, and every message before it arrives unharmed; after its upgrade it
    carries on. A terminator in the log ends a read there and nowhere else."""
    c = sim.c
    pair = c.draw(len(sim.worlds) // 2)
    wo, wn = 2 * pair, 2 * pair + 1
    old, new = sim.worlds[wo], sim.worlds[wn]
    keep = len(old.mnames)
    nm = new.mnames if len(new.mnames) <= 20 else [new.mnames[c.draw(keep)] for _ in range(4)] + [new.mnames[keep - 1], new.mnames[keep], new.mnames[-1], new.mnames[keep + c.draw(len(new.mnames) - keep)]]
    g = Gen(c, new, budget=600)
    nodes = []
    for lang in c.shuffle(LANGS)[:2 + c.draw(3)]:
        nodes.append({"lang": lang, "ver": c.draw(2), "pos": 0, "stuck": False})
    sim.event(f"worlds {old.name} ({keep} messages) and {new.name} ({len(new.mnames)}); nodes {[(x['lang'], x['ver']) for x in nodes]}")
    log = []            # (m, v) or None for a terminator
    enc = []
    steps = 4 + c.draw(16)

    def consume(x, drain):
        n = sim.node(x["lang"])
        wi = wn if x["ver"] else wo
        rest = enc[x["pos"]:]
        data = b"".join(rest)
        k = -1 if c.chance(1, 3) else 1 + c.draw(3)
        if drain:
            k = -1
        # what a reader of this version must see
        exp, stop = [], None
        i = x["pos"]
        while i < len(log) and (k < 0 or len(exp) < k):
            if log[i] is None:
                stop = "end"
                break
            if log[i] == "alien" or (not x["ver"] and new.mnames.index(log[i][0]) >= keep):
                stop = "unknown"
                break
            exp.append(log[i])
            i += 1
        if x["lang"] in STREAMING and c.chance(1, 4):
            # from a socket: the call sees the data in fragments
            L = n.newlist()
            r = blocking_read(sim, n, wi, f"proc {{s}} {k} {L}", data, len(data), end="de")
            if r.ok:
                n.lists[L] = wi
                n.lfree(L)
        else:
            s = n.src(wi, data)
            r = n.op(wi, f"proc {s} {k} -1")
            n.srcclose(wi, s)
        sim.order(f"{x['lang']}{x['ver']}{len(exp)}{stop}")
        sim.event(f"{x['lang']} (version {1 + x['ver']}) reads from entry {x['pos']}, limit {k}: {r.text[:50]}; expected {len(exp)} then {stop}")
        who = lambda: f"{x['lang']} running {'new' if x['ver'] else 'old'} protocol"
        if stop == "unknown":
            sim.fault("message type from a newer version")
            sim.check(not r.ok, "unknown", lambda: f"{who()} meets message type {log[i] if log[i] == 'alien' else new.mnames.index(log[i][0]) + 1} of which it knows {keep if not x['ver'] else len(new.mnames)}, and reports success: {r.text[:160]}")
            if exp and c.chance(1, 2):
                b = b"BSCI" + (len(exp) + 1).to_bytes(4, "little") + b"".join(rest[:len(exp) + 1]) + b"\0"
                s = n.src(wi, b)
                ok, pos, got = n.unpack(wi, s)
                n.srcclose(wi, s)
                sim.check(not ok, "unknown", lambda: f"{who()} unpacks a batch of {len(exp)} known messages and an unknown one and reports success with {[brief(*q) for q in got][:3]}")
                sim.probe("unknown type inside a batch")
            if exp:
                s = n.src(wi, data)
                ok, pos, got = n.proc(wi, s, len(exp))
                n.srcclose(wi, s)
                sim.check(ok and got == exp, "unknown", lambda: f"{who()} cannot read the {len(exp)} messages before the unknown one: {[brief(*q) for q in got][:3]}")
                x["pos"] += len(exp)
                return True
            # alone in a batch
            b = b"BSCI" + (1).to_bytes(4, "little") + rest[0] + b"\0"
            s = n.src(wi, b)
            ok, pos, got = n.unpack(wi, s)
            n.srcclose(wi, s)
            sim.check(not ok, "unknown", lambda: f"{who()} unpacks a batch whose last message is of an unknown type and reports success with {[brief(*q) for q in got][:3]}")
            # on its own, too
            s = n.src(wi, rest[0])
            ok, pos, got = n.proc(wi, s, c.pick([-1, 1, 2]))
            n.srcclose(wi, s)
            sim.check(not ok, "unknown", lambda: f"{who()} reads an unknown message type alone and reports success with {[brief(*q) for q in got][:3]}")
            x["stuck"] = True
            return False
        sim.check(r.ok, "terminator" if stop else "delivery", lambda: f"{who()} reports an error on {len(exp)} known messages then {stop}: {r.text[:160]}")
        pos, got = n.parse(wi, r)
        sim.check(got == exp, "terminator" if stop else "delivery", lambda: f"{who()} returns {[brief(*q) for q in got][:4]}, the log holds {[brief(*q) for q in exp][:4]} then {stop}")
        if n.lang in HAS_CURSOR:
            want = sum(map(len, enc[x["pos"]:i])) + (1 if stop == "end" else 0)
            sim.check(pos == want, "terminator", lambda: f"{who()} stops at byte {pos}, {len(exp)} messages then {stop} end at {want}")
        x["pos"] = i
        if stop == "end":
            x["pos"] += 1
            sim.probe("terminator met")
        return bool(exp) or stop == "end"

    for _ in range(steps):
        sim.now += 10 + c.draw(90)
        k = c.draw(10)
        if k <= 4:
            writers = [x for x in nodes]
            x = c.pick(writers)
            m, v = g.message(nm if x["ver"] else [q for q in nm if new.mnames.index(q) < keep])
            n = sim.node(x["lang"])
            wi = wn if x["ver"] else wo
            h = n.load(wi, m, v)
            ok, b = n.write_all(wi, h, True)
            n.free(h)
            ref = codec.encode(new, m, v, True)
            sim.check(ok and b == ref, "delivery", lambda: f"{x['lang']} version {1 + x['ver']} writes {brief(m, v)} as {b.hex()[:160] if b else 'error'}, the format says {ref.hex()[:160]}")
            log.append((m, v))
            enc.append(b)
        elif k == 5:
            log.append(None)
            enc.append(b"\0")
            sim.fault("terminator in the stream")
        elif k == 6 and c.chance(1, 2) and len(new.mnames) < 255:
            # a node from a release nobody here knows yet
            t = c.pick([len(new.mnames) + 1, 255, 128, len(new.mnames) + 1 + c.draw(255 - len(new.mnames))])
            log.append("alien")
            enc.append(bytes([max(t, len(new.mnames) + 1)]) + bytes(c.draw(6)))
        elif k == 7:
            x = c.pick(nodes)
            if not x["ver"]:
                x["ver"] = 1
                x["stuck"] = False
                sim.node(x["lang"]).restart()
                sim.fault("node upgraded and restarted")
                sim.event(f"{x['lang']} upgraded")
                sim.order("u" + x["lang"])
        else:
            x = c.pick(nodes)
            consume(x, False)
    for x in nodes:
        if not x["ver"] and c.chance(2, 3):
            x["ver"] = 1
            sim.node(x["lang"]).restart()
            sim.fault("node upgraded and restarted")
        for _ in range(3 * len(log) + 3):
            if x["pos"] >= len(log):
                break
            if not consume(x, True):
                break
        else:
            sim.fail("liveness", f"{x['lang']} makes no progress")
        if x["pos"] < len(log):
            q = log[x["pos"]]
            sim.check(q == "alien" or (q is not None and not x["ver"] and new.mnames.index(q[0]) >= keep), "liveness", f"{x['lang']} stopped at entry {x['pos']} of {len(log)}")
    sim.trivial = not sim.faults


# ------------------------------------------------------------------ C10
def bounded_reads(sim):
    """A consumer polls a growing log with a limit per poll, remembers the position it reached, and is restarted now and then."""
    c = sim.c
    wi = pick_world(sim)
    w = sim.worlds[wi]
    nm = names(sim, wi)
    if len(nm) > 2 and c.chance(1, 2):
        nm = [c.pick(nm) for _ in range(2)]
    g = Gen(c, w, budget=700, long=(1, 200))
    many = c.weighted([(4, 0), (2, 10), (2, 25), (1, 60)])
    lang = c.pick(LANGS)
    n = sim.node(lang)
    log, enc = [], []
    taken, byte_pos = 0, 0
    sim.event(f"world {w.name}, consumer {lang}")
    buf_h = None

    def more(k):
        for m, v in g.several(k, nm, 60):
            log.append((m, v))
            enc.append(codec.encode(w, m, v, True))
    more(1 + c.draw(6) + many)
    for _ in range(2 + c.draw(8)):
        sim.now += 25
        act = c.draw(6)
        if act == 0:
            more(1 + c.draw(4))
            sim.event(f"{len(log)} messages in the log")
            sim.order("g")
            continue
        if act == 1:
            n.restart()
            sim.fault("consumer restarted from its stored position")
            lang = c.pick(LANGS) if c.chance(1, 2) else lang
            n = sim.node(lang)
            sim.event(f"consumer restarted in {lang} at message {taken}, byte {byte_pos}")
            sim.order("r" + lang)
        left = len(log) - taken
        k = c.pick([1, 1 + c.draw(3), max(1, left), left + 1 + c.draw(3), max(1, left - 1), 0, -1, c.pick([-2, -1000, -2147483648]), c.pick([8, 9, 16, 17, 32, 33, 64, 65]), 2147483647])
        data = b"".join(enc)[byte_pos:]
        exp = log[taken:] if k < 0 else log[taken:taken + k]
        want = sum(map(len, enc[taken:taken + len(exp)]))
        ended = c.chance(1, 4)
        if ended:
            # an end marker, and another record's bytes after it
            data += b"\0" + bytes(c.draw(256) for _ in range(c.draw(9)))
            sim.fault("end marker after the last message")
        at_end = ended and (k < 0 or k > left)       # the marker is read, and nothing after it
        sim.order(f"{lang}{k if k < 10 else 10}")
        if lang in STREAMING and c.chance(1, 3) and 0 < k <= left:
            # a live connection: the call must return once it has k messages, without asking for anything after them
            n.nc += 1
            s = n.nc
            n.op(wi, f"srcpark {s} {len(data)}" if lang == "csharp" else f"srcpark {s}")
            L = n.newlist()
            t, st = n.spawn(wi, f"proc {s} {k} {L}")
            p = 0
            while st[0] == "park":
                ask = int(st[1][1])
                if p >= want and ask > 0:
                    sim.fail("bounded", f"{lang} has {k} complete messages and asks for {ask} more bytes although the limit is {k}")
                j = chunk_size(c, min(ask, want - p)) if ask else 0
                if j < ask:
                    sim.fault("short read")
                st = n.resume(t, "d " + data[p:p + j].hex())
                p += j
            r = st[1]
            if r.ok:
                n.lists[L] = wi
                n.lfree(L)
            n.op(wi, f"srcclose {s}")
        else:
            s = n.src(wi, data)
            r = n.op(wi, f"proc {s} {k} -1")
            if c.chance(1, 3) and r.ok and n.lang in HAS_CURSOR and not at_end:
                # the same cursor carries on
                k2 = 1 + c.draw(4)
                at = taken + len(exp)
                r2 = n.op(wi, f"proc {s} {k2} -1")
                exp2 = log[at:at + k2]
                sim.check(r2.ok, "bounded", lambda: f"{lang} fails on the second call on one cursor: {r2.text[:120]}")
                pos2, got2 = n.parse(wi, r2)
                sim.check(got2 == exp2, "bounded", lambda: f"{lang} returns {[brief(*q) for q in got2][:4]} from the second call on one cursor, next in the log are {[brief(*q) for q in exp2][:4]}")
            n.srcclose(wi, s)
        sim.event(f"{lang} polls {k} of {left}: {r.text[:50]}")
        sim.check(r.ok, "bounded", lambda: f"{lang} fails reading {k} of {left} messages: {r.text[:160]}")
        pos, got = n.parse(wi, r)
        sim.check(len(got) == len(exp), "bounded", lambda: f"{lang} returns {len(got)} messages with limit {k}, {left} available")
        sim.check(got == exp, "bounded", lambda: f"{lang} returns {[brief(*q) for q in got][:4]} with limit {k}, next in the log are {[brief(*q) for q in exp][:4]}")
        if n.lang in HAS_CURSOR:
            sim.check(pos == want + at_end, "bounded", lambda: f"{lang} is at byte {pos} after {len(exp)} messages (limit {k}), they end at {want}{', the end marker follows' if ended else ''}")
        if k != 0:
            sim.fault("read cut short by the limit") if len(exp) < left else None
        taken += len(exp)
        byte_pos += want
        if taken == len(log):
            more(1 + c.draw(3))
    sim.trivial = False
