"""C19: nodes whose code was generated with different options for the same protocol behave alike."""
from . import codec
from .build import LANGS
from .node import CAN_EXHAUST, HAS_CURSOR, STREAMING
from .scen_net import brief
from .scen_store import blocking_read
from .values import Gen


def option_worlds(seed, tier):
    from .worlds import option_worlds
    return option_worlds(seed)


def mixed_fleet(sim):
    """A fleet speaks one protocol, but its nodes were built with different generator options: other indentation, the protocol embedded,
    another namespace or none, no renaming, a TypeScript namespace. Records go from node to node over links that cut, damage and repeat;
    nodes are rebuilt with other options and restarted in between. Every node sees and says what the format says, whatever its options, and on
    damaged input all builds of one language take the same decision."""
    c = sim.c
    groups = {}
    for i, w in enumerate(sim.worlds):
        groups.setdefault(w.d["group"], []).append(i)
    ws = groups[c.draw(len(groups))]
    w = sim.worlds[ws[0]]
    # messages are named alike in all builds; values are lists in declaration order, so they carry over
    nm = w.mnames
    g = Gen(c, w, budget=500, long=(1, 80))
    fleet = [{"lang": l, "wi": c.pick(ws)} for l in c.shuffle(LANGS)[:2 + c.draw(3)]]
    say = lambda x: f"{x['lang']} built with {sim.worlds[x['wi']].opts or 'no options'}"
    sim.event(f"fleet {[say(x) for x in fleet]}")
    log = [g.message(nm) for _ in range(1 + c.draw(4))]
    for hop in range(2 + c.draw(4)):
        x = c.pick(fleet)
        n, wi = sim.node(x["lang"]), x["wi"]
        sim.now += 20
        sim.order(f"{x['lang']}{ws.index(wi)}")
        # ---- the node holds the records and sends them on
        hs = [n.load(wi, *r) for r in log]
        packed = c.draw(2)
        if packed:
            data = codec.pack(w, log)
            L = n.mklist(wi, hs)
            r = n.op(wi, f"lpsize {L}")
            sim.check(r.ok and int(r.t[1]) == len(data), "options", lambda: f"{say(x)} announces {r.text[:60]} bytes for a batch of {len(data)}")
            s = n.sink(wi, len(data), c.draw(3))
            r = n.op(wi, f"lpack {s} {L}")
            out = n.sinkget(wi, s) if r.ok else None
            n.sinkclose(wi, s)
            n.lfree(L)
        else:
            data = b"".join(codec.encode(w, *r, True) for r in log)
            out = b""
            for h, rec in zip(hs, log):
                sz = n.size(wi, h)
                ok, b = n.write_all(wi, h, True, size=len(codec.encode(w, *rec, True)))
                sim.check(ok and sz + 1 == len(b), "options", lambda: f"{say(x)} announces {sz} bytes for {brief(*rec)} and writes {len(b) - 1 if ok else 'an error'}")
                out += b
                n.free(h)
        sim.check(out == data, "options", lambda: f"{say(x)} writes {[brief(*q) for q in log][:3]} as {out.hex()[:160] if out is not None else 'an error'}, the format says {data.hex()[:160]}")
        # ---- the link
        op = "unpack {s} {L}" if packed else "proc {s} -1 {L}"
        kind = c.draw(5)
        damaged = data
        if kind == 1 and len(data) > 1:
            damaged = data[:c.draw(len(data))]
            sim.fault("bytes lost")
        elif kind == 2 and data:
            b = bytearray(data)
            for _ in range(1 + c.draw(3)):
                b[c.draw(len(b))] ^= 1 << c.draw(8)
            damaged = bytes(b)
            sim.fault("bits flipped")
        elif kind == 3:
            damaged = data + data
            sim.fault("delivered twice")
        y = c.pick(fleet)
        n = sim.node(y["lang"])
        ref, rpos, rerr, q = codec.unpack(w, damaged) if packed else codec.decode_stream(w, damaged)
        if damaged != data:
            # every build of this language has to take the same decision
            seen = []
            for wi in ws:
                s = n.src(wi, damaged)
                r = n.op(wi, op.format(s=s, L=-1))
                pos = n.op(wi, f"pos {s}").text if r.ok and y["lang"] in HAS_CURSOR else ""
                n.srcclose(wi, s)
                seen.append((r.ok, r.text.split(" ", 2)[2] if r.ok else "", pos))
            k = next((k for k, z in enumerate(seen) if z != seen[0]), None)
            sim.check(k is None, "options", lambda: f"{y['lang']} built with {sim.worlds[ws[k]].opts} reads damaged bytes as {seen[k]}, built with {sim.worlds[ws[0]].opts or 'no options'} as {seen[0]}: {damaged.hex()[:200]}")
            if not (q.negative or q.bad_utf8):
                sim.check(seen[0][0] == (rerr is None), "options", lambda: f"{y['lang']} {'accepts' if seen[0][0] else 'rejects'} {damaged.hex()[:200]} ({rerr.kind if rerr else 'valid'})")
            sim.fault("rejected, sent again" if rerr else "accepted as damaged")
        wi = y["wi"]
        if y["lang"] in STREAMING and c.chance(1, 3):
            L = n.newlist()
            r = blocking_read(sim, n, wi, op.format(s="{s}", L=L), data, len(data))
            sim.check(r.ok, "options", lambda: f"{say(y)} cannot read {[brief(*z) for z in log][:3]} from a stream: {r.text[:200]}")
            n.lists[L] = wi
            pos, got = n.parse(wi, r)
            n.lfree(L)
        else:
            s = n.src(wi, data)
            r = n.op(wi, op.format(s=s, L=-1))
            n.srcclose(wi, s)
            sim.check(r.ok, "options", lambda: f"{say(y)} cannot read {[brief(*z) for z in log][:3]}: {r.text[:200]}")
            pos, got = n.parse(wi, r)
        sim.check(got == log, "options", lambda: f"{say(y)} reads {[brief(*z) for z in got][:3]}, sent were {[brief(*z) for z in log][:3]}")
        # ---- what happens next in the fleet
        if c.chance(1, 2):
            m = c.pick(nm)
            h, r = n.new(wi, m)
            sim.check(r.ok, "options", "a fresh message could not be created")
            o = n.get(h)
            v = n.parse_list(wi, iter(["1"] + o.t[1:]), o.text)[0]
            sim.check(v == (m, codec.default(w, m)), "options", lambda: f"{say(y)}: a fresh message is {brief(*v)}, the protocol says {brief(m, codec.default(w, m))}")
            n.free(h)
        if c.chance(1, 2):
            log = log[1:] if len(log) > 3 else log
            log = log + [g.message(nm)]
        if c.chance(2, 5):
            z = c.pick(fleet)
            z["wi"] = c.pick(ws)
            sim.node(z["lang"]).restart()
            sim.fault("node rebuilt with other options and restarted")
    sim.trivial = not sim.faults
