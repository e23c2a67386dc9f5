"""C20: what the documentation calls an invalid protocol is refused, and nothing else is, through sessions in which a protocol file is edited
again and again and generated after every edit, by fresh processes or by one that stays alive."""
import os

from . import scen_gen as G
from .scen_net import pick_world
from .worlds import SCALARS

SIZE_TYPES = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]
BASES = SCALARS + ["string"]
WS = [" ", "\\t", "\\n", "\\r", "\\f", "\\u000b"]


class Doc:
    """A protocol file as the developer edits it: blocks of raw TOML."""

    def __init__(self, w, c):
        self.meta = [["namespace", f'"{w.name}"'], ["list_size_type", f'"{w.list_t}"'], ["string_size_type", f'"{w.string_t}"']]
        self.blocks = []     # [kind, name, [[key, value]...]]
        for n, e in w.enums.items():
            vals = ", ".join(f'{{ _name = "{v}", _value = {i} }}' if e["spec"] else f'"{v}"' for v, i in e["values"])
            self.blocks.append(["enums", n, [["_name", f'"{n}"'], ["_values", f"[{vals}]"]]])
        for kind, coll in (("structs", w.structs), ("messages", w.messages)):
            for n, mems in coll.items():
                self.blocks.append([kind, n, [["_name", f'"{n}"']] + [[f, f'"[{t}]"' if l else f'"{t}"'] for f, t, l in mems]])
        self.tail = ""

    def of(self, *kinds):
        return [b for b in self.blocks if b[0] in kinds]

    def add(self, c, kind, name, lines):
        """A new block somewhere in the file; name None leaves _name out."""
        b = [kind, name, ([["_name", f'"{name}"']] if name is not None else []) + lines]
        self.blocks.insert(c.draw(len(self.blocks) + 1), b)
        return b

    def member(self, c, b, key, value):
        b[2].insert(1 + c.draw(len(b[2])), [key, value])

    def text(self):
        out = ["[meta]"] + [f"{k} = {v}" for k, v in self.meta] + [""]
        for kind, _, lines in self.blocks:
            out += [f"[[{kind}]]"] + [f"{k} = {v}" for k, v in lines]
        return ("\n".join(out) + "\n" + self.tail).encode("utf-8", "surrogateescape")


def listed(c, t):
    return f'"[{t}]"' if c.chance(1, 2) else f'"{t}"'


def spaced(c, name):
    i = c.draw(len(name) + 1)
    return name[:i] + c.pick(WS) + name[i:]


def aggregate(c, d):
    """A struct or message, drawn evenly between the two kinds."""
    return c.pick(d.of(c.pick(["structs", "messages"])) or d.of("messages"))


def set_name(b, raw):
    for l in b[2]:
        if l[0] == "_name":
            l[1] = raw


# ---- edits that break one documented rule. Each returns the rule's name, or None when the protocol gives no occasion for it
def unknown_type(c, d):
    b = aggregate(c, d)
    t = c.pick(["NoSuchType", "Byte", "int", "uint8", "str", "String", "float32", "char", b[1].lower() + "_x", "byte ", " byte", "[byte", "byte]", "list", "StructA B"])
    d.member(c, b, "extra", listed(c, t))
    return f"unknown type {t!r}"


def odd_member(c, d):
    b = aggregate(c, d)
    v = c.pick(["5", "true", '""', '"[]"', '["byte"]', "{}", "1.5", "[]", '["byte", "byte"]'])
    d.member(c, b, "extra", v)
    return f"member that is {v}"


def nested_list(c, d):
    b = aggregate(c, d)
    t = c.pick(BASES + [x[1] for x in d.of("structs", "enums")])
    v = f'"[[{t}]]"' if c.chance(2, 3) else f'"[[[{t}]]]"'
    d.member(c, b, "extra", v)
    return "list of lists"


def whitespace(c, d):
    k = c.draw(6)
    if k == 0:
        d.meta[0][1] = f'"{spaced(c, d.meta[0][1][1:-1])}"'
        return "whitespace in the namespace"
    if k == 1:
        b = aggregate(c, d)
        i = c.draw(2)
        d.member(c, b, f'"{spaced(c, "extra")}"', listed(c, c.pick(BASES)))
        return "whitespace in a member's name"
    if k == 2:
        names = ["Va", "Vb", "Vc"][:1 + c.draw(3)]
        i = c.draw(len(names))
        names[i] = spaced(c, names[i])
        raw = ", ".join(f'"{n}"' for n in names) if c.chance(1, 2) else ", ".join(f'{{ _name = "{n}", _value = {v} }}' for v, n in enumerate(names))
        d.add(c, "enums", "EnFresh", [["_values", f"[{raw}]"]])
        return "whitespace in an enum entry"
    kind = c.pick(["structs", "messages", "enums"])
    n = spaced(c, "Fresh")
    d.add(c, kind, n, [["_values", '["Only"]']] if kind == "enums" else [["extra", listed(c, "byte")]])
    return f"whitespace in the name of one of the {kind}"


def no_name(c, d):
    kind = c.pick(["structs", "messages", "enums"])
    b = d.add(c, kind, c.pick([None, ""]), [["_values", '["Only"]']] if kind == "enums" else [["extra", listed(c, "byte")]] * c.draw(2))
    if c.chance(1, 3):
        b[2][:] = [l for l in b[2] if l[0] != "_name"] + [["_name", c.pick(["5", "true", "1.5", "[]", '["Fresh"]', "{}", "1979-05-27"])]]
        return f"a _name that is no string in one of the {kind}"
    return f"no _name in one of the {kind}"


ODD_VALUES = ["true", "false", '"2"', '""', "1.5", "2.0", "1e3", "inf", "nan", "-0.0", "1979-05-27", "07:32:00", "1979-05-27T07:32:00Z", "[]", "[2]", "{}", "{ _value = 2 }", "[[2]]"]
ODD_NAMES = ["true", "false", "2", "1.5", "inf", "1979-05-27", "07:32:00", "[]", '["One"]', "{}", '{ _name = "One" }']


def odd_entry(c):
    """A list of entries, one of which has a name or value of the wrong kind."""
    xs = [f'{{ _name = "V{i}", _value = {i + 2} }}' for i in range(c.draw(4))]
    i = c.draw(len(xs) + 1)
    if c.chance(1, 2):
        k, v = "_value", c.pick(ODD_VALUES)
        xs.insert(i, f'{{ _name = "Odd", _value = {v} }}')
    else:
        k, v = "_name", c.pick(ODD_NAMES)
        xs.insert(i, f'{{ _value = 77, _name = {v} }}')
    return k, v, xs


def bad_values(c, d):
    raw, why = c.pick([(None, "missing"), ('"Only"', "not a list"), ("5", "a number"), ("[]", "empty"), ("[1, 2]", "numbers"), ("{}", "a table"), ('{ One = 1, Two = 2 }', "a table of values"), ("true", "a boolean"), ('""', "an empty string"), ("[true]", "booleans"), ('[["One", "Two"]]', "a list of lists"),
                       ('["One", ["Two"]]', "mixed with a list"), ("[[]]", "a list of an empty list"), ("[{}]", "an empty table"), ("[1979-05-27]", "dates"), ('["One", 2]', "mixed"),
                       ('["One", { _name = "Two", _value = 2 }]', "strings and tables"), ('[{ _name = "Two", _value = 2 }, "One"]', "tables and strings"),
                       ('[{ _name = "One" }]', "without _value"), ('[{ _value = 3 }]', "without _name"), ('[{ _name = 1, _value = 3 }]', "a number for _name"),
                       ('[{ _name = "One", _value = 1 }, { _name = "Two", _value = "2" }]', "a string for _value"), ('[{ _name = "One", _value = 1.5 }]', "a fraction for _value"),
                       ('[{ _name = "One", _value = 1 }, { _name = "Two" }]', "the second without _value"), ('[{ _name = "One", _value = 1 }, { _value = 2 }]', "the second without _name")] + [
                       (f"[{', '.join(x)}]", f"an entry with {k} = {v}") for k, v, x in [odd_entry(c)] for _ in range(8)])
    d.add(c, "enums", "EnFresh", [] if raw is None else [["_values", raw]])
    return f"_values {why}"


def twice_in_enum(c, d):
    names = ["V" + chr(97 + i) for i in range(2 + c.draw(5))]
    if c.chance(1, 3):
        names.insert(c.draw(len(names) + 1), c.pick(names))
        raw, why = ", ".join(f'"{n}"' for n in names), "name"
    else:
        vals = list(range(len(names)))
        i = c.draw(len(names) - 1)
        j = i + 1 + c.draw(len(names) - 1 - i)
        if c.chance(1, 2):
            vals[j], why = vals[i], "value"
        else:
            names[j], why = names[i], "name"
        raw = ", ".join(f'{{ _name = "{n}", _value = {v} }}' for n, v in zip(names, vals))
    d.add(c, "enums", "EnFresh", [["_values", f"[{raw}]"]])
    return f"an enum with the same {why} twice"


def wide_enum(c, d):
    lo, hi = c.pick([(0, 2**31), (-2**31 - 1, 0), (-1, 2**31), (-2**31, 2**31), (0, 2**32 - 1), (0, 2**63 - 1), (-2**63, 0), (-2**40, 5)])
    vals = c.shuffle([lo, hi] + ([1 + c.draw(200)] if c.chance(1, 2) else []))
    d.add(c, "enums", "EnFresh", [["_values", "[" + ", ".join(f'{{ _name = "V{i}", _value = {v} }}' for i, v in enumerate(vals)) + "]"]])
    return f"enum values {vals} that fit no encoding"


def same_name(c, d):
    kind, other = c.pick(["structs", "messages", "enums"]), c.pick(["structs", "messages", "enums"])
    bs = d.of(other)
    if not bs:
        return None
    n = c.pick(bs)[1]
    d.add(c, kind, n, [["_values", '["Lonely"]']] if kind == "enums" else [["extra", listed(c, "byte")]] * c.draw(2))
    return f"one of the {kind} named like one of the {other}"


def entry_like_type(c, d):
    kind = c.pick(["structs", "messages"])
    bs = d.of(kind)
    if not bs:
        return None
    names = c.shuffle([c.pick(bs)[1]] + ["Va", "Vb", "Vc"][:c.draw(4)])
    raw = ", ".join(f'"{n}"' for n in names) if c.chance(1, 2) else ", ".join(f'{{ _name = "{n}", _value = {v} }}' for v, n in enumerate(names))
    d.add(c, "enums", "EnFresh", [["_values", f"[{raw}]"]])
    return f"an enum entry named like one of the {kind}"


def reserved(c, d):
    n = c.pick(BASES + ["list"])
    k = c.draw(2)
    if k == 0:
        kind = c.pick(["structs", "messages", "structs", "messages", "enums"])
        d.add(c, kind, n, [["_values", '["Only"]']] if kind == "enums" else [["extra", listed(c, "byte")]] * c.draw(2))
        return f"one of the {kind} called {n}"
    d.member(c, aggregate(c, d), n, listed(c, c.pick(BASES)))
    return f"a member called {n}"


def cycle(c, d):
    """Fresh or existing structs that contain each other, reached from elsewhere or not."""
    n = 6 + c.draw(35) if c.chance(1, 5) else 1 + c.draw(5)
    names = [f"Ring{i}" for i in range(n)]
    old = d.of("structs")
    if old and c.chance(1, 2):
        pick = c.shuffle(old)[:n]
        names = [b[1] for b in pick] + names[len(pick):]
    for i, nm in enumerate(names):
        b = next((b for b in d.blocks if b[0] == "structs" and b[1] == nm), None) or d.add(c, "structs", nm, [[f"m{k}", listed(c, c.pick(BASES))] for k in range(c.draw(3))])
        d.member(c, b, f"loop{i}", listed(c, names[(i + 1) % n]))
    if c.chance(1, 2):
        b = aggregate(c, d)
        d.member(c, b, "entrance", listed(c, c.pick(names)))
    return f"a cycle of {n} structs"


def message_inside(c, d):
    b = aggregate(c, d)
    d.member(c, b, "extra", listed(c, c.pick(d.of("messages"))[1]))
    return f"one of the {b[0]} that contains a message"


def size_type(c, d):
    i = c.range(1, len(d.meta) - 1)
    d.meta[i][1] = c.pick(['"float"', '"double"', '"bool"', '"string"', '"uint8"', '"int"', '""', "4", '"Byte"', '"[byte]"', '"uint128"', f'"{d.blocks[0][1]}"'])
    return f"{d.meta[i][0]} {d.meta[i][1]}"


def too_many(c, d):
    n = len(d.of("messages"))
    for i in range(max(0, c.pick([256, 256, 257, 258, 300, 511, 512, 513]) - n)):
        d.blocks.append(["messages", f"Xm{i}", [["_name", f'"Xm{i}"']]])
    return f"{len(d.of('messages'))} messages"


def not_utf8(c, d):
    bad = c.pick(["caf\udce9", "\udcff\udcfe", "\udc80", "\udced\udca0\udc80", "\udcc0\udcaf", "\udcf5\udc80\udc80\udc80", "\udce8\udcaa"])
    if c.chance(1, 2):
        d.tail = f"# {bad}\n"
    else:
        d.meta[0][1] = f'"N{bad}"'
    return "bytes that are not UTF-8"


def syntax(c, d):
    i = c.draw(len(d.blocks) + 1)
    if c.chance(1, 3):
        d.tail = c.pick(["[meta]\n", "[messages]\n", "[[meta]]\n", "# \x00\n", "# \x1f\n", "x\rx = 1\n", "[[structs\n", "_name\n", '"""\n', "= 1\n", "_x = 01\n", "_x = 1 _y = 2\n"])
        return "an end that is not TOML"
    d.blocks.insert(i, [c.pick(["structs", "messages"]), "Torn", [["_name", '"Torn"'], c.pick([["extra", '"byte'], ["extra", ""], ["extra", "byte"], ["extra", '"byte" "byte"'], ["ex tra", '"byte"'], ["=", "="]])]])
    return "a line that is not TOML"


def repeated_member(c, d):
    b = aggregate(c, d)
    d.member(c, b, "extra", listed(c, "byte"))
    d.member(c, b, "extra", listed(c, c.pick(BASES)))
    return "the same member twice"


BREAKING = [unknown_type, odd_member, nested_list, whitespace, no_name, bad_values, twice_in_enum, wide_enum, same_name, entry_like_type, reserved, cycle, cycle, message_inside, size_type,
            too_many, not_utf8, syntax, repeated_member]


# ---- edits after which the protocol still keeps every rule
def reorder(c, d):
    """Only the order of the messages means anything, and even that is the developer's to choose."""
    d.blocks = c.shuffle(d.blocks)
    return "declared in another order"


def name_last(c, d):
    b = c.pick(d.blocks)
    b[2] = c.shuffle(b[2])
    return "_name somewhere else in its table"


def near_reserved(c, d):
    n = c.pick(["bytes", "boolean", "uint16s", "int_32", "floats", "strings", "lists", "list_", "my_list", "double2"])
    if c.chance(1, 2):
        d.member(c, aggregate(c, d), n, listed(c, c.pick(BASES)))
    else:
        d.add(c, c.pick(["structs", "messages"]) if len(d.of("messages")) < 255 else "structs", "Q" + n, [["extra", listed(c, "byte")]])
    return f"a name like {n}"


def full_enum(c, d):
    vals = c.shuffle(c.pick([[-2**31, 2**31 - 1], [0, 255], [0, 256], [-1], [-32768, 32767], [-32769, 5], [32768], [2**31 - 1, 0], [255], [7, 3, 9]]))
    d.add(c, "enums", "EnFresh", [["_values", "[" + ", ".join(f'{{ _name = "V{i}", _value = {v} }}' for i, v in enumerate(vals)) + "]"]])
    return f"enum values {vals}"


def chain(c, d):
    """A struct holds several structs that share what they hold: no cycle."""
    n = 2 + c.draw(12)
    names = [f"Chain{i}" for i in range(n)]
    if c.chance(2, 3):
        d.member(c, aggregate(c, d), "entrance", listed(c, names[0]))
    for i, nm in enumerate(names):
        below = names[i + 1:]
        mems = [[f"m{k}", listed(c, t)] for k, t in enumerate(c.shuffle(below)[:1 + c.draw(3)] * (2 if n < 7 and c.chance(1, 3) else 1))] if below else [["m0", '"[byte]"']]
        d.add(c, "structs", nm, mems)
    return "structs that share structs"


def deep(c, d):
    """Structs nested one in the other, far down."""
    n = 8 + c.draw(53)
    if c.chance(1, 2):
        d.member(c, aggregate(c, d), "entrance", listed(c, "Deep0"))
    lists = c.chance(1, 2)
    order = c.pick([1, -1])
    for i in range(n)[::order]:
        d.add(c, "structs", f"Deep{i}", [["inside", (listed(c, f"Deep{i + 1}") if lists else f'"Deep{i + 1}"') if i < n - 1 else listed(c, c.pick(BASES))]])
    return f"structs nested {n} deep"


def size_types(c, d):
    d.meta[1][1], d.meta[2][1] = (f'"{c.pick(SIZE_TYPES)}"' for _ in range(2))
    if c.chance(1, 3):
        del d.meta[1 + c.draw(2)]
    return f"size types {[m[1] for m in d.meta[1:]]}"


def as_many(c, d):
    n = len(d.of("messages"))
    for i in range(max(0, c.pick([255, 255, 254, 128, 129]) - n)):
        d.blocks.append(["messages", f"Xm{i}", [["_name", f'"Xm{i}"']]])
    if c.chance(1, 3):
        for i in range(300):
            d.blocks.append(["structs", f"Xs{i}", [["_name", f'"Xs{i}"'], ["x", '"byte"']]])
    return f"{len(d.of('messages'))} messages and {len(d.of('structs'))} structs"


def shared_words(c, d):
    """Members, enum entries and members of other types may have the same names."""
    d.add(c, "enums", "EnFreshA", [["_values", '["Same", "extra"]']])
    d.add(c, "enums", "EnFreshB", [["_values", '["extra", "Same"]']])
    for b in (aggregate(c, d), aggregate(c, d)):
        if not any(k[0] == "Same" for k in b[2]):
            d.member(c, b, "Same", listed(c, c.pick(BASES + ["EnFreshA", "EnFreshB"])))
    return "the same word in different types"


def comment(c, d):
    d.tail = "# " + c.pick(["loop", "list = \"byte\"", "[[structs]]", "\t", "*/"]) + "\n"
    return "a comment"


KEEPING = [reorder, name_last, near_reserved, full_enum, chain, deep, size_types, as_many, shared_words, comment]


def revise(sim):
    """One revision of the protocol file: (text, accepted, what)."""
    c = sim.c
    w = sim.worlds[pick_world(sim)]
    d = Doc(w, c)
    what = []
    for _ in range(c.draw(3)):
        f = c.pick(KEEPING)
        if f.__name__ not in [x[0] for x in what]:
            what.append((f.__name__, f(c, d)))
    broken = c.chance(3, 5)
    if broken:
        r = None
        while r is None:
            r = c.pick(BREAKING)(c, d)
        what.append(("broken", r))
        if c.chance(1, 6) and "not TOML" not in r and "not UTF-8" not in r:     # an edit that follows
            what.append(("then", c.pick([reorder, chain, comment])(c, d)))
    return d.text(), not broken, ", ".join(x[1] for x in what) or "as it was"


def sessions(sim):
    c = sim.c
    h = G.host(sim)
    revs = [revise(sim) for _ in range(1 + c.draw(4))]
    if c.chance(1, 3):
        revs.append(revs[0])            # the edit is undone
    lang = c.pick(G.ALL_LANGS)
    same = c.chance(1, 2)
    langs = [lang if same else c.pick(G.ALL_LANGS) for _ in revs]
    opts = [["--embed-protocol"] if c.chance(1, 6) else ["--namespace", "Other"] if c.chance(1, 6) else [] for _ in revs]
    alive = c.chance(1, 2) and len(revs) > 1
    toout = c.chance(1, 6)
    bases = [G.baseline(sim, t, l, o, toout and not alive) if ok else None for (t, ok, _), l, o in zip(revs, langs, opts)]
    d = G.fresh_dir(h)
    G.put(f"{d}/bystander.gen", b"not yours")
    argvs = [["--lang", l, "--protocol", "protocol.toml"] + ([] if toout and not alive else ["--output", "out.gen"]) + o for l, o in zip(langs, opts)]
    last = [None]
    stamp = c.draw(1 << 30)

    def edit(k):
        G.put(f"{d}/protocol.toml", revs[k][0])
        if c.chance(1, 2):
            os.utime(f"{d}/protocol.toml", (stamp, stamp))
        sim.fault("protocol edited" if revs[k][1] else "protocol edited against a rule")
        sim.event(f"revision {k} ({revs[k][2]}), to be {'accepted' if revs[k][1] else 'refused'} for {langs[k]}")
        sim.order(f"{langs[k]}{revs[k][2]}")

    def judge(k, status=None, err=b"", out=None):
        text, ok, what = revs[k]
        tell = f"revision {k} ({what}), --lang {langs[k]} {' '.join(opts[k])}"
        now = G.tree(d)
        if ok:
            b = bases[k]
            sim.check(b[0] == 0, "refused", lambda: f"{tell}: keeps every documented rule and is refused: {b[3].decode('utf-8', 'replace')[-300:]}\n{text.decode()[-1500:]}")
            sim.check(status in (None, 0), "refused", lambda: f"{tell}: accepted by a fresh run, refused here with status {status}: {err.decode('utf-8', 'replace')[-300:]}")
            got = now.get("out.gen") if out is None else out
            sim.check(got == b[1], "output", lambda: f"{tell}: the output is {G.diff(got, b[1])} compared with a fresh run")
            if out is None:
                last[0] = got
            sim.probe("accepted")
        else:
            sim.check(status != 0, "accepted", lambda: f"{tell}: breaks a documented rule and the exit status is 0\n{text.decode()[-1500:]}")
            got = now.get("out.gen")
            sim.check(got == last[0], "accepted", lambda: f"{tell}: breaks a documented rule, and out.gen is {G.diff(got, last[0])} compared with before")
            sim.check(out is None or not out, "accepted", lambda: f"{tell}: breaks a documented rule, and {len(out)} bytes appear on standard output")
            sim.check(status is None or err.strip(), "silent", lambda: f"{tell}: refused without a word")
            sim.probe("refused")
        sim.check(now.get("protocol.toml") == text and now.get("bystander.gen") == b"not yours", "touched", f"{tell}: another file was changed")

    if alive:
        sim.fault("generator used again in the same process", len(argvs) - 1)

        def between(i, op, n, path):
            name = path.rsplit("/", 1)[-1]
            if name.startswith("__run"):
                if op.startswith("open"):
                    k = int(name[5:])
                    if k:
                        judge(k - 1)
                    edit(k)
                return "k"
            return G.legal(sim, op, n) if c.chance(1, 5) else "k"
        G.drive(sim, h, h.begin(argvs, d, 1 + c.draw(1000), "m"), between)
        judge(len(revs) - 1)
    else:
        for k, a in enumerate(argvs):
            edit(k)
            st, sg, _ = G.drive(sim, h, h.begin([a], d, 1 + c.draw(1000), "m"), lambda i, op, n, path: G.legal(sim, op, n) if c.chance(1, 5) else "k")
            judge(k, st, open(h.stderr, "rb").read(), open(h.stdout, "rb").read() if toout else None)
    sim.trivial = False
