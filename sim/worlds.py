"""Protocol "worlds": the protocol definitions whose generated code is hosted by the simulator.

A world is a plain JSON-able dict, so a replay file can carry it verbatim:
  {name, list, string, enums: [[name, enc, [[vname, value], ...], spec]], structs: [[name, [[fname, type, is_list], ...]]],
   messages: [[name, [[...]]]]}
Everything is derived from a random.Random, so one seed gives one set of worlds.
"""
import random

SCALARS = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"]
SIZES = {"byte": 1, "bool": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8,
         "float": 4, "double": 8}
RANGES = {"byte": (0, 255), "uint16": (0, 65535), "int16": (-32768, 32767), "uint32": (0, 2**32 - 1),
          "int32": (-2**31, 2**31 - 1), "uint64": (0, 2**64 - 1), "int64": (-2**63, 2**63 - 1), "bool": (0, 1)}

# names that are safe in every target language, a few in camelCase to exercise the documented renaming
WORDS = ["alpha", "beta", "gamma", "delta", "kappa", "sigma", "omega", "theta", "zeta", "rho",
         "plainName", "camelCase", "itemCount", "lastSeen", "rawScore", "snake_name", "aLongerMixedName"]
PLAIN = "size offset data buffer len err tag writer msg ret n i count id da br src r w bw dst text length index".split()


class World:
    """Indexed view of a world dict."""

    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.list_t = d["list"]
        self.string_t = d["string"]
        self.enums = {e[0]: {"enc": e[1], "values": [tuple(v) for v in e[2]], "spec": e[3]} for e in d["enums"]}
        self.structs = {s[0]: [tuple(m) for m in s[1]] for s in d["structs"]}
        self.messages = {s[0]: [tuple(m) for m in s[1]] for s in d["messages"]}
        self.mnames = list(self.messages)
        self._minsize = {}
        self.opts = d.get("opts") or {}     # how the generator is called: see option_worlds
        self.ns = self.name if self.opts.get("ns", True) else None

    def args(self, lang):
        o, out = self.opts, []
        if o.get("override"):
            out += ["--namespace", self.name]
        if o.get("indent"):
            out += ["--indent", o["indent"]]
        if o.get("embed"):
            out += ["--embed-protocol"]
        if o.get("no_rename") and lang in ("go", "rust"):
            out += [f"--{lang}-no-rename"]
        if o.get("ts_ns") and lang == "typescript":
            out += ["--typescript-use-namespace"]
        return out

    def toml(self):
        out = ["# " + x for x in self.opts.get("comments", [])] + ["[meta]"]
        if self.opts.get("override"):
            out.append('namespace = "Written"')
        elif self.ns:
            out.append(f'namespace = "{self.name}"')
        if self.list_t != "uint32" or self.d.get("explicit"):
            out.append(f'list_size_type = "{self.list_t}"')
        if self.string_t != "uint32" or self.d.get("explicit"):
            out.append(f'string_size_type = "{self.string_t}"')
        out.append("")
        blocks = []
        for n, e in self.enums.items():
            blocks.append(["[[enums]]", f'_name = "{n}"', "_values = ["] + [
                f'  {{ _name = "{v}", _value = {i} }},' if e["spec"] else f'  "{v}",' for v, i in e["values"]] + ["]"])
        for kind, coll in (("structs", self.structs), ("messages", self.messages)):
            for n, mems in coll.items():
                blocks.append([f"[[{kind}]]", f'_name = "{n}"'] + [f'{f} = "{"[" + t + "]" if l else t}"' for f, t, l in mems])
        if self.d.get("jumble"):
            # a type may be declared after the types that use it; only the order of the messages means anything
            random.Random(self.d["jumble"]).shuffle(blocks)
            where = [i for i, b in enumerate(blocks) if b[0] == "[[messages]]"]
            ordered = sorted((blocks[i] for i in where), key=lambda b: self.mnames.index(b[1][9:-1]))
            for i, b in zip(where, ordered):
                blocks[i] = b
        for b in blocks:
            out += b
        return "\n".join(out) + "\n"

    def members(self, name):
        return self.structs[name] if name in self.structs else self.messages[name]

    def is_simple_type(self, t):
        if t in SIZES or t in self.enums:
            return True
        if t == "string":
            return False
        return all((not l) and self.is_simple_type(x) for _, x, l in self.members(t))

    def min_size(self, t):
        """Smallest number of bytes a value of type t can occupy."""
        if t in SIZES:
            return SIZES[t]
        if t in self.enums:
            return SIZES[self.enums[t]["enc"]]
        if t == "string":
            return SIZES[self.string_t]
        if t not in self._minsize:
            self._minsize[t] = sum(SIZES[self.list_t] if l else self.min_size(x) for _, x, l in self.members(t))
        return self._minsize[t]


def _enum(rng, name, kind):
    n = rng.randint(1, 7)
    vn = [f"{w}{i}" for i, w in enumerate(rng.sample(["Red", "Green", "Blue", "Cyan", "Pink", "Teal", "Gold", "Lime"], n))]
    if kind == 0:
        vals, spec = list(range(n)), False
    elif kind == 1:   # byte with gaps, default is not the minimum
        vals, spec = rng.sample(range(0, 256), n), True
        if 255 not in vals and rng.random() < .5:
            vals[rng.randrange(n)] = 255
    elif kind == 2:   # signed small -> int16
        vals, spec = rng.sample(range(-300, 300), n), True
        vals[rng.randrange(n)] = rng.choice([-1, -32768, -7])
    elif kind == 3:   # int16 by magnitude
        vals, spec = rng.sample(range(0, 32768), n), True
        vals[rng.randrange(n)] = rng.choice([256, 32767, 300])
    elif kind == 4:   # int32
        vals, spec = rng.sample(range(-2**31, 2**31), n), True
        vals[rng.randrange(n)] = rng.choice([32768, 65536, 2**31 - 1])
    else:
        vals, spec = rng.sample(range(-2**31, 2**31), n), True
        vals[rng.randrange(n)] = rng.choice([-32769, -2**31])
    if len(set(vals)) != len(vals):
        vals = [v if vals.index(v) == i else None for i, v in enumerate(vals)]
        vals = [v if v is not None else 200 + i for i, v in enumerate(vals)]
        if len(set(vals)) != len(vals):
            return _enum(rng, name, kind)
    lo, hi = min(vals), max(vals)
    for enc in ("byte", "int16", "int32"):
        if RANGES[enc][0] <= lo and hi <= RANGES[enc][1]:
            break
    return [name, enc, [[a, b] for a, b in zip(vn, vals)], spec]


def _fname(rng, i):
    w = rng.choice(WORDS)
    return f"{w}{i}"


def make_world(rng, name, list_t, string_t, n_enums=6, n_structs=10, n_messages=9):
    shift = rng.randrange(6)
    enums = [_enum(rng, f"En{chr(65 + i)}", (i + shift) % 6) for i in range(n_enums)]
    enames = [e[0] for e in enums]
    structs = []
    simple, complex_ = [], []
    for i in range(n_structs):
        nm = f"St{chr(65 + i)}"
        mems = []
        style = i % 5
        if style == 0:      # numeric only
            for k in range(rng.randint(1, 5)):
                mems.append([_fname(rng, k), rng.choice(SCALARS), False])
        elif style == 1:    # simple with enum, maybe nested simple
            ks = [rng.choice(enames)] + [rng.choice(SCALARS + enames) for _ in range(rng.randint(0, 3))]
            if simple:
                ks.append(rng.choice(simple))
            rng.shuffle(ks)
            mems = [[_fname(rng, k), t, False] for k, t in enumerate(ks)]
        elif style == 2:    # strings and lists
            ks = [("string", False), (rng.choice(SCALARS), True)]
            ks += [(rng.choice(SCALARS + enames + simple + ["string"]), rng.random() < .4) for _ in range(rng.randint(0, 3))]
            rng.shuffle(ks)
            mems = [[_fname(rng, k), t, l] for k, (t, l) in enumerate(ks)]
        elif style == 3:    # nested complex
            ks = [(rng.choice(complex_), rng.random() < .5), (rng.choice(simple), rng.random() < .5)]
            ks += [(rng.choice(SCALARS + enames + ["string"]), rng.random() < .4) for _ in range(rng.randint(0, 2))]
            rng.shuffle(ks)
            mems = [[_fname(rng, k), t, l] for k, (t, l) in enumerate(ks)]
        else:
            ks = [(rng.choice(enames), True), ("string", True)]
            if complex_:
                ks.append((rng.choice(complex_), rng.random() < .3))
            rng.shuffle(ks)
            mems = [[_fname(rng, k), t, l] for k, (t, l) in enumerate(ks)]
        # bound nesting weight: drop a second complex member chain by size
        structs.append([nm, mems])
        w = World({"name": name, "list": list_t, "string": string_t, "enums": enums, "structs": structs, "messages": []})
        (simple if w.is_simple_type(nm) else complex_).append(nm)
    messages = []
    for i in range(n_messages):
        nm = f"Msg{chr(65 + i)}"
        if i == 0:          # everything scalar
            ks = [(t, False) for t in SCALARS] + [(rng.choice(enames), False), ("string", False)]
        elif i == 1:        # empty
            ks = []
        elif i == 2:        # simple message with enum and nested simple
            ks = [(rng.choice(SCALARS), False) for _ in range(rng.randint(1, 3))]
            ks += [(rng.choice(enames), False), (rng.choice(simple), False)]
        elif i == 3:        # a list of each scalar
            ks = [(t, True) for t in rng.sample(SCALARS, 5)] + [("string", True)]
        elif i == 4:        # lists of everything else
            ks = [(t, True) for t in rng.sample(SCALARS, 5)] + [(rng.choice(enames), True), (rng.choice(simple), True)]
        elif i == 5:
            ks = [(rng.choice(complex_), False), (rng.choice(simple), True), ("string", False), (rng.choice(enames), True)]
        elif i == 6:
            ks = [(rng.choice(complex_), True), (rng.choice(simple), False), ("string", True)]
        elif i == 7:
            ks = [("string", False), ("string", False), ("string", True)]
        else:
            ks = [(rng.choice(SCALARS + enames + simple + complex_ + ["string"]), rng.random() < .4)
                  for _ in range(rng.randint(1, 5))]
        rng.shuffle(ks)
        messages.append([nm, [[_fname(rng, k), t, l] for k, (t, l) in enumerate(ks)]])
    return {"name": name, "list": list_t, "string": string_t, "enums": enums, "structs": structs, "messages": messages,
            "explicit": rng.random() < .5}


def many_messages(rng, name):
    """255 message types: exercises every tag value."""
    enums = [["EnA", "int16", [["One", 300], ["Two", -2], ["Three", 7]], True]]
    enums.append(["EnFull", "byte", [[f"F{i}", i] for i in range(256)], False])
    enums.append(["EnOver", "int16", [[f"V{i}", i] for i in range(257)], False])
    enums.append(["EnLone", "byte", [["Only", 9]], True])
    structs = [["StA", [["alpha0", "byte", False], ["beta1", "EnA", False]]],
               ["StWide", [[f"m{i}", SCALARS[i % 10], False] for i in range(33)] + [["tail", "EnFull", False]]],
               ["StB", [["alpha0", "EnOver", False], ["beta1", "StA", False], ["gamma2", "double", False]]],
               ["StC", [["alpha0", "bool", True], ["beta1", "StB", False], ["gamma2", "string", False]]],
               ["StText", [["alpha0", "string", True], ["beta1", "StB", True], ["gamma2", "int64", False]]],
               ["StDeepA", [["gamma0", "string", False], ["gamma1", "uint16", True]]],
               ["StDeepB", [["gamma0", "StDeepA", True], ["omega1", "EnOver", False]]],
               ["StDeepC", [["omega0", "byte", False], ["gamma0", "StDeepB", True], ["zeta2", "StDeepA", False]]],
               ["StDeepD", [["gamma0", "StDeepC", False], ["gamma1", "EnLone", True], ["sigma", "StWide", False]]]]
    kinds = [(t, l) for t in SCALARS + ["string", "EnA", "EnFull", "EnOver", "EnLone", "StA", "StB", "StC", "StDeepA", "StText"] for l in (False, True)]
    rng.shuffle(kinds)
    small = [("byte", False), ("string", False), ("EnA", True), ("uint16", False), ("StA", False), ("StA", True)]
    messages = []
    for i in range(255):
        if i % 32 == 7:
            ms = [[("StDeepD", False), ("StDeepC", True), ("EnFull", True), ("EnOver", True), ("StWide", True), ("EnLone", False), ("StDeepB", False), ("StWide", False)][i // 32]]
        elif i % 8 == 1:
            ms = [small[i // 8 % len(small)]]
        else:          # over all messages, every kind of member is followed by many others
            ms = [kinds[i % len(kinds)]] + [rng.choice(kinds) for _ in range(i % 4)]
            rng.shuffle(ms)
        messages.append([f"M{i:03d}", [[f"value{k}", t, l] for k, (t, l) in enumerate(ms)]])
    return {"name": name, "list": "uint16", "string": "byte", "enums": enums, "structs": structs, "messages": messages}


def corners(rng, name):
    """Shapes a drawn world rarely has: defaults buried several structs deep, structs that only wrap another, the same names at every level,
    messages of a single member of each kind."""
    deep = rng.choice([200, 9, 77])
    enums = [["EnHigh", "byte", [["Top", deep], ["Low", 0], ["Mid", 5]], True],
             ["EnNeg", "int16", [["Minus", -3], ["Zero", 0], ["Plus", 400]], True],
             ["EnBig", "int32", [["Huge", 70000], ["Nil", 0], ["Tiny", -70000]], True],
             ["EnSeq", "byte", [["Zed", 0], ["One", 1], ["Two", 2]], False]]
    structs = [["StLeaf", [["value", "EnHigh", False]]],
               ["StWrapA", [["value", "StLeaf", False]]],
               ["StWrapB", [["value", "StWrapA", False]]],
               ["StWrapC", [["value", "StWrapB", False], ["other", "StWrapA", False]]],
               ["StNegLeaf", [["first", "byte", False], ["value", "EnNeg", False], ["last", "uint16", False]]],
               ["StNegWrap", [["value", "StNegLeaf", False], ["again", "StNegLeaf", False], ["flag", "bool", False]]],
               ["StBigLeaf", [["value", "EnBig", False], ["text", "string", False]]],
               ["StBigWrap", [["value", "StBigLeaf", False], ["items", "StBigLeaf", True]]],
               ["StBigDeep", [["items", "StBigWrap", True], ["value", "StBigWrap", False]]],
               ["StOnlyText", [["value", "string", False]]],
               ["StTextWrap", [["value", "StOnlyText", False]]],
               ["StOnlyList", [["items", "byte", True]]],
               ["StListWrap", [["value", "StOnlyList", False], ["items", "StOnlyList", True]]],
               ["StEnumList", [["items", "EnBig", True]]],
               ["StFlags", [["flag", "bool", False], ["flag2", "bool", False], ["real", "float", False]]],
               ["StTexts", [["items", "string", True], ["value", "string", False], ["more", "string", True]]],
               ["StTextsWrap", [["items", "StTexts", True]]],
               ["StTextsDeep", [["items", "StTextsWrap", True], ["value", "StTextsWrap", False]]]]
    structs += [["StNothing", []], ["StHasNothing", [["value", "StNothing", False], ["first", "uint16", False], ["last", "StNothing", False]]]]
    messages = [["MsgDeepEnum", [["value", "StWrapC", False]]],
                ["MsgNothing", [["value", "StNothing", False]]],
                ["MsgHasNothing", [["value", "StNothing", False], ["items", "StHasNothing", True], ["last", "StHasNothing", False]]],
                ["MsgDeepNeg", [["value", "StNegWrap", False]]],
                ["MsgDeepBig", [["value", "StBigDeep", False]]],
                ["MsgWrapList", [["items", "StWrapB", True]]],
                ["MsgNegList", [["items", "StNegWrap", True], ["value", "StNegWrap", False]]],
                ["MsgEnumList", [["items", "EnNeg", True]]],
                ["MsgBigList", [["items", "EnBig", True]]],
                ["MsgOneText", [["value", "string", False]]],
                ["MsgTexts", [["items", "string", True]]],
                ["MsgTextWrap", [["value", "StTextWrap", False], ["items", "StTextWrap", True]]],
                ["MsgListWrap", [["value", "StListWrap", False], ["items", "StListWrap", True]]],
                ["MsgInner", [["value", "StEnumList", False], ["items", "StEnumList", True], ["leaf", "StLeaf", False]]],
                ["MsgFlags", [["items", "StFlags", True], ["flags", "bool", True], ["value", "StFlags", False]]],
                ["MsgOneEnum", [["value", "EnHigh", False]]],
                ["MsgTextsDeep", [["items", "StTextsDeep", True]]],
                ["MsgTextsOnce", [["value", "StTexts", False], ["last", "byte", False]]],
                ["MsgEmptyA", []],
                ["MsgEmptyB", []],
                ["MsgSeq", [["value", "EnSeq", False], ["items", "EnSeq", True]]]]
    rng.shuffle(messages)
    for _, mems in structs + messages:
        if rng.random() < .5:        # names that generated code likes to use itself
            for mem, nm in zip(mems, rng.sample(PLAIN, len(mems))):
                mem[0] = nm
    lt, st = rng.choice(COMBOS)
    return {"name": name, "list": lt, "string": st, "enums": enums, "structs": structs, "messages": messages}


def tiny(rng, name):
    """A protocol that uses next to nothing: one feature, or two, and perhaps types that nothing refers to."""
    lt, st = rng.choice(COMBOS)
    en = ["EnA", "byte", [["Ja", 0], ["Nein", 1]], False] if rng.random() < .5 else ["EnA", "int16", [["Ja", -1], ["Nein", 700]], True]
    feature = rng.choice([lambda: [], lambda: [[rng.choice(SCALARS), False]], lambda: [[rng.choice(SCALARS), True]], lambda: [["string", False]], lambda: [["string", True]],
                          lambda: [["EnA", False]], lambda: [["EnA", True]], lambda: [["StA", False]], lambda: [["StA", True]]])
    mems = [f() for f in [feature] * rng.choice([1, 1, 1, 2])]
    mems = [[f"m{i}", t, l] for i, (t, l) in enumerate(x for m in mems for x in m)]
    used = {t for _, t, _ in mems}
    sts = [["StA", [["inner", rng.choice(SCALARS + ["string"]), rng.random() < .4]]]] if "StA" in used or rng.random() < .3 else []
    if rng.random() < .3:
        sts.append(["StUnused", [["inner", "StA", rng.random() < .5]] if sts else []])
    messages = [["MsgA", mems]] + ([["MsgB", []]] if rng.random() < .3 else [])
    return {"name": name, "list": lt, "string": st, "enums": [en] if "EnA" in used or rng.random() < .3 else [], "structs": sts, "messages": messages, "tiny": True}


def option_worlds(seed):
    """The same protocol generated in several ways. All worlds of a group describe the same bytes. The key "group" says which belong together."""
    out = []
    for b in range(3):
        rng = random.Random(f"options-{seed}-{b}")
        lt, st = rng.choice(COMBOS)
        if b == 2:
            base = corners(rng, "x")
        else:
            while True:
                try:
                    base = make_world(rng, "x", lt, st, n_enums=5, n_structs=6, n_messages=8)
                    break
                except IndexError:
                    continue
        texts = ["any comment at all", "a glob: assets/*/*.png", "/* nothing */ to see", "ends with a backslash \\\\", "caf\u00e9 \u8a9e \U0001f600", "\ttabs\tinside", "#{x} {0} %s \"quoted\" 'q' $y", "// not code",
                 "a line\u2028separator", "a paragraph\u2029separator", "next\u0085line", "zero\ufeffwidth", "right\u202eto\u2066left"]
        rng.shuffle(texts)
        half = len(texts) // 2
        capd = [[[n, [["Err_" if f == "err" else f[:1].upper() + f[1:], t, l] for f, t, l in ms]] for n, ms in base[k]] for k in ("structs", "messages")]
        kinds = [{}, {"embed": True, "indent": rng.choice(["\t", " ", "  ", "        "]), "comments": texts[:half]},
                 {"override": True, "embed": True, "comments": texts[half:]},
                 {"no_rename": True, "ts_ns": True, "indent": rng.choice(["\t", "   "])}]
        if b == 0:       # one only: its C symbols carry no prefix of their own
            kinds.append({"ns": False, "indent": rng.choice(["", "\t", "      "])})
        if b == 1:
            kinds.append({"override": True, "no_rename": True, "ts_ns": True, "embed": True, "comments": texts})
        for k, o in enumerate(kinds):
            d = dict(base, name=f"X{b}{chr(97 + k)}", opts=o, group=b)
            if o.get("no_rename"):
                d["structs"], d["messages"] = capd
            if k % 2:
                d["jumble"] = f"{seed}-{b}-{k}"
            out.append(d)
    return out


def restyle(rng, w):
    """The same protocol as people with other habits would name it."""
    pool = ["HTTPHeader", "Snake_case_type", "P2D", "Q", "ALLCAPS", "Vec3_f", "ALongerMixedNameOfAType", "Z9", "XMLHttpRequest", "Under_", "R_1", "IOError2",
            "Node", "Item", "Pair", "UpperX", "T1000", "My_Type", "B", "WithDigits42x", "Request", "Response", "Entry", "Point", "Color_kind", "K", "Header",
            "Ping", "Pong", "Update_V2", "Ab", "LOUD_NAME", "Frame", "Packet"]
    names = [x[0] for k in ("enums", "structs", "messages") for x in w[k]]
    new = dict(zip(names, rng.sample(pool, len(names))))
    fields = ["HTTPField{}", "ALL_CAPS{}", "Upper{}", "x{}Y", "mixed_Snake{}", "a{}", "trailing{}_", "twoWords{}", "n{}of9", "v{}_Final"]
    for k in ("structs", "messages"):
        w[k] = [[new[n], [[rng.choice(fields).format(i) if rng.random() < .6 else f, new.get(t, t), l] for i, (f, t, l) in enumerate(ms)]] for n, ms in w[k]]
    styles = [str.upper, str.lower, lambda s: s[:3] + "_" + s[3:], lambda s: s]
    w["enums"] = [[new[n], enc, [[st(a), b] for a, b in vs], spec] for (n, enc, vs, spec), st in ((e, rng.choice(styles)) for e in w["enums"])]
    return w


COMBOS = [("uint32", "uint32"), ("byte", "byte"), ("uint16", "byte"), ("byte", "uint16"),
          ("int16", "int32"), ("uint64", "uint64"), ("int32", "int16"), ("int64", "int64")]


def make_worlds(seed, n=8, many=True):
    out = []
    for i in range(n):
        rng = random.Random(f"world-{seed}-{i}")
        lt, st = COMBOS[i] if i < len(COMBOS) else (rng.choice([c[0] for c in COMBOS]), rng.choice([c[1] for c in COMBOS]))
        while True:
            try:
                w = make_world(rng, f"W{i}", lt, st)
                break
            except IndexError:
                continue
        if i % 3 == 1:
            w["jumble"] = f"{seed}-{i}"
        if i % 4 == 3:
            restyle(rng, w)
        out.append(w)
    if many:
        out.append(many_messages(random.Random(f"many-{seed}"), f"W{len(out)}"))
        out.append(dict(corners(random.Random(f"corner-{seed}"), f"W{len(out)}"), opts={"ns": False}))
        for k in range(3):
            out.append(tiny(random.Random(f"tiny-{seed}-{k}"), f"W{len(out)}"))
    return out
