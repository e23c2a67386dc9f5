"""Executable reference model of the documented wire format, written from the documentation and independent of beschi.

Values: ints for integers/bools/enums, raw bit patterns (ints) for float and double, bytes (UTF-8) for strings,
Python lists for lists, lists in member order for structs.
"""
from .worlds import SIZES, RANGES

SIGNED = {"int16", "int32", "int64"}


class DecodeError(Exception):
    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


def put(t, v):
    return (v & ((1 << (8 * SIZES[t])) - 1)).to_bytes(SIZES[t], "little")


def encode_value(w, t, is_list, v, out):
    if is_list:
        out += put(w.list_t, len(v))
        for x in v:
            encode_value(w, t, False, x, out)
    elif t in SIZES:
        out += put(t, v)
    elif t == "string":
        out += put(w.string_t, len(v))
        out += v
    elif t in w.enums:
        out += put(w.enums[t]["enc"], v)
    else:
        for (f, mt, ml), x in zip(w.members(t), v):
            encode_value(w, mt, ml, x, out)


def encode(w, mname, v, tag=False):
    out = bytearray()
    if tag:
        out.append(w.mnames.index(mname) + 1)
    encode_value(w, mname, False, v, out)
    return bytes(out)


def pack(w, msgs):
    out = bytearray(b"BSCI")
    out += len(msgs).to_bytes(4, "little")
    for m, v in msgs:
        out += encode(w, m, v, True)
    out.append(0)
    return bytes(out)


class Lenient:
    """Facts about a decode for which the targets may legitimately differ."""

    def __init__(self):
        self.bad_utf8 = False
        self.negative = False


def _num(t, buf, pos):
    n = SIZES[t]
    if pos + n > len(buf):
        raise DecodeError("eof")
    return int.from_bytes(buf[pos:pos + n], "little", signed=t in SIGNED), pos + n


def decode_value(w, t, is_list, buf, pos, len_):
    if is_list:
        n, pos = _num(w.list_t, buf, pos)
        if n < 0:
            len_.negative = True
            n = 0
        ms = w.min_size(t)
        if ms and n * ms > len(buf) - pos:
            # cannot be complete; decode anyway until it fails, so that an earlier enum error is seen first
            n = min(n, (len(buf) - pos) // ms + 1)
        out = []
        for _ in range(n):
            x, pos = decode_value(w, t, False, buf, pos, len_)
            out.append(x)
        return out, pos
    if t == "bool":
        v, pos = _num("byte", buf, pos)
        return int(v > 0), pos
    if t in ("float", "double"):
        v, pos = _num({"float": "uint32", "double": "uint64"}[t], buf, pos)
        return v, pos
    if t in SIZES:
        return _num(t, buf, pos)
    if t == "string":
        n, pos = _num(w.string_t, buf, pos)
        if n < 0:
            len_.negative = True
            raise DecodeError("negative string length")
        if pos + n > len(buf):
            raise DecodeError("eof")
        s = bytes(buf[pos:pos + n])
        try:
            s.decode("utf-8")
        except UnicodeDecodeError:
            len_.bad_utf8 = True
        return s, pos + n
    if t in w.enums:
        v, pos = _num(w.enums[t]["enc"], buf, pos)
        if v not in [x for _, x in w.enums[t]["values"]]:
            raise DecodeError("enum")
        return v, pos
    out = []
    for f, mt, ml in w.members(t):
        x, pos = decode_value(w, mt, ml, buf, pos, len_)
        out.append(x)
    return out, pos


def decode_stream(w, buf, max_=-1, pos=0):
    """Returns (messages, position, error or None, Lenient)."""
    len_ = Lenient()
    msgs = []
    if max_ == 0:
        return msgs, pos, None, len_
    try:
        while pos < len(buf) and (max_ < 0 or len(msgs) < max_):
            tag = buf[pos]
            if tag == 0:
                return msgs, pos + 1, None, len_
            if tag > len(w.mnames):
                raise DecodeError("tag")
            m = w.mnames[tag - 1]
            v, p2 = decode_value(w, m, False, buf, pos + 1, len_)
            msgs.append((m, v))
            pos = p2
        return msgs, pos, None, len_
    except DecodeError as e:
        return msgs, pos, e, len_


def unpack(w, buf, pos=0):
    len_ = Lenient()
    if len(buf) - pos < 8:
        return [], pos, DecodeError("eof" if buf[pos:pos + 4] == b"BSCI"[:len(buf) - pos] else "header"), len_
    if buf[pos:pos + 4] != b"BSCI":
        return [], pos, DecodeError("header"), len_
    n = int.from_bytes(buf[pos + 4:pos + 8], "little")
    if n == 0:
        return [], pos + 8, None, len_
    msgs, p, err, len_ = decode_stream(w, buf, n, pos + 8)
    if err is None and len(msgs) != n:
        err = DecodeError("count")
    return msgs, p, err, len_


# ---- neutral token form shared with the hosted drivers ----
def tokens(w, t, is_list, v, out):
    if is_list:
        out.append(str(len(v)))
        for x in v:
            tokens(w, t, False, x, out)
    elif t == "string":
        out.append("s" + v.hex())
    elif t in SIZES or t in w.enums:
        out.append(str(v))
    else:
        for (f, mt, ml), x in zip(w.members(t), v):
            tokens(w, mt, ml, x, out)
    return out


NAN32 = lambda b: (b & 0x7f800000) == 0x7f800000 and (b & 0x7fffff)
NAN64 = lambda b: (b & 0x7ff0000000000000) == 0x7ff0000000000000 and (b & 0xfffffffffffff)


def parse_tokens(w, t, is_list, it):
    if is_list:
        n = int(next(it))
        return [parse_tokens(w, t, False, it) for _ in range(n)]
    if t == "string":
        x = next(it)
        assert x[0] == "s", x
        return bytes.fromhex(x[1:])
    if t in SIZES or t in w.enums:
        return int(next(it))
    return [parse_tokens(w, mt, ml, it) for f, mt, ml in w.members(t)]


def normal(w, t, is_list, v, lenient_utf8=False):
    """Comparison form: all NaNs are one NaN; with lenient_utf8, invalid strings compare equal to anything invalid."""
    if is_list:
        return [normal(w, t, False, x, lenient_utf8) for x in v]
    if t == "float":
        return 0x7fc00000 if NAN32(v) else v
    if t == "double":
        return 0x7ff8000000000000 if NAN64(v) else v
    if t == "string" and lenient_utf8:
        try:
            s = v.decode("utf-8")
            return b"<bad>" if "�" in s else v
        except UnicodeDecodeError:
            return b"<bad>"
    if t in SIZES or t == "string" or t in w.enums:
        return v
    return [normal(w, mt, ml, x, lenient_utf8) for (f, mt, ml), x in zip(w.members(t), v)]


def default(w, t, is_list=False):
    if is_list:
        return []
    if t == "string":
        return b""
    if t in SIZES:
        return 0
    if t in w.enums:
        return w.enums[t]["values"][0][1]
    return [default(w, mt, ml) for f, mt, ml in w.members(t)]
