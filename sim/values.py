"""Workload generation: values of the declared types, drawn through Choices, with boundary shapes favoured."""
import functools
import struct

from .worlds import SIZES, RANGES
from . import codec

STRS = ["", "a", "hello", "\0", "a\0b", "é", "ß", "語", "😀", "\ufeffbom", "\ufeff", "e\u0301", "\uffff", "\U0010ffff", "\x7f", "\u0080", "\u07ff",
        "\u0800", "line\nbreak\r", "\"quoted\\", "BSCI", "  ", "𝄞clef", "Ünïcödé", "עברית", "mixed😀語é",
        "trail\0", "\0lead", "\ufffd", "\ud7ff", "\ue000", "\ufffe", "\u2028x", " pad ", "\t", "\r\n", "%s%n{0}", "\\n", "İı", "\U0001f468\u200d\U0001f467", "a\u0300\u0301"]
STRS = [s.encode() for s in STRS]
F32 = [0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff, 0x00800000, 0x40490fdb, 0xbf800001]
F64 = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x7fefffffffffffff,
       0x0010000000000000, 0x400921fb54442d18, 0x4340000000000001]


def cap(t):
    """Largest length a size type can carry, as far as this workload goes."""
    return min(RANGES[t][1], 70000)


class Gen:
    def __init__(self, c, w, budget=1200, long=(1, 60), plain=False):
        self.c, self.w, self.left, self.long, self.plain = c, w, budget, long, plain
        self.big = False

    def int_(self, t):
        lo, hi = RANGES[t]
        k = self.c.draw(8)
        if k == 0:
            return 0
        if k <= 2:
            return self.c.pick([x for x in (1, 2, 3, 100, -1, -2) if lo <= x <= hi])
        if k == 3:
            return hi
        if k == 4:
            return lo
        if k == 5:
            return self.c.pick([x for x in (127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1,
                                            2**63 - 1, 2**63, -128, -129, -32768, -32769, -2**31, -2**31 - 1, -2**53 - 1) if lo <= x <= hi] or [hi])
        if hi - lo <= 65535:
            return lo + self.c.draw(hi - lo + 1)
        v = 0
        n = SIZES[t]
        for _ in range(n):
            v = v << 8 | self.c.draw(256)
        if lo < 0 and v >= 1 << (8 * n - 1):
            v -= 1 << (8 * n)
        return v

    def scalar(self, t):
        if t == "bool":
            return self.c.draw(2)
        if t == "float":
            k = self.c.draw(len(F32) + 3)
            return F32[k] if k < len(F32) else self.finite(4)
        if t == "double":
            k = self.c.draw(len(F64) + 3)
            return F64[k] if k < len(F64) else self.finite(8)
        return self.int_(t)

    def finite(self, n):
        v = 0
        for _ in range(n):
            v = v << 8 | self.c.draw(256)
        if n == 4 and codec.NAN32(v):
            v = 0x7fc00000
        if n == 8 and codec.NAN64(v):
            v = 0x7ff8000000000000
        return v

    def string(self):
        m = cap(self.w.string_t)
        k = self.c.draw(len(STRS) + 4)
        if k < len(STRS):
            s = STRS[k]
        elif k < len(STRS) + 2:
            s = bytes(97 + self.c.draw(26) for _ in range(self.c.draw(12)))
        elif self.c.chance(*self.long):
            n = self.c.pick([x for x in (64, 126, 127, 128, 254, 255, 256, 300, 511, 512, 513, 1024, 2048, 4096, 8192, 16385, 32767, 65535, 65536) if x <= m])
            if n >= 32767 and m >= 70000 and self.c.chance(1, 6):
                n = self.c.pick([100001, 131072, 131073, 200000])
            filler = self.c.pick([b"x", "é".encode(), "語".encode(), "😀".encode()])
            lead = b"ABC"[:self.c.draw(4)] if n > 64 else b""
            s = lead + (filler * n)[:(n - len(lead)) // len(filler) * len(filler)]
            s += b"y" * (n - len(s))
            self.left -= n
        else:
            s = b"".join(STRS[self.c.draw(len(STRS))] for _ in range(self.c.draw(4)))
        if len(s) > m and m < 70000:
            s = b"z" * m
        self.left -= len(s) + 1
        return s

    def length(self, t):
        m = cap(self.w.list_t)
        if self.left <= 0:
            return 0
        ms = max(1, self.w.min_size(t))
        if self.c.chance(*self.long):
            ls = [x for x in (17, 33, 64, 127, 128, 254, 255, 256, 300, 1000, 32767, 65535, 65536)
                  if x <= m and (x * ms <= 3000 or (t == "byte" and x <= 70000))]
            if t in SIZES and self.left > 0 and not self.big and self.c.chance(1, 15):
                ls = [x for x in (1025, 2049, 4096, 4097, 5000, 8193, 16384, 16385, 32768, 40000, 65535, 65536, 70000) if x <= m]
                self.big = True
            elif t not in SIZES and ms <= 8 and not self.big and self.c.chance(1, 30):
                ls = [x for x in (1024, 1025, 2049, 4096, 4097, 5000) if x <= m]
                self.big = True
            if ls:
                n = self.c.pick(ls)
                self.left -= n * ms
                return n
        n = self.c.weighted([(4, 0), (5, 1), (5, 2), (4, 3), (2, 5), (1, 9), (1, 20)])
        n = min(n, m)
        self.left -= n * ms
        return n

    def value(self, t, is_list=False):
        w = self.w
        if is_list:
            n = self.length(t)
            if n > 64 and t in SIZES:      # long lists: a short drawn pattern, repeated
                pat = [self.scalar(t) for _ in range(1 + self.c.draw(5))]
                return [pat[i % len(pat)] for i in range(n)]
            if n > 64:
                save, self.left, slong, self.long = self.left, 40, self.long, (0, 1)
                pat = [self.value(t) for _ in range(1 + self.c.draw(3))]
                self.left, self.long = save, slong
                return [pat[i % len(pat)] for i in range(n)]
            return [self.value(t) for _ in range(n)]
        if t in SIZES:
            return self.scalar(t)
        if t == "string":
            return self.string()
        if t in w.enums:
            vs = w.enums[t]["values"]
            return vs[self.c.draw(len(vs))][1]
        return [self.value(mt, ml) for f, mt, ml in w.members(t)]

    def message(self, names=None):
        m = self.c.pick(names or self.w.mnames)
        return m, self.value(m)

    def twin(self, m, v):
        """Another message of the type with the same shape: every length is the same, what fills it is not."""
        return m, self._twin(m, False, v)

    def _twin(self, t, is_list, v):
        w, c = self.w, self.c
        if is_list:
            if len(v) > 64:
                pat = [self._twin(t, False, x) for x in v[:3]] if t in SIZES else None
                return [pat[i % len(pat)] for i in range(len(v))] if pat else [self._twin(t, False, v[0])] + v[1:] if t != "string" else list(v)
            return [self._twin(t, False, x) for x in v]
        if t == "string":
            return bytes(97 + c.draw(26) for _ in range(len(v))) if len(v) < 40 else bytes([97 + c.draw(26)]) * len(v)
        if t in SIZES:
            return self.scalar(t) if c.chance(2, 3) else v
        if t in w.enums:
            vs = w.enums[t]["values"]
            return vs[c.draw(len(vs))][1]
        return [self._twin(mt, ml, x) for (f, mt, ml), x in zip(w.members(t), v)]

    def crowd(self, names=None, most=1100):
        """Many small messages: counters and growing lists pass their boundaries."""
        n = self.c.pick([x for x in (33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025) if x <= most])
        save, self.left, slong, self.long = self.left, 3, self.long, (0, 1)

        def small():
            self.left = self.c.draw(4)
            return self.message(names)
        pat = [small() for _ in range(1 + self.c.draw(5))]
        pat = [x for x in pat if len(codec.encode(self.w, *x)) <= 24] or [min(pat, key=lambda x: len(codec.encode(self.w, *x)))]
        out = [pat[i % len(pat)] for i in range(n)]
        for _ in range(self.c.draw(5)):
            x = small()
            if len(codec.encode(self.w, *x)) <= 24:
                out[self.c.draw(n)] = x
        self.left, self.long = save, slong
        return out

    def several(self, n, names=None, rare=40, most=600):
        """n messages, now and then a crowd of them."""
        if n and self.c.chance(1, rare):
            return self.crowd(names, most)
        return [self.message(names) for _ in range(n)]
