"""Per-world Go glue."""
from ..worlds import SIZES

GT = {"byte": "byte", "bool": "bool", "uint16": "uint16", "int16": "int16", "uint32": "uint32", "int32": "int32",
      "uint64": "uint64", "int64": "int64", "float": "float32", "double": "float64"}


def cap(s):
    return s[:1].upper() + s[1:]


def emit(w):
    pk = w.name.lower()
    L = ["package main", "", "import (", '\t"io"', '\t"math"', '\t"strings"', f'\t{pk} "sim/{pk}"', ")", "",
         "var _ = math.Float32bits", f"type world{w.name} struct{{}}", ""]

    def load(t):
        if t == "float":
            return "math.Float32frombits(uint32(t.Uint()))"
        if t == "double":
            return "math.Float64frombits(t.Uint())"
        if t == "bool":
            return "t.Uint() != 0"
        if t == "string":
            return "t.Str()"
        if t in SIZES:
            return f"{GT[t]}(t.{'Int' if t.startswith('int') else 'Uint'}())"
        if t in w.enums:
            return f"{pk}.{t}(t.Int())"
        return f"load{w.name}{t}(t)"

    def dump(t, acc):
        if t == "float":
            return f"putU(b, uint64(math.Float32bits({acc})))"
        if t == "double":
            return f"putU(b, math.Float64bits({acc}))"
        if t == "bool":
            return f"putU(b, b2i({acc}))"
        if t == "string":
            return f"putS(b, {acc})"
        if t in SIZES:
            return f"put{'I(b, int64' if t.startswith('int') else 'U(b, uint64'}({acc}))"
        if t in w.enums:
            return f"putI(b, int64({acc}))"
        return f"dump{w.name}{t}(&{acc}, b)"

    for n in list(w.structs) + w.mnames:
        L.append(f"func load{w.name}{n}(t *Tok) {pk}.{n} {{ d := {pk}.New{n}Default(); fill{w.name}{n}(t, &d); return d }}")
        # in place: elements are overwritten, the rest is appended, as a program does that keeps using a message
        L.append(f"func fill{w.name}{n}(t *Tok, d *{pk}.{n}) {{")
        for f, t, l in w.members(n):
            F = cap(f)
            gt = "string" if t == "string" else GT.get(t, f"{pk}.{t}")
            if l:
                fill = f"fill{w.name}{t}(t, &d.{F}[i])" if t in w.structs else f"d.{F}[i] = {load(t)}"
                L.append(f"\t{{ n := t.I(); if len(d.{F}) > n {{ d.{F} = d.{F}[:n] }}; if cap(d.{F}) == 0 {{ d.{F} = make([]{gt}, 0, n) }}")
                L.append(f"\tfor i := 0; i < n; i++ {{ if i < len(d.{F}) {{ {fill} }} else {{ d.{F} = append(d.{F}, {load(t)}) }} }} }}")
            else:
                L.append(f"\t" + (f"fill{w.name}{t}(t, &d.{F})" if t in w.structs else f"d.{F} = {load(t)}"))
        L += ["}"]
        L.append(f"func dump{w.name}{n}(d *{pk}.{n}, b *strings.Builder) {{")
        for f, t, l in w.members(n):
            F = cap(f)
            if l:
                L.append(f"\tputI(b, int64(len(d.{F})))")
                L.append(f"\tfor i := range d.{F} {{ {dump(t, f'd.{F}[i]')} }}")
            else:
                L.append(f"\t{dump(t, f'd.{F}')}")
        L += ["}"]

    def sw(head, body, tail):
        L.append(head)
        L.append("\tswitch m {")
        for i, n in enumerate(w.mnames):
            L.append(f"\tcase {i}: {body(n)}")
        L.append("\t}")
        L.append(tail)
        L.append("}")
    W = f"(world{w.name})"
    sw(f"func {W} New(m int) any {{", lambda n: f"d := {pk}.New{n}Default(); return {pk}.Message(&d)", '\tpanic("harness: type")')
    sw(f"func {W} Load(m int, t *Tok) any {{", lambda n: f"d := load{w.name}{n}(t); return {pk}.Message(&d)", '\tpanic("harness: type")')
    sw(f"func {W} Fill(m int, o any, t *Tok) {{", lambda n: f"fill{w.name}{n}(t, o.(*{pk}.{n}))", "")
    sw(f"func {W} Read(m int, r io.Reader) (any, error) {{",
       lambda n: f"d, e := {pk}.{n}FromBytes(r); if e != nil {{ return nil, e }}; return {pk}.Message(d), nil", '\tpanic("harness: type")')
    L.append(f"func {W} Dump(o any, b *strings.Builder) {{")
    L.append(f"\tswitch o.({pk}.Message).GetMessageType() {{")
    for i, n in enumerate(w.mnames):
        L.append(f"\tcase {pk}.{n}Type: putI(b, {i}); dump{w.name}{n}(o.(*{pk}.{n}), b)")
    L.append('\tdefault: b.WriteString(" -1")')
    L += ["\t}", "}"]
    L.append(f"""
func {W} Size(o any) int {{ return o.({pk}.Message).GetSizeInBytes() }}
func {W} Write(o any, w io.Writer, tag bool) {{ o.({pk}.Message).WriteBytes(w, tag) }}
func box{w.name}(l []{pk}.Message) []any {{ r := make([]any, len(l)); for i := range l {{ r[i] = l[i] }}; return r }}
func unbox{w.name}(l []any) []{pk}.Message {{ r := make([]{pk}.Message, len(l)); for i := range l {{ r[i] = l[i].({pk}.Message) }}; return r }}
func {W} Proc(r io.Reader, max int) ([]any, error) {{ l, e := {pk}.ProcessRawBytes(r, max); if e != nil {{ return nil, e }}; return box{w.name}(l), nil }}
func {W} Unpack(r io.Reader) ([]any, error) {{ l, e := {pk}.UnpackMessages(r); if e != nil {{ return nil, e }}; return box{w.name}(l), nil }}
func {W} PSize(l []any) int {{ return {pk}.GetPackedSize(unbox{w.name}(l)) }}
func {W} Pack(l []any, w io.Writer) {{ {pk}.PackMessages(unbox{w.name}(l), w) }}
""")
    return "\n".join(L)


def emit_main(worlds):
    return "package main\n\nvar worlds = []World{" + ", ".join(f"world{w.name}{{}}" for w in worlds) + "}\n"
