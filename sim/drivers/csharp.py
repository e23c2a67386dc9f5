"""Per-world C# glue."""
from ..worlds import SIZES

KT = {"byte": "byte", "bool": "bool", "uint16": "ushort", "int16": "short", "uint32": "uint", "int32": "int",
      "uint64": "ulong", "int64": "long", "float": "float", "double": "double", "string": "string"}


def emit(w):
    N = w.ns or "global::"
    L = ["using System;", "using System.Collections.Generic;", "using System.IO;", f"public class World{w.name} : World {{"]

    def load(t):
        if t == "float":
            return "BitConverter.UInt32BitsToSingle((uint)t.Uint())"
        if t == "double":
            return "BitConverter.UInt64BitsToDouble(t.Uint())"
        if t == "bool":
            return "t.Uint() != 0"
        if t == "string":
            return "t.Str()"
        if t in SIZES:
            return f"({KT[t]})t.{'Int' if t.startswith('int') else 'Uint'}()"
        if t in w.enums:
            return f"({N}.{t})t.Int()"
        return f"Load{t}(t)"

    def dump(t, a):
        if t == "float":
            return f"b.U(BitConverter.SingleToUInt32Bits({a}));"
        if t == "double":
            return f"b.U(BitConverter.DoubleToUInt64Bits({a}));"
        if t == "bool":
            return f"b.U({a} ? 1ul : 0ul);"
        if t == "string":
            return f"b.S({a});"
        if t in SIZES:
            return f"b.{'I' if t.startswith('int') else 'U'}({a});"
        if t in w.enums:
            return f"b.I((long){a});"
        return f"Dump{t}({a}, b);"

    for n in list(w.structs) + w.mnames:
        # objects are filled in place, so that defaults shared between objects would show
        L.append(f"    static {N}.{n} Load{n}(Tok t) {{ return Fill{n}(t, new {N}.{n}()); }}")
        L.append(f"    static {N}.{n} Fill{n}(Tok t, {N}.{n} d) {{")
        for f, t, l in w.members(n):
            ct = KT.get(t, f"{N}.{t}")
            if l:
                at = f"Fill{t}(t, d.{f}[i])" if t in w.structs else load(t)
                L.append(f"        {{ int n = t.I(); if (d.{f}.Count > n) d.{f}.RemoveRange(n, d.{f}.Count - n); for (int i = 0; i < n; i++) "
                         f"if (i < d.{f}.Count) d.{f}[i] = {at}; else d.{f}.Add({load(t)}); }}")
            else:
                L.append(f"        d.{f} = " + (f"Fill{t}(t, d.{f});" if t in w.structs else f"{load(t)};"))
        L.append("        return d; }")
        L.append(f"    static void Dump{n}({N}.{n} d, Out b) {{")
        for f, t, l in w.members(n):
            if l:
                L.append(f"        b.I(d.{f}.Count); foreach (var x in d.{f}) {{ {dump(t, 'x')} }}")
            else:
                L.append(f"        {dump(t, 'd.' + f)}")
        L.append("    }")

    def sw(head, body):
        L.append(f"    {head} {{ switch (m) {{")
        for i, n in enumerate(w.mnames):
            L.append(f"        case {i}: {body(n)}")
        L.append('        } throw new HarnessError("type"); }')
    sw("public override object New(int m)", lambda n: f"return new {N}.{n}();")
    sw("public override object Load(int m, Tok t)", lambda n: f"return Load{n}(t);")
    sw("public override object Fill(int m, object o, Tok t)", lambda n: f"return Fill{n}(t, ({N}.{n})o);")
    sw("public override object Read(int m, BinaryReader r)", lambda n: f"return {N}.{n}.FromBytes(r);")
    L.append(f"    public override void Dump(object o, Out b) {{ switch ((({N}.Message)o).GetMessageType()) {{")
    for i, n in enumerate(w.mnames):
        L.append(f"        case {N}.MessageType.{n}Type: b.I({i}); Dump{n}(({N}.{n})o, b); return;")
    L.append("        } b.I(-1); }")
    L.append(f"""
    static {N}.Message[] Unbox(object[] l) {{ var r = new {N}.Message[l.Length]; for (int i = 0; i < l.Length; i++) r[i] = ({N}.Message)l[i]; return r; }}
    public override int Size(object o) {{ return (({N}.Message)o).GetSizeInBytes(); }}
    public override void Write(object o, BinaryWriter w, bool tag) {{ (({N}.Message)o).WriteBytes(w, tag); }}
    public override object[] Proc(BinaryReader r, int max) {{ return (object[]){N}.Message.ProcessRawBytes(r, max); }}
    public override object[] Unpack(BinaryReader r) {{ return (object[]){N}.Message.UnpackMessages(r); }}
    public override int PSize(object[] l) {{ return {N}.Message.GetPackedSize(Unbox(l)); }}
    public override void Pack(object[] l, BinaryWriter w) {{ {N}.Message.PackMessages(Unbox(l), w); }}
}}""")
    return "\n".join(L).replace("global::.", "global::")


def emit_main(worlds):
    return "public static class Worlds { public static World[] All = new World[] { " + ", ".join(f"new World{w.name}()" for w in worlds) + " }; }\n"
