"""Per-world TypeScript glue."""
from ..worlds import SIZES


def emit(w):
    N = w.name
    L = ['import { Tok, Out, f32, f64, str, num, boo, World } from "./ts_runtime";', f'import {{ {N} as G }} from "./gen_{N}";' if w.opts.get("ts_ns") else f'import * as G from "./gen_{N}";', ""]

    def load(t):
        if t == "float":
            return "t.F32()"
        if t == "double":
            return "t.F64()"
        if t == "bool":
            return "t.I() !== 0"
        if t == "string":
            return "t.Str()"
        if t in ("int64", "uint64"):
            return "t.B()"
        if t in SIZES or t in w.enums:
            return "t.I()"
        return f"load{t}(t)"

    def dump(t, a):
        if t == "float":
            return f"b.push(f32({a}));"
        if t == "double":
            return f"b.push(f64({a}));"
        if t == "bool":
            return f"b.push(boo({a}));"
        if t == "string":
            return f"b.push(str({a}));"
        if t in SIZES or t in w.enums:
            return f"b.push(num({a}));"
        return f"dump{t}({a}, b);"

    for n in list(w.structs) + w.mnames:
        # objects are filled in place, so that defaults shared between objects would show
        L.append(f"function load{n}(t: Tok): G.{n} {{ return fill{n}(t, new G.{n}()); }}")
        L.append(f"function fill{n}(t: Tok, d: G.{n}): G.{n} {{")
        for f, t, l in w.members(n):
            if l:
                at = f"fill{t}(t, d.{f}[i])" if t in w.structs else f"d.{f}[i] = {load(t)}"
                L.append(f"  {{ const n = t.I(); if (d.{f}.length > n) d.{f}.length = n; for (let i = 0; i < n; i++) {{ if (i < d.{f}.length) {at}; else d.{f}.push({load(t)}); }} }}")
            else:
                L.append(f"  fill{t}(t, d.{f});" if t in w.structs else f"  d.{f} = {load(t)};")
        L.append("  return d; }")
        L.append(f"function dump{n}(d: any, b: Out): void {{")
        for f, t, l in w.members(n):
            if l:
                L.append(f"  b.push(String(d.{f}.length)); for (let i = 0; i < d.{f}.length; i++) {{ const x = d.{f}[i]; {dump(t, 'x')} }}")
            else:
                L.append(f"  {dump(t, 'd.' + f)}")
        L.append("}")
    L.append(f"const loads: any[] = [{', '.join('load' + n for n in w.mnames)}];")
    L.append(f"const fills: any[] = [{', '.join('fill' + n for n in w.mnames)}];")
    L.append(f"const classes: any[] = [{', '.join('G.' + n for n in w.mnames)}];")
    L.append(f"const types: any[] = [{', '.join('G.MessageType.' + n + 'Type' for n in w.mnames)}];")
    L.append(f"const dumps: any[] = [{', '.join('dump' + n for n in w.mnames)}];")
    L.append("""
export const world: World = {
  create(m, fl) { return fl === 1 ? new (G.MessageTypeMap.get(types[m])!)() : new classes[m](); },
  load(m, t) { return loads[m](t); },
  fill(m, o, t) { if (!(o instanceof classes[m])) throw new TypeError("wrong class"); fills[m](t, o); },
  dump(o, b) { const m = types.indexOf(o.getMessageType()); b.push(String(m)); if (m >= 0) { if (!(o instanceof classes[m])) throw new TypeError("wrong class"); dumps[m](o, b); } },
  da(v) { return new G.DataAccess(v); },
  read(m, d) { return classes[m].fromBytes(d); },
  proc(d, max) { return G.ProcessRawBytes(d, max); },
  unpack(d) { return G.UnpackMessages(d); },
  psize(l) { return G.GetPackedSize(l); },
  pack(l, d) { G.PackMessages(l, d); },
};
""")
    return "\n".join(L)


def emit_main(worlds):
    L = ['import { main } from "./ts_runtime";']
    for w in worlds:
        L.append(f'import {{ world as w_{w.name} }} from "./glue_{w.name}";')
    L.append("main([" + ", ".join(f"w_{w.name}" for w in worlds) + "]);")
    return "\n".join(L) + "\n"
