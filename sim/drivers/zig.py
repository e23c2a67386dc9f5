"""Per-world Zig glue."""
from ..worlds import SIZES

ZT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64",
      "int64": "i64", "float": "f32", "double": "f64", "string": "[]const u8"}


def emit(w):
    N = w.name
    L = ['const std = @import("std");', 'const rt = @import("zig_runtime.zig");', f'const G = @import("gen_{N}.zig");',
         "const A = rt.allocator;", "const P = *anyopaque;",
         "fn box(m: G.Message) P { const p = rt.ha().create(G.Message) catch unreachable; p.* = m; return p; }",
         "fn un(p: P) *G.Message { return @ptrCast(@alignCast(p)); }",
         "const List = struct { l: []G.Message };",
         "fn ul(p: P) *List { return @ptrCast(@alignCast(p)); }",
         "fn mkl(l: []G.Message) P { const p = rt.ha().create(List) catch unreachable; p.* = .{ .l = l }; return p; }", ""]

    def load(t):
        if t == "float":
            return "@bitCast(@as(u32, @intCast(t.u())))"
        if t == "double":
            return "@bitCast(t.u())"
        if t == "bool":
            return "t.u() != 0"
        if t == "string":
            return "t.str()"
        if t in SIZES:
            return f"@intCast(t.{'n' if t.startswith('int') else 'u'}())"
        if t in w.enums:
            return "@enumFromInt(t.n())"
        return f"load_{t}(t)"

    def dump(t, a):
        if t == "float":
            return f"rt.put(o, @as(u32, @bitCast({a})));"
        if t == "double":
            return f"rt.put(o, @as(u64, @bitCast({a})));"
        if t == "bool":
            return f"rt.put(o, @intFromBool({a}));"
        if t == "string":
            return f"rt.puts(o, {a});"
        if t in SIZES:
            return f"rt.put(o, {a});"
        if t in w.enums:
            return f"rt.put(o, @intFromEnum({a}));"
        return f"dump_{t}(&{a}, o);"

    for n in list(w.structs) + w.mnames:
        mem = w.members(n)
        L.append(f"fn load_{n}(t: *rt.Tok) G.{n} {{")
        if not mem:
            L.append("    _ = t;")
            L.append(f"    return G.{n}{{}};")
        else:
            L.append(f"    var d = G.{n}{{}};")
            for f, t, l in mem:
                zt = ZT.get(t, f"G.{t}")
                if l:
                    L.append(f"    {{ const n: usize = @intCast(t.u()); d.{f} = A.alloc({zt}, n) catch unreachable; for (0..n) |i| {{ d.{f}[i] = {load(t)}; }} }}")
                else:
                    L.append(f"    d.{f} = {load(t)};")
            L.append("    return d;")
        L.append("}")
        L.append(f"fn dump_{n}(d: *const G.{n}, o: *rt.Out) void {{")
        if not mem:
            L.append("    _ = d; _ = o;")
        for f, t, l in mem:
            if l:
                L.append(f"    rt.put(o, d.{f}.len); for (d.{f}) |*x| {{ {dump(t, 'x.*')} }}")
            else:
                L.append(f"    {dump(t, 'd.' + f)}")
        L.append("}")
    L.append("fn dumpMsg(m: *const G.Message, o: *rt.Out) void { switch (m.*) {")
    for i, n in enumerate(w.mnames):
        L.append(f"    .{n} => |*d| {{ rt.put(o, {i}); dump_{n}(d, o); }},")
    L.append("} }")
    L.append("fn freeMsg(m: *G.Message) void { switch (m.*) {")
    for i, n in enumerate(w.mnames):
        L.append(f"    .{n} => " + ("{}," if w.is_simple_type(n) else "|*d| d.deinit(A),"))
    L.append("} }")
    # the old content goes, the members are assigned anew
    L.append("fn fillMsg(m: *G.Message, t: *rt.Tok) void { " + ("" if any(w.members(n) for n in w.mnames) else "_ = t; ") + "switch (m.*) {")
    for i, n in enumerate(w.mnames):
        mem = w.members(n)
        if not mem:
            L.append(f"    .{n} => {{}},")
        else:
            L.append(f"    .{n} => |*d| {{ {'' if w.is_simple_type(n) else 'd.deinit(A); '}const x = load_{n}(t); " + " ".join(f"d.{f} = x.{f};" for f, _, _ in mem) + " },")
    L.append("} }")
    L.append("fn create(m: usize) P { return switch (m) {")
    for i, n in enumerate(w.mnames):
        L.append(f"    {i} => box(.{{ .{n} = G.{n}{{}} }}),")
    L.append('    else => @panic("harness: type"), }; }')
    L.append("fn load(m: usize, t: *rt.Tok) P { return switch (m) {")
    for i, n in enumerate(w.mnames):
        L.append(f"    {i} => box(.{{ .{n} = load_{n}(t) }}),")
    L.append('    else => @panic("harness: type"), }; }')
    L.append("fn read(m: usize, s: *rt.Src) anyerror!P { switch (m) {")
    for i, n in enumerate(w.mnames):
        a = "" if w.is_simple_type(n) else "A, "
        L.append(f"    {i} => {{ const r = try G.{n}.fromBytes({a}s.off, s.buf); s.off += r.bytes_read; return box(.{{ .{n} = r.value }}); }},")
    L.append('    else => @panic("harness: type"), } }')
    L.append("""
fn dump(p: P, o: *rt.Out) void { dumpMsg(un(p), o); }
fn free(p: P) void { freeMsg(un(p)); rt.ha().destroy(un(p)); }
fn size(p: P) usize { return un(p).getSizeInBytes(); }
fn write(p: P, off: usize, buf: []u8, tag: bool) usize {
    const k = un(p);
    // both documented ways of writing
    return if (off % 2 == 0) k.writeBytes(off, buf, tag) else G.writeBytes(k, off, buf, tag);
}
fn proc(s: *rt.Src, max: i32) anyerror!P {
    const l = try G.processRawBytes(A, s.buf[s.off..], max);
    // the Zig API has no cursor: the caller advances by what it received
    for (l) |*m| s.off += 1 + m.getSizeInBytes();
    if (max != 0 and (max < 0 or l.len < max) and s.off < s.buf.len and s.buf[s.off] == 0) s.off += 1;
    return mkl(l);
}
fn unpack(s: *rt.Src) anyerror!P {
    const l = try G.unpackMessages(A, s.buf[s.off..]);
    s.off += 8;
    for (l) |*m| s.off += 1 + m.getSizeInBytes();
    return mkl(l);
}
fn mklist(l: []P) P {
    const r = A.alloc(G.Message, l.len) catch unreachable;
    for (l, 0..) |p, i| { r[i] = un(p).*; rt.ha().destroy(un(p)); }
    return mkl(r);
}
fn fill(p: P, t: *rt.Tok) void { fillMsg(un(p), t); }
fn lfill(p: P, i: usize, t: *rt.Tok) void { fillMsg(&ul(p).l[i], t); }
fn dumpl(p: P, o: *rt.Out) void { rt.put(o, ul(p).l.len); for (ul(p).l) |*m| dumpMsg(m, o); }
fn freel(p: P) void { for (ul(p).l) |*m| freeMsg(m); A.free(ul(p).l); rt.ha().destroy(ul(p)); }
fn lwrite(p: P, off: usize, buf: []u8) usize { var o = off; for (ul(p).l) |*m| o += m.writeBytes(o, buf, true); return o - off; }
fn psize(p: P) usize { return G.getPackedSize(ul(p).l); }
fn pack(p: P, buf: []u8) void { G.packMessages(ul(p).l, buf); }
pub const world = rt.World{ .create = create, .load = load, .fill = fill, .lfill = lfill, .dump = dump, .free = free, .size = size, .write = write, .read = read,
    .proc = proc, .unpack = unpack, .mklist = mklist, .dumpl = dumpl, .freel = freel, .lwrite = lwrite, .psize = psize, .pack = pack };
""")
    return "\n".join(L)


def emit_main(worlds):
    L = ['const rt = @import("zig_runtime.zig");']
    L.append("const ws = [_]rt.World{ " + ", ".join(f'@import("glue_{w.name}.zig").world' for w in worlds) + " };")
    L.append("pub fn main() !void { try rt.mainLoop(&ws); }")
    return "\n".join(L) + "\n"
