const std = @import("std");

// ---------------- simulated allocator: counts, tracks, and fails on demand ----------------
pub var live: i64 = 0;
pub var total: i64 = 0;
pub var failed: i64 = 0;
pub var fail_after: i64 = 0;
pub var sticky: bool = false;
const CAP: usize = 64 << 20;
const back = std.heap.c_allocator;
var blocks = std.AutoHashMap(usize, usize).init(std.heap.c_allocator);
pub var bad: ?[]const u8 = null;
// freed blocks are overwritten and kept for a while, so that a use after free reads garbage
var grave: [512]?[]u8 = [_]?[]u8{null} ** 512;
var grave_n: usize = 0;

// ---------------- tasks: threads of which one runs at a time, parked at every allocation ----------------
const Task = struct { used: bool = false, th: std.Thread = undefined, go: std.Thread.Semaphore = .{}, line: []u8 = undefined, out: Out = undefined, done: bool = false, what: u8 = 0, n: usize = 0, act: u8 = 'k' };
var tasks = [_]Task{.{}} ** 64;
var ctl = std.Thread.Semaphore{};
threadlocal var me: ?*Task = null;
fn park(what: u8, n: usize) bool {
    const t = me orelse return false;
    t.what = what;
    t.n = n;
    ctl.post();
    t.go.wait();
    return t.act == 'f';
}
fn taskMain(t: *Task, ws: []const World) void {
    me = t;
    t.go.wait();
    run(ws, t.line, &t.out) catch |e| {
        t.out.clearRetainingCapacity();
        t.out.writer().print("fatal {s}", .{@errorName(e)}) catch unreachable;
    };
    t.done = true;
    ctl.post();
}
fn step(t: *Task, o: *Out) !void {
    t.go.post();
    ctl.wait();
    if (!t.done) {
        try o.writer().print("park {c} {d}", .{ t.what, t.n });
        return;
    }
    t.th.join();
    try o.appendSlice("done ");
    try o.appendSlice(t.out.items);
    t.out.deinit();
    ha().free(t.line);
    t.used = false;
}

fn simAlloc(_: *anyopaque, len: usize, a: u8, ra: usize) ?[*]u8 {
    if (park('m', len)) {
        failed += 1;
        return null;
    }
    total += 1;
    if (fail_after > 0) {
        fail_after -= 1;
        if (fail_after == 0) {
            failed += 1;
            if (sticky) fail_after = 1;
            return null;
        }
    }
    if (len > CAP) {
        failed += 1;
        return null;
    }
    _ = a;
    const p = back.rawAlloc(len, 4, ra);
    if (p) |q| {
        @memset(q[0..len], 0xA5);
        blocks.put(@intFromPtr(q), len) catch unreachable;
        live += 1;
    }
    return p;
}
fn simResize(_: *anyopaque, buf: []u8, a: u8, n: usize, ra: usize) bool {
    _ = buf;
    _ = a;
    _ = n;
    _ = ra;
    return false; // growing always moves, so stale pointers are noticed
}
fn simFree(_: *anyopaque, buf: []u8, a: u8, ra: usize) void {
    _ = park('x', buf.len);
    _ = a;
    if (blocks.get(@intFromPtr(buf.ptr))) |n| {
        if (n != buf.len) bad = "free of a block with the wrong length";
    } else {
        bad = "free of memory that is not allocated (double or invalid free)";
        return;
    }
    _ = blocks.remove(@intFromPtr(buf.ptr));
    live -= 1;
    @memset(buf, 0xDD);
    if (grave[grave_n % grave.len]) |old| back.rawFree(old, 4, ra);
    grave[grave_n % grave.len] = buf;
    grave_n += 1;
}
const vt = std.mem.Allocator.VTable{ .alloc = simAlloc, .resize = simResize, .free = simFree };
pub const allocator = std.mem.Allocator{ .ptr = undefined, .vtable = &vt };

// harness memory
var hgpa = std.heap.page_allocator;
var arena = std.heap.ArenaAllocator.init(std.heap.page_allocator);
pub fn ha() std.mem.Allocator {
    return std.heap.c_allocator;
}

pub const Out = std.ArrayList(u8);
pub fn put(o: *Out, v: anytype) void {
    o.writer().print(" {d}", .{v}) catch unreachable;
}
pub fn puts(o: *Out, s: []const u8) void {
    o.writer().print(" s{s}", .{std.fmt.fmtSliceHexLower(s)}) catch unreachable;
}

pub const Tok = struct {
    it: std.mem.TokenIterator(u8, .scalar),
    pub fn s(self: *Tok) []const u8 {
        return self.it.next() orelse @panic("harness: token underflow");
    }
    pub fn more(self: *Tok) bool {
        return self.it.peek() != null;
    }
    pub fn u(self: *Tok) u64 {
        return std.fmt.parseInt(u64, self.s(), 10) catch @panic("harness: u64");
    }
    pub fn n(self: *Tok) i64 {
        return std.fmt.parseInt(i64, self.s(), 10) catch @panic("harness: i64");
    }
    pub fn str(self: *Tok) []u8 {
        const h = self.s()[1..];
        const b = allocator.alloc(u8, h.len / 2) catch @panic("harness: oom");
        _ = std.fmt.hexToBytes(b, h) catch @panic("harness: hex");
        return b;
    }
};

pub const Src = struct { buf: []u8, off: usize };
pub const Sink = struct { all: []u8, buf: []u8, pre: usize, pos: usize };

pub const World = struct {
    create: *const fn (m: usize) *anyopaque,
    load: *const fn (m: usize, t: *Tok) *anyopaque,
    fill: *const fn (p: *anyopaque, t: *Tok) void,
    lfill: *const fn (p: *anyopaque, i: usize, t: *Tok) void,
    dump: *const fn (o: *anyopaque, b: *Out) void,
    free: *const fn (o: *anyopaque) void,
    size: *const fn (o: *anyopaque) usize,
    write: *const fn (o: *anyopaque, off: usize, buf: []u8, tag: bool) usize,
    read: *const fn (m: usize, s: *Src) anyerror!*anyopaque,
    proc: *const fn (s: *Src, max: i32) anyerror!*anyopaque,
    unpack: *const fn (s: *Src) anyerror!*anyopaque,
    mklist: *const fn (l: []*anyopaque) *anyopaque,
    dumpl: *const fn (l: *anyopaque, b: *Out) void,
    freel: *const fn (l: *anyopaque) void,
    lwrite: *const fn (l: *anyopaque, off: usize, buf: []u8) usize,
    psize: *const fn (l: *anyopaque) usize,
    pack: *const fn (l: *anyopaque, buf: []u8) void,
};

var slots = std.AutoHashMap(i64, *anyopaque).init(std.heap.c_allocator);
var lists = std.AutoHashMap(i64, *anyopaque).init(std.heap.c_allocator);
var srcs = std.AutoHashMap(i64, *Src).init(std.heap.c_allocator);
var sinks = std.AutoHashMap(i64, *Sink).init(std.heap.c_allocator);

fn quiet() i64 {
    const f = fail_after;
    fail_after = 0;
    return f;
}

fn run(ws: []const World, line: []const u8, o: *Out) !void {
    var t = Tok{ .it = std.mem.tokenizeScalar(u8, line, ' ') };
    const w = &ws[t.u()];
    const op = t.s();
    const eq = std.mem.eql;
    if (eq(u8, op, "new")) {
        const h = t.n();
        const p = w.create(t.u());
        try slots.put(h, p);
        try o.appendSlice("ok");
        w.dump(p, o);
    } else if (eq(u8, op, "load")) {
        const h = t.n();
        const f = quiet();
        const p = w.load(t.u(), &t);
        fail_after = f;
        try slots.put(h, p);
        try o.appendSlice("ok");
    } else if (eq(u8, op, "refill")) {
        const h = t.n();
        const i = t.n();
        _ = t.n();
        const f = quiet();
        if (i < 0) w.fill(slots.get(h).?, &t) else w.lfill(lists.get(h).?, @intCast(i), &t);
        fail_after = f;
        try o.appendSlice("ok");
    } else if (eq(u8, op, "get")) {
        try o.appendSlice("ok");
        w.dump(slots.get(t.n()).?, o);
    } else if (eq(u8, op, "free")) {
        const h = t.n();
        w.free(slots.get(h).?);
        _ = slots.remove(h);
        try o.appendSlice("ok");
    } else if (eq(u8, op, "size")) {
        try o.writer().print("ok {d}", .{w.size(slots.get(t.n()).?)});
    } else if (eq(u8, op, "mklist")) {
        const L = t.n();
        var l = std.ArrayList(*anyopaque).init(ha());
        while (t.more()) {
            const h = t.n();
            try l.append(slots.get(h).?);
            _ = slots.remove(h);
        }
        const f = quiet();
        try lists.put(L, w.mklist(l.items));
        fail_after = f;
        l.deinit();
        try o.appendSlice("ok");
    } else if (eq(u8, op, "lget")) {
        try o.appendSlice("ok");
        w.dumpl(lists.get(t.n()).?, o);
    } else if (eq(u8, op, "lfree")) {
        const L = t.n();
        w.freel(lists.get(L).?);
        _ = lists.remove(L);
        try o.appendSlice("ok");
    } else if (eq(u8, op, "lpsize")) {
        try o.writer().print("ok {d}", .{w.psize(lists.get(t.n()).?)});
    } else if (eq(u8, op, "src")) {
        const c = t.n();
        const h = if (t.more()) t.s() else "";
        const b = try ha().alloc(u8, h.len / 2);
        _ = try std.fmt.hexToBytes(b, h);
        if (srcs.get(c)) |old| {
            ha().free(old.buf);
            ha().destroy(old);
        }
        const s = try ha().create(Src);
        s.* = .{ .buf = b, .off = 0 };
        try srcs.put(c, s);
        try o.appendSlice("ok");
    } else if (eq(u8, op, "srcclose")) {
        const c = t.n();
        if (srcs.get(c)) |old| {
            ha().free(old.buf);
            ha().destroy(old);
            _ = srcs.remove(c);
        }
        try o.appendSlice("ok");
    } else if (eq(u8, op, "pos")) {
        const s = srcs.get(t.n()).?;
        try o.writer().print("ok {d} {d}", .{ s.off, @intFromBool(s.off >= s.buf.len) });
    } else if (eq(u8, op, "read")) {
        const s = srcs.get(t.n()).?;
        const m = t.u();
        const h = t.n();
        if (w.read(m, s)) |p| {
            try o.writer().print("ok {d}", .{s.off});
            w.dump(p, o);
            if (h >= 0) {
                try slots.put(h, p);
            } else w.free(p);
        } else |e| {
            try o.writer().print("err {s}", .{@errorName(e)});
        }
    } else if (eq(u8, op, "proc") or eq(u8, op, "unpack")) {
        const s = srcs.get(t.n()).?;
        const r = if (eq(u8, op, "proc")) w.proc(s, @intCast(t.n())) else w.unpack(s);
        const L = t.n();
        if (r) |l| {
            try o.writer().print("ok {d}", .{s.off});
            w.dumpl(l, o);
            if (L >= 0) {
                try lists.put(L, l);
            } else w.freel(l);
        } else |e| {
            try o.writer().print("err {s}", .{@errorName(e)});
        }
    } else if (eq(u8, op, "sink")) {
        const c = t.n();
        const cap: usize = @intCast(t.n());
        const pre: usize = @intCast(t.n());
        const all = try ha().alloc(u8, pre + cap + 16);
        @memset(all, 0xEE);
        if (sinks.get(c)) |old| {
            ha().free(old.all);
            ha().destroy(old);
        }
        const k = try ha().create(Sink);
        k.* = .{ .all = all, .buf = all[0 .. pre + cap], .pre = pre, .pos = pre };
        try sinks.put(c, k);
        try o.appendSlice("ok");
    } else if (eq(u8, op, "sinkget")) {
        const k = sinks.get(t.n()).?;
        for (k.all[0..k.pre]) |x| if (x != 0xEE) {
            try o.appendSlice("bad bytes before the start position were overwritten");
            return;
        };
        for (k.all[k.buf.len..]) |x| if (x != 0xEE) {
            try o.appendSlice("bad bytes past the end were overwritten");
            return;
        };
        try o.writer().print("ok x{s}", .{std.fmt.fmtSliceHexLower(k.all[k.pre..k.pos])});
    } else if (eq(u8, op, "sinkclose")) {
        const c = t.n();
        if (sinks.get(c)) |old| {
            ha().free(old.all);
            ha().destroy(old);
            _ = sinks.remove(c);
        }
        try o.appendSlice("ok");
    } else if (eq(u8, op, "write")) {
        const k = sinks.get(t.n()).?;
        const h = t.n();
        const tag = t.n() != 0;
        k.pos += w.write(slots.get(h).?, k.pos, k.buf, tag);
        try o.appendSlice("ok");
    } else if (eq(u8, op, "lwrite")) {
        const k = sinks.get(t.n()).?;
        k.pos += w.lwrite(lists.get(t.n()).?, k.pos, k.buf);
        try o.appendSlice("ok");
    } else if (eq(u8, op, "lpack")) {
        const k = sinks.get(t.n()).?;
        const l = lists.get(t.n()).?;
        w.pack(l, k.buf[k.pos..]);
        k.pos += w.psize(l); // packMessages does not report how much it wrote
        try o.appendSlice("ok");
    } else if (eq(u8, op, "alloc")) {
        fail_after = t.n();
        sticky = t.more() and t.n() != 0;
        total = 0;
        failed = 0;
        try o.appendSlice("ok");
    } else if (eq(u8, op, "live")) {
        try o.writer().print("ok {d} 0 {d} {d}", .{ live, total, failed });
    } else {
        try o.writer().print("fatal unknown op {s}", .{op});
    }
}

pub fn mainLoop(ws: []const World) !void {
    const in = std.io.getStdIn();
    const out = std.io.getStdOut();
    var br = std.io.bufferedReaderSize(1 << 16, in.reader());
    var line = std.ArrayList(u8).init(ha());
    var o = Out.init(ha());
    while (true) {
        line.clearRetainingCapacity();
        br.reader().streamUntilDelimiter(line.writer(), '\n', null) catch return;
        o.clearRetainingCapacity();
        var t = Tok{ .it = std.mem.tokenizeScalar(u8, line.items, ' ') };
        const op = t.s();
        if (std.mem.eql(u8, op, "spawn")) {
            const k = &tasks[t.u()];
            k.* = .{ .used = true, .line = try ha().dupe(u8, t.it.rest()), .out = Out.init(ha()) };
            k.th = try std.Thread.spawn(.{}, taskMain, .{ k, ws });
            try step(k, &o);
        } else if (std.mem.eql(u8, op, "resume")) {
            const k = &tasks[t.u()];
            k.act = t.s()[0];
            try step(k, &o);
        } else run(ws, line.items, &o) catch |e| {
            o.clearRetainingCapacity();
            try o.writer().print("fatal {s}", .{@errorName(e)});
        };
        if (bad) |b| {
            o.clearRetainingCapacity();
            try o.writer().print("bad {s}", .{b});
            bad = null;
        }
        try o.append('\n');
        try out.writeAll(o.items);
    }
}
