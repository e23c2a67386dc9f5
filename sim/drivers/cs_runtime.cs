using System;
using System.Collections.Generic;
using System.IO;
using System.Text;
using System.Threading;

public class HarnessError : Exception { public HarnessError(string s) : base(s) { } }

public class Tok {
    public string[] t; public int i;
    public string S() { if (i >= t.Length) throw new HarnessError("token underflow"); return t[i++]; }
    public bool More() { return i < t.Length; }
    public int I() { return int.Parse(S()); }
    public long Int() { return long.Parse(S()); }
    public ulong Uint() { return ulong.Parse(S()); }
    public string Str() { return Encoding.UTF8.GetString(Convert.FromHexString(S().Substring(1))); }
}

public class Out {
    public StringBuilder b = new StringBuilder();
    public void I(long v) { b.Append(' ').Append(v); }
    public void U(ulong v) { b.Append(' ').Append(v); }
    public void S(string s) { b.Append(" s").Append(Convert.ToHexString(Encoding.UTF8.GetBytes(s)).ToLowerInvariant()); }
}

public abstract class World {
    public abstract object New(int m);
    public abstract object Load(int m, Tok t);
    public abstract object Fill(int m, object o, Tok t);
    public abstract void Dump(object o, Out b);
    public abstract int Size(object o);
    public abstract void Write(object o, BinaryWriter w, bool tag);
    public abstract object Read(int m, BinaryReader r);
    public abstract object[] Proc(BinaryReader r, int max);
    public abstract object[] Unpack(BinaryReader r);
    public abstract int PSize(object[] l);
    public abstract void Pack(object[] l, BinaryWriter w);
}

public class SimTask { public Thread th; public SemaphoreSlim run = new SemaphoreSlim(0); public string act = ""; public string msg = ""; }

// A seekable file or socket buffer whose every read is decided by the simulator.
public class ParkStream : Stream {
    public long total, pos; public List<byte> got = new List<byte>(); public bool writing;
    public override bool CanRead => !writing; public override bool CanWrite => writing; public override bool CanSeek => !writing;
    public override long Length => total;
    public override long Position { get => pos; set => throw new NotSupportedException(); }
    public override void Flush() { }
    public override long Seek(long o, SeekOrigin s) { throw new NotSupportedException(); }
    public override void SetLength(long v) { throw new NotSupportedException(); }
    public override int Read(byte[] b, int off, int n) { return Read(new Span<byte>(b, off, n)); }
    public override int Read(Span<byte> sp) {
        string a = Prog.Park("r " + sp.Length);
        string[] f = a.Split(' ', 2);
        byte[] d = f.Length > 1 && f[1].Length > 0 ? Convert.FromHexString(f[1]) : Array.Empty<byte>();
        if (f[0] == "dx") throw new IOException("simulated I/O error");
        if (d.Length > sp.Length) throw new HarnessError("over-long delivery");
        d.CopyTo(sp); pos += d.Length;
        return d.Length;
    }
    public override void Write(byte[] b, int off, int n) { Write(new ReadOnlySpan<byte>(b, off, n)); }
    public override void Write(ReadOnlySpan<byte> sp) {
        string a = Prog.Park("w " + Convert.ToHexString(sp).ToLowerInvariant());
        if (a == "k") { got.AddRange(sp.ToArray()); pos += sp.Length; return; }
        int n = Math.Min(int.Parse(a.Substring(2)), sp.Length);
        got.AddRange(sp.Slice(0, n).ToArray());
        throw new IOException("simulated I/O error");
    }
}

public class Src { public Stream s; public BinaryReader r; public long start; public long Pos => s.Position - start; }
public class Sink { public Stream s; public BinaryWriter w; public byte[] buf; public MemoryStream ms; public int pre, cap; public ParkStream park; }

public static class Prog {
    static Dictionary<int, object> slots = new Dictionary<int, object>();
    static Dictionary<int, object[]> lists = new Dictionary<int, object[]>();
    static Dictionary<int, Src> srcs = new Dictionary<int, Src>();
    static Dictionary<int, Sink> sinks = new Dictionary<int, Sink>();
    static Dictionary<int, SimTask> tasks = new Dictionary<int, SimTask>();
    static SemaphoreSlim ctl = new SemaphoreSlim(0);
    static SimTask current;

    public static string Park(string what) {
        SimTask t = current;
        t.msg = "park " + what;
        ctl.Release();
        t.run.Wait();
        return t.act;
    }

    // The same bytes behind the streams users have: a whole array, a slice of one, the middle of a file, a buffered file.
    static Src Source(int c, byte[] d) {
        Src s = new Src();
        byte[] pad = new byte[7 + d.Length + 9]; Array.Fill(pad, (byte)1); d.CopyTo(pad, 7);
        switch (c % 4) {
        case 0: s.s = new MemoryStream(d, false); break;
        case 1: s.s = new MemoryStream(pad, 7, d.Length, false); break;
        case 2: s.s = new MemoryStream(pad, 0, 7 + d.Length, true); s.s.Position = s.start = 7; break;
        default: s.s = new BufferedStream(new MemoryStream(d, false), 16); break;
        }
        s.r = c % 3 == 0 ? new BinaryReader(s.s) : c % 3 == 1 ? new BinaryReader(s.s, Encoding.ASCII) : new BinaryReader(s.s, new UTF8Encoding(true), true);
        return s;
    }

    static string One(string s) { return s.Replace("\r", " ").Replace("\n", " "); }

    static string Run(string line) {
        try { return Run2(line); }
        catch (HarnessError e) { return "fatal " + One(e.Message); }
        catch (Exception e) {
            string k = e.GetType().Name;
            for (Exception x = e; x != null; x = x.InnerException)
                if (x is NullReferenceException || x is IndexOutOfRangeException || x is InvalidCastException || x is KeyNotFoundException
                    || x is DivideByZeroException || x is FormatException)
                    return "panic " + x.GetType().Name + " " + One(e.ToString());
            return "err " + k + " " + One(e.Message);
        }
    }

    static string Run2(string line) {
        Tok T = new Tok { t = line.Split(' ', StringSplitOptions.RemoveEmptyEntries) };
        World w = Worlds.All[T.I()];
        string op = T.S();
        Out b = new Out();
        void dumpl(object[] l) { b.I(l.Length); foreach (object m in l) w.Dump(m, b); }
        switch (op) {
        case "new": { int h = T.I(), m = T.I(); slots[h] = w.New(m); w.Dump(slots[h], b); return "ok" + b.b; }
        case "load": { int h = T.I(), m = T.I(); slots[h] = w.Load(m, T); return "ok"; }
        case "refill": { int h = T.I(), i = T.I(), m = T.I(); w.Fill(m, i < 0 ? slots[h] : lists[h][i], T); return "ok"; }
        case "get": { w.Dump(slots[T.I()], b); return "ok" + b.b; }
        case "free": slots.Remove(T.I()); return "ok";
        case "size": return "ok " + w.Size(slots[T.I()]);
        case "mklist": { int L = T.I(); List<object> l = new List<object>(); while (T.More()) l.Add(slots[T.I()]); lists[L] = l.ToArray(); return "ok"; }
        case "lget": dumpl(lists[T.I()]); return "ok" + b.b;
        case "lfree": lists.Remove(T.I()); return "ok";
        case "lpsize": return "ok " + w.PSize(lists[T.I()]);
        case "src": { int c = T.I(); Src s = Source(c, Convert.FromHexString(T.More() ? T.S() : "")); srcs[c] = s; return "ok"; }
        case "srcpark": { int c = T.I(); Src s = new Src(); s.s = new ParkStream { total = T.I() }; s.r = new BinaryReader(s.s); srcs[c] = s; return "ok"; }
        case "srcclose": srcs.Remove(T.I()); return "ok";
        case "pos": { Src s = srcs[T.I()]; return "ok " + s.Pos + " " + (s.s.Position >= s.s.Length ? 1 : 0); }
        case "read": { Src s = srcs[T.I()]; int m = T.I(), h = T.I(); object o = w.Read(m, s.r); b.I(s.Pos); w.Dump(o, b); if (h >= 0) slots[h] = o; return "ok" + b.b; }
        case "proc": case "unpack": {
            Src s = srcs[T.I()];
            object[] l = op == "proc" ? w.Proc(s.r, T.I()) : w.Unpack(s.r);
            int L = T.I(); b.I(s.Pos); dumpl(l); if (L >= 0) lists[L] = l; return "ok" + b.b; }
        case "sink": {
            int c = T.I(); int cap = T.I(), pre = T.I(); Sink k = new Sink { cap = cap, pre = pre };
            if (cap < 0) { MemoryStream ms = new MemoryStream(); for (int i = 0; i < pre; i++) ms.WriteByte(0xEE); k.ms = ms; k.s = c % 3 == 1 ? new BufferedStream(ms, 16) : ms; }
            else { k.buf = new byte[pre + cap + 16]; Array.Fill(k.buf, (byte)0xEE); k.s = new MemoryStream(k.buf, 0, pre + cap, true); k.s.Position = pre; }
            k.w = c % 2 == 0 ? new BinaryWriter(k.s) : new BinaryWriter(k.s, Encoding.Unicode); sinks[c] = k; return "ok"; }
        case "sinkpark": { int c = T.I(); ParkStream p = new ParkStream { writing = true }; sinks[c] = new Sink { s = p, park = p, w = new BinaryWriter(p) }; return "ok"; }
        case "sinkget": {
            Sink k = sinks[T.I()];
            if (k.park != null) return "ok x" + Convert.ToHexString(k.park.got.ToArray()).ToLowerInvariant();
            k.w.Flush();
            k.s.Flush(); byte[] d = k.buf ?? k.ms.ToArray(); int end = (int)k.s.Position;
            for (int i = 0; i < k.pre; i++) if (d[i] != 0xEE) return "bad bytes before the start position were overwritten";
            if (k.buf != null) for (int i = k.pre + k.cap; i < d.Length; i++) if (d[i] != 0xEE) return "bad bytes past the end were overwritten";
            return "ok x" + Convert.ToHexString(d, k.pre, end - k.pre).ToLowerInvariant(); }
        case "sinkclose": sinks.Remove(T.I()); return "ok";
        case "write": { Sink k = sinks[T.I()]; int h = T.I(), tag = T.I(); w.Write(slots[h], k.w, tag != 0); return "ok"; }
        case "lwrite": { Sink k = sinks[T.I()]; foreach (object m in lists[T.I()]) w.Write(m, k.w, true); return "ok"; }
        case "lpack": { Sink k = sinks[T.I()]; w.Pack(lists[T.I()], k.w); return "ok"; }
        }
        return "fatal unknown op " + op;
    }

    static string Step(int id, string act) {
        SimTask t = tasks[id]; current = t; t.act = act; t.run.Release(); ctl.Wait();
        if (t.msg.StartsWith("done ")) { t.th.Join(); tasks.Remove(id); }
        return t.msg;
    }

    public static void Main(string[] args) {
        Stream si = Console.OpenStandardInput(); StreamReader rd = new StreamReader(si, Encoding.ASCII, false, 1 << 20);
        Stream so = Console.OpenStandardOutput();
        string line;
        while ((line = rd.ReadLine()) != null) {
            string r;
            if (line.StartsWith("spawn ")) {
                string[] f = line.Split(' ', 3); int id = int.Parse(f[1]); SimTask t = new SimTask(); string cmd = f[2];
                t.th = new Thread(() => { t.run.Wait(); t.msg = "done " + Run(cmd); ctl.Release(); }); t.th.IsBackground = true;
                tasks[id] = t; t.th.Start(); r = Step(id, "");
            } else if (line.StartsWith("resume ")) {
                string[] f = line.Split(' ', 3); r = Step(int.Parse(f[1]), f[2]);
            } else r = Run(line);
            byte[] o = Encoding.ASCII.GetBytes(r + "\n"); so.Write(o, 0, o.Length); so.Flush();
        }
    }
}
