import { readSync, writeSync } from "fs";

export class Tok {
  t: string[]; i = 0;
  constructor(t: string[]) { this.t = t; }
  S(): string { if (this.i >= this.t.length) throw new Error("harness: token underflow"); return this.t[this.i++]; }
  More(): boolean { return this.i < this.t.length; }
  I(): number { return Number(this.S()); }
  B(): bigint { return BigInt(this.S()); }
  Str(): string { return Buffer.from(this.S().slice(1), "hex").toString("utf8"); }
  F32(): number { const d = new DataView(new ArrayBuffer(4)); d.setUint32(0, this.I(), true); return d.getFloat32(0, true); }
  F64(): number { const d = new DataView(new ArrayBuffer(8)); d.setBigUint64(0, this.B(), true); return d.getFloat64(0, true); }
}
export type Out = string[];
// (a JavaScript engine may change the bits of a NaN whenever it likes, so all NaNs are one here)
export const f32 = (v: number) => { if (v !== v) return "2143289344"; const d = new DataView(new ArrayBuffer(4)); d.setFloat32(0, v, true); return String(d.getUint32(0, true)); };
export const f64 = (v: number) => { if (v !== v) return "9221120237041090560"; const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, v, true); return String(d.getBigUint64(0, true)); };
export const str = (v: string) => { if (typeof v !== "string") throw new TypeError("not a string: " + v); return "s" + Buffer.from(v, "utf8").toString("hex"); };
export const num = (v: any) => { if (typeof v !== "number" && typeof v !== "bigint") throw new TypeError("not a number: " + v); return String(v); };
export const boo = (v: any) => { if (typeof v !== "boolean") throw new TypeError("not a boolean: " + v); return v ? "1" : "0"; };

export interface World {
  create(m: number, flavor: number): any; load(m: number, t: Tok): any; fill(m: number, o: any, t: Tok): void; dump(o: any, b: Out): void;
  da(v: DataView|ArrayBuffer): any; read(m: number, d: any): any; proc(d: any, max: number): any[]; unpack(d: any): any[];
  psize(l: any[]): number; pack(l: any[], d: any): void;
}
class Differs extends Error {}
// The API accepts a DataAccess, a DataView or (for one message) an ArrayBuffer; all forms have to do the same.
function same(main: () => string, other: () => string, what: string): string {
  let a = "", b = "", ea: any = null, eb: any = null;
  try { b = other(); } catch (e: any) { eb = e; if (/harness:/.test(String(e && e.message))) throw e; }
  try { a = main(); } catch (e: any) { ea = e; }
  if ((ea === null) !== (eb === null)) throw new Differs(`${what}: ${eb === null ? "succeeds" : "fails, " + eb} where a DataAccess ${ea === null ? "succeeds" : "fails, " + ea}`);
  if (ea !== null) throw ea;
  if (a !== b) throw new Differs(`${what}: ${b} where a DataAccess gives ${a}`);
  return a;
}
function writeTwice(k: any, n: number, main: (d: any) => void): string {
  if (n % 3 !== 0) { main(k.da); return "ok"; }
  const start = k.da.currentOffset, left = k.da.data.byteLength - start;
  const off = 8 * (1 + n % 2);
  const ab = new ArrayBuffer(off + left + 16); new Uint8Array(ab).fill(0xEE);
  const hex = (u: Uint8Array) => Buffer.from(u).toString("hex");
  return same(() => { main(k.da); return "ok " + hex(new Uint8Array(k.da.data.buffer, k.da.data.byteOffset + start, left)); },
    () => { main(new DataView(ab, off, left)); const u = new Uint8Array(ab);
      for (let i = 0; i < u.length; i++) if ((i < off || i >= off + left) && u[i] !== 0xEE) throw new Differs("writing into a DataView touched bytes outside it");
      return "ok " + hex(u.subarray(off, off + left)); }, "writing into a DataView").slice(0, 2);
}
let worlds: World[] = [];

const PRE = 24, POST = 24;
const slots = new Map<number, any>(), lists = new Map<number, any[]>(), srcs = new Map<number, any>(), sinks = new Map<number, any>();
const spare: ArrayBuffer[] = [];

function hexbuf(h: string): Uint8Array { return new Uint8Array(Buffer.from(h, "hex")); }

function run2(line: string): string {
  const T = new Tok(line.split(" ").filter((x) => x.length > 0));
  const w = worlds[T.I()];
  const op = T.S();
  const b: Out = [];
  const dumpl = (l: any[]) => { b.push(String(l.length)); for (const m of l) w.dump(m, b); };
  switch (op) {
    case "new": { const h = T.I(), m = T.I(), fl = T.More() ? T.I() : 0; slots.set(h, w.create(m, fl)); w.dump(slots.get(h), b); return "ok " + b.join(" "); }
    case "load": { const h = T.I(), m = T.I(); slots.set(h, w.load(m, T)); return "ok"; }
    case "refill": { const h = T.I(), i = T.I(), m = T.I(); w.fill(m, i < 0 ? slots.get(h) : lists.get(h)![i], T); return "ok"; }
    case "get": { w.dump(slots.get(T.I()), b); return "ok " + b.join(" "); }
    case "free": slots.delete(T.I()); return "ok";
    case "size": return "ok " + slots.get(T.I()).getSizeInBytes();
    case "mklist": { const L = T.I(); const l: any[] = []; while (T.More()) l.push(slots.get(T.I())); lists.set(L, l); return "ok"; }
    case "lget": dumpl(lists.get(T.I())!); return "ok " + b.join(" ");
    case "lfree": lists.delete(T.I()); return "ok";
    case "lpsize": return "ok " + w.psize(lists.get(T.I())!);
    case "src": {
      const c = T.I(); const d = hexbuf(T.More() ? T.S() : "");
      // the view sits inside a larger buffer, as a slice of a network buffer does
      const off = (c % 4) * 8;
      // and buffers are used again for what comes next
      const whole = c % 3 === 2;
      const need = whole ? d.length : off + d.length + (c % 2) * 16;
      const at = spare.findIndex(x => c % 8 < 4 && (whole ? x.byteLength === need : x.byteLength >= need));
      const ab = at >= 0 ? spare.splice(at, 1)[0] : new ArrayBuffer(need);
      new Uint8Array(ab).fill(0x41); new Uint8Array(ab).set(d, whole ? 0 : off);
      srcs.set(c, w.da(whole ? ab : new DataView(ab, off, d.length))); return "ok"; }
    case "srcclose": {
      const c = T.I(), s = srcs.get(c);
      if (s) { const ab = s.data.buffer; new Uint8Array(ab).fill(0x99); if (ab.byteLength < 1 << 16) { spare.push(ab); if (spare.length > 8) spare.shift(); } }
      srcs.delete(c); return "ok"; }
    case "pos": { const s = srcs.get(T.I()); return "ok " + s.currentOffset + " " + (s.isFinished() ? 1 : 0); }
    case "read": {
      const c = T.I(), s = srcs.get(c), m = T.I(), h = T.I();
      const show = (o: any) => { const x: Out = []; w.dump(o, x); return x.join(" "); };
      const main = () => { const o = w.read(m, s); const t = show(o); if (h >= 0) slots.set(h, o); return t; };
      const dv: DataView = s.data;
      const r = s.currentOffset !== 0 || c % 3 !== 0 ? main()
        : c % 2 ? same(main, () => show(w.read(m, dv)), "reading from a DataView")
        : same(main, () => show(w.read(m, dv.buffer.slice(dv.byteOffset, dv.byteOffset + dv.byteLength))), "reading from an ArrayBuffer");
      return "ok " + s.currentOffset + " " + r; }
    case "proc": case "unpack": {
      const c = T.I(), s = srcs.get(c), max = op === "proc" ? T.I() : -1, L = T.I();
      const go = (d: any) => op === "proc" ? w.proc(d, c % 2 && max < 0 ? undefined as any : max) : w.unpack(d);
      const show = (l: any[]) => { const x: Out = [String(l.length)]; for (const m of l) w.dump(m, x); return x.join(" "); };
      const main = () => { const l = go(s); const t = show(l); if (L >= 0) lists.set(L, l); return t; };
      const r = s.currentOffset !== 0 || c % 3 !== 0 ? main() : same(main, () => show(go(s.data)), "reading from a DataView");
      return "ok " + s.currentOffset + " " + r; }
    case "sink": {
      const c = T.I(), cap = T.I(), pre = T.I();
      const ab = new ArrayBuffer(PRE + pre + cap + POST); new Uint8Array(ab).fill(0xEE);
      const da = w.da(new DataView(ab, PRE, pre + cap)); da.currentOffset = pre; sinks.set(c, { ab, da, pre, cap }); return "ok"; }
    case "sinkget": {
      const k = sinks.get(T.I()); const u = new Uint8Array(k.ab);
      for (let i = 0; i < PRE + k.pre; i++) if (u[i] !== 0xEE) return "bad bytes before the start position were overwritten";
      for (let i = PRE + k.pre + k.cap; i < u.length; i++) if (u[i] !== 0xEE) return "bad bytes past the end were overwritten";
      return "ok x" + Buffer.from(u.slice(PRE + k.pre, PRE + k.da.currentOffset)).toString("hex"); }
    case "sinkclose": sinks.delete(T.I()); return "ok";
    case "write": { const n = T.I(), h = T.I(), tag = T.I(); return writeTwice(sinks.get(n), n, (d) => slots.get(h).writeBytes(d, tag !== 0)); }
    case "lwrite": { const k = sinks.get(T.I()); for (const m of lists.get(T.I())!) m.writeBytes(k.da, true); return "ok"; }
    case "lpack": { const n = T.I(), L = T.I(); return writeTwice(sinks.get(n), n, (d) => w.pack(lists.get(L)!, d)); }
  }
  return "fatal unknown op " + op;
}

function run(line: string): string {
  try { return run2(line); }
  catch (e: any) {
    const s = String(e && e.name) + " " + String(e && e.message).replace(/\n/g, " ");
    if (s.includes("harness:")) return "fatal " + s;
    if (e instanceof Differs) return "bad " + s;
    if (e instanceof Error && !/TypeError|ReferenceError/.test(s)) return "err " + s;
    return "panic " + s;
  }
}

export function main(ws: World[]) {
  worlds = ws;
  const chunk = Buffer.alloc(1 << 16);
  let acc: Buffer[] = [];
  for (;;) {
    let n = 0;
    try { n = readSync(0, chunk, 0, chunk.length, null); }
    catch (e: any) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") break; throw e; }
    if (n === 0) break;
    let start = 0;
    for (let i = 0; i < n; i++) if (chunk[i] === 10) {
      acc.push(Buffer.from(chunk.subarray(start, i)));
      const line = Buffer.concat(acc).toString("latin1"); acc = []; start = i + 1;
      const o = Buffer.from(run(line) + "\n", "latin1"); let k = 0;
      while (k < o.length) k += writeSync(1, o, k);
    }
    if (start < n) acc.push(Buffer.from(chunk.subarray(start, n)));
  }
}
