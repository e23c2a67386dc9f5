use std::any::Any;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};

pub struct Tok<'a> { pub t: Vec<&'a str>, pub i: usize }
impl<'a> Tok<'a> {
    pub fn s(&mut self) -> &'a str { if self.i >= self.t.len() { panic!("harness: token underflow") } self.i += 1; self.t[self.i - 1] }
    pub fn more(&self) -> bool { self.i < self.t.len() }
    pub fn u(&mut self) -> u64 { self.s().parse().expect("harness: u64") }
    pub fn n(&mut self) -> i64 { self.s().parse().expect("harness: i64") }
    pub fn st(&mut self) -> String { String::from_utf8(unhex(&self.s()[1..])).expect("harness: utf8") }
}
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect() }
pub fn hexs(b: &[u8]) -> String { let mut o = String::with_capacity(b.len() * 2); for x in b { let _ = write!(o, "{:02x}", x); } o }
pub fn put<T: std::fmt::Display>(o: &mut String, v: T) { let _ = write!(o, " {}", v); }
pub fn puts(o: &mut String, s: &str) { let _ = write!(o, " s{}", hexs(s.as_bytes())); }

pub type Obj = Box<dyn Any>;
pub trait World {
    fn create(&self, m: usize) -> Obj;
    fn load(&self, m: usize, t: &mut Tok) -> Obj;
    fn dump(&self, o: &dyn Any, b: &mut String);
    fn fill(&self, o: &mut dyn Any, t: &mut Tok);
    fn lfill(&self, l: &mut dyn Any, i: usize, t: &mut Tok);
    fn size(&self, o: &dyn Any) -> usize;
    fn write(&self, o: &dyn Any, w: &mut Vec<u8>, tag: bool);
    fn source(&self, d: Vec<u8>) -> Obj;
    fn pos(&self, s: &mut dyn Any) -> (usize, bool);
    fn read(&self, m: usize, s: &mut dyn Any) -> Result<Obj, String>;
    fn proc(&self, s: &mut dyn Any, max: i32) -> Result<Obj, String>;
    fn unpack(&self, s: &mut dyn Any) -> Result<Obj, String>;
    fn mklist(&self, l: Vec<Obj>) -> Obj;
    fn dumpl(&self, l: &dyn Any, b: &mut String);
    fn lwrite(&self, l: &dyn Any, w: &mut Vec<u8>);
    fn psize(&self, l: &dyn Any) -> usize;
    fn pack(&self, l: &dyn Any, w: &mut Vec<u8>);
    // the same through the other forms of the API
    fn read2(&self, m: usize, d: &[u8]) -> Result<Obj, String>;
    fn proc2(&self, d: &[u8], max: i32) -> Result<Obj, String>;
    fn unpack2(&self, d: &[u8]) -> Result<Obj, String>;
    fn first2(&self, d: &[u8]) -> Result<Obj, String>;
    fn csize(&self, o: &dyn Any) -> usize;
    fn cwrite(&self, o: &dyn Any, w: &mut Vec<u8>, tag: bool);
}

// ---------------- tasks: threads of which one runs at a time, parked at every allocation of the code under test ----------------
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
struct Spot { st: Mutex<(u8, u8, usize)>, c: Condvar }     // (state, kind of seam, size)
const GO: u8 = 0; const PARKED: u8 = 1; const DONE: u8 = 2;
const SPOT: Spot = Spot { st: Mutex::new((GO, 0, 0)), c: Condvar::new() };
static SPOTS: [Spot; 64] = [SPOT; 64];
thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }
fn park(what: u8, n: usize) {
    let k = ME.try_with(|x| x.replace(0)).unwrap_or(0);
    if k == 0 { return }
    let t = &SPOTS[k - 1];
    { let mut g = t.st.lock().unwrap(); *g = (PARKED, what, n); t.c.notify_all(); while g.0 != GO { g = t.c.wait(g).unwrap(); } }
    ME.with(|x| x.set(k));
}
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { park(b'm', l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { park(b'm', l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { park(b'r', n); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { park(b'x', l.size()); System.dealloc(p, l) }
}
#[global_allocator] static ALLOC: Alloc = Alloc;
struct Move<T>(T);
unsafe impl<T> Send for Move<T> {}
type Ws = &'static [Box<dyn World>];
/// What a task works on: its source, its sink, its object, its list. Nothing of it is shared with other tasks.
struct Job { op: String, a: Vec<i64>, th: Option<std::thread::JoinHandle<Move<Job0>>> }
struct Job0 { src: Option<Obj>, sink: Option<Vec<u8>>, obj: Option<Obj>, got: Option<Obj>, out: String }
fn job(ws: Ws, k: usize, wi: usize, op: String, a: Vec<i64>, j: Move<Job0>) -> Move<Job0> {
    let mut j = j.0;
    let w = &ws[wi];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        ME.with(|x| x.set(k + 1));
        let r = match op.as_str() {
            "read" => w.read(a[1] as usize, &mut **j.src.as_mut().unwrap()),
            "proc" => w.proc(&mut **j.src.as_mut().unwrap(), a[1] as i32),
            "unpack" => w.unpack(&mut **j.src.as_mut().unwrap()),
            "new" => Ok(w.create(a[1] as usize)),
            "write" => { w.write(&**j.obj.as_ref().unwrap(), j.sink.as_mut().unwrap(), a[2] != 0); Err(String::new()) }
            _ => { w.pack(&**j.obj.as_ref().unwrap(), j.sink.as_mut().unwrap()); Err(String::new()) }
        };
        ME.with(|x| x.set(0));
        r
    }));
    ME.with(|x| x.set(0));
    match r {
        Ok(Ok(o)) => { let mut b = String::new(); if let Some(s) = j.src.as_mut() { put(&mut b, w.pos(&mut **s).0); }
            if op == "read" || op == "new" { w.dump(&*o, &mut b) } else { w.dumpl(&*o, &mut b) } j.out = format!("ok{}", b); j.got = Some(o); }
        Ok(Err(_)) if j.sink.is_some() => j.out = "ok".into(),
        Ok(Err(e)) => j.out = format!("err {}", e),
        Err(_) => j.out = "panic in a task".into(),
    }
    let mut g = SPOTS[k].st.lock().unwrap(); g.0 = DONE; SPOTS[k].c.notify_all();
    drop(g);
    Move(j)
}
fn step(st: &mut St, ws: Ws, k: usize, fresh: bool) -> String {
    { let t = &SPOTS[k]; let mut g = t.st.lock().unwrap(); if !fresh { g.0 = GO; t.c.notify_all(); } while g.0 == GO { g = t.c.wait(g).unwrap(); }
        if g.0 == PARKED { return format!("park {} {}", g.1 as char, g.2); } }
    let mut j = st.jobs.remove(&k).unwrap();
    let r = j.th.take().unwrap().join().expect("harness: task").0;
    let a = &j.a;
    if let Some(s) = r.src { st.srcs.insert(a[0], s); }
    if let Some(v) = r.sink { st.sinks.insert(a[0], (v, 0)); }
    if let Some(o) = r.obj { if j.op == "write" { st.slots.insert(a[1], o); } else { st.lists.insert(a[1], o); } }
    if let Some(o) = r.got { match j.op.as_str() { "read" => { if a[2] >= 0 { st.slots.insert(a[2], o); } } "new" => { st.slots.insert(a[0], o); }
        "proc" => { if a[2] >= 0 { st.lists.insert(a[2], o); } } _ => { if a[1] >= 0 { st.lists.insert(a[1], o); } } } }
    let _ = ws;
    format!("done {}", r.out)
}
fn spawn(st: &mut St, ws: Ws, line: &str) -> String {
    let mut t = Tok { t: line.split_whitespace().collect(), i: 1 };
    let k = t.u() as usize; let wi = t.u() as usize; let op = t.s().to_string();
    let mut a = Vec::new(); while t.more() { a.push(t.n()); }
    let src = if matches!(op.as_str(), "read" | "proc" | "unpack") { st.srcs.remove(&a[0]) } else { None };
    let sink = if matches!(op.as_str(), "write" | "lpack") { st.sinks.remove(&a[0]).map(|x| x.0) } else { None };
    let obj = match op.as_str() { "write" => st.slots.remove(&a[1]), "lpack" => st.lists.remove(&a[1]), _ => None };
    let j = Move(Job0 { src, sink, obj, got: None, out: String::new() });
    *SPOTS[k].st.lock().unwrap() = (GO, 0, 0);
    let (o2, a2, w2) = (op.clone(), a.clone(), Move(ws));
    let th = std::thread::spawn(move || { let w = w2; let j = j; job(w.0, k, wi, o2, a2, j) });
    st.jobs.insert(k, Job { op, a, th: Some(th) });
    step(st, ws, k, true)
}

#[derive(Default)]
struct St { jobs: HashMap<usize, Job>, slots: HashMap<i64, Obj>, lists: HashMap<i64, Obj>, srcs: HashMap<i64, Obj>, raw: HashMap<i64, Vec<u8>>, sinks: HashMap<i64, (Vec<u8>, usize)> }

fn run(st: &mut St, ws: &[Box<dyn World>], line: &str) -> String {
    let mut t = Tok { t: line.split_whitespace().collect(), i: 0 };
    let w = &ws[t.u() as usize];
    let op = t.s();
    let mut b = String::new();
    match op {
        "new" => { let h = t.n(); let m = t.u() as usize; let o = w.create(m); w.dump(&*o, &mut b); st.slots.insert(h, o); format!("ok{}", b) }
        "load" => { let h = t.n(); let m = t.u() as usize; let o = w.load(m, &mut t); st.slots.insert(h, o); "ok".into() }
        "refill" => { let h = t.n(); let i = t.n(); t.n(); if i < 0 { w.fill(&mut **st.slots.get_mut(&h).unwrap(), &mut t) } else { w.lfill(&mut **st.lists.get_mut(&h).unwrap(), i as usize, &mut t) } "ok".into() }
        "get" => { w.dump(&*st.slots[&t.n()], &mut b); format!("ok{}", b) }
        "free" => { st.slots.remove(&t.n()); "ok".into() }
        "size" => { let h = t.n(); let a = w.size(&*st.slots[&h]); let c = w.csize(&*st.slots[&h]); if a != c { return format!("bad the message says its size is {}, the enum around it says {}", c, a); } format!("ok {}", a) }
        "mklist" => { let k = t.n(); let mut v = Vec::new(); while t.more() { let h = t.n(); v.push(st.slots.remove(&h).expect("harness: slot")); } st.lists.insert(k, w.mklist(v)); "ok".into() }
        "lget" => { w.dumpl(&*st.lists[&t.n()], &mut b); format!("ok{}", b) }
        "lfree" => { st.lists.remove(&t.n()); "ok".into() }
        "lpsize" => format!("ok {}", w.psize(&*st.lists[&t.n()])),
        "src" => { let c = t.n(); let d = if t.more() { unhex(t.s()) } else { Vec::new() }; if c % 3 == 0 { st.raw.insert(c, d.clone()); } st.srcs.insert(c, w.source(d)); "ok".into() }
        "srcclose" => { let c = t.n(); st.srcs.remove(&c); st.raw.remove(&c); "ok".into() }
        "pos" => { let (p, f) = w.pos(&mut **st.srcs.get_mut(&t.n()).unwrap()); format!("ok {} {}", p, f as u8) }
        "read" => { let c = t.n(); let m = t.u() as usize; let h = t.n(); let s = st.srcs.get_mut(&c).unwrap();
            let start = w.pos(&mut **s).0;
            let other = st.raw.get(&c).filter(|d| start <= d.len()).map(|d| w.read2(m, &d[start..]).map(|o| { let mut x = String::new(); w.dump(&*o, &mut x); x }));
            let got = w.read(m, &mut **s);
            if let Some(x) = other { let y = match &got { Ok(o) => { let mut q = String::new(); w.dump(&**o, &mut q); Ok(q) } Err(e) => Err(e.clone()) };
                if x != y { return format!("bad reading from a slice gives {:?}, from a vector {:?}", x, y); } }
            match got { Err(e) => format!("err {}", e), Ok(o) => { put(&mut b, w.pos(&mut **s).0); w.dump(&*o, &mut b); if h >= 0 { st.slots.insert(h, o); } format!("ok{}", b) } } }
        "proc" | "unpack" => { let c = t.n(); let s = st.srcs.get_mut(&c).unwrap();
            let start = w.pos(&mut **s).0;
            let max = if op == "proc" { t.n() as i32 } else { 0 };
            let show = |r: &Result<Obj, String>| match r { Ok(o) => { let mut q = String::new(); w.dumpl(&**o, &mut q); Ok(q) } Err(e) => Err(e.clone()) };
            let d = st.raw.get(&c).filter(|d| start <= d.len()).map(|d| &d[start..]);
            let other = d.map(|d| show(&if op == "proc" { w.proc2(d, max) } else { w.unpack2(d) }));
            let r = if op == "proc" { w.proc(&mut **s, max) } else { w.unpack(&mut **s) }; let k = t.n();
            if let Some(x) = other { let y = show(&r); if x != y { return format!("bad reading from a slice gives {:?}, from a vector {:?}", x, y); }
                if let (Ok(y), true) = (y, op == "proc") { if !y.starts_with(" 0") {
                    match w.first2(d.unwrap()) { Ok(o) => { let mut q = String::new(); w.dump(&*o, &mut q); let q = &q; let tail = &y[1..]; let tail = &tail[tail.find(' ').unwrap_or(0)..]; if !tail.starts_with(q.as_str()) { return format!("bad Message::from_bytes gives {}, the list starts with {}", q, tail); } }
                        Err(e) => return format!("bad Message::from_bytes fails ({}) where the whole list is read", e) } } } }
            match r { Err(e) => format!("err {}", e), Ok(l) => { put(&mut b, w.pos(&mut **s).0); w.dumpl(&*l, &mut b); if k >= 0 { st.lists.insert(k, l); } format!("ok{}", b) } } }
        "sink" => { let c = t.n(); t.n(); let pre = t.u() as usize; st.sinks.insert(c, (vec![0xEE; pre], pre)); "ok".into() }
        "sinkpark" => { let c = t.n(); st.sinks.insert(c, (Vec::new(), 0)); "ok".into() }
        "sinkget" => { let (v, pre) = &st.sinks[&t.n()]; if v[..*pre].iter().any(|x| *x != 0xEE) { return "bad bytes before the start position were overwritten".into(); } format!("ok x{}", hexs(&v[*pre..])) }
        "sinkclose" => { st.sinks.remove(&t.n()); "ok".into() }
        "write" => { let c = t.n(); let h = t.n(); let tag = t.n(); let k = &mut st.sinks.get_mut(&c).unwrap().0; let n = k.len(); w.write(&*st.slots[&h], k, tag != 0);
            if c % 3 == 0 { let mut v = vec![0x5A; 3]; w.cwrite(&*st.slots[&h], &mut v, tag != 0); if v[3..] != k[n..] || v[..3] != [0x5A; 3] { return format!("bad the message itself writes {}, the enum around it {}", hexs(&v), hexs(&k[n..])); } }
            "ok".into() }
        "lwrite" => { let c = t.n(); let k = t.n(); w.lwrite(&*st.lists[&k], &mut st.sinks.get_mut(&c).unwrap().0); "ok".into() }
        "lpack" => { let c = t.n(); let k = t.n(); w.pack(&*st.lists[&k], &mut st.sinks.get_mut(&c).unwrap().0); "ok".into() }
        _ => format!("fatal unknown op {}", op),
    }
}

pub fn main_loop(ws: Vec<Box<dyn World>>) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin(); let mut inp = stdin.lock(); let mut line = String::new();
    let mut st = St::default();
    let ws: Ws = Box::leak(ws.into_boxed_slice());
    let stdout = std::io::stdout(); let mut out = stdout.lock();
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap_or(0) == 0 { return; }
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let l = line.trim_end();
            if l.starts_with("spawn ") { spawn(&mut st, ws, l) } else if l.starts_with("resume ") { step(&mut st, ws, l.split(' ').nth(1).unwrap().parse().expect("harness: task"), false) } else { run(&mut st, ws, l) } })) {
            Ok(r) => r,
            Err(e) => { let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                if s.starts_with("harness:") { format!("fatal {}", s) } else { format!("panic {}", s.replace('\n', " ")) } }
        };
        let _ = out.write_all(r.as_bytes()); let _ = out.write_all(b"\n"); let _ = out.flush();
    }
}
