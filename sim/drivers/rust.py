"""Per-world Rust glue."""
import re
from ..worlds import SIZES

RT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64",
      "int64": "i64", "float": "f32", "double": "f64", "string": "String"}


def to_snake(s):
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", s)).lower()


def emit(w):
    snake = (lambda x: x) if w.opts.get("no_rename") else to_snake
    N = w.name
    g = f"gen_{N}"
    L = ["use std::any::Any;", "use crate::rs_runtime::*;", f"use crate::{g};", f"use crate::{g}::MessageCodec;", ""]

    def load(t):
        if t == "float":
            return "f32::from_bits(t.u() as u32)"
        if t == "double":
            return "f64::from_bits(t.u())"
        if t == "bool":
            return "t.u() != 0"
        if t == "string":
            return "t.st()"
        if t in SIZES:
            return f"t.{'n' if t.startswith('int') else 'u'}() as {RT[t]}"
        if t in w.enums:
            return f"load_{t}(t)"
        return f"load_{t}(t)"

    def dump(t, a):
        if t in ("float", "double"):
            return f"put(b, {a}.to_bits());"
        if t == "bool":
            return f"put(b, {a} as u8);"
        if t == "string":
            return f"puts(b, &{a});"
        if t in SIZES:
            return f"put(b, {a});"
        if t in w.enums:
            return f"put(b, {a} as i64);"
        return f"dump_{t}(&{a}, b);"
    for n, e in w.enums.items():
        arms = ", ".join(f"{v} => {g}::{n}::{k}" for k, v in e["values"])
        L.append(f"#[allow(non_snake_case)] fn load_{n}(t: &mut Tok) -> {g}::{n} {{ match t.n() {{ {arms}, _ => panic!(\"harness: enum\") }} }}")
    for n in list(w.structs) + w.mnames:
        L.append(f"#[allow(non_snake_case, unused_variables, unused_mut)] fn load_{n}(t: &mut Tok) -> {g}::{n} {{ let mut d = {g}::{n}::default(); fill_{n}(t, &mut d); d }}")
        L.append(f"#[allow(non_snake_case, unused_variables)] fn fill_{n}(t: &mut Tok, d: &mut {g}::{n}) {{")
        for f, t, l in w.members(n):
            F = snake(f)
            if l:
                at = f"fill_{t}(t, &mut d.{F}[i])" if t in w.structs else f"d.{F}[i] = {load(t)}"
                L.append(f"    {{ let n = t.u() as usize; d.{F}.truncate(n); for i in 0..n {{ if i < d.{F}.len() {{ {at}; }} else {{ let x = {load(t)}; d.{F}.push(x); }} }} }}")
            else:
                L.append(f"    fill_{t}(t, &mut d.{F});" if t in w.structs else f"    d.{F} = {load(t)};")
        L.append("    }")
        L.append(f"#[allow(non_snake_case, unused_variables)] fn dump_{n}(d: &{g}::{n}, b: &mut String) {{")
        for f, t, l in w.members(n):
            F = snake(f)
            if l:
                L.append(f"    put(b, d.{F}.len()); for i in 0..d.{F}.len() {{ {dump(t, f'd.{F}[i]')} }}")
            else:
                L.append(f"    {dump(t, 'd.' + F)}")
        L.append("}")
    L.append("fn fill_msg(o: &mut %s::Message, t: &mut Tok) { match o {" % g)
    for n in w.mnames:
        L.append(f"    {g}::Message::{n}(d) => fill_{n}(t, d),")
    L.append("} }")
    L.append("fn dump_msg(o: &%s::Message, b: &mut String) {" % g)
    # the type reported by the dispatch and the variant held must agree
    L.append("    let ty: i64 = match o.get_message_type() {")
    for i, n in enumerate(w.mnames):
        L.append(f"        {g}::MessageType::{n} => {i},")
    L.append("    };")
    L.append("    put(b, ty);")
    L.append("    match o {")
    for i, n in enumerate(w.mnames):
        L.append(f"        {g}::Message::{n}(d) => {{ if ty != {i} {{ b.push_str(\" wrong-type\"); }} dump_{n}(d, b) }}")
    L += ["    }", "}"]
    L.append(f"pub struct World{N};")
    L.append(f"type M = {g}::Message; type R = {g}::BufferReader<'static>;")
    L.append(f"impl World for World{N} {{")

    def sw(head, body):
        L.append(f"    {head} {{ match m {{")
        for i, n in enumerate(w.mnames):
            L.append(f"        {i} => {body(n)},")
        L.append('        _ => panic!("harness: type") } }')
    sw("fn create(&self, m: usize) -> Obj", lambda n: f"Box::new({g}::Message::{n}({g}::{n}::default()))")
    sw("fn load(&self, m: usize, t: &mut Tok) -> Obj", lambda n: f"Box::new({g}::Message::{n}(load_{n}(t)))")
    L.append("    fn fill(&self, o: &mut dyn Any, t: &mut Tok) { fill_msg(o.downcast_mut::<M>().unwrap(), t) }")
    L.append("    fn lfill(&self, l: &mut dyn Any, i: usize, t: &mut Tok) { fill_msg(&mut l.downcast_mut::<Vec<M>>().unwrap()[i], t) }")
    L.append("    fn read(&self, m: usize, s: &mut dyn Any) -> Result<Obj, String> { let r = s.downcast_mut::<R>().unwrap(); match m {")
    for i, n in enumerate(w.mnames):
        L.append(f"        {i} => {g}::{n}::from_bytes(r).map(|d| Box::new({g}::Message::{n}(d)) as Obj).map_err(|e| e.to_string()),")
    L.append('        _ => panic!("harness: type") } }')
    L.append("    fn read2(&self, m: usize, d: &[u8]) -> Result<Obj, String> { let r = &mut %s::BufferReader::new(d); match m {" % g)
    for i, n in enumerate(w.mnames):
        L.append(f"        {i} => {g}::{n}::from_bytes(r).map(|d| Box::new({g}::Message::{n}(d)) as Obj).map_err(|e| e.to_string()),")
    L.append('        _ => panic!("harness: type") } }')
    L.append("    fn csize(&self, o: &dyn Any) -> usize { match o.downcast_ref::<M>().unwrap() {")
    for n in w.mnames:
        L.append(f"        {g}::Message::{n}(d) => d.get_size_in_bytes(),")
    L.append("    } }")
    L.append("    fn cwrite(&self, o: &dyn Any, w: &mut Vec<u8>, tag: bool) { match o.downcast_ref::<M>().unwrap() {")
    for n in w.mnames:
        L.append(f"        {g}::Message::{n}(d) => d.write_bytes(w, tag),")
    L.append("    } }")
    L.append(f"""
    fn proc2(&self, d: &[u8], max: i32) -> Result<Obj, String> {{ {g}::process_raw_bytes(&mut {g}::BufferReader::new(d), max).map(|l| Box::new(l) as Obj).map_err(|e| e.to_string()) }}
    fn unpack2(&self, d: &[u8]) -> Result<Obj, String> {{ {g}::unpack_messages(&mut {g}::BufferReader::new(d)).map(|l| Box::new(l) as Obj).map_err(|e| e.to_string()) }}
    fn first2(&self, d: &[u8]) -> Result<Obj, String> {{ <M as {g}::MessageCodec>::from_bytes(&mut {g}::BufferReader::new(d)).map(|m| Box::new(m) as Obj).map_err(|e| e.to_string()) }}
    fn dump(&self, o: &dyn Any, b: &mut String) {{ dump_msg(o.downcast_ref::<M>().unwrap(), b) }}
    fn size(&self, o: &dyn Any) -> usize {{ o.downcast_ref::<M>().unwrap().get_size_in_bytes() }}
    fn write(&self, o: &dyn Any, w: &mut Vec<u8>, tag: bool) {{ o.downcast_ref::<M>().unwrap().write_bytes(w, tag) }}
    fn source(&self, d: Vec<u8>) -> Obj {{ Box::new({g}::BufferReader::from_vec(d)) }}
    fn pos(&self, s: &mut dyn Any) -> (usize, bool) {{ let r = s.downcast_mut::<R>().unwrap(); (r.current_position, r.is_finished()) }}
    fn proc(&self, s: &mut dyn Any, max: i32) -> Result<Obj, String> {{ {g}::process_raw_bytes(s.downcast_mut::<R>().unwrap(), max).map(|l| Box::new(l) as Obj).map_err(|e| e.to_string()) }}
    fn unpack(&self, s: &mut dyn Any) -> Result<Obj, String> {{ {g}::unpack_messages(s.downcast_mut::<R>().unwrap()).map(|l| Box::new(l) as Obj).map_err(|e| e.to_string()) }}
    fn mklist(&self, l: Vec<Obj>) -> Obj {{ let v: Vec<M> = l.into_iter().map(|x| *x.downcast::<M>().unwrap()).collect(); Box::new(v) }}
    fn dumpl(&self, l: &dyn Any, b: &mut String) {{ let v = l.downcast_ref::<Vec<M>>().unwrap(); put(b, v.len()); for m in v {{ dump_msg(m, b); }} }}
    fn lwrite(&self, l: &dyn Any, w: &mut Vec<u8>) {{ for m in l.downcast_ref::<Vec<M>>().unwrap() {{ m.write_bytes(w, true); }} }}
    fn psize(&self, l: &dyn Any) -> usize {{ {g}::get_packed_size(l.downcast_ref::<Vec<M>>().unwrap()) }}
    fn pack(&self, l: &dyn Any, w: &mut Vec<u8>) {{ {g}::pack_messages(l.downcast_ref::<Vec<M>>().unwrap(), w) }}
}}""")
    return "\n".join(L)


def emit_main(worlds):
    L = ["#![allow(warnings)]", "mod rs_runtime;"]
    for w in worlds:
        L.append(f'mod gen_{w.name}; mod glue_{w.name};')
    L.append("fn main() { rs_runtime::main_loop(vec![" + ", ".join(f"Box::new(glue_{w.name}::World{w.name})" for w in worlds) + "]); }")
    return "\n".join(L) + "\n"
