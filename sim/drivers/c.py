"""Per-world C glue for the simulator's C node."""
from ..worlds import SIZES

CT = {"byte": "uint8_t", "bool": "bool", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t",
      "int32": "int32_t", "uint64": "uint64_t", "int64": "int64_t", "float": "float", "double": "double"}


def _load(w, P, t, acc, lines, ind, depth):
    p = "    " * ind
    if t == "float":
        lines.append(f"{p}{{ uint32_t q = (uint32_t)tok_u(t); memcpy(&{acc}, &q, 4); }}")
    elif t == "double":
        lines.append(f"{p}{{ uint64_t q = tok_u(t); memcpy(&{acc}, &q, 8); }}")
    elif t in SIZES:
        lines.append(f"{p}{acc} = ({CT[t]})tok_{'i' if t.startswith('int') else 'u'}(t);")
    elif t in w.enums:
        lines.append(f"{p}{acc} = ({P}{t})tok_i(t);")
    else:
        lines.append(f"{p}load_{t}(&{acc}, t);")


def _dump(w, t, acc, lines, ind):
    p = "    " * ind
    if t == "float":
        lines.append(f"{p}{{ uint32_t q; memcpy(&q, &{acc}, 4); out_u(o, q); }}")
    elif t == "double":
        lines.append(f"{p}{{ uint64_t q; memcpy(&q, &{acc}, 8); out_u(o, q); }}")
    elif t in SIZES:
        lines.append(f"{p}out_{'i' if t.startswith('int') else 'u'}(o, {acc});")
    elif t in w.enums:
        lines.append(f"{p}out_i(o, (int64_t){acc});")
    else:
        lines.append(f"{p}dump_{t}(&{acc}, o);")


def emit(w, header):
    P = (w.ns or "beschi") + "_"
    U = P.upper()
    L = ["extern void *sim_malloc(__SIZE_TYPE__);", "extern void *sim_realloc(void *, __SIZE_TYPE__);", "extern void sim_free(void *);",
         f"#define {U}MALLOC(size) sim_malloc(size)", f"#define {U}REALLOC(p, n) sim_realloc(p, n)",
         f"#define {U}FREE(p) sim_free(p)",
         f"#define {U}IMPLEMENTATION", f'#include "{header}"', '#include "c_runtime.h"', "extern int sim_quiet_dummy;", ""]
    st = CT[w.string_t]
    lt = CT[w.list_t]
    for n in list(w.structs) + w.mnames:
        L.append(f"static void load_{n}({P}{n} *d, Tok *t) {{")
        L.append("    (void)d; (void)t;")
        for f, t, l in w.members(n):
            if l:
                ct = "char*" if t == "string" else (CT[t] if t in SIZES else P + t)
                L.append(f"    d->{f}_len = ({lt})tok_u(t);")
                L.append(f"    d->{f} = d->{f}_len ? ({ct}*)sim_malloc(sizeof({ct}) * (size_t)d->{f}_len) : NULL;")
                if t == "string":
                    L.append(f"    d->{f}_els_len = d->{f}_len ? ({st}*)sim_malloc(sizeof({st}) * (size_t)d->{f}_len) : NULL;")
                L.append(f"    for (size_t i = 0; i < (size_t)d->{f}_len; i++) {{")
                if t == "string":
                    L.append(f"        size_t z; d->{f}[i] = tok_s(t, &z); d->{f}_els_len[i] = ({st})z;")
                else:
                    _load(w, P, t, f"d->{f}[i]", L, 2, 0)
                L.append("    }")
            elif t == "string":
                L.append(f"    {{ size_t z; d->{f} = tok_s(t, &z); d->{f}_len = ({st})z; }}")
            else:
                _load(w, P, t, f"d->{f}", L, 1, 0)
        L.append("}")
        L.append(f"static void dump_{n}(const {P}{n} *d, Out *o) {{")
        L.append("    (void)d; (void)o;")
        for f, t, l in w.members(n):
            if l:
                L.append(f"    out_u(o, (uint64_t)d->{f}_len);")
                L.append(f"    for (size_t i = 0; i < (size_t)d->{f}_len; i++) {{")
                if t == "string":
                    # the documented terminator must be there
                    L.append(f"        out_s(o, d->{f}[i], (size_t)d->{f}_els_len[i]); if (d->{f}[i][d->{f}_els_len[i]]) out_raw(o, \"?\");")
                else:
                    _dump(w, t, f"d->{f}[i]", L, 2)
                L.append("    }")
            elif t == "string":
                L.append(f"    out_s(o, d->{f}, (size_t)d->{f}_len); if (d->{f}[d->{f}_len]) out_raw(o, \"?\");")
            else:
                _dump(w, t, f"d->{f}", L, 1)
        L.append("}")

    def table(ret, name, args, body, default="return 0;"):
        L.append(f"static {ret} {name}({args}) {{")
        L.append("    switch (m) {")
        for i, n in enumerate(w.mnames):
            L.append(f"    case {i}: {body(n)}")
        L.append("    }")
        L.append(f"    {default}")
        L.append("}")
    table("void *", "v_create", "int m", lambda n: f"return {P}{n}_Create();")
    table("void *", "v_copydefault", "int m", lambda n: f"{{ {P}{n} *p = ({P}{n}*)sim_malloc(sizeof *p); if (p) *p = {P}{n}_default; return p; }}")
    table("void *", "v_raw", "int m", lambda n: f"return sim_malloc(sizeof({P}{n}));")
    table("void", "v_load", "int m, void *p, Tok *t", lambda n: f"load_{n}(({P}{n}*)p, t); return;", "return;")
    # the old content goes, the members are assigned anew; whatever else the object holds stays
    table("void", "v_refill", "int m, void *p, Tok *t", lambda n: f"{P}{n}_Cleanup(({P}{n}*)p); load_{n}(({P}{n}*)p, t); return;", "return;")
    table("void", "v_dump", "int m, const void *p, Out *o", lambda n: f"dump_{n}((const {P}{n}*)p, o); return;", "return;")
    table("uint8_t", "v_size1", "int m, const void *p, size_t *z", lambda n: f"return {P}{n}_GetSizeInBytes((const {P}{n}*)p, z);")
    table("uint8_t", "v_write1", f"{P}DataAccess *w, int m, const void *p, bool tag", lambda n: f"return {P}{n}_WriteBytes(w, (const {P}{n}*)p, tag);")
    table("uint8_t", "v_read1", f"{P}DataAccess *r, int m, void *p", lambda n: f"return {P}{n}_FromBytes(r, ({P}{n}*)p);")
    table("void", "v_destroy1", "int m, void *p", lambda n: f"{P}{n}_Destroy(({P}{n}*)p); return;", "return;")
    table("void", "v_cleanup1", "int m, void *p", lambda n: f"{P}{n}_Cleanup(({P}{n}*)p); return;", "return;")
    table("int", "v_expect", "int m", lambda n: f"return {P}MessageType_{n};", "return -1;")
    L.append(f"""
static int v_mt(const void *p) {{ int t = (int){P}GetMessageType(p); for (int m = 0; m < {len(w.mnames)}; m++) if (v_expect(m) == t) return m; return -1; }}
#define IN(x) {P}DataAccess a = {{ (x)->buffer, (x)->bufferSize, (x)->position }}
#define OUTP(x) (x)->position = a.position
static uint8_t v_size(int m, const void *p, size_t *z, int g) {{ return g ? {P}GetSizeInBytes(p, z) : v_size1(m, p, z); }}
static uint8_t v_write(DA *d, int m, const void *p, bool tag, int g) {{ IN(d); uint8_t e = g ? {P}WriteBytes(&a, p, tag) : v_write1(&a, m, p, tag); OUTP(d); return e; }}
static uint8_t v_read(DA *d, int m, void *p) {{ IN(d); uint8_t e = v_read1(&a, m, p); OUTP(d); return e; }}
static void v_destroy(int m, void *p, int fl) {{ if (fl == 1) {P}Destroy(p); else if (fl == 2) {{ v_cleanup1(m, p); sim_free(p); }} else v_destroy1(m, p); }}
static uint8_t v_proc(DA *d, int32_t max, void ***l, size_t *n) {{ IN(d); uint8_t e = {P}ProcessRawBytes(&a, max, l, n); OUTP(d); return e; }}
static uint8_t v_unpack(DA *d, void ***l, size_t *n) {{ IN(d); uint8_t e = {P}UnpackMessages(&a, l, n); OUTP(d); return e; }}
static uint8_t v_destroylist(void **l, size_t n) {{ return {P}DestroyMessageList(l, n); }}
static uint8_t v_psize(void **l, size_t n, size_t *z) {{ return {P}GetPackedSize(l, n, z); }}
static uint8_t v_pack(void **l, size_t n, DA *d) {{ IN(d); uint8_t e = {P}PackMessages(l, n, &a); OUTP(d); return e; }}
static bool v_finished(const DA *d) {{ IN(d); return {P}IsFinished(&a); }}
extern const World sim_world_{w.name};
const World sim_world_{w.name} = {{ {len(w.mnames)}, v_create, v_copydefault, v_raw, v_mt, v_load, v_refill, v_dump, v_size, v_write, v_read, v_destroy,
    v_proc, v_unpack, v_destroylist, v_psize, v_pack, v_finished }};
""")
    return "\n".join(L).replace("extern int sim_quiet_dummy;\n", "")


def emit_main(worlds):
    L = ['#include "c_runtime.h"']
    for w in worlds:
        L.append(f"extern const World sim_world_{w.name};")
    L.append("const World *sim_worlds[] = {" + ", ".join(f"&sim_world_{w.name}" for w in worlds) + "};")
    L.append(f"const int sim_nworlds = {len(worlds)};")
    return "\n".join(L) + "\n"
