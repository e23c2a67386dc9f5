"""Generates the code for a set of worlds from /repo's working tree and builds one worker executable per target."""
import glob
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from .worlds import World
from .drivers import c, go, csharp, typescript, rust, zig

REPO = os.environ.get("BESCHI_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
DRV = os.path.join(HERE, "drivers")
LANGS = ["c", "csharp", "go", "rust", "typescript", "zig"]
EXT = {"c": "h", "csharp": "cs", "go": "go", "rust": "rs", "typescript": "ts", "zig": "zig"}


class BuildFailure(Exception):
    """The generator or a compiler refused: attributable to the code under test."""

    def __init__(self, lang, world, stage, text):
        super().__init__(f"{lang} {world or ''} {stage}: {text[-1500:]}")
        self.lang, self.world, self.stage, self.text = lang, world, stage, text


class HarnessError(Exception):
    """The machinery itself failed; never a verdict."""


def first(*paths):
    for p in paths:
        if p and os.path.exists(p):
            return p
    return None


def python():
    return first("/opt/venv/bin/python") or shutil.which("python3")


def env(workdir):
    e = {k: v for k, v in os.environ.items() if k in ("LANG", "HOME", "PATH", "TMPDIR", "CARGO_HOME", "RUSTUP_HOME", "GOROOT")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/venv/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["LANG"] = "C.UTF-8"
    e["TMPDIR"] = workdir
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=REPO, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off",
             GOFLAGS="-mod=mod", DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_NOLOGO="1", DOTNET_SKIP_FIRST_TIME_EXPERIENCE="1",
             DOTNET_CLI_HOME=workdir, ZIG_GLOBAL_CACHE_DIR=workdir + "/zigcache", ZIG_LOCAL_CACHE_DIR=workdir + "/zigcache",
             GOCACHE=os.environ.get("SIM_GOCACHE", workdir + "/gocache"))
    return e


def run(cmd, cwd, e, timeout=420):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout.decode("utf-8", "replace")


def generate(w, lang, d, e):
    toml = os.path.join(d, f"{w.name}.toml")
    if not os.path.exists(toml):
        with open(toml, "w", encoding="utf-8") as f:
            f.write(w.toml())
    out = os.path.join(d, f"gen_{w.name}.{EXT[lang]}")
    for attempt in (0, 1):
        rc, text = run([python(), "-m", "beschi", "--lang", lang, "--protocol", toml, "--output", out, *w.args(lang)], d, e)
        if rc == 0 and os.path.exists(out):
            return out
    raise BuildFailure(lang, w.name, "generate", text)


def compile_(cmd, cwd, e, lang, world=None):
    rc, text = run(cmd, cwd, e)
    if rc != 0:   # once more, so that a passing resource problem is not taken for a verdict
        rc, text = run(cmd, cwd, e)
    if rc == 0:
        return
    if rc in (124, 137, -9):
        raise HarnessError(f"compiler killed or timed out: {cmd[:3]} {text[-500:]}")
    raise BuildFailure(lang, world, "compile", text)


C_FLAGS = ["-O1", "-g1", "-std=c11", "-Werror=int-conversion", "-Werror=implicit-function-declaration", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,bool,enum",
           "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def build_c(ws, d, e, pool):
    cc = shutil.which("gcc-13") or "gcc"

    def obj(name, src):
        o = f"{d}/{name}.o"
        compile_([cc, "-D_GNU_SOURCE", *C_FLAGS, f"-I{DRV}", f"-I{d}", "-c", src, "-o", o], d, e, "c", name)
        return o

    def world(w):
        h = generate(w, "c", d, e)
        s = f"{d}/glue_{w.name}.c"
        open(s, "w").write(c.emit(w, os.path.basename(h)))
        return obj(w.name, s)
    open(f"{d}/main.c", "w").write(c.emit_main(ws))
    fs = [pool.submit(world, w) for w in ws] + [pool.submit(obj, "main", f"{d}/main.c"), pool.submit(obj, "rt", f"{DRV}/c_runtime.c")]
    objs = [f.result() for f in fs]
    compile_([cc, *C_FLAGS, *objs, "-o", f"{d}/worker", "-lpthread"], d, e, "c")
    return [f"{d}/worker"]


def build_go(ws, d, e, pool):
    gobin = shutil.which("go", path=e["PATH"])
    rc, v = run([gobin, "env", "GOVERSION"], d, e)
    open(f"{d}/go.mod", "w").write("module sim\n\ngo 1.21\n")
    shutil.copy(f"{DRV}/go_runtime.go", d)

    def world(w):
        os.makedirs(f"{d}/{w.name.lower()}")
        g = generate(w, "go", d, e)
        shutil.move(g, f"{d}/{w.name.lower()}/gen.go")
        open(f"{d}/glue_{w.name}.go", "w").write(go.emit(w))
    list(pool.map(world, ws))
    open(f"{d}/main_worlds.go", "w").write(go.emit_main(ws))
    compile_([gobin, "build", "-o", "worker", "."], d, e, "go")
    return [f"{d}/worker"]


def build_csharp(ws, d, e, pool):
    csc = sorted(glob.glob("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll") + glob.glob("/usr/share/dotnet/sdk/*/Roslyn/bincore/csc.dll"))
    refs = sorted(glob.glob("/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net*/") + glob.glob("/usr/share/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net*/"))
    if not csc or not refs:
        raise HarnessError("no C# compiler found")
    refdir = refs[-1]
    ver = os.path.basename(refdir.rstrip("/"))[3:]
    shutil.copy(f"{DRV}/cs_runtime.cs", d)
    srcs = ["cs_runtime.cs", "glue_main.cs"]

    def world(w):
        g = generate(w, "csharp", d, e)
        open(f"{d}/glue_{w.name}.cs", "w").write(csharp.emit(w))
        return [os.path.basename(g), f"glue_{w.name}.cs"]
    for s in pool.map(world, ws):
        srcs += s
    open(f"{d}/glue_main.cs", "w").write(csharp.emit_main(ws))
    dotnet = shutil.which("dotnet", path=e["PATH"])
    cmd = [dotnet, csc[-1], "-nologo", "-nowarn:CS8632,CS1701,CS1702", "-optimize-", "-out:worker.dll", "-target:exe"]
    cmd += [f"-r:{r}" for r in sorted(glob.glob(refdir + "*.dll"))] + srcs
    compile_(cmd, d, e, "csharp")
    json.dump({"runtimeOptions": {"tfm": f"net{ver}", "framework": {"name": "Microsoft.NETCore.App", "version": f"{ver}.0"},
                                  "configProperties": {"System.GC.Concurrent": False, "System.GC.Server": False}}},
              open(f"{d}/worker.runtimeconfig.json", "w"))
    return [dotnet, f"{d}/worker.dll"]


def build_typescript(ws, d, e, pool):
    shutil.copy(f"{DRV}/ts_runtime.ts", d)

    def world(w):
        g = generate(w, "typescript", d, e)
        if w.opts.get("ts_ns"):     # the namespace is not exported; a project compiles it into one script, here the bundler needs a module
            with open(g, "a", encoding="utf-8") as f:
                f.write(f"\nexport {{ {w.name} }};\n")
        open(f"{d}/glue_{w.name}.ts", "w").write(typescript.emit(w))
    list(pool.map(world, ws))
    open(f"{d}/main.ts", "w").write(typescript.emit_main(ws))
    es = first("/opt/veriftools/node/node_modules/.bin/esbuild") or shutil.which("esbuild")
    compile_([es, "main.ts", "--bundle", "--platform=node", "--format=cjs", "--target=node18", "--log-level=error", "--outfile=worker.js"], d, e, "typescript")
    return [shutil.which("node"), "--max-old-space-size=1024", f"{d}/worker.js"]


def build_rust(ws, d, e, pool):
    shutil.copy(f"{DRV}/rs_runtime.rs", d)

    def world(w):
        generate(w, "rust", d, e)
        open(f"{d}/glue_{w.name}.rs", "w").write(rust.emit(w))
    list(pool.map(world, ws))
    open(f"{d}/main.rs", "w").write(rust.emit_main(ws))
    compile_([shutil.which("rustc", path=e["PATH"]), "--edition", "2021", "-Awarnings", "-C", "debug-assertions=on", "-C", "overflow-checks=on",
              "-C", "codegen-units=8", "-o", "worker", "main.rs"], d, e, "rust")
    return [f"{d}/worker"]


def build_zig(ws, d, e, pool):
    shutil.copy(f"{DRV}/zig_runtime.zig", d)

    def world(w):
        generate(w, "zig", d, e)
        open(f"{d}/glue_{w.name}.zig", "w").write(zig.emit(w))
    list(pool.map(world, ws))
    open(f"{d}/main.zig", "w").write(zig.emit_main(ws))
    compile_([shutil.which("zig", path=e["PATH"]), "build-exe", "main.zig", "-lc", "-femit-bin=worker"], d, e, "zig")
    return [f"{d}/worker"]


def build(langs, worlds, workdir):
    """worlds: list of world dicts. Returns {lang: argv}."""
    ws = [World(x) if isinstance(x, dict) else x for x in worlds]
    e = env(workdir)
    out = {}
    with ThreadPoolExecutor(8) as outer, ThreadPoolExecutor(8) as pool:
        fs = {}
        for lang in langs:
            d = os.path.join(workdir, "b_" + lang)
            os.makedirs(d)
            fs[lang] = outer.submit(globals()["build_" + lang], ws, d, e, pool)
        errs = []
        for lang, f in fs.items():
            try:
                out[lang] = f.result()
            except (BuildFailure, HarnessError) as x:
                errs.append(x)
        for x in sorted(errs, key=lambda x: isinstance(x, HarnessError)):
            raise x
    return out
