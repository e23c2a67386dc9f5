"""C16 failed or killed generator runs, C17 successful runs under disk faults, C18 determinism. The generator is the real command line tool;
the operating system's answers to its file operations are drawn by the simulator through an LD_PRELOAD seam."""
import errno
import json
import os
import select
import shutil
import subprocess

from . import build as B
from .build import HarnessError
from .scen_net import pick_world

GEN = os.path.join(B.HERE, "gen")
ALL_LANGS = ["c", "csharp", "go", "rust", "typescript", "zig", "swift", "assemblyscript"]


def builder(prop, worlds, tmp):
    so = os.path.join(tmp, "shim.so")
    cc = shutil.which("gcc") or shutil.which("cc")
    rc, text = B.run([cc, "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(GEN, "shim.c"), "-ldl"], tmp, B.env(tmp))
    if rc:
        raise HarnessError("shim does not compile: " + text[-500:])
    return {"shim": so, "dir": tmp}


def base_env(argv, scratch):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": scratch, "LANG": "C.UTF-8", "TMPDIR": scratch, "PYTHONDONTWRITEBYTECODE": "1",
         "PYTHONHASHSEED": "0", "PYTHONPATH": B.REPO, "LD_PRELOAD": argv["shim"], "BSIM_REPO": B.REPO, "BSIM_SCRATCH": scratch}
    return e


class GenHost:
    """Controls one fork server."""

    def __init__(self, pool, name):
        self.argv = pool.argv
        self.scratch = os.path.join(pool.argv["dir"], f"g{os.getpid()}")
        os.makedirs(self.scratch, exist_ok=True)
        a, b = os.pipe()
        c, d = os.pipe()
        self.inp, self.out = b, c
        self.err = open(os.path.join(self.argv["dir"], f"h{os.getpid()}{name}.err"), "wb")
        self.p = subprocess.Popen([B.python(), os.path.join(GEN, "genhost.py"), str(a), str(d)], pass_fds=(a, d), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=self.err, env=base_env(self.argv, self.scratch), cwd=self.argv["dir"],
                                  start_new_session=True)
        os.close(a)
        os.close(d)
        self.buf = b""
        self.atimport, self.looked = None, set()
        self.poll = select.poll()
        self.poll.register(c, select.POLLIN | select.POLLHUP)
        l = self.line()
        self.atimport, self.looked = frozenset(self.looked), set()
        if l != "R":
            raise HarnessError(f"generator host did not start: {l} {open(self.err.name).read()[-600:]}")

    def line(self, timeout=60):
        while b"\n" not in self.buf:
            if not self.poll.poll(timeout * 1000):
                return None
            d = os.read(self.out, 1 << 16)
            if not d:
                return ""
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        if l.startswith(b"V "):
            self.looked.add(l[2:].decode("utf-8", "replace"))
            return self.line(timeout)
        return l.decode("utf-8", "replace")

    def begin(self, argvs, cwd, seed, tag, env=None):
        d = os.path.join(self.scratch, "io")
        os.makedirs(d, exist_ok=True)
        self.stdout, self.stderr = f"{d}/stdout{tag}", f"{d}/stderr{tag}"
        req = {"argvs": argvs, "cwd": cwd, "scratch": self.scratch, "seed": seed, "stdout": self.stdout, "stderr": self.stderr, "env": env or {}}
        os.write(self.inp, (json.dumps(req) + "\n").encode())
        return self.event()

    def reply(self, action):
        os.write(self.inp, (action + "\n").encode())
        return self.event()

    def event(self):
        l = self.line()
        if l is None:
            return ("hang",)
        if l == "":
            raise HarnessError("generator host died: " + open(self.err.name).read()[-600:])
        f = l.split(" ", 3)
        if f[0] == "C":
            p = f[3]
            p = p.replace(self.scratch + "/", "") if p.startswith(self.scratch + "/") else p.replace(B.REPO, "repo:") if p.startswith(B.REPO) else p
            return ("call", f[1], int(f[2]), p)
        return ("exit", int(f[1]), int(f[2]))

    def stop(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()
        os.close(self.inp)
        os.close(self.out)
        self.err.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


def host(sim, name="A"):
    aux = sim.pool.aux
    if name not in aux:
        aux[name] = GenHost(sim.pool, name)
    return aux[name]


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = b""
        for x in fs:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def fresh_dir(h):
    d = os.path.join(h.scratch, "w")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


COMMENT = "# Protokoll für Tests — 語 😀\n"


def draw_case(sim, langs=ALL_LANGS):
    """A protocol text, a language and options."""
    c = sim.c
    w = sim.worlds[pick_world(sim)]
    lang = c.pick(langs)
    text = w.toml()
    opts = []
    if c.chance(1, 3):
        text = COMMENT + text
        opts.append("--embed-protocol")
    if c.chance(1, 4):
        opts += ["--namespace", c.pick(["Other", "renamed_ns", "Xy"])]
    if c.chance(1, 4):
        opts += ["--indent", c.pick(["  ", "\t", "      "])]
    if lang == "go" and c.chance(1, 4):
        opts.append("--go-no-rename")
    if lang == "rust" and c.chance(1, 4):
        opts.append("--rust-no-rename")
    if lang == "typescript" and c.chance(1, 4):
        opts.append("--typescript-use-namespace")
    return text.encode(), lang, opts


USUAL = {"COLUMNS", "LINES", "LANGUAGE", "LANG", "HOME", "PATH", "TMPDIR", "TEMP", "TMP", "TZ", "USER", "TERM", "SOURCE_DATE_EPOCH", "LD_PRELOAD"}
SETTINGS = [b"", b"1", b"\t", b"{}", b'{"indent": "\\t", "namespace": "Zz", "lang": "go"}', b'indent = "\\t"\nnamespace = "Zz"\n', b'[beschi]\nindent = \\t\nnamespace = Zz\n',
            b'[tool.beschi]\nindent = "\\t"\nnamespace = "Zz"\n', b"--indent\n\t\n", b"\xff\xfe\x00"]


def baseline(sim, text, lang, opts, stdout=False):
    """(status, bytes, calls) of an undisturbed run."""
    cache = sim.pool.aux.setdefault("cache", Cache())
    key = (text, lang, tuple(opts), stdout)
    if key not in cache.d:
        h = host(sim)
        d = fresh_dir(h)
        put(f"{d}/protocol.toml", text)
        h.looked = set(h.atimport)
        ev = h.begin([["--lang", lang, "--protocol", "protocol.toml"] + opts + ([] if stdout else ["--output", "out.gen"])], d, 1, "b")
        calls = []
        while ev[0] == "call":
            calls.append(ev)
            ev = h.reply("k")
        if ev[0] == "hang":
            sim.fail("hang", f"the generator does not finish: --lang {lang} {' '.join(opts)}, protocol\n{text.decode('utf-8', 'replace')[:1500]}")
        ok = ev[1] == 0
        data = None
        if ok:
            p = h.stdout if stdout else f"{d}/out.gen"
            data = open(p, "rb").read() if os.path.exists(p) else b""
        if len(cache.d) > 400:
            cache.d.clear()
        names = sorted({x[3] for x in calls if x[1] in ("open", "stat") and not x[3].startswith(("repo:", "io/", "/")) and x[3] not in ("w", "w/", "w/protocol.toml", "w/out.gen", "<stdout>")}
                       - {x[3] for x in calls if x[1] not in ("open", "stat", "read", "fstat", "close")})
        looked = sorted(v for v in h.looked if v not in USUAL and not v.startswith(("LC_", "PYTHON", "BSIM")))
        cache.d[key] = (ev[1], data, calls, open(h.stderr, "rb").read()[-600:], names, looked)
    return cache.d[key]


class Cache:
    def __init__(self):
        self.d = {}

    def stop(self):
        self.d = {}


HARM = {"open": ["EIO", "EACCES", "EMFILE", "ENFILE", "ENOENT", "ENOMEM", "ELOOP", "ESTALE", "EPERM", "ENOTDIR", "ETIMEDOUT"],
        "openw": ["EIO", "EACCES", "EMFILE", "EROFS", "ENOSPC", "EDQUOT", "EPERM", "ETXTBSY", "EISDIR", "ESTALE", "EBUSY"],
        "read": ["EIO", "ENOMEM", "ESTALE", "EISDIR", "ETIMEDOUT"],
        "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPIPE", "EPIPE", "EAGAIN", "EPERM", "ENXIO", "ESTALE", "ECONNRESET"],
        "close": ["EIO"], "closew": ["EIO", "ENOSPC", "EDQUOT", "ESTALE", "EBADF"],
        "fstat": ["EIO", "ENOMEM", "EOVERFLOW", "EBADF"], "stat": ["EIO", "EACCES", "ENOENT", "ELOOP"], "fsync": ["EIO", "EINVAL", "ENOSPC"], "truncate": ["EIO"], "rename": ["EIO", "ENOSPC"],
        "unlink": ["EIO"], "mkdir": ["ENOSPC"], "chmod": ["EIO"], "link": ["EIO"], "chown": ["EIO"], "rmdir": ["EIO"]}


def output_side(path, proto="w/protocol.toml"):
    """Operations on the destination or on helper files in the working area, as opposed to inputs."""
    return path == "<stdout>" or not (path == proto or path.startswith("repo:"))


def drive(sim, h, ev, decide):
    """Runs a generator process to its end. decide(i, op, n, path) -> action. Returns (status, signal, calls)."""
    calls = []
    while ev[0] == "call":
        i = len(calls)
        _, op, n, path = ev
        calls.append(ev)
        sim.now += 50
        if op.startswith("outside-"):
            sim.fail("outside", f"the generator tries to change {path} ({op[8:]}), which is not its output")
        sim.check(i < 20000, "hang", "the generator keeps issuing file operations without finishing")
        act = decide(i, op, n, path)
        if act != "k":
            sim.event(f"call {i}: {op} {path} {n} -> {act}")
        ev = h.reply(act)
    if ev[0] == "hang":
        h.stop()
        sim.pool.aux.pop("A", None)
        sim.fail("hang", f"the generator does not finish; last operation {calls[-1] if calls else 'none'}")
    sim.event(f"exit status {ev[1]} signal {ev[2]} after {len(calls)} file operations")
    sim.h.update(repr([x[1:] for x in calls]).encode())
    return ev[1], ev[2], calls


def harmful(sim, op, n, path):
    """Draws one harmful outcome for an operation."""
    c = sim.c
    if op == "write" and n > 1 and c.chance(1, 3):
        sim.fault("killed inside a write")
        return f"w {c.draw(n)}"
    if c.chance(1, 3):
        k = c.draw(3)
        if k < 2 and op in ("open", "openw", "read", "write", "close", "closew", "fsync"):
            sim.fault(("interrupted by the user at " if k else "terminated at ") + op)
            return "ti"[k]
        sim.fault("killed before " + op)
        return "x"
    es = HARM.get(op)
    if not es:
        sim.fault("killed before " + op)
        return "x"
    e = c.pick(es)
    sim.fault(f"{e} on {op}")
    return f"e {getattr(errno, e)}"


def legal(sim, op, n):
    """Draws something the operating system may do to a healthy program."""
    c = sim.c
    if op in ("read", "write") and n > 1 and c.chance(1, 6):
        sim.fault("short " + op)
        return f"s {c.pick([1, 1 + c.draw(n), 1 + c.draw(min(n, 16))])}"
    if op in ("read", "write", "open", "openw", "fsync") and c.chance(1, 12):
        sim.fault("EINTR on " + op)
        return f"e {errno.EINTR}"
    return "k"


def mutate_toml(sim, text):
    """A protocol file that was torn, corrupted or badly edited."""
    c = sim.c
    t = bytearray(text)
    k = c.draw(8)
    lines = text.split(b"\n")
    if k == 0:
        sim.fault("protocol file truncated")
        return bytes(t[:c.draw(len(t))])
    if k == 1:
        i = c.draw(len(t))
        t[i] ^= 1 << c.draw(8)
        sim.fault("protocol file bit flipped")
        return bytes(t)
    if k == 2:
        i = c.draw(len(lines))
        sim.fault("protocol line lost")
        return b"\n".join(lines[:i] + lines[i + 1:])
    if k == 3:
        i = c.draw(len(lines))
        sim.fault("protocol line duplicated")
        return b"\n".join(lines[:i + 1] + lines[i:])
    if k == 4:
        i, j = c.draw(len(lines)), c.draw(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
        sim.fault("protocol lines swapped")
        return b"\n".join(lines)
    if k == 5:
        i = c.draw(len(t))
        sim.fault("zero-filled sector in the protocol file")
        t[i:i + 64] = bytes(len(t[i:i + 64]))
        return bytes(t)
    w = sim.worlds[pick_world(sim)]
    st = [x for x in w.structs]
    if k == 6 and st:
        # structs that come to contain each other
        sim.fault("protocol edited into a cycle")
        t2 = w.toml()
        names = c.shuffle(st)[:1 + c.draw(3)]
        for i, n in enumerate(names):
            t2 = t2.replace(f'_name = "{n}"\n', f'_name = "{n}"\nloop{i} = "{names[(i + 1) % len(names)]}"\n', 1)
        return t2.encode()
    sim.fault("protocol refers to a missing type")
    ts = [b'"byte"', b'"string"', b'"uint16"', b'"int32"', b'"float"']
    x = c.pick(ts)
    return text.replace(x, b'"NoSuchType"', 1)


def old_output(sim, d, lang):
    """What is at the destination before the run."""
    c = sim.c
    k = c.draw(3)
    if k == 0:
        return None
    old = b"// previous output\n" * (1 + c.draw(3000)) if k == 1 else b"old"
    put(f"{d}/out.gen", old)
    return old


def setup(sim, h, text):
    c = sim.c
    d = fresh_dir(h)
    put(f"{d}/protocol.toml", text)
    for f in ("out.gen.bak", "other.gen", ".hidden", "protocol.toml~"):
        if c.chance(1, 3):
            put(f"{d}/{f}", f"bystander {f}".encode())
    old = old_output(sim, d, None)
    return d, old


def verdict(sim, what, d, before, old, text, base, status, sig, harmed_output, any_harm, stdout=None):
    """The oracle shared by C16 and C17."""
    after = tree(d)
    now = after.get("out.gen")
    bst, bdata = base[0], base[1]
    sim.check(after.get("protocol.toml") == text, "touched", f"{what}: the protocol file itself was changed")
    for f, v in before.items():
        if f not in ("out.gen", "protocol.toml"):
            sim.check(after.get(f) == v, "touched", f"{what}: the unrelated file {f} was changed or removed")
    if status == 0 and sig == 0:
        sim.check(bst == 0, "success", lambda: f"{what}: exit status 0 for a run that fails when undisturbed ({base[3].decode('utf-8', 'replace')[-200:]})")
        got = open(stdout, "rb").read() if stdout else now
        sim.check(got is not None, "success", f"{what}: exit status 0 and there is no output")
        sim.check(got == bdata, "success", lambda: f"{what}: exit status 0 and the output is {diff(got, bdata)}")
        extra = [f for f in after if f not in before and f != "out.gen"]
        sim.check(not extra, "touched", lambda: f"{what}: files left behind by a successful run: {extra[:4]}")
        if stdout:
            sim.check(now == old, "touched", f"{what}: a run that prints to standard output changed out.gen")
    else:
        if stdout or not harmed_output:
            ok = now == old or (not stdout and bst == 0 and now == bdata)
            sim.check(ok, "atomic", lambda: f"{what}: the run failed (status {status}, signal {sig}) before its output was complete, and the existing output is gone: {diff(now, old) if old is not None else f'{len(now)} bytes where there was no file'}")
        if sig not in (9, 15) and not harmed_output and not stdout and now in (None, old):      # who is killed outright cannot tidy up
            extra = [f for f in after if f not in before and f != "out.gen"]
            sim.check(not extra, "touched", lambda: f"{what}: the run failed (status {status}, signal {sig}) before it wrote any output and leaves these files behind: {extra[:4]}")
        if not any_harm:
            sim.check(bst != 0, "legal", lambda: f"{what}: the run failed (status {status}) although nothing went wrong that the operating system may not do at any time")


def diff(a, b):
    if a is None:
        return "missing"
    if b is None:
        return f"{len(a)} bytes where there should be none"
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{len(a)} bytes instead of {len(b)}, different from byte {i}: {a[i:i + 60]!r} instead of {b[i:i + 60]!r}"


def rerun(sim, h, argv, d, base, stdout):
    """Afterwards, undisturbed, the same command works."""
    st, sg, _ = drive(sim, h, h.begin([argv], d, 7, "r"), lambda *a: "k")
    sim.check((st == 0) == (base[0] == 0), "recovery", f"the same command run again, undisturbed, exits with {st}")
    if st == 0:
        p = h.stdout if stdout else f"{d}/out.gen"
        got = open(p, "rb").read() if os.path.exists(p) else None
        sim.check(got == base[1], "recovery", lambda: f"the same command run again, undisturbed, writes {diff(got, base[1])}")


def interrupted(sim):
    """C16: the generator fails or is killed while it reads its inputs or works; or the protocol itself is damaged."""
    c = sim.c
    text, lang, opts = draw_case(sim)
    damaged = c.chance(2, 5)
    if damaged:
        text = mutate_toml(sim, text)
    base = baseline(sim, text, lang, opts)
    h = host(sim)
    d, old = setup(sim, h, text)
    before = tree(d)
    argv = ["--lang", lang, "--protocol", "protocol.toml", "--output", "out.gen"] + opts
    if c.chance(1, 4):
        argv = [x if x not in ("protocol.toml", "out.gen") else f"{d}/{x}" for x in argv]
    ins = [i for i, x in enumerate(base[2]) if not output_side(x[3])]
    target = -1
    if not damaged or c.chance(1, 3):
        target = c.pick(ins) if ins else -1
    st = {"harm": False, "out": False, "big": False}
    what = f"--lang {lang} {' '.join(opts)}"

    def decide(i, op, n, path):
        if i == target and not output_side(path):
            st["harm"] = True
            sim.order(f"{lang}{i}{op}")
            # a second harmful event somewhere later, now and then
            return harmful(sim, op, n, path)
        a = legal(sim, op, n) if c.chance(1, 2) else "k"
        return a
    sim.event(f"{what}: {len(text)} bytes of protocol{' (damaged)' if damaged else ''}, output {'absent' if old is None else f'{len(old)} bytes'}; undisturbed: status {base[0]}, {len(base[2])} operations")
    status, sig, calls = drive(sim, h, h.begin([argv], d, 1 + c.draw(1000), "m"), decide)
    if status != 0 and base[0] != 0:
        sim.probe("damaged protocol refused")
    verdict(sim, what, d, before, old, text, base, status, sig, False, st["harm"])
    rerun(sim, h, argv, d, base, None)
    sim.order(f"{lang}{base[0]}{damaged}{target}")
    sim.trivial = not sim.faults


def disk_faults(sim):
    """C17: anything may go wrong anywhere, in particular at the destination; exit status 0 means the complete output is there."""
    c = sim.c
    text, lang, opts = draw_case(sim)
    stdout = c.chance(1, 4)
    base = baseline(sim, text, lang, opts, stdout)
    sim.check(base[0] == 0, "success", lambda: f"--lang {lang} {' '.join(opts)}: an undisturbed run exits with {base[0]}: {base[3].decode('utf-8', 'replace')[-300:]}")
    h = host(sim)
    d, old = setup(sim, h, text)
    before = tree(d)
    argv = ["--lang", lang, "--protocol", "protocol.toml"] + ([] if stdout else ["--output", "out.gen"]) + opts
    st = {"harm": False, "out": False}
    plan = c.pick(["one output", "one any", "legal only", "several"])
    outs = [i for i, x in enumerate(base[2]) if output_side(x[3])]
    target = set()
    if plan == "one output" and outs:
        target = {c.pick(outs)}
    elif plan == "one any":
        target = {c.draw(len(base[2]) + 1)}
    elif plan == "several":
        target = {c.draw(len(base[2]) + 4) for _ in range(2 + c.draw(3))}
    noisy = plan == "legal only" or c.chance(1, 2)
    quota = c.draw(len(base[1]) + 1) if c.chance(1, 5) and plan != "legal only" else None
    room = [quota]
    what = f"--lang {lang} {' '.join(opts)}{' to standard output' if stdout else ''}"
    sim.event(f"{what}: plan {plan} {sorted(target)}, space {quota}; undisturbed: {len(base[2])} operations, {len(base[1])} bytes")

    def decide(i, op, n, path):
        if room[0] is not None and op == "write":
            if n > room[0]:
                st["harm"] = st["out"] = True
                sim.fault("disk full")
                k = room[0]
                room[0] = 0
                sim.order(f"full{i}")
                return f"s {k}" if k else f"e {errno.ENOSPC}"
            room[0] -= n
        if i in target:
            st["harm"] = True
            if output_side(path):
                st["out"] = True
            sim.order(f"{lang}{i}{op}")
            return harmful(sim, op, n, path)
        return legal(sim, op, n) if noisy else "k"
    status, sig, calls = drive(sim, h, h.begin([argv], d, 1 + c.draw(1000), "m"), decide)
    if status == 0:
        sim.probe("run succeeded in spite of what happened" if sim.faults else "undisturbed success")
    verdict(sim, what, d, before, old, text, base, status, sig, st["out"], st["harm"], h.stdout if stdout else None)
    rerun(sim, h, argv, d, base, stdout)
    sim.order(f"{lang}{plan}{stdout}")
    sim.trivial = not sim.faults


# ------------------------------------------------------------------ C18
def environments(sim):
    extra = []
    try:
        rebuilt_elsewhere(sim, extra)
    finally:
        for x in extra:
            if os.path.exists(x):
                os.unlink(x)


def rebuilt_elsewhere(sim, extra):
    """The same protocol generated in fresh processes whose environment differs in everything that should not matter."""
    c = sim.c
    text, lang, opts = draw_case(sim)
    base = baseline(sim, text, lang, opts)
    sim.check(base[0] == 0, "deterministic", lambda: f"--lang {lang} {' '.join(opts)} exits with {base[0]}: {base[3].decode('utf-8', 'replace')[-300:]}")
    h = host(sim)
    for k in range(1 + c.draw(2)):
        d = fresh_dir(h)
        for x in extra:
            if os.path.exists(x):
                os.unlink(x)
        extra.clear()
        sub = c.pick(["", "a/b", "deep/er/dir"])
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        put(f"{d}/protocol.toml", text)
        cwd = c.pick([d, os.path.join(d, sub), h.scratch])
        pp, op = f"{d}/protocol.toml", os.path.join(d, sub, "out.gen")
        if c.chance(1, 2):
            pp, op = os.path.relpath(pp, cwd), os.path.relpath(op, cwd)
        seed = c.draw(1 << 30)
        e = base_env(sim.pool.argv, h.scratch)
        e.update(BSIM_SEED=str(seed), PYTHONHASHSEED=str(c.draw(1 << 16)), TZ=c.pick(["UTC", "Asia/Tokyo", "America/St_Johns"]))
        for v in ("LANG",):
            e.pop(v)
        loc = c.pick(["C.UTF-8", "C", "POSIX", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1"])
        e[c.pick(["LC_ALL", "LANG", "LC_CTYPE"])] = loc
        if c.chance(1, 3):
            e.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        if c.chance(1, 3):
            e["COLUMNS"] = str(20 + c.draw(200))
        if c.chance(1, 4):
            e["PYTHONOPTIMIZE"] = c.pick(["1", "2"])
        if c.chance(1, 4):
            e["USER"] = "someone"
            e["SOURCE_DATE_EPOCH"] = str(c.draw(1 << 30))
        if cwd != h.scratch and c.chance(1, 3):      # files that happen to be where the generator is started
            for f, b in (("boilerplate", None), ("writers", None), ("C.0.h", b"x"), ("pyproject.toml", b"[tool.beschi]\nindent = 7\n"), ("beschi.toml", b"[meta]\nnamespace = \"Elsewhere\"\n"), (".beschi", b"x"), ("out.gen.tmp", b"x")):
                if b is None:
                    os.makedirs(os.path.join(cwd, f), exist_ok=True)
                else:
                    put(os.path.join(cwd, f), b)
            sim.fault("other files in the working directory")
        # whatever else the generator looks for is there
        if base[5] and c.chance(1, 2):
            v = c.pick(base[5])
            e[v] = c.pick(["1", "0", "true", "\t", "  ", "Zz", "/nonexistent", "utf-16", ""])
            sim.fault("a variable that the generator looks at is set")
        if base[4] and c.chance(1, 2):
            x = c.pick(base[4])
            x = os.path.join(cwd, x[2:]) if x.startswith("w/") else os.path.join(h.scratch, x)
            if not os.path.exists(x):
                os.makedirs(os.path.dirname(x), exist_ok=True)
                put(x, c.pick(SETTINGS))
                extra.append(x)
                sim.fault("a file that the generator looks for is there")
        if c.chance(1, 3):
            put(op if os.path.isabs(op) else os.path.join(cwd, op), b"older and much longer output\n" * c.draw(3000))
            sim.fault("destination already there")
        if c.chance(1, 3):
            pl = os.path.join(d, "link.toml")
            os.symlink(f"{d}/protocol.toml", pl)
            pp = pl if os.path.isabs(pp) else os.path.relpath(pl, cwd)
            sim.fault("protocol reached through a link")
        if c.chance(1, 3):
            os.utime(f"{d}/protocol.toml", (c.draw(1 << 31), c.draw(1 << 31)))
        if c.chance(1, 3):
            e["HOME"] = c.pick(["/nonexistent", d, ""])
        um = c.pick([0o022, 0o077, 0, 0o027])
        order = c.shuffle([["--lang", lang], ["--protocol", pp], ["--output", op], opts])
        cmd = [B.python(), "-m", "beschi"] + [x for o in order for x in o]
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, umask=um)
        except subprocess.TimeoutExpired:
            sim.fail("hang", f"{' '.join(cmd[2:])} does not finish")
        sim.fault("directory order, clock and random bytes redrawn")
        sim.fault("hash seed changed")
        sim.fault("locale " + loc)
        sim.order(f"{lang}{seed}")
        sim.now += 200000
        sim.event(f"--lang {lang} {' '.join(opts)} with seed {seed}, locale {loc}: status {p.returncode}")
        sim.check(p.returncode == 0, "deterministic", lambda: f"--lang {lang} {' '.join(opts)} fails in locale {loc} with directory order and hash seed {seed}: {p.stderr.decode('utf-8', 'replace')[-300:]}")
        o = os.path.join(d, sub, "out.gen")
        got = open(o, "rb").read() if os.path.exists(o) else None
        sim.check(got == base[1], "deterministic", lambda: f"--lang {lang} {' '.join(opts)} writes something else in another environment (locale {loc}): {diff(got, base[1])}")
    sim.trivial = False


def histories(sim):
    """A long-lived process (a build tool) calls the generator again and again for different protocols, languages and options, some of them
    failing; each output is what a fresh process writes."""
    c = sim.c
    h = host(sim)
    cases = [draw_case(sim) for _ in range(1 + c.draw(3))]
    if c.chance(1, 2):
        # the same protocol in several languages, and the same language for several protocols
        t, l, o = cases[0]
        cases += [(t, x, [y for y in o if not y.startswith(("--go", "--rust", "--typescript"))]) for x in c.shuffle(ALL_LANGS)[:2]]
        cases += [(x[0], l, []) for x in cases[1:2]]
    bad = [mutate_toml(sim, cases[0][0])] if c.chance(1, 3) else []
    seq = [c.draw(len(cases) + len(bad)) for _ in range(2 + c.draw(5))]
    cases += [(b, c.pick(ALL_LANGS), []) for b in bad]
    bases = {i: baseline(sim, *cases[i]) for i in sorted(set(seq))}
    d = fresh_dir(h)
    argvs = []
    if len(seq) == 1:
        seq = seq * 2
    edited = c.chance(1, 2)        # one file, edited between the runs, or one file per protocol
    for k, i in enumerate(seq):
        t, l, o = cases[i]
        if not edited:
            put(f"{d}/p{i}.toml", t)
        argvs.append(["--lang", l, "--protocol", "protocol.toml" if edited else f"p{i}.toml", "--output", f"o{k}.gen"] + o)
    stamp = c.draw(1 << 30)

    def between(i, op, n, path):
        name = path.rsplit("/", 1)[-1]
        if name.startswith("__run"):
            if edited and op.startswith("open"):
                put(f"{d}/protocol.toml", cases[seq[int(name[5:])]][0])
                os.utime(f"{d}/protocol.toml", (stamp, stamp))
                sim.fault("protocol edited between two runs of one process")
            return "k"
        return legal(sim, op, n) if c.chance(1, 4) else "k"
    sim.event(f"one process runs {[(cases[i][1], len(cases[i][0]), bases[i][0]) for i in seq]}")
    status, sig, calls = drive(sim, h, h.begin(argvs, d, 1 + c.draw(1000), "m"), between)
    sim.fault("generator used again in the same process", len(argvs) - 1)
    after = tree(d)
    for k, i in enumerate(seq):
        b = bases[i]
        got = after.get(f"o{k}.gen")
        if b[0] == 0:
            sim.check(got == b[1], "deterministic", lambda: f"run {k} of {len(seq)} in one process ({' '.join(argvs[k])}) writes {diff(got, b[1])}; earlier runs were {[cases[x][1] for x in seq[:k]]}")
        else:
            sim.check(got is None, "deterministic", lambda: f"run {k} in one process fails in a fresh one but leaves output here")
    sim.order(str([(cases[i][1], hash_(cases[i][0])) for i in seq]))
    sim.trivial = False


def hash_(b):
    import hashlib
    return hashlib.blake2b(b, digest_size=4).hexdigest()


def concurrent(sim):
    """A parallel build: several generator processes work in one directory, every file operation scheduled by the simulator; some are killed,
    and the protocol may be replaced (by rename) while they run. Each survivor's output is complete and belongs to one protocol version."""
    c = sim.c
    text, lang, opts = draw_case(sim)
    hs = ["A", "B", "C"][:2 + c.draw(2)]
    langs = [lang] + [c.pick(ALL_LANGS) for _ in hs[1:]]
    optl = [opts] + [["--embed-protocol"] if c.chance(1, 2) else [] for _ in hs[1:]]
    text2, _, _ = draw_case(sim)
    replace = c.chance(1, 2)
    bases = [[baseline(sim, t, l, o) for t in (text, text2)] for l, o in zip(langs, optl)]
    h0 = host(sim)
    d = fresh_dir(h0)
    put(f"{d}/protocol.toml", text)
    procs = []
    for i, (n, l, o) in enumerate(zip(hs, langs, optl)):
        h = host(sim, n)
        ev = h.begin([["--lang", l, "--protocol", "protocol.toml", "--output", f"out{i}.gen"] + o], d, 1 + c.draw(1000), "c" + n)
        procs.append({"h": h, "ev": ev, "i": i, "calls": 0, "killed": False, "st": None})
    sim.event(f"{len(hs)} generators at once: {list(zip(langs, optl))}, protocol replaced meanwhile: {replace}")
    steps = 0
    swap_at = c.draw(60) if replace else -1
    swapped = False
    while True:
        act = [p for p in procs if p["ev"][0] == "call"]
        if not act:
            break
        steps += 1
        sim.check(steps < 60000, "hang", "the generators do not finish")
        if steps == swap_at:
            put(f"{d}/protocol.tmp", text2)
            os.rename(f"{d}/protocol.tmp", f"{d}/protocol.toml")
            swapped = True
            sim.fault("protocol replaced while generators run")
            sim.order("swap")
        p = c.pick(act)
        sim.now += 20
        _, op, n, path = p["ev"]
        if op.startswith("outside-"):
            sim.fail("outside", f"the generator tries to change {path} ({op[8:]}), which is not its output")
        sim.order(f"{p['i']}{op}")
        p["calls"] += 1
        if c.chance(1, 250):
            p["killed"] = True
            sim.fault("one generator killed")
            p["ev"] = p["h"].reply("x")
        else:
            p["ev"] = p["h"].reply(legal(sim, op, n) if c.chance(1, 4) else "k")
    after = tree(d)
    for p in procs:
        if p["ev"][0] == "hang":
            sim.fail("hang", "a generator does not finish")
        i = p["i"]
        sim.event(f"generator {i} ({langs[i]}): status {p['ev'][1]} signal {p['ev'][2]} after {p['calls']} operations")
        if p["killed"]:
            continue
        got = after.get(f"out{i}.gen")
        want = [b[1] for b in (bases[i] if swapped else bases[i][:1])]
        sim.check(p["ev"][1] == 0, "deterministic", lambda: f"--lang {langs[i]} fails with status {p['ev'][1]} when other generators run at the same time: {open(p['h'].stderr, errors='replace').read()[-300:]}")
        sim.check(got in want, "deterministic", lambda: f"--lang {langs[i]} run alongside others writes {diff(got, want[0])}" + (" and matches neither protocol version" if swapped else ""))
    extra = [f for f in after if f not in ("protocol.toml", "protocol.tmp") and not (f.startswith("out") and f.endswith(".gen"))]
    if not any(p["killed"] for p in procs):
        sim.check(not extra, "touched", lambda: f"files left behind: {extra[:4]}")
    sim.fault("generator preempted at a file operation", steps)
    sim.trivial = steps < 5
