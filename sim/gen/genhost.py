"""Hosts the generator: a fork server. Each request forks a pristine interpreter that runs `python -m beschi` to its natural end, with the
shim between it and the operating system."""
import ctypes
import json
import os
import signal
import sys

CIN, COUT = int(sys.argv[1]), int(sys.argv[2])


def noted(real):
    def get(self, key):
        k = key if isinstance(key, str) else repr(key)
        if "\n" not in k and len(k) < 200 and CIN >= 0:
            os.write(COUT, b"V " + k.encode("utf-8", "replace") + b"\n")
        return real(self, key)
    return get


os._Environ.__getitem__ = noted(os._Environ.__getitem__)      # which variables the generator looks at
import runpy
import traceback, locale, encodings.utf_8, encodings.ascii, linecache, tempfile, re, shutil, argparse   # loaded before the seam goes up
import beschi.cli
lib = ctypes.CDLL(None)
os.write(COUT, b"R\n")
buf = b""
req = None
while True:
    while b"\n" not in buf:
        d = os.read(CIN, 65536)
        if not d:
            os._exit(0)
        buf += d
    line, buf = buf.split(b"\n", 1)
    req = json.loads(line)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        break
    _, st = os.waitpid(pid, 0)
    os.write(COUT, b"E %d %d\n" % (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1, os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0))

# ---- the child: from here on this is the generator's process
for fd, path in ((1, req["stdout"]), (2, req["stderr"])):
    f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(f, fd)
    os.close(f)
n = os.open("/dev/null", os.O_RDONLY)
os.dup2(n, 0)
os.close(n)
os.chdir(req["cwd"])
signal.signal(signal.SIGINT, signal.default_int_handler)      # as in a shell, however this host was started
signal.signal(signal.SIGTERM, signal.SIG_DFL)
os.environ.update(req.get("env", {}))
lib.bsim_scratch(req["scratch"].encode())
lib.bsim_enable(CIN, COUT, ctypes.c_ulonglong(req["seed"]))
if len(req["argvs"]) == 1:
    sys.argv = ["beschi"] + req["argvs"][0]
    runpy.run_module("beschi", run_name="__main__", alter_sys=True)
else:
    # a build tool that imports the generator and calls it repeatedly
    for k, a in enumerate(req["argvs"]):
        try:
            os.close(os.open(f"__run{k}", os.O_RDONLY))       # lets the simulator act between two runs
        except OSError:
            pass
        sys.argv = ["beschi"] + a
        try:
            beschi.cli.main()
        except SystemExit as e:
            if e.code not in (None, 0):
                sys.stderr.write(f"exit {e.code}\n")
        except Exception:
            traceback.print_exc()
