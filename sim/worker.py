"""Lockstep control of one hosted node process: one request line in, one response line out, nothing runs in between."""
import os
import select
import subprocess
import tempfile


class WorkerDied(Exception):
    def __init__(self, lang, how, detail):
        super().__init__(f"{lang} node {how}: {detail}")
        self.lang, self.how, self.detail = lang, how, detail


class Worker:
    TIMEOUT = 60

    def __init__(self, lang, argv, cwd):
        self.lang, self.argv, self.cwd = lang, argv, cwd
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile(dir=self.cwd)
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.cwd, "LANG": "C.UTF-8",
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:malloc_context_size=3:quarantine_size_mb=16",
             "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=99", "GOTRACEBACK": "none", "GOMAXPROCS": "2", "GOGC": "400",
             "DOTNET_gcServer": "0", "DOTNET_TieredPGO": "0", "DOTNET_CLI_TELEMETRY_OPTOUT": "1", "DOTNET_GCHeapHardLimit": "0x60000000",
             "COMPlus_EnableDiagnostics": "0", "DOTNET_EnableDiagnostics": "0"}
        self.p = subprocess.Popen(self.argv, cwd=self.cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, bufsize=0)
        self.i, self.o = self.p.stdin.fileno(), self.p.stdout.fileno()
        self.buf = b""
        self.poll = select.poll()
        self.poll.register(self.o, select.POLLIN | select.POLLHUP)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            finally:
                self.p.stdin.close()
                self.p.stdout.close()
                self.err.close()
                self.p = None

    def _dead(self, how):
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = None
        self.err.seek(0)
        t = self.err.read()[-200000:].decode("utf-8", "replace")
        keep = [l.strip() for l in t.splitlines() if "ERROR:" in l or "runtime error" in l or "panic" in l or "error" in l.lower()]
        d = f"exit status {rc}; " + " | ".join(keep[:3])[:600]
        self.stop()
        raise WorkerDied(self.lang, how, d)

    def request(self, line):
        return self.requests([line])[0]

    def requests(self, lines):
        """Sends several requests back to back; they are executed strictly in order."""
        if self.p is None:
            self.start()
        out = []
        k = 0
        while k < len(lines):
            batch = []
            n = 0
            while k < len(lines) and (not batch or n + len(lines[k]) < 30000):
                batch.append(lines[k])
                n += len(lines[k]) + 1
                k += 1
            data = ("\n".join(batch) + "\n").encode("ascii")
            try:
                mv = memoryview(data)
                while mv:
                    w = os.write(self.i, mv)
                    mv = mv[w:]
            except BrokenPipeError:
                self._dead("crashed")
            for _ in batch:
                out.append(self._line())
        return out

    def _line(self):
        while True:
            j = self.buf.find(b"\n")
            if j >= 0:
                r = self.buf[:j]
                self.buf = self.buf[j + 1:]
                return r.decode("ascii")
            if not self.poll.poll(self.TIMEOUT * 1000):
                self.p.kill()
                self._dead("hung")
            d = os.read(self.o, 1 << 20)
            if not d:
                self._dead("crashed")
            self.buf += d
