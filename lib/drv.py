"""Client of the instrumented driver process (harness/driver.cpp)."""
import json, os, select, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as _build

ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=1:handle_abort=0:symbolize=1:print_scariness=0:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0",
    "LC_ALL": "C", "LANG": "C",
}


class LibError(Exception):
    """The library reported an error through an exception."""
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Crash(Exception):
    """The process running the library died (sanitizer report, signal, hang)."""
    def __init__(self, what, report, cmd):
        Exception.__init__(self, what)
        self.what, self.report, self.cmd = what, report, cmd


class HarnessError(Exception):
    pass


NAN = float("nan")


def _enc(o):
    return json.dumps(o, allow_nan=True, separators=(",", ":"))


class Driver(object):
    def __init__(self, kind="asan", exe=None, timeout=150.0, prefix=(), env=None):
        self.env = dict(env or {})
        self.exe = exe or _build.build(kind)
        self.prefix = list(prefix)
        self.timeout = timeout
        self.log = []          # every command sent to the live process
        self.ncmd = 0
        self.p = None
        self.start()

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ)
        env.update(ENV)
        env.update(self.env)
        self.p = subprocess.Popen(self.prefix + [self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd=tempfile.gettempdir(), bufsize=1 << 16)
        self.log = []
        self.buf, self.scan, self.hung = bytearray(), 0, False

    def restart(self):
        self.close()
        self.start()

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for s in (self.p.stdin, self.p.stdout):
                try:
                    s.close()
                except OSError:
                    pass
            self.err.close()
            self.p = None

    def _report(self):
        self.err.flush()
        n = os.fstat(self.err.fileno()).st_size
        self.err.seek(max(0, n - 400000))
        t = self.err.read().decode(errors="replace")
        for mark in ("==ERROR:", "runtime error:", "WARNING: ThreadSanitizer", "Assertion '", "uninitialised value", "Invalid read", "Invalid write"):
            k = t.find(mark)
            if k >= 0:
                return t[max(0, k - 200):k + 6000]
        return t[-3000:]

    def _line(self):
        """One reply line, or None when the process ends or does not answer in time."""
        fd = self.p.stdout.fileno()
        end = None
        while True:
            k = self.buf.find(b"\n", self.scan)
            if k >= 0:
                line = bytes(self.buf[:k])
                del self.buf[:k + 1]
                self.scan = 0
                return line
            self.scan = len(self.buf)
            if end is None:
                end = time.monotonic() + self.timeout
            left = end - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                if end - time.monotonic() <= 0:
                    self.hung = True
                    self.p.kill()
                    return None
                continue
            data = os.read(fd, 1 << 16)
            if not data:
                return None
            self.buf += data

    def raw(self, cmds):
        """Send commands (lists); return raw replies.  Raises Crash."""
        self.log.extend(cmds)
        self.ncmd += len(cmds)
        text = b"".join((_enc(c) + "\n").encode("utf-8", "surrogateescape") for c in cmds)

        def feed():
            try:
                self.p.stdin.write(text)
                self.p.stdin.flush()
            except (OSError, ValueError):
                pass
        if len(text) > 30000 and len(cmds) > 1:
            threading.Thread(target=feed, daemon=True).start()
        else:
            feed()
        out = []
        for c in cmds:
            line = self._line()
            if line is None:
                rc = self.p.wait()
                what = "no answer within %gs" % self.timeout if self.hung else "process ended with status %d" % rc
                raise Crash(what, self._report(), c)
            out.append(json.loads(line.decode("utf-8", "surrogateescape")))
        return out

    @staticmethod
    def decode(r, cmd=None):
        if "ok" in r:
            return r["ok"]
        if "err" in r:
            return LibError(*r["err"])
        raise HarnessError("%s for %r" % (r, cmd))

    def batch(self, cmds):
        """Values or LibError instances, one per command."""
        return [self.decode(r, c) for r, c in zip(self.raw(cmds), cmds)]

    def call(self, *cmd):
        r = self.batch([list(cmd)])[0]
        if isinstance(r, LibError):
            raise r
        return r

    def attempt(self, *cmd):
        return self.batch([list(cmd)])[0]
