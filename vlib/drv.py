"""Client for the fork-server driver."""
import os, shutil, struct, subprocess, tempfile

SHM = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"


class Result:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def crashed(self):
        return self.rc < 0 or self.rc == 77

    def __repr__(self):
        return "Result(rc=%d,\n out=%s,\n err=%s)" % (self.rc, self.out.decode("utf8", "replace"), self.err.decode("utf8", "replace")[-3000:])


class Driver:
    def __init__(self, exe, timeout_ms=20000):
        self.exe = exe
        self.timeout_ms = timeout_ms
        self.p = None
        self.dir = tempfile.mkdtemp(prefix="cg3v-", dir=SHM)
        self.calls = 0

    def _start(self):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8", "HOME": self.dir, "TMPDIR": self.dir,
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:handle_abort=1:symbolize=1:detect_odr_violation=0:detect_stack_use_after_return=0:quarantine_size_mb=16:max_malloc_fill_size=4096:malloc_fill_byte=190",
               "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77:halt_on_error=1"}
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=self.dir)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        if isinstance(data, str):
            data = data.encode("utf8")
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(self.path(name))

    def unlink(self, name):
        try:
            os.unlink(self.path(name))
        except OSError:
            pass

    def run(self, tool, args=(), stdin=b"", timeout_ms=None, under=()):
        """under: directives to the driver such as perturb=N, frag=N, chunk=1,2,3, env=K=V, rand=N"""
        tool = "\x01".join([tool] + list(under))
        if self.p is None:
            self._start()
        if isinstance(stdin, str):
            stdin = stdin.encode("utf8")
        strs = [tool.encode(), stdin] + [a.encode("utf8") if isinstance(a, str) else a for a in args]
        msg = [struct.pack("<II", timeout_ms or self.timeout_ms, len(strs))]
        for s in strs:
            msg.append(struct.pack("<I", len(s)))
            msg.append(s)
        self.p.stdin.write(b"".join(msg))
        self.p.stdin.flush()
        self.calls += 1
        rd = self.p.stdout.read
        h = rd(8)
        if len(h) != 8:
            raise RuntimeError("driver died")
        rc, lo = struct.unpack("<iI", h)
        out = rd(lo)
        le, = struct.unpack("<I", rd(4))
        err = rd(le)
        if rc == -6 and b"std::bad_alloc" in err:   # ran into the memory limit: growth without end, like a time-out
            rc = -1000
        return Result(rc, out, err)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None
        shutil.rmtree(self.dir, ignore_errors=True)
