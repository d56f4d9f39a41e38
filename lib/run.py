"""Runs the compiler (through the fork server) and the programs it produces, in scratch directories."""
import os, shutil, subprocess, tempfile, threading

from . import build


class Result:
    __slots__ = ("kind", "code", "ms", "out", "err")

    def __init__(self, kind, code, ms, out, err):
        self.kind, self.code, self.ms, self.out, self.err = kind, code, ms, out, err

    @property
    def ok(self):
        return self.kind == "e" and self.code == 0

    @property
    def crashed(self):
        return self.kind != "e" or self.code not in (0, 1)

    def text(self):
        return self.err.decode("utf-8", "backslashreplace")

    def brief(self):
        return "%s %d; stdout %r; stderr %r" % (
            {"e": "exit", "s": "signal", "t": "timeout/signal"}[self.kind], self.code, self.out[:300], self.err[:600])


class Box:
    """One scratch directory with one fork server. Not thread safe; one per worker process."""

    def __init__(self, top, flavor="plain", fast_link=True):
        self.top = top
        self.flavor = flavor
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="skullpbt.", dir=base)
        self.io = os.path.join(self.dir, "io")
        self.work = os.path.join(self.dir, "w")
        os.mkdir(self.io)
        os.mkdir(self.work)
        self.obs = os.path.join(top, "obs.o")
        self.fast_link = fast_link
        self.server = None
        self.start()

    def start(self):
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": self.dir,
               "TMPDIR": self.io,
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
               "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}
        if self.fast_link:
            env["PATH"] = os.path.join(self.top, "bin") + ":" + env["PATH"]
        self.server = subprocess.Popen([os.path.join(self.top, "server-" + self.flavor)], stdin=subprocess.PIPE,
                                       stdout=subprocess.PIPE, env=env, bufsize=0)
        self.reader = self.server.stdout

    def close(self):
        try:
            self.server.stdin.close()
            self.server.kill()
            self.server.wait()
            self.server.stdout.close()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def fresh(self):
        """Empty the work directory."""
        for name in os.listdir(self.work):
            p = os.path.join(self.work, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def call(self, args, timeout=10.0, mem=0, cwd=None):
        o, e = os.path.join(self.io, "o"), os.path.join(self.io, "e")
        fields = [str(int(timeout * 1000)), str(mem), cwd or self.work, o, e, *args]
        for f in fields:
            assert "\t" not in f and "\n" not in f, fields
        self.server.stdin.write(("\t".join(fields) + "\n").encode("utf-8", "surrogateescape"))
        line = b""
        while not line.endswith(b"\n"):
            c = self.reader.read(64)
            if not c:
                raise RuntimeError("fork server died")
            line += c
        kind, code, ms = line.decode().split()
        with open(o, "rb") as f:
            out = f.read(1 << 22)
        with open(e, "rb") as f:
            err = f.read(1 << 22)
        return Result(kind, int(code), int(ms), out, err)

    def put(self, name, data):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        with open(os.path.join(self.work, name), "wb") as f:
            f.write(data)

    def get(self, name):
        try:
            with open(os.path.join(self.work, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def has(self, name):
        return os.path.lexists(os.path.join(self.work, name))

    def drop(self, *names):
        for name in names:
            try:
                os.unlink(os.path.join(self.work, name))
            except FileNotFoundError:
                pass

    def skull(self, *args, timeout=10.0, env=(), **kw):
        return self.call(["@" + e for e in env] + ["skull", *args], timeout=timeout, **kw)

    def exe(self, name, *args, timeout=5.0, mem=512):
        # a small stack, so that loops which consume stack show
        return self.call(["@RLIMIT_STACK=%d" % (256 << 10), os.path.join(self.work, name), *args], timeout=timeout, mem=mem)

    def build_and_run(self, src, flags=(), name="p", timeout=10.0, obs=True):
        """Compile `src` natively and run it. Returns (compile result, run result or None)."""
        self.put(name + ".sk", src)
        self.drop(name)
        args = [name + ".sk", *flags]
        args += ["--", "-no-pie"] + ([self.obs] if obs else [])
        c = self.skull(*args, timeout=timeout)
        if not c.ok or not self.has(name):
            return c, None
        return c, self.exe(name)
