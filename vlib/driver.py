"""Client of the in-process driver, and runner of the command line tool."""
import ctypes
import json
import os
import resource
import select
import shutil
import signal
import struct
import subprocess
import tempfile
import time


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


class Scratch:
    """A private directory, removed at the end."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
        self.n = 0

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        mode = "wb" if isinstance(text, bytes) else "w"
        if mode == "w":
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
        else:
            with open(p, "wb") as f:
                f.write(text)
        return p

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


LIBC = ctypes.CDLL(None, use_errno=True)


def contain():
    """Lets this process change files in scratch directories only (Landlock).

    The code under test may be broken: it may write, rename or remove files
    that it was never given.  Without Landlock in the kernel nothing is done.
    """
    write, truncate, refer = 1 << 1, 1 << 14, 1 << 13
    changes = write | sum(1 << i for i in range(4, 13)) | refer | truncate
    abi = LIBC.syscall(444, None, ctypes.c_size_t(0), 1)
    if abi < 1:
        return
    if abi < 2:
        changes &= ~refer
    if abi < 3:
        changes &= ~truncate
    attr = struct.pack("=Q", changes)
    rules = LIBC.syscall(444, attr, ctypes.c_size_t(8), 0)
    if rules < 0:
        return
    for path, allowed in ((scratch_root() or tempfile.gettempdir(), changes),
                          ("/dev/null", changes & (write | truncate)),
                          ("/dev/full", changes & (write | truncate))):
        fd = os.open(path, os.O_PATH)
        rule = struct.pack("=Qi", allowed, fd)
        LIBC.syscall(445, rules, 1, rule, 0)
        os.close(fd)
    LIBC.prctl(38, 1, 0, 0, 0)      # no new privileges
    LIBC.syscall(446, rules, 0)
    os.close(rules)


def _limits(mem):
    def f():
        contain()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setpgrp()
    return f


class Driver:
    """A driver process, restarted when it dies."""

    def __init__(self, binary, mem=4 << 30, env=None, wrap=()):
        self.binary = binary
        self.mem = mem
        self.env = dict(os.environ, **(env or {}))
        self.wrap = list(wrap)
        self.p = None
        self.scratch = Scratch()
        self.buf = b""
        self.restarts = 0

    def start(self):
        self.errf = open(self.scratch.path("stderr"), "w+b")
        self.p = subprocess.Popen(self.wrap + [self.binary],
                                  stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.errf,
                                  cwd=self.scratch.dir, env=self.env,
                                  preexec_fn=_limits(self.mem))
        self.buf = b""
        self.warm = False
        self.restarts += 1

    def kill(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.errf.close()
            self.p = None

    def close(self):
        self.kill()
        self.scratch.close()

    def stderr_tail(self, n=3000):
        try:
            with open(self.scratch.path("stderr"), "rb") as f:
                return f.read()[-n:].decode("utf-8", "replace")
        except OSError:
            return ""

    def request(self, fields, timeout=20):
        """fields: list of (key, value).  Returns the reply as a dict."""
        if self.p is None:
            self.start()
        msg = "".join("%s=%s\n" % (k, v) for k, v in fields) + ".\n"
        try:
            self.p.stdin.write(msg.encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return self._dead()
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        chunks = []
        while True:
            left = end - time.time()
            if left <= 0:
                self.kill()
                return {"timeout": True}
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            data = os.read(fd, 1 << 20)
            if not data:
                return self._dead()
            chunks.append(data)
            if data.endswith(b"\n"):
                break
        r = json.loads(b"".join(chunks).decode("utf-8", "replace"))
        if "session_end" in r and r["session_end"]:
            rc = r["session_end"]
            self.errf.flush()
            return {"crash": rc, "stderr": self.stderr_tail()}
        return r

    def begin(self, heap=0):
        """Starts a session: a process with no history but the warm-up."""
        if self.p is None:
            self.start()
        if not self.warm:
            self.warm = True
            f = self.scratch.write("warm.xml", WARM_MODEL)
            self.request([("file", f)])
        r = self.request([("session", "begin"), ("heap", str(heap))])
        assert r.get("ok"), r

    def end(self):
        """Ends the session (None or how its process died)."""
        r = self.request([("session", "end")])
        return None if r == {"session_end": 0} else r

    def _dead(self):
        rc = self.p.wait()
        self.errf.flush()
        tail = self.stderr_tail()
        self.kill()
        return {"crash": rc, "stderr": tail}


WARM = """<scram><model><file>warm.xml</file></model><options/></scram>"""
WARM_MODEL = """<opsa-mef><define-fault-tree name="w"><define-gate name="g"><and>
<basic-event name="a"/><basic-event name="b"/></and></define-gate>
<define-basic-event name="a"/><define-basic-event name="b"/></define-fault-tree>
</opsa-mef>"""


class Cli:
    """A fork server around the tool's main (the files are in cwd)."""

    def __init__(self, binary, env=None, mem=8 << 30):
        self.binary, self.env, self.mem = binary, env, mem
        self.scratch = Scratch()
        self.p = None

    def start(self):
        self.scratch.write("warm.xml", WARM_MODEL)
        w = self.scratch.write("warm-project.xml", WARM)
        self.p = subprocess.Popen(
            [self.binary, w], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, cwd=self.scratch.dir,
            env=dict(os.environ, **(self.env or {})), preexec_fn=_limits(self.mem))

    def run(self, args, timeout=20, cwd=None, heap=0, fsize=-1, stdout=None):
        """(rc, stdout, stderr): rc < 0 is a signal, None the time limit."""
        if self.p is None:
            self.start()
        for a in args:
            assert "\n" not in a and a != "."
        out, err = self.scratch.path("cli.out"), self.scratch.path("cli.err")
        msg = "\n".join([stdout or out, err, str(int(timeout)), cwd or self.scratch.dir,
                         str(heap), str(fsize)]
                        + list(args) + ["."]) + "\n"
        self.p.stdin.write(msg.encode())
        self.p.stdin.flush()
        r = self.p.stdout.readline().split()
        if len(r) != 2:
            rc = self.p.wait()
            self.p = None
            raise RuntimeError("the fork server died: %s" % rc)
        o = b"" if stdout else open(out, "rb").read()
        e = open(err, "rb").read()
        n = int(r[1])
        if r[0] == b"signal":
            return (None if n == signal.SIGALRM else -n), o, e
        return n, o, e

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p.stdout.close()
            self.p = None
        self.scratch.close()


def settings_fields(st):
    return [("set", "%s:%s" % (k, fmt(v))) for k, v in st.items()]


def fmt(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, float):
        return repr(v)
    return str(v)


def run_cli(binary, args, cwd, timeout=30, env=None, stdin=None, mem=4 << 30,
            wrap=()):
    """Runs the command line tool: (rc, stdout, stderr) ; rc None = timeout."""
    p = subprocess.Popen(list(wrap) + [binary] + list(args),
                         stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, env=dict(os.environ, **(env or {})),
                         preexec_fn=_limits(mem))
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return None, o, e
    return p.returncode, o, e
