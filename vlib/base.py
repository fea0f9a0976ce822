"""Common machinery of the checks that talk to the in-process driver."""
import os

from .driver import Driver, settings_fields
from .engine import Check, Discard, Fail, Result


class DrvCheck(Check):
    """A check with one driver per worker."""

    def open(self):
        self.drv = Driver(self.bins["rel"]["sdrv"])

    def close(self):
        self.drv.close()

    def load(self, files, st=None, timeout=20, crash_ok=False, hang_ok=False, **kw):
        """Runs a request on files ((name, text) pairs or one text)."""
        if isinstance(files, str):
            files = [("m.xml", files)]
        fields = []
        self.last_files = files
        self.last_settings = dict(st or {})
        names = []
        for name, text in files:
            p = self.drv.scratch.path(name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            self.drv.scratch.write(name, text)
            names.append(p)
        use = kw.pop("use", None)
        for i, p in enumerate(names):
            if use is None or i in use:
                fields.append(("file", p))
        fields += settings_fields(st or {})
        fields += [(k, v if isinstance(v, str) else str(int(v)))
                   for k, v in kw.items()]
        r = self.drv.request(fields, timeout)
        if "timeout" in r:
            if hang_ok:
                raise Discard("timeout")
            self.fail("no answer within %d s" % timeout, sig="hang")
        if "crash" in r and not crash_ok:
            self.fail("the tool died (status %s) on a valid model" % r["crash"],
                      sig="crash:" + crash_sig(r["stderr"]), extra=r["stderr"])
        return r

    def run_ok(self, files, st=None, **kw):
        """As load, for models that must be accepted."""
        r = self.load(files, st, **kw)
        if "error" in r:
            self.fail("a valid model was rejected: %s: %s"
                      % (r["error"], r.get("what")),
                      sig="rejected:%s" % r["error"])
        return r

    def fail(self, msg, sig=None, extra=None):
        raise Fail("%s: %s" % (self.id, msg), sig=sig, detail={
            "settings": getattr(self, "last_settings", None),
            "files": getattr(self, "last_files", None), "extra": extra})


def crash_sig(err):
    """A stable name for a crash from what it printed."""
    import re
    m = re.search(r"([\w./-]+\.(?:cc|h|hpp)):\d+: .*Assertion `(.*?)' failed", err)
    if m:
        return "assert %s %s" % (os.path.basename(m.group(1)), m.group(2)[:100])
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        loc = re.search(r"([\w.-]+\.(?:cc|h|hpp)):\d+:\d+: runtime error", err)
        return "ub %s %s" % (loc.group(1) if loc else "", re.sub(r"[-+]?\d[\d.e+-]*", "#", m.group(1))[:80])
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m:
        fr = re.findall(r"#\d+ 0x\w+ in (.+?) (?:/repo/src/|src/)([\w./]+):\d+", err)
        where = fr[0][1] if fr else ""
        return "asan %s %s" % (m.group(1), where)
    return "died"


def close(a, b, rel=1e-9, abs_=1e-12):
    """Equal up to rounding (also for infinities)."""
    if a == b:
        return True
    if a != a or b != b:
        return a != a and b != b
    if abs(a) == float("inf") or abs(b) == float("inf"):
        return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))
