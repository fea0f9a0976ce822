"""C24 failed writes of reports and models."""
import hashlib
import os
import stat

from .. import sink
from ..base import DrvCheck
from ..driver import Cli
from ..engine import Discard, Result
from ..ft import show
from .c18 import command_line, settings, strip


# Whether the full device is there.
FULL = os.path.exists("/dev/full") and stat.S_ISCHR(os.stat("/dev/full").st_mode)


def contents(path):
    """The contents of a regular file (None for anything else)."""
    if not os.path.isfile(path):
        return None
    with open(path, "rb") as f:
        return f.read()


class C24(DrvCheck):
    id = "C24"
    rule = ("a report or model written through the tool or the library to a target where "
            "writing fails, or could have failed (a size limit near the size of the output)")
    quick_cases = 9000
    quick_wall = 40
    thorough_cases = 200000
    thorough_wall = 600
    targets = ("sdrv", "scram", "clidrv")
    assumptions = [
        "failing writes are brought about by a limit on file sizes (RLIMIT_FSIZE), /dev/full, directories and missing directories",
        "the size limit is applied while the signal SIGXFSZ is ignored",
    ]

    def open(self):
        super().open()
        self.cli = Cli(self.bins["rel"]["clidrv"])

    def close(self):
        super().close()
        self.cli.close()

    def case(self, s):
        self.model = s.bool(0.4)        # write the model or a report
        big = s.bool(0.6)
        y = sink.gen_sys(s, ets=0 if self.model else 0.2, ccf=0 if self.model else 0.3,
                         max_basic=10 if big else 5, max_gates=20 if big else 5)
        st = settings(s, False, mc=0.15)
        st["seed"] = 7
        if self.model:
            y.params.clear()
            for b in y.ft.basics:
                y.ft.basics[b] = s.choice([("const", 0.25), ("exp", ("const", 1e-3))])
            for g, (op, args, lo, hi) in list(y.ft.gates.items()):
                # The elements that can be saved.
                if op == "cardinality" and not (lo or hi):
                    raise Discard("cardinality")
            lay = sink.Layout(s, y, depth=0, private=0, collide=0, meta=s.choice([0, 0.6]),
                              names=s.choice(["plain", "fancy"]))
        else:
            lay = sink.Layout(s, y, depth=1, names=s.choice(["plain", "fancy"]))
        files, use = lay.files()
        self.last_files, self.last_settings = files, st
        how = s.weighted([(4, "limit"), (1, "full"), (1, "directory"), (1, "no directory")])
        via = s.choice(["library", "tool to file", "tool"]) if not self.model else \
            s.choice(["library", "tool"])
        if how in ("directory", "no directory") and via == "tool":
            how = "full"
        if how == "full" and not FULL:
            how = "limit"
        self.how, self.via = how, via
        run = self.library if via == "library" else self.tool
        # The complete output.
        good = self.drv.scratch.path("good.xml")
        err, whole = run(st, files, good, -1)
        if err is not None:
            if self.model and "IOError" in err:
                raise Discard("cannot be saved")
            self.fail("cannot write: %s" % err, sig="fails without a fault")
        n = len(whole)
        limit = -1
        if how == "limit":
            k = s.weighted([(3, "any"), (3, "end"), (2, "block"), (1, "small")])
            limit = {"any": lambda: s.int(0, n + 100), "end": lambda: n - s.int(-3, 40),
                     "block": lambda: 4096 * s.int(0, n // 4096 + 1) + s.int(-1, 1),
                     "small": lambda: s.int(0, 80)}[k]()
            limit = max(0, limit)
            target = self.drv.scratch.path("out.xml")
            with open(target, "wb"):
                pass
        elif how == "full":
            # Through a link: what replaces or removes the target spares the device.
            target = self.drv.scratch.path("full.xml")
            if os.path.lexists(target):
                os.unlink(target)
            os.symlink("/dev/full", target)
        elif how == "directory":
            target = self.drv.scratch.path("dir.xml")
            os.makedirs(target, exist_ok=True)
        else:
            target = self.drv.scratch.path("none/out.xml")
        err, got = run(st, files, target, limit)
        what = "%s %s (%s, limit %d of %d bytes)" % (
            via, "model" if self.model else "report", how, limit, n)
        if err is None:
            if got is None or self.norm(got) != self.norm(whole):
                self.fail("%s: success with an incomplete output (%s bytes)"
                          % (what, None if got is None else len(got)),
                          sig="silent failure: %s %s" % (via, how),
                          extra=(got or b"")[-300:].decode("utf-8", "replace"))
            if 0 <= limit < len(got):
                raise AssertionError("the limit was not applied")
        else:
            if how == "limit" and limit > n + 200:
                self.fail("%s: %s" % (what, err), sig="needless failure")
            if via == "library":
                if "IOError" not in err:
                    self.fail("%s: %s" % (what, err), sig="kind of error")
            elif "rror" not in err and limit < 0:
                self.fail("%s: no message: %r" % (what, err), sig="no message")
        # Nothing of the failure stays.
        if s.bool(0.2):
            e2, again = run(st, files, good, -1)
            if e2 is not None or self.norm(again) != self.norm(whole):
                self.fail("%s: after the failure: %s" % (what, e2), sig="after a failure")
        key = None
        if how != "limit" or limit < n + 50:
            key = hashlib.sha1(repr((files, st, how, via, limit)).encode()).hexdigest()
        return Result(key, {"what": what, "error": err, "tree": show(y.ft)[:200]},
                      [how, via, "model" if self.model else "report",
                       "failed" if err is not None else "complete"])

    def norm(self, t):
        return t if self.model else strip(t)

    def library(self, st, files, target, limit):
        kw = {"serialize": target, "analyze": 0} if self.model else {"report": target, "analyze": 1}
        if limit >= 0:
            kw["fsize"] = limit
        # The inputs are written before the limit applies.
        r = self.load(files, st, **kw)
        if "error" in r:
            return "%s: %s" % (r["error"], r.get("what")), None
        return None, contents(target)

    def tool(self, st, files, target, limit):
        names = [self.cli.scratch.write(n, t) for n, t in files]
        args = command_line(st) + names
        out = None
        if self.model:
            args.append("--serialize")
        if self.via == "tool to file":
            args += ["-o", target]
        elif os.path.islink(target):
            out = target
        rc, o, e = self.cli.run(args, fsize=limit, stdout=out)
        if rc not in (0, 1):
            self.fail("exit status %s: %s" % (rc, e.decode("utf-8", "replace")),
                      sig="status %s" % rc)
        if rc == 1:
            return "status 1 " + e.decode("utf-8", "replace"), None
        if self.via == "tool to file":
            return None, contents(target)
        return None, (o if out is None else None)
