"""C26 the diagrams of fault trees follow the model."""
from ..engine import Result
from . import c22


class C26(c22.C22):
    id = "C26"
    rule = ("a history with at least 2 effective edits, undos or redos while a diagram is open, "
            "and a diagram with a shared gate at some point")
    quick_cases = 3000
    quick_wall = 45
    thorough_cases = 300000
    thorough_wall = 600
    assumptions = [
        "the scenes are drawn on Qt's offscreen platform; colours and exact shapes are not judged",
        "a diagram whose root gate was removed stays empty, as the window closes it",
    ]

    def fail(self, msg, sig=None):
        try:
            super().fail(msg, sig)
        except Exception as e:
            e.args = (str(e).replace("C22: ", "C26: "),) + e.args[1:]
            raise

    def case(self, s):
        self.lab = True
        self.log = []
        self.text = c22.gen_model(s, False) if s.bool(0.9) else ""
        path = self.drv.scratch.write("m.xml", self.text) if self.text else ""
        st = self.ask("lab", path, 0)["state"]
        for b in st["basic"].values():
            b["expr"] = c22.canon_expr(b["expr"])
        self.ref = c22.Stack(st, 0)
        self.effective = self.back = self.saved = 0
        self.shared = self.drawn = 0
        try:
            for t in sorted(st["ft"]):
                if s.bool(0.8):
                    self.draw(t)
            for _ in range(s.int(2, 16 if s.bool(0.7) else 40)):
                if s.bool(0.08) and self.ref.st["ft"]:
                    self.draw(s.choice(sorted(self.ref.st["ft"])))
                if s.bool(0.1):
                    self.note(self.ask("touch"), "touching the diagrams")
                self.lab_step(s)
            self.note(self.ask("touch"), "touching the diagrams")
        finally:
            if self.drv.p:
                self.drv.ask(["close"])
        key = None
        if self.drawn >= 2 and self.shared:
            key = str(hash(str(self.log)))
        return Result(key, sample={"text": self.text[:1500], "history": self.log[:30]},
                      tags=["drawn %d" % min(self.drawn, 10), "shared" if self.shared else "plain"])

    def ask(self, *fields):
        r = super().ask(*fields)
        if r.get("shared"):
            self.shared += 1
        # Within a macro nothing else looks at the problems.
        if r.get("problems"):
            self.note(r, fields[0])
        return r

    def note(self, r, what):
        if r["problems"]:
            import re
            p = r["problems"][0]
            self.fail("after %s: %s" % (what, "; ".join(r["problems"])[:400]),
                      sig="drawing:" + re.sub(r"(diagram of|gate|event|of) \S+", r"\1 #", re.sub(r"\d+", "#", p))[:80])

    def draw(self, tree):
        if self.ref.st["ft"][tree]["tops"]:
            self.note(self.ask("draw", tree), "drawing")

    def check(self, r, what, notes=None):
        if r.get("drawings"):
            self.drawn += 1
        super().check(r, what, notes)
