"""C27 the documents of the GUI: opening, creating, saving and closing lose nothing."""
import os
import shutil
import xml.etree.ElementTree as ET

from ..engine import Fail, Result
from ..xmlw import E
from . import c22

EMPTY = {"name": "", "label": "", "attrs": [], "gate": {}, "basic": {}, "house": {}, "ft": {}}
BAD = ["", "text", "<opsa-mef>", "<opsa-mef><define-gate/></opsa-mef>", "<scram/>",
       "<opsa-mef><define-fault-tree name='ft'/></opsa-mef>",
       "<opsa-mef><model-data><define-parameter name='p'><float value='1'/></define-parameter>"
       "</model-data></opsa-mef>",
       "<opsa-mef><define-fault-tree name='ft'><define-gate name='g1'><or><basic-event name='b1'/>"
       "<basic-event name='b2'/></or></define-gate><define-gate name='g2'><or><basic-event name='b1'/>"
       "<basic-event name='b2'/></or></define-gate></define-fault-tree><model-data>"
       "<define-basic-event name='b1'/><define-basic-event name='b2'/></model-data></opsa-mef>"]
CAPACITY = 5  # the files that the window remembers


def renamed(text, suffix):
    """The model under other names of elements."""
    root = ET.fromstring(text)
    for e in root.iter():
        if e is not root and e.tag not in ("attribute",) and "name" in e.attrib:
            e.set("name", e.get("name") + suffix)
    return ET.tostring(root, encoding="unicode")


def split(s, text):
    """The two parts of a model."""
    a = ET.fromstring(text)
    b = ET.Element("opsa-mef")
    for e in list(a):
        if e.tag not in ("label", "attributes") and s.bool(0.5):
            a.remove(e)
            b.append(e)
    return [ET.tostring(x, encoding="unicode") for x in (a, b)]


class C27(c22.C22):
    id = "C27"
    rule = ("a history with an effective edit and at least 3 requests on documents, one of them a save, or one "
            "that fails or is refused")
    quick_cases = 3000
    quick_wall = 90
    thorough_cases = 200000
    thorough_wall = 600
    assumptions = [
        "the windows run on Qt's offscreen platform",
        "a full disk is a limit on the size of files",
        "a limit of the history takes effect while the history is empty, or at the next start",
    ]

    def fail(self, msg, sig=None):
        raise Fail("C27: %s" % msg, sig=sig, detail={
            "files": sorted(self.texts.items()), "settings": None, "extra": {"history": self.log}})

    # --- the files ---

    def look(self):
        """The files in the directory of documents, with their content."""
        out = {}
        for d, dirs, files in os.walk(self.dir):
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as x:
                    out[p] = x.read()
        return out

    def put(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        self.texts[name] = text
        return p

    def expected(self, paths, gui=True):
        """The model in the files together, None if the window must reject it."""
        if len(set(paths)) != len(paths):
            return None
        key = tuple(self.disk.get(p) for p in paths), gui
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        root = None
        for p in paths:
            if p not in self.disk:
                return None
            try:
                x = ET.fromstring(self.disk[p])
            except ET.ParseError:
                return None
            if x.tag != "opsa-mef":
                return None
            if root is None:
                root = x
            else:
                root.extend([e for e in x if e.tag not in ("label", "attributes")])
        if len(paths) > 1:  # The data of the model come last, and once.
            data = root.findall("model-data")
            for e in data:
                root.remove(e)
            if data:
                root.append(data[0])
                for e in data[1:]:
                    data[0].extend(e)
        joint = self.drv.scratch.path("joint.xml")
        ET.ElementTree(root).write(joint, encoding="utf-8", xml_declaration=True)
        r = self.drv.ask(["read", joint])
        if "crash" in r or "timeout" in r:
            self.fail("reading the files %s: %s" % (paths, r), sig="read")
        st = r.get("read")
        if st is not None:
            for b in st["basic"].values():
                b["expr"] = c22.canon_expr(b["expr"])
            if gui and any(len(t["tops"]) != 1 for t in st["ft"].values()):
                st = None
        self.memo[key] = st
        return st

    # --- the reference ---

    @property
    def modified(self):
        return self.ref.clean != self.ref.index

    def fresh(self, st, files):
        self.ref = c22.Stack(st, self.ref.limit)
        self.files = list(files)

    def ref_save(self, plan, ask=False):
        """Saves as the window must; tells if it succeeds."""
        path = self.files[0] if len(self.files) == 1 else None
        if ask or path is None:
            self.dialogs.append("save")
            path = plan.get("path")
            if not path:
                return False
        if self.fault == "limit" or self.fault in ("dir", "gone") and path == self.files[0]:
            self.errors += 1
            return False
        self.files = [path]
        self.ref.clean = self.ref.index
        self.written = path
        return True

    def ref_leave(self, plan):
        """Tells if the model may go."""
        if not self.modified:
            return True
        self.questions += 1
        if plan.get("answer") == "discard":
            return True
        return plan.get("answer") == "save" and self.ref_save(plan)

    def begin(self):
        self.dialogs, self.errors, self.questions, self.written = [], 0, 0, None

    def do(self, op, plan, fault=None):
        """Asks the window, with something broken meanwhile."""
        hurt = self.files[0] if self.files else None
        if fault == "limit":
            least = 39 + sum(len(n) for k in ("gate", "basic", "house", "ft") for n in self.ref.st[k])
            self.drv.ask(["limit", int(least * self.share)])
        elif fault == "dir":
            os.rename(hurt, self.aside)
            os.mkdir(hurt)
        elif fault == "gone":
            os.rename(os.path.dirname(hurt), self.aside)
        self.log.append(["# " + fault] if fault else [])
        r = self.ask(op, *["%s=%s" % x for x in plan.items()])
        if fault == "limit":
            self.drv.ask(["limit", -1])
        elif fault == "dir":
            try:
                os.rmdir(hurt)
            except OSError:
                self.fail("after %s: something else is where the directory %s was" % (op, hurt), sig="directory")
            os.rename(self.aside, hurt)
        elif fault == "gone":
            if os.path.exists(os.path.dirname(hurt)):
                self.fail("after %s: the directory %s is there again" % (op, os.path.dirname(hurt)), sig="directory")
            os.rename(self.aside, os.path.dirname(hurt))
        return r

    def after(self, r, op):
        """Compares the windows shown and the files on the disk."""
        shown = [b[1] for b in r["boxes"] if b[0] == "files"]
        if shown != self.dialogs:
            self.fail("%s: dialogs for files: %s, not %s" % (op, shown, self.dialogs), sig="dialogs:%s" % op)
        asked = [b for b in r["boxes"] if b[0] == "box" and b[1] == "Save Model?"]
        if len(asked) != self.questions:
            self.fail("%s: %d questions, not %d" % (op, len(asked), self.questions), sig="questions:%s" % op)
        now = self.look()
        for p, x in self.near.items():
            if now.pop(p, None) != x:
                self.fail("%s: the file %s is changed" % (op, p), sig="near")
        for p in set(now) | set(self.disk):
            if p == self.written:
                continue
            if p not in self.disk:
                self.fail("%s: a file appears: %s" % (op, p), sig="stray:%s" % op)
            if now.get(p) != self.disk[p]:
                self.fail("%s: the file %s is %s" % (op, p, "changed" if p in now else "gone"), sig="file:%s" % op)
        if self.written:
            if self.written not in now:
                self.fail("%s: the file %s is not saved" % (op, self.written), sig="unsaved:%s" % op)
            self.disk = now
            st = self.expected([self.written], gui=False)
            if st is None:
                self.fail("%s: the saved file cannot be read" % op, sig="unreadable:%s" % op)
            got, want = c22.canon(st, tops=False), c22.canon(self.ref.st, tops=False)
            for part in want:
                if got[part] != want[part]:
                    self.fail("%s: the saved %s is %s, not %s" % (op, part, got[part], want[part]),
                              sig="saved:%s:%s" % (op, part))
            self.saved += 1

    def settle(self, r, op):
        """Compares the rest, when the reference is complete."""
        bad = [b for b in r["boxes"] if b[0] not in ("files", "hidden", "dialog") and
               not (b[0] == "box" and (b[1] == "Save Model?" or "already exists" in b[2]))]
        if any(b[0] == "harness" for b in bad):
            raise AssertionError(bad)
        if bool(bad) != bool(self.errors):
            self.fail("%s: messages %s, expected %d" % (op, bad, self.errors), sig="messages:%s" % op)
        self.check(r, op)
        if r["recent"] != self.recent:
            self.fail("%s: the recent files are %s, not %s" % (op, r["recent"], self.recent), sig="recent:%s" % op)
        if r["save"] != self.modified:
            self.fail("%s: saving is %s" % (op, "enabled" if r["save"] else "disabled"), sig="enabled:%s" % op)
        self.refused += bool(self.errors)
        self.docs += 1

    # --- the requests ---

    def load(self, paths):
        """The rest of opening files, after a save."""
        st = self.expected(self.files + paths)
        if st is None:
            self.errors += 1
            return False
        self.fresh(st, self.files + paths)
        return True

    def target(self, s):
        return s.weighted([(5, "new"), (2, "old"), (2, "")])

    def gen_path(self, s):
        k = self.target(s)
        if not k:
            return ""
        if k == "old":
            return s.choice(sorted(self.disk))
        return os.path.join(self.dir, s.choice(["d", "e"]), s.choice(["n1.xml", "n2.xml", "new file.mef", "\xe9.opsa"]))

    def document(self, s):
        what = s.weighted([(5, "open"), (3, "recent"), (4, "save"), (2, "saveas"), (2, "autosave"), (2, "new"),
                           (2, "quit"), (1, "restart"), (1, "forget"), (1, "prefs"), (1, "project"), (1, "touch")])
        if what == "recent" and not self.recent:
            what = "open"
        self.begin()
        plan = {"path": self.gen_path(s), "answer": s.choice(["save", "discard", "cancel"])}
        if not plan["path"]:
            del plan["path"]
        faults = []
        if s.bool(0.2):
            faults = ["limit"] if what in ("open", "recent", "saveas", "save", "new", "autosave", "project") else []
            if len(self.files) == 1 and what in ("save", "new", "quit", "autosave") and self.files[0] in self.disk:
                faults += ["dir", "gone"]
        self.fault = s.choice(faults) if faults else None
        self.share = s.choice([0.0, 0.5, 1.0])
        getattr(self, "do_" + what)(s, plan)

    def do_touch(self, s, plan):
        """Something else changes the files: one disappears, or comes to be."""
        p = s.choice(sorted(self.disk))
        if s.bool(0.5):
            os.unlink(p)
            del self.disk[p]
            self.log.append(["# removed " + p])
        if not self.disk or s.bool(0.3):
            self.more(s)

    def do_open(self, s, plan):
        paths = s.sample(sorted(self.disk), s.weighted([(1, 0), (6, 1), (2, 2), (1, 3)]))
        plan["open"] = "\n".join(paths)
        self.dialogs.append("open")
        go = bool(paths)
        if go and self.modified:
            go = self.ref_save(plan)
        r = self.do("open", plan, self.fault)
        self.after(r, "open")
        if sorted(r["recent"][:len(paths)]) == sorted(paths):
            paths = r["recent"][:len(paths)]  # The dialog has an order of its own.
        if go and self.load(paths):
            self.recent = (paths + [p for p in self.recent if p not in paths])[:CAPACITY]
        self.settle(r, "open")

    def do_recent(self, s, plan):
        p = s.choice(self.recent)
        go = not self.modified or self.ref_save(plan)
        r = self.do("recent", dict(plan, which=p), self.fault)
        self.after(r, "recent")
        if go and self.load([p]):
            self.recent = [p] + [x for x in self.recent if x != p]
        self.settle(r, "recent")

    def do_project(self, s, plan):
        # The constructs that only the GUI refuses are refused after a save.
        disk = sorted(p for p in self.disk if b"define-parameter" not in self.disk[p])
        if not disk:
            return
        paths = s.sample(disk, s.int(1, 2))
        more = s.sample(disk, s.weighted([(3, 0), (1, 1)]))
        rel = [os.path.relpath(p, self.drv.scratch.dir) if s.bool(0.6) else p for p in paths]
        text = E("scram", {}, E("model", {}, *[E("file", {}, p) for p in rel]), E("options")).text()
        pp = self.drv.scratch.write("project.xml", text)
        self.texts["project.xml"] = text
        good = self.expected(paths + more, gui=False) is not None
        go = good and (not self.modified or self.ref_save(plan))
        r = self.do("project", dict(plan, project=pp, files="\n".join(more)), self.fault)
        self.after(r, "project")
        self.errors += not good
        ok = go and self.load(paths + more)
        if r["out"]["accepted"] != ok:
            self.fail("the project was %s" % ("rejected" if ok else "accepted"), sig="project")
        self.settle(r, "project")

    def do_save(self, s, plan):
        if self.modified:
            self.ref_save(plan)
        r = self.do("save", plan, self.fault)
        self.after(r, "save")
        self.settle(r, "save")

    def do_saveas(self, s, plan):
        self.ref_save(plan, ask=True)
        r = self.do("saveas", plan, self.fault)
        self.after(r, "saveas")
        self.settle(r, "saveas")

    def do_autosave(self, s, plan):
        if self.modified and len(self.files) == 1 and self.auto:
            self.ref_save(plan)
        r = self.do("autosave", plan, self.fault)
        self.after(r, "autosave")
        self.settle(r, "autosave")

    def do_new(self, s, plan):
        go = self.ref_leave(plan)
        r = self.do("new", plan, self.fault)
        self.after(r, "new")
        if go:
            self.fresh(EMPTY, [])
        self.settle(r, "new")

    def do_quit(self, s, plan, again="1"):
        go = self.ref_leave(plan)
        r = self.do("quit", dict(plan, again=again), self.fault)
        self.after(r, "quit")
        if r["out"]["closed"] != go:
            self.fail("the window %s" % ("stays" if go else "closes"), sig="quit:%s" % go)
        self.settle(r, "quit")
        return go

    def do_restart(self, s, plan):
        if self.do_quit(s, plan, "0"):
            self.start()
        else:
            assert self.modified

    def start(self):
        self.begin()
        r = self.ask("win", "")
        self.fresh(EMPTY, [])
        self.settle(r, "start")

    def do_forget(self, s, plan):
        r = self.do("forget", {})
        self.after(r, "forget")
        self.recent = []
        self.settle(r, "forget")

    def do_prefs(self, s, plan):
        plan = {}
        before = {"undo": self.ref.limit, "auto": self.auto}
        if not self.ref.entries and s.bool(0.7):
            plan["undo"] = s.choice([0, 1, 2, 5, 30])
            self.ref.limit = plan["undo"]
        if s.bool(0.5):
            plan["auto"] = self.auto = s.choice([0, 1, 5, 60])
        r = self.do("prefs", plan)
        if {k: r["out"][k] for k in before} != before:
            self.fail("the preferences show %s, not %s" % (r["out"], before), sig="preferences")
        self.after(r, "prefs")
        self.settle(r, "prefs")

    def more(self, s):
        """Another file of the user."""
        n = self.made
        self.made += 1
        d = s.choice(["d", "e"])
        k = s.weighted([(6, "model"), (2, "parts"), (1, "bad")])
        if k == "bad":
            texts = [s.choice(BAD)]
        else:
            t = c22.gen_model(s, True)
            suffix = "" if s.bool(0.25) else str(n)
            t = renamed(t, suffix)
            texts = [t] if k == "model" else split(s, t)
        for i, t in enumerate(texts):
            p = self.put("%s/%s%d%s.xml" % (d, k[0], n, "ab"[i] if len(texts) > 1 else ""), t)
            self.disk[p] = t.encode()
            for x in [".tmp", ".temp", ".bak", "~", ".new", ".old"] if s.bool(0.3) else []:
                self.near[p + x] = b"something else"
                with open(p + x, "wb") as f:
                    f.write(self.near[p + x])

    def case(self, s):
        self.lab = False
        self.log, self.texts, self.memo, self.disk, self.near = [], {}, {}, {}, {}
        self.dir = self.drv.scratch.path("docs")
        self.aside = self.drv.scratch.path("aside")
        shutil.rmtree(self.aside, ignore_errors=True)
        if os.path.isfile(self.aside):
            os.unlink(self.aside)
        shutil.rmtree(self.dir, ignore_errors=True)
        for d in ("d", "e"):
            os.makedirs(os.path.join(self.dir, d))
        self.made = 0
        self.effective = self.back = self.saved = self.docs = self.refused = 0
        self.ref = c22.Stack(EMPTY, 0)
        self.files, self.recent, self.auto, self.fault = [], [], 5, None
        for _ in range(s.int(2, 4)):
            self.more(s)
        try:
            self.ask("win", "")
            self.ask("forget")
            r = self.ask("prefs", "undo=0", "auto=5")
            self.begin()
            self.settle(r, "start")
            for _ in range(s.int(4, 16 if s.bool(0.7) else 40)):
                if s.bool(0.45):
                    self.win_step(s)
                else:
                    self.document(s)
        finally:
            if self.drv.p:
                self.drv.ask(["limit", -1])
                self.drv.ask(["close"])
        key = None
        if self.effective and self.docs >= 3 and (self.saved or self.refused):
            key = str(hash(str(self.log)))
        return Result(key, sample={"files": {k: t[:500] for k, t in self.texts.items()}, "history": self.log[:30]},
                      tags=["saved" if self.saved else "unsaved", "refused" if self.refused else "no refusal"])
