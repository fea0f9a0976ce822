"""The property-based testing engine.

A case is a function of a sequence of bounded integer choices.  Random mode
draws and records them; replay mode reads them back (clipped to the bound, zero
beyond the end), so shrinking works on the sequence alone and every prefix or
edit of it is again a valid case.
"""
import hashlib
import json
import multiprocessing as mp
import os
import queue
import random
import re
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    """The property does not hold for the case."""

    def __init__(self, msg, sig=None, detail=None):
        super().__init__(msg)
        self.sig = sig or re.sub(r"[-+]?\d[\d.e+-]*", "#", msg)[:160]
        self.detail = detail


class Discard(Exception):
    """The case does not count (generator dead end, resource limit)."""


class Src:
    """A source of choices."""

    def __init__(self, seed=None, choices=None, size=1.0):
        self.rec = []
        self.size = size
        self._replay = choices
        self._pos = 0
        self._rng = random.Random(seed) if choices is None else None

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self._replay is not None:
            v = self._replay[self._pos] if self._pos < len(self._replay) else 0
            self._pos += 1
            v = min(v, n - 1)
        else:
            v = self._rng.randrange(n)
        self.rec.append(v)
        if len(self.rec) > 60000:
            raise Discard("too many choices")
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def choice(self, xs):
        return xs[self.draw(len(xs))]

    def bool(self, p=0.5):
        """True with probability p; shrinks to False."""
        if p <= 0:
            return False
        if p >= 1:
            return True
        return self.draw(1000) >= 1000 - int(p * 1000)

    def weighted(self, pairs):
        """pairs: (weight, value); shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        v = self.draw(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def sample(self, xs, k):
        """k distinct elements, in random order."""
        xs = list(xs)
        out = []
        for _ in range(min(k, len(xs))):
            out.append(xs.pop(self.draw(len(xs))))
        return out

    def shuffle(self, xs):
        return self.sample(xs, len(xs))

    def float(self, lo, hi, steps=10000):
        return lo + (hi - lo) * self.draw(steps + 1) / steps


class Result:
    """What a case did: a key if it is non-trivial, and how to show it."""

    def __init__(self, key=None, sample=None, tags=(), n=1):
        self.key = key
        self.sample = sample
        self.tags = tags
        self.n = n


class Check:
    """Base class of the checks."""

    id = "C00"
    rule = ""
    level = "exploration"
    assumptions = []
    quick_cases = 2000
    thorough_cases = 40000
    quick_wall = 45
    thorough_wall = 600
    max_workers = None
    variants = ("rel",)
    targets = ("sdrv", "scram")

    def build(self):
        from . import build
        self.bins = {}
        for v in self.variants:
            self.bins[v] = build.build(v, self.targets)

    def open(self):
        """Per worker resources."""

    def close(self):
        pass

    def reset(self):
        """Puts the resources of a worker back to their first state."""
        self.close()
        self.open()

    def case(self, src):
        raise NotImplementedError

    def fixed(self):
        """Deterministic extra cases: (name, callable(check) -> Result)."""
        return []

    def describe(self, src_choices):
        """What to write beside a replay (files of the failing input)."""
        return None


def case_seed(pid, seed, i):
    h = hashlib.sha256(("%s/%s/%s" % (pid, seed, i)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def case_size(i, ramp=400):
    """Small cases first, then the whole range."""
    return min(1.0, 0.25 + 0.75 * i / ramp) if i < ramp else 1.0


def run_case(check, choices=None, seed=None, size=1.0):
    """Runs a case: ('ok', Result) | ('fail', Fail) | ('discard', why)."""
    src = Src(seed=seed, choices=choices, size=size)
    try:
        r = check.case(src)
        return "ok", r, src.rec
    except Fail as e:
        return "fail", e, src.rec
    except Discard as e:
        return "discard", str(e), src.rec


def shrink(check, rec, sig, size, budget):
    """Deletes and minimises choices while the same failure remains."""
    t0 = time.time()
    best = list(rec)
    tries = 0
    if sig.startswith("hang"):
        return best, 0          # every try would cost a timeout

    def bad(c):
        nonlocal tries
        tries += 1
        if time.time() - t0 > budget:
            return None
        try:
            k, r, used = run_case(check, choices=c, size=size)
        except Exception:
            return None
        if k == "fail" and r.sig == sig:
            return used
        return None
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        # Delete blocks.
        n = max(1, len(best) // 2)
        while n >= 1 and time.time() - t0 < budget:
            i = len(best) - n
            while i >= 0 and time.time() - t0 < budget:
                c = best[:i] + best[i + n:]
                u = bad(c)
                if u is not None and (len(u), u) < (len(best), best):
                    best = u
                    changed = True
                    i = min(i, len(best) - n)
                else:
                    i -= n
            n //= 2
        # Zero, then lower, single choices.
        for i in range(len(best)):
            if time.time() - t0 > budget or i >= len(best):
                break
            v = best[i]
            if not v:
                continue
            for w in sorted({0, v // 2, v - 1}):
                if w >= v or w < 0:
                    continue
                u = bad(best[:i] + [w] + best[i + 1:])
                if u is not None and (len(u), u) < (len(best), best):
                    best = u
                    changed = True
                    break
    return best, tries


MAX_HISTORY = 64


def run_history(check, hist, rec, size):
    """Runs earlier cases, whatever they do, then this one, from a fresh start."""
    check.reset()
    for h, hs in hist:
        try:
            run_case(check, choices=h, size=hs)
        except Exception:
            pass
    return run_case(check, choices=rec, size=size)


def isolate(check, hist, rec, size, r, budget):
    """The smallest thing that makes the failure again: the case alone (shrunk),
    or with the cases that were run before it in the same process; or None."""
    def again(h, c=rec):
        try:
            k, r2, _ = run_history(check, h, c, size)
        except Exception:
            return False
        return k == "fail" and r2.sig == r.sig
    f = {"choices": list(rec), "size": size, "sig": r.sig, "msg": str(r),
         "tries": 0, "orig_len": len(rec)}
    if again([]):
        best, f["tries"] = shrink(check, rec, r.sig, size, budget)
        if best == rec or again([], best):
            f["choices"] = best
            return f
        return f
    if r.sig.startswith("hang"):
        return None
    t0 = time.time()
    n = 1
    while hist and time.time() - t0 < 120:
        h = hist[-n:]
        if again(h):
            # Drop what is not needed of it.
            i = 0
            while i < len(h) and time.time() - t0 < 120 + budget:
                if again(h[:i] + h[i + 1:]):
                    h = h[:i] + h[i + 1:]
                else:
                    i += 1
            f["history"] = [list(x) for x in h]
            f["msg"] += "\n(only after %d other case(s) in the same process)" % len(h)
            return f
        if n >= len(hist):
            break
        n *= 2
    return None


def worker(check, wid, nworkers, seed, cases, deadline, q, stop, known):
    try:
        check.open()
    except Exception:
        q.put(("error", wid, traceback.format_exc()))
        q.put(("done", wid, None))
        return
    st = {"n": 0, "discard": 0, "keys": set(), "samples": [], "tags": {},
          "known": {}, "discards": {}, "evals": 0, "unconfirmed": []}
    hist = []       # the cases since the resources were last reset
    try:
        i = wid
        while i < cases and time.time() < deadline and not stop.is_set():
            size = case_size(i)
            try:
                k, r, rec = run_case(check, seed=case_seed(check.id, seed, i),
                                     size=size)
            except Exception:
                q.put(("error", wid, "case %d\n%s" % (i, traceback.format_exc())))
                break
            if k == "ok":
                st["n"] += 1
                st["evals"] += getattr(r, "n", 1) if r else 1
                if r is not None:
                    if r.key is not None:
                        h = hashlib.sha1(repr(r.key).encode()).digest()[:8]
                        if h not in st["keys"]:
                            st["keys"].add(h)
                            if len(st["samples"]) < 2 and r.sample is not None:
                                st["samples"].append(r.sample)
                    for t in r.tags:
                        st["tags"][t] = st["tags"].get(t, 0) + 1
            elif k == "discard":
                st["discard"] += 1
                st["discards"][r] = st["discards"].get(r, 0) + 1
            else:
                kk = match_known(known, r)
                if kk is not None:
                    st["known"][kk] = st["known"].get(kk, 0) + 1
                    st["n"] += 1
                else:
                    st["n"] += 1
                    f = isolate(check, hist, rec, size, r,
                                float(os.environ.get("VERIF_SHRINK", "25")))
                    hist = []
                    if f is None:
                        st["unconfirmed"].append(str(r)[:300])
                        if len(st["unconfirmed"]) > 3:
                            break
                    else:
                        f["case"] = i
                        q.put(("fail", wid, f))
                        if not os.environ.get("VERIF_KEEP_GOING"):
                            break
                    i += nworkers
                    continue
            hist.append((rec, size))
            if len(hist) > MAX_HISTORY:
                del hist[0]
            i += nworkers
    finally:
        try:
            check.close()
        except Exception:
            pass
        q.put(("done", wid, st))


KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")


def load_known(pid):
    """Lines `known: property=<id> sig=<regex> :: <what fails>`."""
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) sig=/(.*)/ :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def match_known(known, fail):
    for i, (rx, _) in enumerate(known):
        if re.fullmatch(rx, fail.sig, re.S):
            return i
    return None


def confirm(check, f):
    """Re-runs a failure in this (fresh) process."""
    check.open()
    try:
        k, r, _ = run_history(check, f.get("history", []), f["choices"], f["size"])
        return k == "fail", (str(r) if k == "fail" else k), getattr(r, "detail", None)
    finally:
        check.close()


def _confirm_child(check, f, q):
    try:
        q.put(confirm(check, f))
    except Exception:
        q.put((False, traceback.format_exc(), None))


def main(check, tier, seed):
    t0 = time.time()
    check.tier = tier
    check.seed = seed
    check.build()
    t_build = time.time() - t0
    cases = check.quick_cases if tier == "quick" else check.thorough_cases
    wall = check.quick_wall if tier == "quick" else check.thorough_wall
    cases = int(os.environ.get("VERIF_CASES", cases))
    wall = float(os.environ.get("VERIF_WALL", wall))
    known = load_known(check.id)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Event()
    nw = min(check.max_workers or os.cpu_count() or 4, max(1, cases))
    deadline = time.time() + wall
    procs = [ctx.Process(target=worker, args=(check, w, nw, seed, cases,
                                              deadline, q, stop, known))
             for w in range(nw)]
    for p in procs:
        p.start()
    done = 0
    fails, errors = [], []
    tot = {"n": 0, "discard": 0, "keys": set(), "samples": [], "tags": {},
           "known": {}, "discards": {}, "evals": 0, "unconfirmed": []}
    finished = set()
    while done < nw:
        try:
            kind, wid, payload = q.get(timeout=2)
        except queue.Empty:
            for w, p in enumerate(procs):
                if not p.is_alive() and w not in finished:
                    # Drain what it may have left, then give it up.
                    if q.empty():
                        finished.add(w)
                        done += 1
                        errors.append("worker %d died (exit %s)" % (w, p.exitcode))
            continue
        if kind == "done":
            done += 1
            finished.add(wid)
            if payload:
                for k in ("n", "discard", "evals"):
                    tot[k] += payload[k]
                tot["keys"] |= payload["keys"]
                tot["samples"] += payload["samples"]
                tot["unconfirmed"] += payload["unconfirmed"]
                for d in ("tags", "known", "discards"):
                    for a, b in payload[d].items():
                        tot[d][a] = tot[d].get(a, 0) + b
        elif kind == "fail":
            fails.append(payload)
            if not os.environ.get("VERIF_KEEP_GOING"):
                stop.set()
        else:
            errors.append(payload)
            stop.set()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.terminate()
    # Deterministic cases.
    nfixed = 0
    fixed = check.fixed()
    if fixed:
        check.open()
        try:
            for name, fn in fixed:
                nfixed += 1
                try:
                    r = fn()
                    if isinstance(r, Result) and r.sample is not None and len(tot["samples"]) < 4:
                        tot["samples"].append(r.sample)
                except Fail as e:
                    kk = match_known(known, e)
                    if kk is not None:
                        tot["known"][kk] = tot["known"].get(kk, 0) + 1
                    else:
                        fails.append({"fixed": name, "sig": e.sig,
                                      "msg": str(e), "choices": [], "size": 1.0,
                                      "case": name, "detail": e.detail})
                except Discard:
                    pass
        finally:
            check.close()
    # Confirm, deduplicate by signature, write replays.
    out = []
    seen = set()
    flaky = len(tot["unconfirmed"])
    for m in tot["unconfirmed"][:5]:
        print("note: failure not seen again: %s" % m)
    for f in sorted(fails, key=lambda f: (len(f.get("history", ())), len(f["choices"]))):
        if f["sig"] in seen:
            continue
        seen.add(f["sig"])
        if "fixed" not in f:
            oks = 0
            msg, detail = f["msg"], None
            need = 3
            for _ in range(need):
                q2 = ctx.Queue()
                p = ctx.Process(target=_confirm_child, args=(check, f, q2))
                p.start()
                try:
                    ok, msg2, detail2 = q2.get(timeout=180)
                except queue.Empty:
                    ok, msg2, detail2 = False, "confirmation timed out", None
                p.join(5)
                if p.is_alive():
                    p.terminate()
                if ok:
                    oks += 1
                    msg, detail = msg2, detail2
            if oks < need:
                flaky += 1
                print("note: unconfirmed failure (%d/%d): %s" % (oks, need, f["msg"]))
                continue
            f["msg"], f["detail"] = msg, detail
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        name = "%s-%s.json" % (check.id, hashlib.sha1(
            (f["sig"] + repr(f["choices"])).encode()).hexdigest()[:10])
        path = os.path.join(VERIF, "replay", name)
        f["property"] = check.id
        f["seed"] = seed
        with open(path, "w") as o:
            json.dump(f, o, indent=1, default=str)
        out.append((f, path))
    ev = {
        "property": check.id, "tier": tier, "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": max(tot["evals"], tot["n"]) + nfixed,
            "distinct_nontrivial": len(tot["keys"]),
            "rule": check.rule,
            "samples": tot["samples"][:6],
            "cases": tot["n"], "fixed_cases": nfixed,
            "discarded": tot["discard"],
            "discard_reasons": tot["discards"],
            "case_tags": dict(sorted(tot["tags"].items())),
            "known_finding_hits": {known[k][1]: v for k, v in tot["known"].items()},
            "unconfirmed": flaky,
            "build_s": round(t_build, 1),
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(out),
    }
    if hasattr(check, "extra_evidence"):
        ev["coverage"].update(check.extra_evidence(tot))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as o:
        json.dump(ev, o, indent=1, default=str)
    for rx, what in known:
        print("KNOWN-FINDING: property=%s %s" % (check.id, what))
    print("%s: %d cases, %d distinct non-trivial, %d discarded, %.1fs (build %.1fs)"
          % (check.id, tot["n"], len(tot["keys"]), tot["discard"],
             time.time() - t0, t_build))
    if errors:
        print("\n".join(errors[:3]), file=sys.stderr)
        print("HARNESS-ERROR in %s" % check.id)
        if not out:
            return 2
    for f, path in out:
        print(f["msg"][:1500])
        print("VIOLATION property=%s replay=%s" % (check.id, path))
    return 1 if out else 0


def replay(check, path):
    f = json.load(open(path))
    check.tier, check.seed = "quick", f.get("seed", 1)
    check.build()
    if "fixed" in f:
        check.open()
        try:
            for name, fn in check.fixed():
                if name == f["fixed"]:
                    try:
                        fn()
                    except Fail as e:
                        print(e)
                        print("VIOLATION property=%s replay=%s" % (check.id, path))
                        return 1
        finally:
            check.close()
        print("passes")
        return 0
    ok, msg, detail = confirm(check, f)
    print(msg)
    if detail:
        print(detail if isinstance(detail, str) else json.dumps(detail, indent=1, default=str))
    if ok:
        print("VIOLATION property=%s replay=%s" % (check.id, path))
    return 1 if ok else 0
