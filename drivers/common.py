"""Shared harness of the concrete drivers (run under the repository's interpreter).

A driver registers case functions; every case runs the real code from /repo and
compares with an oracle written from the property.  A case that raises from
driver code (not from /repo or a library called by it) marks the driver as
inapplicable there instead of raising an alarm.
"""
import argparse
import json
import os
import random
import subprocess
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
REPO = os.environ.get("PYVER_REPO", "/repo")


class Fail(Exception):
    def __init__(self, key, what):
        self.key, self.what = key, what


class Skip(Exception):
    pass


def fail(key, what):
    raise Fail(key, what)


def check(cond, key, what):
    if not cond:
        raise Fail(key, what() if callable(what) else what)


def blame(tb):
    """True when the innermost frames are in the code under test rather than in the harness"""
    frames = traceback.extract_tb(tb)
    here = os.path.dirname(os.path.abspath(__file__))
    for f in reversed(frames):
        if os.path.abspath(f.filename).startswith(here):
            return False
        if os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep):
            return True
    return False


def unusable(e):
    """an exception of the harness that comes from a value of the wrong kind, not from a name or signature that is gone, nor from the environment"""
    if isinstance(e, (TypeError, AttributeError)):
        return "'NoneType'" in str(e) or isinstance(e, TypeError) and "argument" not in str(e)
    if isinstance(e, (ImportError, NameError, OSError, MemoryError, RecursionError, subprocess.SubprocessError)) or type(e).__module__.split(".")[0] == "zmq":
        return False
    return isinstance(e, Exception)


class Driver:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--out", default=None)
        ap.add_argument("--budget", type=float, default=20)
        ap.add_argument("--hints", default=None)
        ap.add_argument("--replay", default=None)
        self.a = ap.parse_args()
        self.rng = random.Random(self.a.seed)
        self.t0 = time.time()
        self.gens = {}
        self.n, self.keys, self.samples, self.failures, self.notes = 0, set(), [], [], []
        self.counts, self.inapplicable = {}, {}
        self.hints = json.load(open(self.a.hints)) if self.a.hints else []
        self.thorough = self.a.tier == "thorough"

    def left(self):
        return self.a.budget - (time.time() - self.t0)

    def run_case(self, name, fn, case):
        """one evaluation; a case is JSON-serializable and fully determines the run"""
        self.n += 1
        self.counts[name] = self.counts.get(name, 0) + 1
        try:
            nontrivial = fn(case)
            if nontrivial is not False:
                k = (name, json.dumps(case, sort_keys=True, default=str))
                if k not in self.keys:
                    self.keys.add(k)
            if self.counts[name] <= 2 or (self.counts[name] == 17):
                self.samples.append(dict(kind=name, case=case))
            return True
        except Skip:
            return True
        except Fail as f:
            self.note_fail(name, f.key, f.what, case, traceback.format_exc())
            return False
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and not blame(e.__traceback__):
                raise
            if blame(e.__traceback__):
                self.note_fail(name, f"{name}-raises-{type(e).__name__}", f"unexpected {type(e).__name__}: {e}", case,
                               traceback.format_exc())
                return False
            if unusable(e):
                # the harness could not digest what the code under test gave it
                self.note_fail(name, f"{name}-answer-unusable-{type(e).__name__}", f"what the code returned cannot be used: {type(e).__name__}: {e}", case, traceback.format_exc())
                return False
            self.inapplicable.setdefault(name, 0)
            self.inapplicable[name] += 1
            if self.inapplicable[name] == 1:
                self.notes.append(f"case kind {name} inapplicable: {traceback.format_exc()[-1500:]}")
            return True

    def note_fail(self, name, key, what, case, trace):
        if sum(1 for f in self.failures if f["key"] == key) < 1 and len(self.failures) < 12:
            self.failures.append(dict(key=key, what=str(what)[:2000], case=dict(kind=name, case=case), trace=trace[-3000:]))

    def add(self, name, fn, cases=(), gen=None, weight=1):
        """cases: fixed/exhaustive list; gen(rng) -> a random case, drawn until the budget ends"""
        self.gens[name] = (fn, cases, gen, weight)

    def main(self):
        if self.a.replay:
            c = json.load(open(self.a.replay))["case"]
            self.run_case(c["kind"], self.gens[c["kind"]][0], c["case"])
            return self.finish()
        for name, (fn, cases, gen, w) in self.gens.items():
            for c in cases() if callable(cases) else cases:
                self.run_case(name, fn, c)
                if self.left() < -60:
                    break
        tot = sum(w for _, _, g, w in self.gens.values() if g)
        end = max(self.left(), 0)
        for name, (fn, cases, gen, w) in self.gens.items():
            if not gen:
                continue
            t1 = time.time() + max(0.5, end * w / tot)
            bad = 0
            while time.time() < t1 and bad < 3:
                if not self.run_case(name, fn, gen(self.rng)):
                    bad += 1
        self.finish()

    def finish(self):
        r = dict(evaluations=self.n, distinct=len(self.keys), samples=self.samples, failures=self.failures,
                 notes=self.notes, rule=self.rule, counts=self.counts)
        if self.a.out:
            json.dump(r, open(self.a.out, "w"), default=str)
        else:
            for f in self.failures:
                print("FAIL", f["key"], "|", f["what"][:700], "|", json.dumps(f["case"], default=str), "|",
                      f["trace"][-700:] if "-raises-" in f["key"] else "")
            print(json.dumps(dict(notes=[n[-900:] for n in self.notes], counts=self.counts, distinct=len(self.keys))), flush=True)
        sys.stdout.flush()
        os._exit(0)
