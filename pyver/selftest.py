"""Does the verifier accept what is right and refuse what is wrong?  Small Python functions with contracts and the
expected answer; run once by setup_cmd (and by hand after every change of the engine)."""
import os
import sys
import tempfile

import z3

sys.dont_write_bytecode = True
from . import types as ty
from .spec import Contract, Registry, forall, imp
from .src import Source
from .types import Any, Bool, Dict, Int, List, Opt, Set, Str
from .verify import verify

TEXT = '''
def double(x):
    return x + x

def total(xs):
    s = 0
    for x in xs:
        s += 1
    return s

def firstneg(xs):
    for i in range(len(xs)):
        if xs[i] < 0:
            return i
    return -1

def pick(d, k):
    return d[k]

def move(a, b, x):
    a.remove(x)
    b.add(x)

def clip(x, lo=0):
    if x < lo:
        raise ValueError("low")
    return x

def callee(x):
    return clip(x) + 1

class Box:
    def put(self, k, v):
        self.items[k] = v
        self.count += 1

    def take(self, k):
        v = self.items.pop(k, None)
        if v is not None:
            self.count -= 1
        return v

def evens(xs):
    return [x for x in xs if x % 2 == 0]

def tryit(d, k):
    try:
        return d[k]
    except KeyError:
        return 0
    finally:
        d.clear()
'''

M = "ipyparallel.t:"


def cases(reg):
    I = Int
    yield "proved", Contract(M + "double", "T", params=dict(x=I), returns=I, ensures=lambda c: {"twice": c.res == 2 * c["x"]})
    yield "refuted", Contract(M + "double", "T", params=dict(x=I), returns=I, ensures=lambda c: {"thrice": c.res == 3 * c["x"]})
    inv = {0: lambda L: {"s": L["s"] == L.k}}
    yield "proved", Contract(M + "total", "T", params=dict(xs=List(I)), returns=I, loops=inv, ensures=lambda c: {"n": c.res == c["xs"].len})
    yield "refuted", Contract(M + "total", "T", params=dict(xs=List(I)), returns=I, loops=inv, ensures=lambda c: {"n": c.res == c["xs"].len + 1})
    yield "bad", Contract(M + "total", "T", params=dict(xs=List(I)), returns=I, loops={0: lambda L: {"s": L["s"] == 2 * L.k}},
                          ensures=lambda c: {"n": c.res == 2 * c["xs"].len})
    fn = {0: lambda L: {"none": forall(I, lambda j: imp(z3.And(0 <= j, j < L.k), L.p("xs").raw(j) >= 0))}}
    post = lambda c: {"first": z3.Or(
        z3.And(c.res == -1, c["xs"].all(lambda i: c["xs"].raw(i) >= 0)),
        z3.And(c.res >= 0, c.res < c["xs"].len, c["xs"].raw(c.res) < 0,
               forall(I, lambda j: imp(z3.And(0 <= j, j < c.res), c["xs"].raw(j) >= 0))))}
    yield "proved", Contract(M + "firstneg", "T", params=dict(xs=List(I)), returns=I, loops=fn, ensures=post)
    yield "bad", Contract(M + "firstneg", "T", params=dict(xs=List(I)), returns=I, loops=fn,
                          ensures=lambda c: {"some": c.res >= 0})
    # undeclared exceptions are obligations
    yield "refuted", Contract(M + "pick", "T", params=dict(d=Dict(Str, I), k=Str), returns=I, ensures=lambda c: {})
    yield "proved", Contract(M + "pick", "T", params=dict(d=Dict(Str, I), k=Str), returns=I, requires=lambda c: {"has": c["d"].has(c["k"])},
                             ensures=lambda c: {"v": c.res == c["d"].raw(c["k"])})
    yield "proved", Contract(M + "pick", "T", params=dict(d=Dict(Str, I), k=Str), returns=I, raises={"KeyError": lambda c: {"absent": z3.Not(c["d"].has(c["k"]))}},
                             ensures=lambda c: {"has": c["d"].has(c["k"])})
    # frames: a parameter not listed as modified must not change
    mv = dict(params=dict(a=Set(I), b=Set(I), x=I), requires=lambda c: {"in": c["a"].has(c["x"])},
              ensures=lambda c: {"moved": z3.And(c.now("b").has(c["x"]), z3.Not(c.now("a").has(c["x"]))),
                                 "rest": forall(I, lambda y: imp(y != c["x"], z3.And(c.now("a").has(y) == c["a"].has(y), c.now("b").has(y) == c["b"].has(y))))})
    yield "proved", Contract(M + "move", "T", modifies=["arg:a", "arg:b"], **mv)
    yield "refuted", Contract(M + "move", "T", modifies=["arg:a"], **mv)
    # contradictory precondition is refused as vacuous
    yield "bad", Contract(M + "double", "T", params=dict(x=I), returns=I, requires=lambda c: {"no": z3.And(c["x"] > 0, c["x"] < 0)}, ensures=lambda c: {"z": c.res == 17})
    # callers see the callee's contract only
    clip = Contract(M + "clip", "T", params=dict(x=I, lo=I), returns=I, raises={"ValueError": lambda c: {"low": c["x"] < c["lo"]}},
                    ensures=lambda c: {"same": c.res == c["x"], "ok": c["x"] >= c["lo"]})
    yield "proved", clip
    reg.add(clip)
    yield "proved", Contract(M + "callee", "T", params=dict(x=I), returns=I, raises={"ValueError": lambda c: {"neg": c["x"] < 0}},
                             ensures=lambda c: {"inc": c.res == c["x"] + 1})
    yield "refuted", Contract(M + "callee", "T", params=dict(x=I), returns=I, ensures=lambda c: {"inc": c.res == c["x"] + 1})
    F = dict(items=Dict(Str, Opt(I)), count=I)
    yield "proved", Contract(M + "Box.put", "T", self_fields=F, params=dict(k=Str, v=Opt(I)), modifies=["items", "count"],
                             ensures=lambda c: {"c": c.f("count") == c.old.f("count") + 1, "others": c.f("items").same_except(c.old.f("items"), c["k"])})
    yield "refuted", Contract(M + "Box.put", "T", self_fields=F, params=dict(k=Str, v=Opt(I)), modifies=["items"], ensures=lambda c: {})
    yield "proved", Contract(M + "Box.take", "T", self_fields=dict(items=Dict(Str, Opt(I)), count=I), params=dict(k=Str), modifies=["items", "count"],
                             ensures=lambda c: {"gone": z3.Not(c.f("items").has(c["k"]))})
    yield "refuted", Contract(M + "Box.take", "T", self_fields=dict(items=Dict(Str, Opt(I)), count=I), params=dict(k=Str), modifies=["items", "count"],
                              ensures=lambda c: {"down": c.f("count") == c.old.f("count") - 1})
    yield "proved", Contract(M + "evens", "T", params=dict(xs=List(I)), returns=List(I), ensures=lambda c: {
        "even": c.res.all(lambda i: c.res.raw(i) % 2 == 0), "short": c.res.len <= c["xs"].len})
    yield "bad", Contract(M + "evens", "T", params=dict(xs=List(I)), returns=List(I), ensures=lambda c: {"all": c.res.len == c["xs"].len})
    yield "proved", Contract(M + "tryit", "T", params=dict(d=Dict(Str, I), k=Str), returns=I, modifies=["arg:d"], ensures=lambda c: {
        "v": imp(c["d"].has(c["k"]), c.res == c["d"].raw(c["k"])), "none": imp(z3.Not(c["d"].has(c["k"])), c.res == 0),
        "cleared": c.now("d").keys().empty()})
    yield "refuted", Contract(M + "tryit", "T", params=dict(d=Dict(Str, I), k=Str), returns=I, modifies=["arg:d"], ensures=lambda c: {"v": c.res == 0})


def main():
    bad = 0
    with tempfile.TemporaryDirectory() as tmp:
        os.makedirs(os.path.join(tmp, "ipyparallel"))
        open(os.path.join(tmp, "ipyparallel", "__init__.py"), "w").close()
        with open(os.path.join(tmp, "ipyparallel", "t.py"), "w") as f:
            f.write(TEXT)
        src = Source(tmp)
        reg = Registry()
        n = 0
        for want, c in cases(reg):
            r = verify(src, reg, c)
            ok = r.status == want or (want == "bad" and r.status in ("refuted", "unknown"))
            n += 1
            if not ok:
                bad += 1
                print(f"SELFTEST {c.name}: expected {want}, got {r.status} {r.detail} {[o.label + ' ' + o.status for o in r.failed]}")
    print(f"selftest: {n} cases, {bad} wrong")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
