"""P03: dependencies and guards against their definition."""
import itertools

from common import Driver, check, fail

d = Driver("P03", "every set of up to 4 tasks with every outcome each (succeeded, failed, unfinished), unrelated finished tasks, every choice of flags and every way "
           "of constructing the dependency; random larger sets; every guard (condition true/false/raising, imports present/absent) run by the real engine handler; "
           "a case counts when the dependency names at least one task, or a guard is evaluated")
import sim  # noqa: E402

import ipyparallel as ipp  # noqa: E402
from ipyparallel import serialize  # noqa: E402
from ipyparallel.controller.dependency import Dependency  # noqa: E402


class FakeAR(ipp.AsyncResult):
    def __init__(self, ids):
        object.__setattr__(self, "msg_ids", ids)

    def __del__(self):
        pass


def make(ids, a, s, f, how):
    kw = dict(all=a, success=s, failure=f)
    if len(ids) % 2:
        # those that are not given: all of them, success only
        kw = {k: v for k, v in kw.items() if v != dict(all=True, success=True, failure=False)[k]}
    if how == "list":
        return Dependency(list(ids), **kw)
    if how == "set":
        return Dependency(set(ids), **kw)
    if how == "dict":
        return Dependency(dict(dependencies=list(ids), **kw))
    if how == "rendered":
        return Dependency(Dependency(list(ids), **kw).as_dict())
    if how == "result":
        return Dependency(FakeAR(list(ids)), **kw)
    if how == "results":
        return Dependency([FakeAR(list(ids[:1])), *ids[1:2], FakeAR(list(ids[2:]))], **kw)
    if how == "str":
        return Dependency(ids[0], **kw)


def case_dep(c):
    st, extra, (a, s, f), how = c["st"], c["extra"], c["flags"], c["how"]
    ids = [f"t{i}" for i in range(len(st))]
    if how == "str" and len(ids) != 1:
        return False
    ok = {i for i, x in zip(ids, st) if x == "ok"} | {x + "-ok" for x in extra}
    ko = {i for i, x in zip(ids, st) if x == "ko"} | {x + "-ko" for x in extra}
    dep = make(ids, a, s, f, how)
    check(set(dep) == set(ids), "members", lambda: f"dependency on {ids} holds {sorted(dep)}")
    check((dep.all, dep.success, dep.failure) == (a, s, f), "flags", lambda: f"flags {(a, s, f)} became {(dep.all, dep.success, dep.failure)}")
    ok0, ko0 = set(ok), set(ko)
    accepted = [(x == "ok" and s) or (x == "ko" and f) for x in st]
    refused = [(x == "ok" and not s) or (x == "ko" and not f) for x in st]
    met = not ids or (all(accepted) if a else any(accepted))
    dead = bool(ids) and (any(refused) if a else all(refused))
    gm, gd = dep.check(ok, ko), dep.unreachable(ok, ko)
    check(ok == ok0 and ko == ko0 and set(dep) == set(ids), "arguments-altered", "asking changed the sets")
    check(bool(gm) == met, "met", lambda: f"{c}: met reported {gm}, by definition {met}")
    check(bool(gd) == dead, "unreachable", lambda: f"{c}: unreachable reported {gd}, by definition {dead}")
    check(not (gm and gd), "both", lambda: f"{c}: met and unreachable")
    if not ko:
        check(bool(dep.check(ok)) == met and bool(dep.unreachable(ok)) == dead, "no-failures-given", lambda: f"{c}: differs when no failed set is given")
    return bool(ids)


def all_deps():
    for n in range(0, 5):
        for st in itertools.product(["ok", "ko", "un"], repeat=n):
            for fl in itertools.product([True, False], repeat=3):
                if not (fl[1] or fl[2]):
                    continue
                for extra in ([], ["x"]):
                    hows = ["list", "set", "dict", "rendered", "result", "results", "str"] if n <= 2 else ["list", "rendered"]
                    for how in hows:
                        yield dict(st=list(st), extra=extra, flags=list(fl), how=how)


def case_bad(c):
    try:
        if c["kind"] == "flags":
            Dependency(["a"], success=False, failure=False)
        elif c["kind"] == "dictflags":
            Dependency(dict(dependencies=["a"], success=False, failure=False))
        else:
            Dependency({"type": [5], "type2": [None], "type3": ["a", b"b"]}[c["kind"]])
    except (TypeError, ValueError):
        return True
    fail("bad-accepted", f"invalid dependency accepted: {c}")


GUARDS = {
    "true": "def g(*a, **k): return True", "false": "def g(*a, **k): return False", "none": "def g(*a, **k): return None", "zero": "def g(*a, **k): return 0", "value": "def g(*a, **k): return a == (1,) and k == {'z': 2}",
    "unmet": "def g(*a, **k):\n    from ipyparallel.error import UnmetDependency\n    raise UnmetDependency('no')", "error": "def g(*a, **k): raise KeyError('guard')",
    "ns": "def g(*a, **k): return here > 3",
}
HOLDS = {"true": True, "false": False, "none": True, "zero": True, "unmet": False, "error": None}


def engine(ns):
    k = sim.SimKernel(sim.mksession("eng"), "eng-uuid", 0)
    k.shell.user_ns.update(ns)
    k.shell.user_ns["__name__"] = "__main__"
    return k


def run(k, f, args=()):
    out = []
    st = sim.FStream(lambda fr: out.append([bytes(x) for x in fr]))
    cs = sim.mksession("client")
    msg = cs.msg("apply_request", content={}, metadata={})
    msg["buffers"] = [bytes(b) for b in serialize.pack_apply_message(f, args, {})]
    sim._CUR = k.shell
    try:
        k.apply_request(st, [b"client"], msg)
    finally:
        sim._CUR = None
    check(len(out) == 1, "replies", lambda: f"{len(out)} replies to one request")
    return sim.parse(out[0])[1], k


def case_guard(c):
    ran = []
    g = {"__name__": "__main__", "__builtins__": __builtins__}
    exec(GUARDS[c["g"]] + "\ndef f(x=1):\n    global ran\n    ran = 1\n    return ('ran', x)", g)
    f = ipp.depend(g["g"], *c["args"], **c["kw"])(g["f"])
    k = engine({"here": c["here"], "ran": 0})
    m, k = run(k, f, (7,))
    holds = (c["args"] == [1] and c["kw"] == {"z": 2}) if c["g"] == "value" else (c["here"] > 3 if c["g"] == "ns" else HOLDS[c["g"]])
    did = k.shell.user_ns.get("ran")
    met = m["metadata"].get("dependencies_met")
    if holds:
        check(did == 1 and m["content"]["status"] == "ok", "guard-holds-not-run", lambda: f"{c}: guard holds but ran={did}, {m['content']}")
        check(met is True, "met-flag", lambda: f"{c}: dependencies_met {met}")
    else:
        check(did == 0, "guard-fails-run", lambda: f"{c}: guard does not hold but the function ran")
        check(m["content"]["status"] == "error", "unmet-status", lambda: f"{c}: {m['content']}")
        if holds is False:
            check(m["content"]["ename"] == "UnmetDependency" and met is False, "unmet-not-reported", lambda: f"{c}: {m['content']['ename']}, dependencies_met={met}")
        else:
            check(m["content"]["ename"] == "KeyError" and met is True, "guard-error", lambda: f"{c}: {m['content']['ename']}, dependencies_met={met}")
    return True


def case_require(c):
    g = {"__name__": "__main__", "__builtins__": __builtins__}
    import json
    import math

    exec("def f(x=1):\n    global ran\n    ran = 1\n    return ('ran', x)\ndef helper(y): return y + 1", g)
    objs = [dict(math="math", mod=math, dotted="json.decoder", missing="no_such_module_zz", helper=g["helper"])[o] for o in c["o"]]
    f = ipp.require(*objs, **c["kw"])(g["f"])
    k = engine({"ran": 0})
    m, k = run(k, f, (7,))
    ns = k.shell.user_ns
    holds = "missing" not in c["o"]
    if holds:
        check(ns["ran"] == 1 and m["content"]["status"] == "ok", "guard-holds-not-run", lambda: f"{c}: not run: {m['content']}")
        for o in c["o"]:
            n = dict(math="math", mod="math", dotted="json", helper="helper")[o]
            check(n in ns, "not-available", lambda: f"{c}: {n} not available on the engine")
        if "helper" in c["o"]:
            check(ns["helper"](3) == 4, "not-available", "pushed function differs")
        for n, v in c["kw"].items():
            check(n in ns and ns[n] == v, "not-available", lambda: f"{c}: {n} not pushed")
    else:
        check(ns["ran"] == 0, "guard-fails-run", lambda: f"{c}: ran without its import")
        check(m["content"].get("ename") == "UnmetDependency" and m["metadata"].get("dependencies_met") is False, "unmet-not-reported", lambda: f"{c}: {m['content']}")
    return True


def big(r):
    n = r.randrange(5, 12)
    fl = r.choice([(a, s, f) for a in (True, False) for s in (True, False) for f in (True, False) if s or f])
    w = r.choice([("ok", "ok", "ok", "ko", "un"), ("ok",), ("ko",), ("ko", "un"), ("ok", "un"), ("ok", "ko")])
    return dict(st=[r.choice(w) for _ in range(n)], extra=r.choice([[], ["x"]]), flags=list(fl), how=r.choice(["list", "set", "dict", "rendered", "result", "results"]))


d.add("dependency", case_dep, cases=all_deps, gen=big)
d.add("invalid", case_bad, cases=[dict(kind=k) for k in ("flags", "dictflags", "type", "type2", "type3")])
d.add("guard", case_guard, cases=[dict(g=g, args=a, kw=k, here=h) for g in GUARDS for a, k in (([], {}), ([1], {"z": 2}), ([1], {})) for h in (1, 5)])
d.add("require", case_require, cases=[dict(o=list(o), kw=kw) for n in range(4) for o in itertools.permutations(["math", "mod", "dotted", "missing", "helper"], n) for kw in ({}, {"w": 5}, {"w": "s", "u": [1]})])
d.main()
