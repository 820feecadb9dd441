"""P16: remote errors keep their identity, place and grouping."""
import copy
import json
import pickle
import random

from common import Driver, check, fail

d = Driver("P16", "exceptions of many kinds wrapped, sent as JSON and unwrapped; random mixtures of values, errors and groups collected; failures on the engines of a simulated "
           "cluster fetched through real views; against oracles written from the property; a case counts when a failure was involved")
import sim  # noqa: E402

import ipyparallel as ipp  # noqa: E402
from ipyparallel import error  # noqa: E402


class Odd(Exception):
    def __str__(self):
        raise RuntimeError("no text")


class NotText(Exception):
    def __str__(self):
        return 5


class OddRepr(Exception):
    def __repr__(self):
        raise RuntimeError("no repr")


class TwoArgs(Exception):
    def __init__(self, a, b):
        self.a, self.b = a, b
        super().__init__(a)


class Unpick(Exception):
    def __init__(self, a):
        super().__init__(lambda: a)


class Prop(Exception):
    @property
    def args(self):
        raise ValueError("args")


TYPES = ["ValueError", "KeyError", "OSError", "UnicodeDecodeError", "SyntaxError", "SystemExit", "KeyboardInterrupt", "StopIteration", "ExceptionGroup",
         "Odd", "NotText", "OddRepr", "TwoArgs", "Unpick", "Chained", "Cause", "Recursion", "CompositeError", "RemoteError", "UnmetDependency", "Surrogate", "MemoryError"]
TEXTS = ["", "plain", "two\nlines", "café ☃", "%s {x} \\", "a" * 3000, "[0:apply] X: y", "\x00\r\x1b[0m"]


def boom_here(k, text):
    if k == "UnicodeDecodeError":
        raise UnicodeDecodeError("utf8", b"abc", 0, 1, text)
    if k == "SyntaxError":
        exec(compile("x = (" + "", text[:10].replace("\x00", "") or "f", "exec"))
    if k == "ExceptionGroup":
        raise ExceptionGroup(text, [ValueError("in"), KeyError("out")])
    if k == "Chained":
        try:
            raise KeyError(text)
        except KeyError:
            raise ValueError(text)
    if k == "Cause":
        try:
            raise Odd()
        except Odd as e:
            raise ValueError(text) from e
    if k == "Recursion":
        return boom_here(k, text)
    if k == "CompositeError":
        raise error.CompositeError(text, [("A", "b", "tb", {"engine_id": 1, "method": "apply"}), ("C", text, None, {})])
    if k == "RemoteError":
        raise error.RemoteError("Far", text, "tb", {"engine_id": 1, "method": "apply"})
    if k == "UnmetDependency":
        raise error.UnmetDependency(text)
    if k == "TwoArgs":
        raise TwoArgs(text, 3)
    if k == "Surrogate":
        raise ValueError("\udc80" + text)
    if k in ("Odd",):
        raise Odd()
    if k == "NotText":
        raise NotText()
    if k in globals():
        raise globals()[k](text)
    raise (getattr(__builtins__, k, None) or __builtins__[k] if isinstance(__builtins__, dict) else getattr(__builtins__, k))(text)


def gen_info(r):
    return r.choice([None, {}, {"engine_id": r.randrange(4), "engine_uuid": "u", "method": r.choice(["apply", "execute"])}])


def safe(f, *a):
    try:
        return f(*a)
    except Exception:
        return None


def same_err(a, b, how):
    for f in ("ename", "evalue", "traceback", "engine_info"):
        check(getattr(a, f) == getattr(b, f), f"{how}-changes-{f}", lambda: f"after {how} {f} is {getattr(b, f)!r}, was {getattr(a, f)!r}")
    check(type(a) is type(b), f"{how}-changes-type", lambda: f"{type(b)} was {type(a)}")
    check(str(a) == str(b) and repr(a) == repr(b), f"{how}-changes-text", lambda: f"{b!s} was {a!s}")
    check(a.args == b.args, f"{how}-changes-args", lambda: f"{b.args} was {a.args}")


def case_wrap(c):
    info = c["info"]
    try:
        boom_here(c["type"], c["text"])
    except BaseException as e:
        orig = e
        content = error.wrap_exception(info) if info is not None else error.wrap_exception()
    name = type(orig).__name__
    text = safe(str, orig)
    check(content["status"] == "error", "wrap-status", lambda: content["status"])
    wire = json.loads(json.dumps(content))
    e = error.unwrap_exception(wire)
    check(isinstance(e, error.RemoteError), "unwrap-type", lambda: type(e))
    check(e.ename == name, "ename", lambda: f"{e.ename!r}, raised {name!r}")
    if text is not None:
        check(e.evalue == text, "evalue", lambda: f"{e.evalue!r}, message was {text!r}")
    check(isinstance(e.evalue, str), "evalue", lambda: f"{e.evalue!r}")
    check("boom_here" in e.traceback and name in e.traceback, "traceback-text", lambda: f"traceback without the failing call: {e.traceback[-500:]!r}")
    if text and "\n" not in text and len(text) < 100 and c["type"] == "ValueError":
        check(text in e.traceback, "traceback-text", lambda: f"traceback without the message: {e.traceback!r}")
    check(e.engine_info == (info or {}), "engine-info", lambda: f"{e.engine_info} was {info}")
    check(name in str(e) and e.evalue in str(e), "text", lambda: str(e))
    lines = e.render_traceback()
    check(isinstance(lines, list) and "\n".join(lines[1:]).split() == e.traceback.split(), "rendering", lambda: lines)
    if info:
        check(str(info["engine_id"]) in lines[0] and str(info["engine_id"]) in str(e), "label", lambda: lines[0])
    same_err(e, pickle.loads(pickle.dumps(e, c["proto"])), "pickling")
    same_err(e, copy.copy(e), "copying")
    try:
        raise e
    except error.RemoteError as e2:
        same_err(e, e2, "reraising")
    return True


N = [0]


def mk(r, depth, out):
    """a random collected outcome; appends the failures it stands for"""
    k = r.random()
    if k < .35:
        return r.choice([1, None, "v", [1], {"a": 1}, ValueError("returned, not raised"), "CompositeError"])
    if k < .75 or depth == 0:
        N[0] += 1
        f = (r.choice(["A", "ValueError", "CompositeError", "RemoteError"]), f"text {N[0]}", r.choice([None, "", f"tb {N[0]}\nline"]),
             r.choice([{}, {"engine_id": r.randrange(9), "method": "apply", "engine_uuid": "u"}]))
        out.append(f)
        return error.RemoteError(*f)
    if k < .85:
        N[0] += 1
        out.append(("TaskAborted", str(error.TaskAborted(f"m{N[0]}")), None, None))
        return error.TaskAborted(f"m{N[0]}")
    sub = []
    vals = [mk(r, depth - 1, sub) for _ in range(r.randrange(1, 4))]
    try:
        error.collect_exceptions(vals, "inner")
    except error.CompositeError as e:
        out.extend(sub)
        return e
    return 7


def case_collect(c):
    r = random.Random(c["seed"])
    want = []
    vals = [mk(r, 2, want) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
    if c["form"] == "dict":
        arg = {i: v for i, v in enumerate(vals)}
    elif c["form"] == "tuple":
        arg = tuple(vals)
    else:
        arg = list(vals)
    try:
        got = error.collect_exceptions(arg, c["method"])
    except error.CompositeError as e:
        err = e
    else:
        check(not want, "failures-hidden", lambda: f"collecting {want} raised nothing")
        check(got is arg or got == arg, "values-changed", lambda: f"{got!r} from {arg!r}")
        return False
    check(want, "failures-invented", lambda: f"{err.elist} though nothing failed")
    got = [(a, str(b), t, i) for a, b, t, i in err.elist]
    check(len(got) == len(want), "failure-count", lambda: f"reported {got}, failed {want}")
    for g, w in zip(got, want):
        check(g[:2] == w[:2], "failure-order", lambda: f"reported {got}, failed {want}")
        if w[3] is not None:
            check((g[2] or "") == (w[2] or "") and g[3] == w[3], "failure-place", lambda: f"reported {g}, failed {w}")
    s = str(err)
    lines = "\n".join(err.render_traceback())
    check(c["method"] in s, "text", lambda: s)
    for i, w in enumerate(want):
        if i < err.tb_limit:
            check(w[0] in s and w[1] in s, "text", lambda: f"{s!r} does not mention {w}")
            if w[3]:
                check(f"[{w[3]['engine_id']}:" in s and f"[{w[3]['engine_id']}:" in lines, "label", lambda: s)
        if w[3] is None:
            continue
        one = err.render_traceback(i)
        check((w[2] or "").splitlines() == one[1:] or not w[2], "rendering", lambda: f"{one} for {w}")
        try:
            err.raise_exception(*([i] if i or c.get("first", len(want) % 2) else []))
        except error.RemoteError as x:
            check((x.ename, x.evalue, x.traceback, x.engine_info) == (w[0], w[1], w[2], w[3]), "reraise", lambda: f"{x!r} for {w}")
        else:
            fail("reraise", "nothing raised")
    if len(want) > err.tb_limit:
        check(str(len(want) - err.tb_limit) in s, "text", lambda: f"{s!r} does not count the rest of {len(want)}")
    for bad in (len(want), len(want) + 3):
        try:
            err.raise_exception(bad)
        except IndexError:
            pass
        else:
            fail("reraise", "an exception with an absent index was raised")
    for how, e2 in (("pickling", pickle.loads(pickle.dumps(err))), ("copying", copy.copy(err))):
        check(str(e2) == s and e2.elist == err.elist and type(e2) is type(err), f"{how}-group", lambda: f"{e2} was {s}")
    ad = error.AlreadyDisplayedError(err)
    check(str(len(want)) in str(ad), "text", lambda: str(ad))
    check(str(pickle.loads(pickle.dumps(ad))) == str(ad), "pickling-group", lambda: str(ad))
    return True


SRC = """
def fn(fails, rank):
    class Custom(Exception):
        pass
    me = _eid
    if me in fails:
        raise {'V': ValueError, 'K': KeyError, 'C': Custom}[fails[me][0]](fails[me][1])
    return me
"""


def case_cluster(c):
    r = random.Random(c["seed"])
    sim.seeded_random(c["seed"])
    s = sim.Sim(random.Random(c["seed"]), engines=c["engines"], hwm=0)
    ids = sorted(s.engines)
    for e in s.engines.values():
        e.kernel.shell.user_ns["_eid"] = e.eid
    g = {"__name__": "__main__", "__builtins__": __builtins__}
    exec(SRC, g)
    tg = r.sample(ids, r.randrange(1, len(ids) + 1))
    fails = {e: (r.choice("VKC"), r.choice(["t1", "", "two\nlines"])) for e in tg if r.random() < .5}
    lone = len(tg) == 1 and r.random() < .5
    v = s.client.direct_view(tg[0] if lone else tg)
    ar = v.apply_async(g["fn"], fails, 0)
    dead = []
    if r.random() < .3 and not lone:
        x = r.choice(tg)
        s.kill(x)
        dead = [x]
        for m in ar.msg_ids:
            pass
    s.drain()
    want = [e for e in tg if e in fails or e in dead]
    for _ in range(2):
        try:
            got = ar.get(timeout=0)
        except error.CompositeError as e:
            check(want and not lone, "failures-invented", lambda: f"{e}; failing engines {want}")
            check(len(e.elist) == len(want), "failure-count", lambda: f"{e.elist}; failing engines {want}")
            for (en, ev, tb, info), eid in zip(e.elist, want):
                if eid in dead:
                    check(en == "EngineError", "ename", lambda: f"{en} on lost engine")
                    continue
                k, t = fails[eid]
                exp = {"V": ValueError, "K": KeyError, "C": None}[k]
                check(en == (exp.__name__ if exp else "Custom") and ev == (str(exp(t)) if exp else t), "failure-order", lambda: f"{en} {ev!r} for engine {eid}: {fails[eid]}")
                check(info["engine_id"] == eid and "fn" in tb, "failure-place", lambda: f"{info} {tb} for engine {eid}")
                check(f"[{eid}:apply]" in str(e) or len(want) > e.tb_limit, "label", lambda: str(e))
        except error.RemoteError as e:
            check(lone and want, "grouping", lambda: f"{e!r}; failing engines {want}")
            check(e.engine_info["engine_id"] == tg[0] and "fn" in e.traceback, "failure-place", lambda: f"{e.engine_info}")
        else:
            check(not want, "failures-hidden", lambda: f"{got} though {want} failed")
            check(got == (tg[0] if lone else tg), "values-changed", lambda: f"{got} from {tg}")
    return bool(want)


d.add("wrap", case_wrap, cases=[dict(type=t, text=x, info=i, proto=2) for t in TYPES for x in TEXTS[:3] for i in (None, {"engine_id": 0, "engine_uuid": "u", "method": "apply"})],
      gen=lambda r: dict(type=r.choice(TYPES), text=r.choice(TEXTS), info=gen_info(r), proto=r.randrange(6)))
d.add("collect", case_collect, gen=lambda r: dict(seed=r.randrange(1 << 30), form=r.choice(["dict", "list", "tuple"]), method=r.choice(["apply", "f(x)", ""])))
d.add("cluster", case_cluster, gen=lambda r: dict(seed=r.randrange(1 << 30), engines=r.choice([1, 2, 5, 7])))
d.main()
