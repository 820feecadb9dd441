"""P14: canned objects behave like the originals."""
import functools
import pickle

from common import Driver, check, fail, Skip

d = Driver("P14", "random functions (every kind of parameter, defaults and keyword-only defaults, closures over values, arrays and functions, annotations, "
           "*args/**kwargs), classes with inheritance, partials, references, arrays, byte strings, memory views, ranges, slices and containers of these; canned, "
           "pickled, unpickled and uncanned with a namespace; a case counts when the object has content")
import values  # noqa: E402

from ipyparallel.serialize import canning, serialize_object, deserialize_object, can, uncan  # noqa: E402
from ipyparallel import Reference  # noqa: E402

LIT = ["1", "'x'", "None", "(1, 2)", "2.5", "b'bytes'", "[1, 2]", "{'k': 3}", "A2", "A0", "H", "frozenset([1])", "range(3)", "slice(1, 2)", "AE", "MD"]


def env(extra=None):
    import numpy as np

    g = {"__name__": "__main__", "__builtins__": __builtins__, "np": np, "A2": np.arange(4, dtype="i2").reshape(2, 2)[:, ::-1], "A0": np.array(3.5), "AE": np.zeros((0, 2)), "MD": np.array(["2020-01-01"], dtype="M8[D]"),
         "H": helper}
    g.update(extra or {})
    return g


def helper(*a):
    return ("helper",) + a


def genf(r):
    """a function spec: parameters and closure variables"""
    names = ["p", "q", "r", "s", "t", "u"]
    r.shuffle(names)
    npos, nposonly, nkw = r.randrange(3), r.randrange(2), r.randrange(3)
    po = names[:nposonly]
    pos = names[nposonly:nposonly + npos]
    kw = names[nposonly + npos:nposonly + npos + nkw]
    nd = r.randrange(len(po) + len(pos) + 1)
    dflt = {n: r.choice(LIT) for n in (po + pos)[len(po) + len(pos) - nd:]} if nd else {}
    kd = {n: r.choice(LIT) for n in kw if r.random() < .6}
    clo = [[f"c{i}", r.choice(LIT + ["INNER"])] for i in range(r.choice([0, 0, 1, 2, 3]))]
    return dict(po=po, pos=pos, kw=kw, dflt=dflt, kd=kd, star=r.random() < .3, dstar=r.random() < .3, ann=r.random() < .3, clo=clo, glob=r.random() < .4, lam=r.random() < .2, gen=r.random() < .15,
                doc=r.random() < .2)


def source(s):
    def par(n):
        v = s["dflt"].get(n, s["kd"].get(n))
        ann = ": int" if s["ann"] and not s["lam"] else ""
        return n + ann + ("" if v is None else f"={v}")

    ps = [par(n) for n in s["po"]] + (["/"] if s["po"] else []) + [par(n) for n in s["pos"]]
    if s["star"]:
        ps.append("*rest")
    elif s["kw"]:
        ps.append("*")
    ps += [par(n) for n in s["kw"]] + (["**more"] if s["dstar"] else [])
    parts = s["po"] + s["pos"] + s["kw"] + (["rest"] if s["star"] else []) + (["more"] if s["dstar"] else [])
    parts += [c + "(1)" if v in ("H", "INNER") else c for c, v in s["clo"]] + (["glob"] if s["glob"] else [])
    body = "(" + "".join(x + ", " for x in parts) + "'end')"
    out = ["def make():"] + [f"    {c} = " + ("(lambda k: lambda y: (k, y))(5)" if v == "INNER" else v) for c, v in s["clo"]]
    if s["lam"]:
        out.append(f"    return lambda {', '.join(ps)}: {body}")
    else:
        out.append(f"    def fn({', '.join(ps)}){' -> str' if s['ann'] else ''}:")
        if s["doc"]:
            out.append("        'the doc'")
        out.append(f"        {'yield' if s['gen'] else 'return'} {body}")
        out.append("    return fn")
    return "\n".join(out)


def outcome(f, a, k):
    try:
        v = f(*a, **k)
        if hasattr(v, "__next__"):
            v = list(v)
        return ("value", v)
    except Exception as e:
        return ("raised", type(e).__name__)


def ship(o, g, how, bt):
    if how == 0:
        return uncan(pickle.loads(pickle.dumps(can(o))), g)
    if how == 1:
        return uncan(can(o), g)
    bufs = [bytes(b) for b in serialize_object(o, buffer_threshold=bt)]
    v, rest = deserialize_object(bufs, g)
    check(rest == [], "buffers-left", "buffers left over")
    return v


def agree(a, b, what, key):
    if a[0] != b[0]:
        fail(key, f"{what}: original {a!r}, uncanned {b!r}")
    dd = values.same(a[1], b[1], what)
    check(dd is None, key, lambda: dd)


def calls(s, r):
    n = len(s["po"]) + len(s["pos"])
    req = n - len(s["dflt"])
    for na in sorted({0, req, n, n + 1}):
        kws = {k: 40 for k in s["kw"] if k not in s["kd"]}
        yield tuple(range(10, 10 + na)), kws
        yield tuple(range(10, 10 + na)), {**{k: 50 for k in s["kw"]}, **({"zz": 1} if s["dstar"] else {})}


def case_function(c):
    s = c["f"]
    g = env({"glob": "here"})
    exec(source(s), g)
    f = g["make"]()
    before = (f.__defaults__, f.__kwdefaults__, dict(f.__annotations__), f.__closure__)
    there = env({"glob": "there"})
    h = ship(f, there, c["how"], c["bt"])
    check(f.__defaults__ is before[0] and f.__kwdefaults__ is before[1] and dict(f.__annotations__) == before[2] and f.__closure__ is before[3], "original-altered", "canning changed the function")
    check(h.__name__ == f.__name__, "name-lost", lambda: f"{f.__name__} became {h.__name__}")
    check(h.__annotations__ == f.__annotations__, "annotations-lost", lambda: f"{f.__annotations__} became {h.__annotations__}")
    check(h.__doc__ == f.__doc__ or c.get("x"), "doc-lost", lambda: f"{f.__doc__!r} became {h.__doc__!r}")
    f.__globals__["glob"] = "there"
    for a, k in calls(s, None):
        agree(outcome(f, a, k), outcome(h, a, k), f"fn{a}{k}", "call-differs")
    return True


def case_partial(c):
    s = c["f"]
    g = env({"glob": "there"})
    exec(source(s), g)
    f = g["make"]()
    args = tuple(values.build(v) for v in c["args"])
    kw = {k: values.build(v) for k, v in c["kw"]}
    p = functools.partial(f, *args, **kw)
    for _ in range(c["nest"]):
        p = functools.partial(p, 77)
    h = ship(p, env({"glob": "there"}), c["how"], c["bt"])
    check(type(h) is functools.partial, "partial-type", lambda: f"partial became {type(h)}")
    check(values.same(p.args, args + (77,) * c["nest"]) is None, "original-altered", "canning changed the partial's arguments")
    dd = values.same(p.args, h.args, "partial.args") or (None if set(p.keywords) == set(h.keywords) else "partial keywords differ") or \
        next((x for x in (values.same(p.keywords[k], h.keywords[k], f"partial.keywords[{k!r}]") for k in p.keywords) if x), None)
    check(dd is None, "partial-arguments", lambda: dd)
    for a, k in calls(s, None):
        agree(outcome(p, a, k), outcome(h, a, k), f"partial{a}{k}", "call-differs")
    return True


CLS = '''
class Base(object):
    b = %(b)s
    def hello(self, n=1): return ("base", self.b, n)
class Mid(Base):
    arr = %(a)s
    def __init__(self, v): self.v = v
    def hello(self, n=%(d)s): return ("mid", self.v, n, Base.hello(self, n))
    def __eq__(self, o): return self.v == o.v
    def total(self, *a, k=%(k)s): return (a, k, self.arr)
class Leaf(%(p)s):
    x = %(x)s
    def only(self): return (self.x, self.b)
'''


def case_class(c):
    g = env()
    exec(CLS % c["p"], g)
    cls = g[c["which"]]
    names = dict(cls.__dict__)
    there = env()
    exec(CLS % c["p"], there)   # methods that name Base find it where they are
    h = ship(cls, there, c["how"], c["bt"])
    check(dict(cls.__dict__) == names, "original-altered", "canning changed the class")
    check(h.__name__ == cls.__name__, "name-lost", "class name changed")
    for n in ("b", "arr", "x"):
        check(hasattr(cls, n) == hasattr(h, n), "class-attribute", lambda: f"attribute {n} present {hasattr(cls, n)} became {hasattr(h, n)}")
        if hasattr(cls, n):
            dd = values.same(getattr(cls, n), getattr(h, n), f"{cls.__name__}.{n}")
            check(dd is None, "class-attribute", lambda: dd)
    args = (5,) if issubclass(cls, g["Mid"]) else ()
    o, p = cls(*args), h(*args)
    for m, a, k in [("hello", (), {}), ("hello", (3,), {}), ("total", (1, 2), {}), ("total", (), {"k": 9}), ("only", (), {})]:
        if m == "hello" and args:
            continue_ok = issubclass(h, there["Base"])
            if not continue_ok:
                continue       # Base.hello(self) from another copy of Base is fine in Python 3, checked below
        check(hasattr(o, m) == hasattr(p, m), "class-method", lambda: f"method {m} missing")
        if hasattr(o, m):
            agree(outcome(getattr(o, m), a, k), outcome(getattr(p, m), a, k), f"{cls.__name__}.{m}{a}", "class-method")
    return True


def case_value(c):
    o, o2 = values.build(c["v"]), values.build(c["v"])
    h = ship(o, {}, c["how"], c["bt"])
    dd = values.same(o2, o)
    check(dd is None, "original-altered", lambda: f"canning changed the original: {dd}")
    dd = values.same(o2, h)
    check(dd is None, "value-differs", lambda: dd)
    if c["v"][0] == "arr" and c["how"] == 1:
        check(h is not None, "value-differs", "")
    return True


def case_plain(c):
    """objects without special content come back as they are"""
    o = eval(c["e"], {"f": helper})
    h = ship(o, {}, c["how"], 9)
    check(values.same(o, h) is None, "value-differs", lambda: f"{o!r} became {h!r}")
    if c["how"] == 1 and c["e"][0] in "[{(":
        pass
    return True


def case_ref(c):
    g = {"a": 5, "b": [1, 2, {"k": "v"}], "__name__": "__main__"}
    h = {"a": 5, "b": [1, 2, {"k": "v"}]}
    ref = Reference(c["name"])
    try:
        want = eval(c["name"], dict(h))
        ok = True
    except Exception as e:
        want, ok = type(e).__name__, False
    where = c["where"]
    try:
        if where == "plain":
            got = ship(ref, g, c["how"], 9)
        elif where == "list":
            got = ship([1, ref], g, 2, 9)[1]
        elif where == "dict":
            got = ship({"x": ref}, g, 2, 9)["x"]
        elif where == "partial":
            got = ship(functools.partial(helper, ref), g, c["how"], 9)()[1]
        elif where == "partialkw":
            got = ship(functools.partial(dict, z=ref), g, c["how"], 9)()["z"]
        elif where in ("default", "kwdefault"):
            ns = {"ref": ref, "__name__": "__main__"}
            exec("def fn(x=ref): return x" if where == "default" else "def fn(*, x=ref): return x", ns)
            got = ship(ns["fn"], g, c["how"], 9)()
        elif where == "closure":
            ns = {"ref": ref, "__name__": "__main__"}
            exec("def make():\n z = ref\n def fn(): return z\n return fn", ns)
            got = ship(ns["make"](), g, c["how"], 9)()
        gotok = True
    except Exception as e:
        got, gotok = type(e).__name__, False
    check(gotok == ok and got == want, "reference-differs", lambda: f"Reference({c['name']!r}) in a {where}: {got!r}, expected {want!r}")
    check(ref.name == c["name"], "original-altered", "reference changed")
    return True


def case_dependent(c):
    import ipyparallel as ipp

    calls_ = []
    g = env({"ok": c["ok"], "need": "numpy_no_such_module" if not c["ok"] else "math"})
    exec("def guard(x):\n    return ok and x == 1\ndef fn(a, b=2):\n    return (a, b)", g)
    dep = ipp.depend(g["guard"], c["x"])(g["fn"]) if c["kind"] == "depend" else ipp.require(g["need"])(g["fn"])
    met = (c["ok"] and c["x"] == 1) if c["kind"] == "depend" else c["ok"]
    try:
        h = ship(dep, env({"ok": c["ok"]}), c["how"], 9)
        got = h(4)
        r = ("value", got)
    except ipp.UnmetDependency:
        r = ("unmet", None)
    except Exception as e:
        r = ("raised", repr(e))
    check(r == (("value", (4, 2)) if met else ("unmet", None)) or (not met and c["kind"] == "require" and r[0] == "raised" and "No module" in r[1] and False), "dependent-differs", lambda: f"{c}: {r!r}")
    return True


MOD = '''
TABLE = {"k": 3}
count = [0]
def plain(x=2):
    count[0] += 1
    return ("module", x, TABLE["k"], __name__)
def outer(z):
    def inner(y, *, w=TABLE["k"]):
        return (z, y, w, TABLE, plain(9))
    return inner
def gen(n=2):
    for i in range(n):
        yield (i, TABLE["k"])
class Thing:
    size = 4
    def method(self, q=1): return (q, self.size, TABLE["k"])
    @property
    def prop(self): return self.size + 1
    @staticmethod
    def stat(x): return x * 2
    @classmethod
    def klass(cls): return cls.__name__
    def __eq__(self, o): return type(o) is type(self)
async def co(): return 1
'''


def case_module(c):
    """functions and classes of importable modules work where they arrive, with their module's globals"""
    import importlib
    import os
    import sys
    import textwrap
    import json

    if "p14_a_module" not in sys.modules:
        with open(os.path.join(os.environ["TMPDIR"], "p14_a_module.py"), "w") as f:
            f.write(MOD)
        if os.environ["TMPDIR"] not in sys.path:
            sys.path.insert(0, os.environ["TMPDIR"])
        importlib.invalidate_caches()
    import p14_a_module as m

    g = env({"TABLE": {"k": "elsewhere"}, "plain": None, "join": None, "sep": "?"})
    ns = {"m": m, "os": os, "textwrap": textwrap, "json": json, "functools": functools}
    o, args = eval(c["e"], ns), eval(c["a"], ns)
    want = outcome(o, args, {})
    h = ship(o, g, c["how"], 9)
    agree(want, outcome(h, args, {}), c["e"], "module-function")
    if isinstance(o, type):
        check(h is o, "module-class", lambda: f"{o!r} became {h!r}")
    return True


def case_finding(c):
    g = env()
    if c["which"] == "recursive-closure":
        exec("def make():\n    def fact(n): return 1 if n < 2 else n * fact(n - 1)\n    return fact", g)
        o, test = g["make"](), lambda f: f(5)
    elif c["which"] == "class-staticmethod":
        exec("class C:\n    @staticmethod\n    def s(x): return x + 1", g)
        o, test = g["C"], lambda k: k.s(1)
    elif c["which"] == "class-property":
        exec("class C:\n    @property\n    def s(self): return 4", g)
        o, test = g["C"], lambda k: k().s
    elif c["which"] == "class-super":
        exec("class B:\n    def s(self): return 1\nclass C(B):\n    def s(self): return super().s() + 1", g)
        o, test = g["C"], lambda k: k().s()
    else:
        exec("class C:\n    __slots__ = ('a',)\n    def s(self): return 3", g)
        o, test = g["C"], lambda k: k().s()
    want = test(o)
    try:
        got = test(ship(o, env(), 0, 9))
    except BaseException as e:
        fail(c["which"], f"{c['which']}: {type(e).__name__}: {str(e)[:200]}")
    check(got == want, c["which"], f"{got!r} instead of {want!r}")
    return True


BT = [0, 1, 9, 1000]
P = dict(b=["1", "A2", "'s'", "b'by'"], a=["A2", "A0", "None", "AE"], d=["2", "A2", "'d'", "(1,)"], k=["3", "b'k'", "None", "A0"], p=["Mid", "Base", "object"], x=["1", "A0", "H(1)", "[A2]"])
d.add("finding", case_finding, cases=[dict(which=w) for w in ("recursive-closure", "class-staticmethod", "class-slots", "class-property", "class-super")])
d.add("dependent", case_dependent, cases=[dict(kind=k, ok=o, x=x, how=h) for k in ("depend", "require") for o in (True, False) for x in (1, 2) for h in (0, 1, 2)])
d.add("module", case_module, cases=[dict(e=e, a=a, how=h) for h in (0, 1, 2) for e, a in [
    ("m.plain", "()"), ("m.plain", "(5,)"), ("m.plain", "(1, 2)"), ("m.outer", "(1,)[:0]"), ("m.outer(7)", "(8,)"), ("m.gen", "(3,)"), ("m.Thing", "()"), ("m.Thing().method", "(6,)"), ("m.Thing.stat", "(4,)"),
    ("functools.partial(m.plain, 3)", "()"), ("functools.partial(m.outer(1), 2, w=4)", "()"), ("m.Thing.klass", "()"), ("m.Thing.method", "(m.Thing(),)"),
    ("os.path.join", "('a', 'b')"), ("textwrap.dedent", "('  a  b',)"), ("json.dumps", "({'a': [1]},)"), ("json.loads", "('[1]',)"), ("len", "([1],)"), ("dict", "([(1, 2)],)"), ("textwrap.TextWrapper", "()[:0]")]
    if e != "textwrap.TextWrapper"])
d.add("ref", case_ref, cases=[dict(name=n, where=w, how=h) for n in ("a", "b[2]['k']", "a + len(b)", "missing", "b[9]") for w in
                              ("plain", "list", "dict", "partial", "partialkw", "default", "kwdefault", "closure") for h in (0, 1, 2)])
d.add("plain", case_plain, cases=[dict(e=e, how=h) for e in ("range(0)", "range(1, 9, 2)", "slice(None)", "slice(1, 2, 3)", "[]", "()", "{}", "set()", "[1, 'a']", "(1, (2, [3]))", "{'a': {'b': (1,)}}", "{1: 2, 'x': None}", "'s'", "1.5", "None",
                                                             "len", "int", "f", "{1, 2}", "frozenset([1])", "[range(3), slice(1)]", "{'r': range(2)}", "b''", "b'abc'", "[b'', b'x'*20]", "...", "2+3j", "bytearray(b'q')") for h in (0, 1, 2)
                                  if not (h < 2 and "b'" in e and e[0] in "[{(")])
d.add("function", case_function, gen=lambda r: dict(f=genf(r), how=r.randrange(3), bt=r.choice(BT)), weight=3)
d.add("partial", case_partial, gen=lambda r: dict(f=genf(r), args=[values.gen(r, 1) for _ in range(r.randrange(3))], kw=[[k, values.gen(r, 1)] for k in r.sample(["q", "r", "zz", "aa"], r.randrange(3))],
                                                  nest=r.choice([0, 0, 1, 2]), how=r.randrange(3), bt=r.choice(BT)), weight=2)
d.add("class", case_class, gen=lambda r: dict(p={k: r.choice(v) for k, v in P.items()}, which=r.choice(["Base", "Mid", "Leaf"]), how=r.randrange(3), bt=r.choice(BT)))
d.add("value", case_value, gen=lambda r: dict(v=values.top(r), how=2, bt=r.choice(BT)))
d.add("array", case_value, gen=lambda r: dict(v=values.gen(r, 0), how=r.randrange(3), bt=r.choice(BT)))
d.main()
