"""Type descriptors of the symbolic values and their z3 sorts."""
import z3


class T:
    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class Prim(T):
    def __init__(self, name, sort):
        self.name = name
        self._sort = sort


StrSort = z3.DeclareSort("Str")
BytesSort = z3.DeclareSort("Bytes")
AnySort = z3.DeclareSort("Any")
RefSort = z3.DeclareSort("Ref")

Int = Prim("Int", z3.IntSort())
Bool = Prim("Bool", z3.BoolSort())
Real = Prim("Real", z3.RealSort())
Str = Prim("Str", StrSort)
Bytes = Prim("Bytes", BytesSort)
Any = Prim("Any", AnySort)


class Ref(T):
    """reference to a heap object of class `cls` (fields live in per-field heap maps)"""

    def __init__(self, cls):
        self.cls = cls
        self.name = f"Ref<{cls}>"


class List(T):
    def __init__(self, e, kind="list"):
        self.e = e
        self.kind = kind  # list | tuple | deque | bytes-like ...

    @property
    def name(self):
        return f"List<{res(self.e)}>"


def Tuple_(e):
    return List(e, "tuple")


def Deque(e):
    return List(e, "deque")


class Set(T):
    def __init__(self, e):
        self.e = e

    @property
    def name(self):
        return f"Set<{res(self.e)}>"


class Dict(T):
    def __init__(self, k, v, default=None):
        self.k = k
        self.v = v
        self.default = default  # defaultdict factory kind: 'set' | 'list' | 'dict' | None

    @property
    def name(self):
        return f"Dict<{res(self.k)},{res(self.v)}>"


class Opt(T):
    def __init__(self, t):
        self.t = t

    @property
    def name(self):
        return f"Opt<{res(self.t)}>"


class Tup(T):
    def __init__(self, *ts):
        self.ts = ts

    @property
    def name(self):
        return "Tup<" + ",".join(str(res(t)) for t in self.ts) + ">"


class TVar(T):
    n = 0

    def __init__(self):
        TVar.n += 1
        self.id = TVar.n
        self.to = None

    @property
    def name(self):
        return res(self).name if self.to is not None else f"?{self.id}"


def res(t):
    while isinstance(t, TVar) and t.to is not None:
        t = t.to
    return t


def is_open(t):
    t = res(t)
    if isinstance(t, TVar):
        return True
    if isinstance(t, (List, Set)):
        return is_open(t.e)
    if isinstance(t, Dict):
        return is_open(t.k) or is_open(t.v)
    if isinstance(t, Opt):
        return is_open(t.t)
    if isinstance(t, Tup):
        return any(is_open(x) for x in t.ts)
    return False


_dt = {}


def _datatype(name, fields):
    if name not in _dt:
        safe = name.replace("<", "_").replace(">", "_").replace(",", "_")
        d = z3.Datatype(safe)
        if name.startswith("Opt<"):
            d.declare("none_" + safe)
            d.declare("some_" + safe, *[(f + "_" + safe, s) for f, s in fields])
        else:
            d.declare("mk_" + safe, *[(f + "_" + safe, s) for f, s in fields])
        _dt[name] = d.create()
    return _dt[name]


def sort(t):
    if isinstance(t, z3.SortRef):
        return t
    t = res(t)
    if isinstance(t, Prim):
        return t._sort
    if isinstance(t, Ref):
        return RefSort
    if isinstance(t, TVar):
        raise TypeError(f"unresolved type variable {t}")
    if isinstance(t, List):
        return _datatype(
            t.name, [("len", z3.IntSort()), ("arr", z3.ArraySort(z3.IntSort(), sort(t.e)))]
        )
    if isinstance(t, Set):
        return z3.ArraySort(sort(t.e), z3.BoolSort())
    if isinstance(t, Dict):
        return _datatype(
            t.name,
            [
                ("dom", z3.ArraySort(sort(t.k), z3.BoolSort())),
                ("val", z3.ArraySort(sort(t.k), sort(t.v))),
            ],
        )
    if isinstance(t, Opt):
        return _datatype(t.name, [("v", sort(t.t))])
    if isinstance(t, Tup):
        return _datatype(t.name, [(f"f{i}", sort(x)) for i, x in enumerate(t.ts)])
    raise TypeError(t)


# ---- accessors --------------------------------------------------------------
def _beta(e):
    """select over lambda / store / const: let z3 simplify locally"""
    return e


def sel(a, i):
    if z3.is_quantifier(a) and a.is_lambda():
        return z3.substitute_vars(a.body(), i)
    return z3.Select(a, i)


def mk(t, *args):
    return sort(t).constructor(0)(*args)


def acc(t, x, i):
    """i-th field of the (single) constructor, simplified when x is a constructor term"""
    s = sort(t)
    c = s.constructor(0)
    if z3.is_app(x) and x.decl().eq(c):
        return x.arg(i)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        a, b = acc(t, x.arg(1), i), acc(t, x.arg(2), i)
        return z3.If(x.arg(0), a, b)
    return s.accessor(0, i)(x)


def llen(t, x):
    return acc(t, x, 0)


def larr(t, x):
    return acc(t, x, 1)


def lat(t, x, i):
    return sel(larr(t, x), i)


def ddom(t, x):
    return acc(t, x, 0)


def dval(t, x):
    return acc(t, x, 1)


def onone(t):
    return sort(t).constructor(0)()


def osome(t, v):
    return sort(t).constructor(1)(v)


def ois_none(t, x):
    s = sort(t)
    if z3.is_app(x) and x.decl().eq(s.constructor(0)):
        return z3.BoolVal(True)
    if z3.is_app(x) and x.decl().eq(s.constructor(1)):
        return z3.BoolVal(False)
    return s.recognizer(0)(x)


def oval(t, x):
    s = sort(t)
    if z3.is_app(x) and x.decl().eq(s.constructor(1)):
        return x.arg(0)
    return s.accessor(1, 0)(x)


def empty(t):
    """the z3 value of an empty container"""
    t = res(t)
    if isinstance(t, List):
        return mk(t, z3.IntVal(0), z3.K(z3.IntSort(), default(t.e)))
    if isinstance(t, Set):
        return z3.K(sort(t.e), z3.BoolVal(False))
    if isinstance(t, Dict):
        return mk(t, z3.K(sort(t.k), z3.BoolVal(False)), z3.K(sort(t.k), default(t.v)))
    raise TypeError(t)


def default(t):
    return z3.Const("dflt_" + sort(t).name().replace(" ", "_") + "_" + res(t).name, sort(t))
