"""pyver: a deductive verifier for a subset of Python.

Forward symbolic execution over the *real* AST (src.py), one function at a time:
callers see callee contracts, loops are cut at invariants, every path ends in
named proof obligations discharged by an SMT solver (solve.py).

Exploration is by re-execution with a decision prefix, so the evaluator below is
written in direct style: `decide(cond)` returns True/False and the driver visits
every feasible decision sequence.
"""
import ast
import itertools

import z3

from . import types as ty
from .types import (Any, Bool, Bytes, Dict, Int, List, Opt, Real, Ref, Set, Str, Tup, TVar,
                    res, sort)


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        self.node = node
        line = getattr(node, "lineno", None)
        super().__init__(msg + (f" (line {line})" if line else ""))


class PathEnd(Exception):
    """this path is over (infeasible or cut)"""


class RaiseSig(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


# ------------------------------------------------------------------ values
class Val:
    pass


class V(Val):
    """immutable symbolic value: z3 expression with a type"""

    __slots__ = ("t", "e", "lit")

    def __init__(self, t, e, lit=None):
        self.t, self.e, self.lit = t, e, lit

    def __repr__(self):
        return f"V({self.t}, {self.e})"


class NoneT(Val):
    def __repr__(self):
        return "NoneV"


NoneV = NoneT()


class SliceV:
    """a slice object: its three parts are values (None or a number)"""

    def __init__(self, lower, upper, step):
        self.lower, self.upper, self.step = lower, upper, step


class TupV(Val):
    def __init__(self, vs):
        self.vs = list(vs)

    def __repr__(self):
        return f"TupV{self.vs}"


class Mut(Val):
    """mutable container living at a location"""

    def __init__(self, loc, t=None):
        self.loc, self.t = loc, t

    def __repr__(self):
        return f"Mut({self.loc})"


class Obj(Val):
    """meta-level object (receiver or locally created), fields in state.cells[cid]"""

    def __init__(self, cid, cls):
        self.cid, self.cls = cid, cls  # cls: ClassInfo or str


class Fn(Val):
    def __init__(self, fi, fid=None, node=None, selfv=None):
        self.fi, self.fid, self.node, self.selfv = fi, fid, node or fi.node, selfv


class ClsV(Val):
    def __init__(self, ci):
        self.ci = ci  # ClassInfo or bare str for builtin/external class


class ModV(Val):
    def __init__(self, name):
        self.name = name


class Ext(Val):
    def __init__(self, dotted, recv=None):
        self.dotted, self.recv = dotted, recv


class Meth(Val):
    """builtin method of a value"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Bi(Val):
    def __init__(self, name):
        self.name = name


class ExcV(Val):
    def __init__(self, name, args=(), attrs=None):
        self.name, self.args, self.attrs = name, args, attrs or {}


class SuperV(Val):
    def __init__(self, obj, ci):
        self.obj, self.ci = obj, ci


class It(Val):
    """an iterable: kind 'conc' (items), 'seq' (length n, at(i)), 'set' (has(x), elem type t, mapf)"""

    def __init__(self, kind, items=None, n=None, at=None, has=None, t=None, mapf=None, src=None):
        self.kind, self.items, self.n, self.at = kind, items, n, at
        self.has, self.t, self.mapf, self.src = has, t, mapf or (lambda x: x), src


# ---- locations
class Cell:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Cell) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return f"Cell{self.id}"


class HLoc:
    """field of a heap object"""

    def __init__(self, cls, field, ref):
        self.cls, self.field, self.ref = cls, field, ref

    def same(self, o):
        return isinstance(o, HLoc) and (self.cls, self.field) == (o.cls, o.field) and self.ref.eq(o.ref)


class ELoc:
    """element of a container at a location (dict value or list element)"""

    def __init__(self, parent, key):
        self.parent, self.key = parent, key


# ---- cell contents
class CList:
    """concrete-shape list/tuple/deque"""

    def __init__(self, items, kind="list"):
        self.items, self.kind = list(items), kind


class CDict:
    """concrete-shape dict with constant keys -> (present:z3 Bool, value)"""

    def __init__(self, d=None):
        self.d = dict(d or {})


class ZC:
    """symbolic container content"""

    def __init__(self, t, e):
        self.t, self.e = t, e


class COpen:
    """empty container whose element type is not known yet"""

    def __init__(self, t):
        self.t = t


class CObj:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)


class State:
    def __init__(self):
        self.cells, self.frames, self.heap, self.fwd = {}, {}, {}, {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.fwd = dict(self.fwd)
        return s


class Frame:
    def __init__(self, fid, parent, fi, globs):
        self.fid, self.parent, self.fi, self.globs = fid, parent, fi, globs


class Obligation:
    status = model = model_in = None   # until it has been attempted

    def __init__(self, func, name, hyps, goal, where, inputs):
        self.func, self.name, self.hyps, self.goal = func, name, hyps, goal
        self.where, self.inputs = where, inputs

    @property
    def label(self):
        return f"{self.func}::{self.name}" + (f"@L{self.where}" if self.where else "")


BUILTINS = {
    "len", "range", "enumerate", "zip", "list", "tuple", "set", "dict", "min", "max", "sum", "any",
    "all", "sorted", "isinstance", "int", "str", "bool", "bytes", "filter", "map", "iter", "abs", "getattr",
    "hasattr", "repr", "type", "print", "reversed", "float", "frozenset", "super", "id", "callable", "next", "divmod", "bytearray", "memoryview", "issubclass", "setattr", "hash", "object", "vars", "slice",
}
EXC_BUILTINS = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object) if False}
import builtins as _b

EXC_BUILTINS = {
    n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)
}

_lits = {}


def lit(t, s):
    """the constant standing for a str/bytes literal; distinctness is asserted by the solver layer"""
    key = (t.name, s)
    if key not in _lits:
        _lits[key] = z3.Const(f"{t.name.lower()}!{s!r}", sort(t))
    return _lits[key]


_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


def card_of(t):
    """number of elements of a (finite) set of type t"""
    return uf("card_" + sort(t).sexpr().replace(" ", "_"), sort(t), z3.IntSort())


def simp(e):
    return z3.simplify(e)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return z3.And(*xs) if len(xs) > 1 else xs[0]


class Oracle:
    def __init__(self, prefix):
        self.prefix, self.pos, self.alts = list(prefix), 0, []
        self.taken = []


class Engine:
    MAXDEPTH = 14

    def __init__(self, source, reg, feas_ms=30, max_paths=3000):
        self.source, self.reg = source, reg
        self.feas_ms, self.max_paths = feas_ms, max_paths
        self.obls, self.seen = [], set()
        self.quiet = 0
        self.assumed = set()  # externals / dropped decorators / contracts relied on
        self.inlined = set()
        self.called = set()
        self.paths = 0
        self.stats = dict(feas=0)
        self.feasmemo = {}
        self.dirty, self.modstack = {}, []

    # ------------------------------------------------------------ basics
    def fresh(self, name, t):
        self.counter += 1
        return z3.Const(f"{name}#{self.counter}", sort(t))

    def fz(self, s, name):
        """a fresh variable with a name that is the same on every re-execution of the path"""
        self.counter += 1
        return z3.Const(f"{name}~{self.counter}", s)

    def freshv(self, name, t):
        """fresh symbolic value of type t (containers: new cell)"""
        t = res(t)
        if isinstance(t, (List, Set, Dict)):
            e = self.fresh(name, t)
            self.wf(t, e)
            return Mut(self.cell(ZC(t, e)), t)
        e = self.fresh(name, t)
        self.wf(t, e)
        return V(t, e)

    def wf(self, t, e):
        """well-formedness facts of a fresh symbolic value"""
        t = res(t)
        if isinstance(t, List):
            self.assume(ty.llen(t, e) >= 0)
            if isinstance(res(t.e), List):
                i = z3.Int("i!wf")
                x = ty.lat(t, e, i)
                self.assume(z3.ForAll([i], ty.llen(res(t.e), x) >= 0))
        elif isinstance(t, Dict) and isinstance(res(t.v), List):
            k = z3.Const("k!wf", sort(t.k))
            self.assume(z3.ForAll([k], ty.llen(res(t.v), ty.sel(ty.dval(t, e), k)) >= 0))

    def cell(self, content):
        self.counter += 1
        c = Cell(self.counter)
        self.st.cells[c.id] = content
        return c

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)
        if z3.is_false(f):
            raise PathEnd()

    def axioms(self):
        out = []
        for tn in ("Str", "Bytes"):
            xs = [c for (t, s), c in _lits.items() if t == tn]
            if len(xs) > 1:
                out.append(z3.Distinct(*xs))
        for k, f in _ufs.items():
            if k[0].startswith("card_"):
                out.append(f(z3.K(f.domain(0).domain(), z3.BoolVal(False))) == 0)
        return out

    def feasible(self, extra):
        self.stats["feas"] += 1
        key = (tuple(f.get_id() for f in self.facts), extra.get_id())
        if key in self.feasmemo:
            return self.feasmemo[key][0]
        r = self._feasible(extra)
        self.feasmemo[key] = (r, list(self.facts), extra)  # the terms stay alive, so ids stay unique
        return r

    def _feasible(self, extra):
        self.solver.push()
        for a in self.axioms():
            self.solver.add(a)
        self.solver.add(extra)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    # ------------------------------------------------------------ decisions
    def choose(self, options):
        """options: list of z3 facts (or None); returns the index chosen, having assumed its fact"""
        o = self.oracle
        if o.pos < len(o.prefix):
            i = o.prefix[o.pos]
        else:
            feas = [
                i for i, f in enumerate(options) if f is None or (not z3.is_false(f) and self.feasible(f))
            ]
            if not feas:
                raise PathEnd()
            i = feas[0]
            for j in feas[1:]:
                o.alts.append(o.taken + [j])
        o.pos += 1
        o.taken.append(i)
        self.trail.append(i)
        if options[i] is not None:
            self.assume(options[i])
        return i

    def decide(self, cond):
        if cond is True or cond is False:
            return cond
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def emit(self, name, goal, node=None, hyps=None):
        if self.quiet:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.serial += 1
        key = (tuple(self.trail), self.serial, name)
        if key in self.seen:
            return
        self.seen.add(key)
        self.obls.append(
            Obligation(self.fname, name, list(self.facts) if hyps is None else hyps, goal,
                       getattr(node, "lineno", None), self.inputs)
        )

    def explore(self, fn, quiet=True):
        """run fn over every decision sequence from the current state; state restored afterwards.
        returns [(new facts, state, outcome)]"""
        st0, n0, trail0, or0, ser0 = self.st, len(self.facts), list(self.trail), self.oracle, self.serial
        out, work = [], [[]]
        if quiet:
            self.quiet += 1
        try:
            while work:
                if len(out) > 400:
                    raise Unsupported("too many inner paths")
                pre = work.pop()
                self.st = st0.copy()
                self.oracle = Oracle(pre)
                self.trail = trail0 + ["x"]
                self.solver.push()
                try:
                    try:
                        r = ("ok", fn())
                    except ReturnSig as s:
                        r = ("return", s.v)
                    except RaiseSig as s:
                        r = ("raise", s.exc)
                    except BreakSig:
                        r = ("break", None)
                    except ContinueSig:
                        r = ("continue", None)
                    except PathEnd:
                        r = None
                    if r is not None:
                        out.append((self.facts[n0:], self.st, r))
                finally:
                    work.extend(self.oracle.alts)
                    del self.facts[n0:]
                    self.solver.pop()
        finally:
            self.st, self.trail, self.oracle = st0, trail0, or0
            if quiet:
                self.quiet -= 1
                self.serial = ser0
        return out

    # ------------------------------------------------------------ locations
    def chase(self, loc):
        while isinstance(loc, Cell) and loc.id in self.st.fwd:
            loc = self.st.fwd[loc.id]
        return loc

    def content(self, loc):
        loc = self.chase(loc)
        if isinstance(loc, Cell):
            return self.st.cells[loc.id]
        if isinstance(loc, HLoc):
            t = self.reg.field_type(loc.cls, loc.field)
            return ZC(t, ty.sel(self.harr(loc.cls, loc.field), loc.ref))
        if isinstance(loc, ELoc):
            p = self.content(loc.parent)
            pt = res(p.t)
            if isinstance(pt, Dict):
                return ZC(pt.v, ty.sel(ty.dval(pt, p.e), loc.key))
            return ZC(pt.e, ty.lat(pt, p.e, loc.key))
        raise Unsupported(f"location {loc}")

    def put(self, loc, content):
        loc = self.chase(loc)
        if isinstance(loc, Cell):
            self.st.cells[loc.id] = content
            self.note(("cell", loc.id))
            return
        if isinstance(content, (CList, CDict, COpen)):
            t = self.reg.field_type(loc.cls, loc.field) if isinstance(loc, HLoc) else None
            if t is None:
                pt = res(self.content(loc.parent).t)
                t = pt.v if isinstance(pt, Dict) else pt.e
            content = self.to_zc(content, t)
        if isinstance(loc, HLoc):
            self.hset(loc.cls, loc.field, loc.ref, content.e)
            return
        p = self.content(loc.parent)
        pt = res(p.t)
        if isinstance(pt, Dict):
            e = ty.mk(pt, ty.ddom(pt, p.e), z3.Store(ty.dval(pt, p.e), loc.key, content.e))
        else:
            e = ty.mk(pt, ty.llen(pt, p.e), z3.Store(ty.larr(pt, p.e), loc.key, content.e))
        self.put(loc.parent, ZC(pt, e))

    def note(self, what):
        if self.writes is not None:
            self.writes.add(what)

    def harr(self, cls, field):
        key = (cls, field)
        if key not in self.st.heap:
            t = self.reg.field_type(cls, field)
            self.st.heap[key] = z3.Const(f"H_{cls}_{field}_0", z3.ArraySort(ty.RefSort, sort(t)))
            if key not in self.heap0:
                self.heap0[key] = self.st.heap[key]
        return self.st.heap[key]

    def hset(self, cls, field, ref, e):
        a = self.harr(cls, field)
        self.st.heap[(cls, field)] = z3.Store(a, ref, e)
        self.note(("heap", cls, field))

    # ------------------------------------------------------------ conversion
    def unify(self, a, b):
        a, b = res(a), res(b)
        if isinstance(a, TVar):
            a.to = b if a is not b else None
            return res(a)
        if isinstance(b, TVar):
            b.to = a
            return a
        if type(a) is type(b):
            if isinstance(a, (List, Set)):
                self.unify(a.e, b.e)
            elif isinstance(a, Dict):
                self.unify(a.k, b.k)
                self.unify(a.v, b.v)
            elif isinstance(a, Opt):
                self.unify(a.t, b.t)
            elif isinstance(a, Tup):
                for x, y in zip(a.ts, b.ts):
                    self.unify(x, y)
        return a

    def typeof(self, v):
        if isinstance(v, V):
            return res(v.t)
        if v is NoneV:
            return Opt(TVar())
        if isinstance(v, TupV):
            return Tup(*[self.typeof(x) for x in v.vs])
        if isinstance(v, Mut):
            c = self.content(v.loc)
            if isinstance(c, ZC):
                return res(c.t)
            if isinstance(c, COpen):
                return c.t
            if isinstance(c, CList):
                tv = TVar()
                for x in c.items:
                    tx = self.typeof(x)
                    if isinstance(res(tv), TVar):
                        self.unify(tv, tx)
                    elif res(tv) != res(tx):
                        if self.join_t(res(tv), res(tx)) is None:
                            raise Unsupported("heterogeneous list")
                        n = self.join_t(res(tv), res(tx))
                        tv = TVar()
                        tv.to = n
                return List(tv, c.kind)
        raise Unsupported(f"no symbolic type for {v!r}")

    def join_t(self, a, b):
        if a == b:
            return a
        if isinstance(a, Opt) and isinstance(res(a.t), TVar):
            a.t.to = b.t if isinstance(b, Opt) else b
            return Opt(a.t)
        if isinstance(b, Opt) and isinstance(res(b.t), TVar):
            return self.join_t(b, a)
        if isinstance(a, Opt) and res(a.t) == b:
            return a
        if isinstance(b, Opt) and res(b.t) == a:
            return b
        if {a, b} == {Int, Real}:
            return Real
        if {a, b} == {Int, Bool}:
            return Int
        return None

    def inj(self, t):
        """injection of a typed value into Any"""
        return uf("inj_" + t.name, sort(t), ty.AnySort)

    def z(self, v, t=None, node=None):
        """z3 expression of value v at type t"""
        if t is not None:
            t = res(t)
            if isinstance(t, TVar):
                t = self.unify(t, self.typeof(v))
        if isinstance(v, V):
            if t is None:
                return v.e
            vt = res(v.t)
            if vt == t:
                return v.e
            self.unify(vt, t)
            if vt == t or vt.name == t.name:
                return v.e
            if t == Real and vt == Int:
                return z3.ToReal(v.e)
            if t == Int and vt == Bool:
                return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
            if t == Real and vt == Bool:
                return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
            if isinstance(t, Opt):
                if isinstance(vt, Opt):
                    raise Unsupported(f"coerce {vt} to {t}", node)
                return ty.osome(t, self.z(v, t.t, node))
            if isinstance(vt, Opt):
                if self.decide(ty.ois_none(vt, v.e)):
                    self.throw("TypeError", node)
                return self.z(V(vt.t, ty.oval(vt, v.e)), t, node)
            if t == Any:
                return self.inj(vt)(v.e)
            if isinstance(t, Ref) and isinstance(vt, Ref):
                return v.e
            if isinstance(t, List) and isinstance(vt, List) and res(t.e) == res(vt.e):
                return v.e
            if vt == Any:
                h = self.find_ext(f"any.as:{t.name}")
                if h is not None:
                    return h(v.e)
            raise Unsupported(f"cannot use {vt} as {t}", node)
        if v is NoneV:
            if isinstance(t, Opt):
                return ty.onone(t)
            if t == Any:
                return z3.Const("any!None", ty.AnySort)
            raise Unsupported(f"None where {t} expected", node)
        if isinstance(v, TupV):
            if isinstance(t, Opt):
                return ty.osome(t, self.z(v, t.t, node))
            if isinstance(t, Tup) and len(t.ts) == len(v.vs):
                return ty.mk(t, *[self.z(x, y, node) for x, y in zip(v.vs, t.ts)])
            if isinstance(t, List):
                return self.to_zc(CList(v.vs), t).e
            if t is None:
                t = self.typeof(v)
                return self.z(v, t, node)
            if t == Any:
                tt = self.typeof(v)
                return self.inj(tt)(self.z(v, tt, node))
        if isinstance(v, Mut):
            if isinstance(t, Opt):
                return ty.osome(t, self.z(v, t.t, node))
            c = self.content(v.loc)
            if t == Any:
                h = self.find_ext("record.as:Any") if isinstance(c, CDict) else None
                if h is not None:
                    return h(self, v)
                tt = self.typeof(v)
                return self.inj(tt)(self.z(v, tt, node))
            return self.to_zc(c, t).e
        if isinstance(v, Obj) and t == Any:
            return z3.Const(f"any!obj{v.cid.id}", ty.AnySort)
        raise Unsupported(f"cannot use {v!r} as {t}", node)

    def to_zc(self, c, t=None):
        """symbolic content of a (possibly concrete-shape) content at type t"""
        if t is not None:
            t = res(t)
        if isinstance(c, ZC):
            if t is not None and res(c.t) != t and sort(c.t) != sort(t):
                raise Unsupported(f"container {res(c.t)} used as {t}")
            return c
        if isinstance(c, COpen):
            if t is None or isinstance(t, TVar):
                t = c.t
                if ty.is_open(t):
                    raise Unsupported("empty container of unknown type")
            self.unify(c.t, t)
            return ZC(t, ty.empty(t))
        if isinstance(c, CList):
            if t is None or isinstance(t, TVar):
                tv = TVar()
                for x in c.items:
                    self.unify(tv, self.typeof(x))
                t2 = List(tv, c.kind)
                if isinstance(t, TVar):
                    t.to = t2
                t = t2
            if not isinstance(t, List):
                raise Unsupported(f"list used as {t}")
            if isinstance(res(t.e), TVar) and not c.items:
                raise Unsupported("empty list of unknown type")
            if isinstance(res(t.e), TVar):
                for x in c.items:
                    self.unify(t.e, self.typeof(x))
            arr = z3.K(z3.IntSort(), ty.default(t.e))
            for i, x in enumerate(c.items):
                arr = z3.Store(arr, i, self.z(x, t.e))
            return ZC(t, ty.mk(t, z3.IntVal(len(c.items)), arr))
        if isinstance(c, CDict):
            if t is None or not isinstance(t, Dict):
                if not c.d:
                    raise Unsupported("empty dict of unknown type")
                if isinstance(t, TVar) or t is None:
                    tv = TVar()
                    ks = TVar()
                    for k, (p, x) in c.d.items():
                        self.unify(ks, self.typeof(self.const(k)))
                        self.unify(tv, self.typeof(x))
                    t2 = Dict(ks, tv)
                    if isinstance(t, TVar):
                        t.to = t2
                    t = t2
                else:
                    raise Unsupported(f"dict used as {t}")
            if ty.is_open(t):
                for k, (p, x) in c.d.items():
                    self.unify(t.k, self.typeof(self.const(k)))
                    self.unify(t.v, self.typeof(x))
            e = ty.empty(t)
            dom, val = ty.ddom(t, e), ty.dval(t, e)
            for k, (p, x) in c.d.items():
                ke = self.z(self.const(k), t.k)
                dom = z3.Store(dom, ke, p)
                val = z3.Store(val, ke, self.z(x, t.v))
            return ZC(t, ty.mk(t, dom, val))
        raise Unsupported(f"content {c}")

    def symbolic(self, v, t=None):
        """force a Mut to symbolic content in place; returns (type, expr)"""
        if isinstance(v, V) and isinstance(res(v.t), (List, Set, Dict)):
            return res(v.t), v.e
        c = self.content(v.loc)
        if not isinstance(c, ZC):
            c = self.to_zc(c, t)
            self.put(v.loc, c)
        return res(c.t), c.e

    def wrap(self, t, e, loc=None):
        """value for z3 expression e of type t; containers need a location"""
        t = res(t)
        if isinstance(t, (List, Set, Dict)):
            if loc is not None:
                return Mut(loc, t)
            return Mut(self.cell(ZC(t, e)), t)
        if isinstance(t, Tup):
            return TupV([self.wrap(x, ty.acc(t, e, i)) for i, x in enumerate(t.ts)])
        return V(t, e)

    def const(self, k):
        if k is None:
            return NoneV
        if isinstance(k, bool):
            return V(Bool, z3.BoolVal(k), k)
        if isinstance(k, int):
            return V(Int, z3.IntVal(k), k)
        if isinstance(k, float):
            from fractions import Fraction

            return V(Real, z3.RealVal(str(Fraction(k))), k)
        if isinstance(k, str):
            return V(Str, lit(Str, k), k)
        if isinstance(k, bytes):
            return V(Bytes, lit(Bytes, k), k)
        if isinstance(k, tuple):
            return TupV([self.const(x) for x in k])
        if k is Ellipsis:
            return Bi("Ellipsis")
        raise Unsupported(f"constant {k!r}")

    # ------------------------------------------------------------ exceptions
    def throw(self, name, node=None, args=()):
        raise RaiseSig(ExcV(name, args, {"line": getattr(node, "lineno", None)}))

    def need(self, cond, exc, node=None):
        """continue only where cond holds; elsewhere raise exc"""
        if not self.decide(cond):
            self.throw(exc, node)

    # ------------------------------------------------------------ truth / equality
    def truth(self, v, node=None):
        """z3 Bool for the truth value of v"""
        if v is NoneV:
            return z3.BoolVal(False)
        if isinstance(v, V):
            t = res(v.t)
            if t == Bool:
                return v.e
            if t in (Int, Real):
                return v.e != 0
            if t == Str:
                return v.e != lit(Str, "")
            if t == Bytes:
                return v.e != lit(Bytes, b"")
            if isinstance(t, Opt):
                inner = ty.oval(t, v.e)
                it = res(t.t)
                tv = (
                    self.truth(V(it, inner), node)
                    if not isinstance(it, (List, Set, Dict))
                    else self.truth_z(it, inner)
                )
                return z3.And(z3.Not(ty.ois_none(t, v.e)), tv)
            if isinstance(t, (List, Set, Dict)):
                return self.truth_z(t, v.e)
            if t == Any:
                return uf("truthy_Any", ty.AnySort, z3.BoolSort())(v.e)
            if isinstance(t, Ref):
                bt = self.reg.base_container(t.cls)
                if bt is not None:
                    return self.truth(Mut(HLoc(t.cls, "@base", v.e), bt), node)
                return z3.BoolVal(True)
        if isinstance(v, TupV):
            return z3.BoolVal(bool(v.vs))
        if isinstance(v, Mut):
            c = self.content(v.loc)
            if isinstance(c, COpen):
                return z3.BoolVal(False)
            if isinstance(c, CList):
                return z3.BoolVal(bool(c.items))
            if isinstance(c, CDict):
                return z3.Or(*[p for p, _ in c.d.values()]) if c.d else z3.BoolVal(False)
            return self.truth_z(res(c.t), c.e)
        if isinstance(v, Obj):
            c = self.st.cells[v.cid.id]
            if "@base" in c.fields:
                return self.truth(c.fields["@base"], node)
        if isinstance(v, It):
            raise Unsupported("truth of iterator", node)
        return z3.BoolVal(True)

    def truth_z(self, t, e):
        if isinstance(t, List):
            return ty.llen(t, e) > 0
        if isinstance(t, Set):
            return z3.Not(e == ty.empty(t))
        return z3.Not(ty.ddom(t, e) == ty.ddom(t, ty.empty(t)))

    def test(self, v, node=None):
        return self.decide(self.truth(v, node))

    def lit_of(self, v):
        if isinstance(v, V) and v.lit is not None:
            return v.lit
        if isinstance(v, V) and res(v.t) == Str or isinstance(v, V) and res(v.t) == Bytes:
            for (t, s), c in _lits.items():
                if c.eq(v.e):
                    return s
        if isinstance(v, V) and res(v.t) == Int:
            s = simp(v.e)
            if z3.is_int_value(s):
                return s.as_long()
        return None

    def eq(self, a, b, node=None):
        """z3 Bool for a == b"""
        if a is NoneV and b is NoneV:
            return z3.BoolVal(True)
        if a is NoneV or b is NoneV:
            x = b if a is NoneV else a
            if isinstance(x, V) and isinstance(res(x.t), Opt):
                return ty.ois_none(res(x.t), x.e)
            if isinstance(x, V) and res(x.t) == Any:
                return x.e == z3.Const("any!None", ty.AnySort)
            if isinstance(x, Meth) and isinstance(x.recv, V):
                raise Unsupported("None test of an attribute of an opaque value", node)
            return z3.BoolVal(False)
        if isinstance(a, V) and isinstance(b, V):
            ta, tb = res(a.t), res(b.t)
            if ta == tb:
                if isinstance(ta, List):
                    return self.eq_list(ta, a.e, b.e)
                return a.e == b.e
            if isinstance(ta, Opt) and not isinstance(tb, Opt):
                return z3.And(z3.Not(ty.ois_none(ta, a.e)), self.eq(V(ta.t, ty.oval(ta, a.e)), b, node))
            if isinstance(tb, Opt) and not isinstance(ta, Opt):
                return self.eq(b, a, node)
            if {ta, tb} <= {Int, Real, Bool}:
                t = Real if Real in (ta, tb) else Int
                return self.z(a, t) == self.z(b, t)
            if ta == Any or tb == Any:
                return self.z(a, Any) == self.z(b, Any)
            if isinstance(ta, Ref) and isinstance(tb, Ref):
                return a.e == b.e
            return z3.BoolVal(False)
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.vs) != len(b.vs):
                return z3.BoolVal(False)
            return And(*[self.eq(x, y, node) for x, y in zip(a.vs, b.vs)])
        if isinstance(a, Mut) and isinstance(b, Mut):
            ca, cb = self.content(a.loc), self.content(b.loc)
            if isinstance(ca, CList) and isinstance(cb, CList):
                if len(ca.items) != len(cb.items):
                    return z3.BoolVal(False)
                return And(*[self.eq(x, y, node) for x, y in zip(ca.items, cb.items)])
            if isinstance(ca, COpen) or isinstance(cb, COpen):
                o = b if isinstance(ca, COpen) else a
                return z3.Not(self.truth(o))
            ta = res(ca.t) if isinstance(ca, ZC) else res(cb.t)
            za, zb = self.to_zc(ca, ta), self.to_zc(cb, ta)
            if isinstance(ta, List):
                return self.eq_list(ta, za.e, zb.e)
            if isinstance(ta, Set):
                return za.e == zb.e
            k = z3.Const("k!eq", sort(ta.k))
            return z3.And(
                ty.ddom(ta, za.e) == ty.ddom(ta, zb.e),
                z3.ForAll([k], z3.Implies(ty.sel(ty.ddom(ta, za.e), k),
                                          ty.sel(ty.dval(ta, za.e), k) == ty.sel(ty.dval(ta, zb.e), k))),
            )
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return z3.BoolVal(self.clsname(a) == self.clsname(b))
        if isinstance(a, Obj) and isinstance(b, Obj):
            return z3.BoolVal(a.cid == b.cid)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, V) and isinstance(res(x.t), Opt) and isinstance(y, Mut):
                return z3.And(z3.Not(ty.ois_none(res(x.t), x.e)),
                              self.eq(self.wrap(res(x.t).t, ty.oval(res(x.t), x.e)), y, node))
            if isinstance(x, V) and isinstance(res(x.t), Ref) and isinstance(y, Mut):
                s = self.as_set(x)
                if s is not None:
                    return self.eq(s, y, node)
            if isinstance(x, V) and res(x.t) in (Int, Str, Bytes, Bool, Real) and isinstance(y, (Mut, TupV, Obj)):
                return z3.BoolVal(False)
            if isinstance(x, TupV) and isinstance(y, Mut):
                return z3.BoolVal(False)
        raise Unsupported(f"== between {a!r} and {b!r}", node)

    def eq_list(self, t, a, b):
        i = z3.Int("i!eq")
        return z3.And(
            ty.llen(t, a) == ty.llen(t, b),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.llen(t, a)),
                                      ty.lat(t, a, i) == ty.lat(t, b, i))),
        )

    def is_(self, a, b, node=None):
        if a is NoneV or b is NoneV:
            return self.eq(a, b, node)
        if isinstance(a, Mut) and isinstance(b, Mut):
            la, lb = self.chase(a.loc), self.chase(b.loc)
            if isinstance(la, Cell) and isinstance(lb, Cell):
                return z3.BoolVal(la == lb)
            raise Unsupported("identity of containers", node)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return z3.BoolVal(isinstance(a, Obj) and isinstance(b, Obj) and a.cid == b.cid)
        if isinstance(a, V) and isinstance(b, V):
            ta, tb = res(a.t), res(b.t)
            if isinstance(ta, Ref) and isinstance(tb, Ref):
                return a.e == b.e
            if ta == tb == Bool or (ta == tb == Any):
                return a.e == b.e
            if {ta, tb} == {Bool, Int}:
                return z3.BoolVal(False)
            if isinstance(ta, Opt) and tb == Bool:
                return z3.And(z3.Not(ty.ois_none(ta, a.e)), ty.oval(ta, a.e) == b.e)
            if ta == tb == Str:
                return a.e == b.e
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return self.eq(a, b, node)
        if isinstance(a, (Fn, Bi, Ext)) and isinstance(b, (Fn, Bi, Ext)):
            return z3.BoolVal(a is b or (isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node)
                              or (isinstance(a, Ext) and isinstance(b, Ext) and a.dotted == b.dotted))
        raise Unsupported(f"`is` between {a!r} and {b!r}", node)

    def as_set(self, v):
        if isinstance(v, Mut):
            return v
        if isinstance(v, V) and isinstance(res(v.t), Ref):
            bt = self.reg.base_container(res(v.t).cls)
            if bt is not None:
                return Mut(HLoc(res(v.t).cls, "@base", v.e), bt)
        if isinstance(v, Obj):
            c = self.st.cells[v.cid.id]
            if "@base" in c.fields:
                return c.fields["@base"]
        return None

    def clsname(self, v):
        return v.ci if isinstance(v.ci, str) else v.ci.name

    def unopt(self, v, node=None, exc="TypeError"):
        """strip Opt by case split (None -> exc)"""
        while isinstance(v, V) and isinstance(res(v.t), Opt):
            t = res(v.t)
            if self.decide(ty.ois_none(t, v.e)):
                self.throw(exc, node)
            v = self.wrap(t.t, ty.oval(t, v.e))
        return v

    def split_opt(self, v):
        """case split Opt into NoneV or inner value"""
        if isinstance(v, V) and isinstance(res(v.t), Opt):
            t = res(v.t)
            if self.decide(ty.ois_none(t, v.e)):
                return NoneV
            return self.split_opt(self.wrap(t.t, ty.oval(t, v.e)))
        return v

    def card_fn(self, t):
        return card_of(t)

    def card(self, t, e):
        """cardinality of a set-sorted term with its defining facts instantiated"""
        f = uf("card_" + sort(t).sexpr().replace(" ", "_"), sort(t), z3.IntSort())
        c = f(e)
        self.assume(c >= 0)
        self.assume((c == 0) == (e == ty.empty(t)))
        return c

    def card_step(self, t, old, x, new, add):
        """relate card before/after adding or removing x"""
        f = uf("card_" + sort(t).sexpr().replace(" ", "_"), sort(t), z3.IntSort())
        if add:
            self.assume(f(new) == f(old) + z3.If(ty.sel(old, x), 0, 1))
        else:
            self.assume(f(new) == f(old) - z3.If(ty.sel(old, x), 1, 0))
        self.assume(f(old) >= 0)
        self.assume(f(new) >= 0)


from .evalx import install  # noqa: E402

install(Engine)
