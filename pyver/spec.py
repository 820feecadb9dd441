"""Sidecar contracts: what the specification language sees."""
import z3

from . import types as ty
from .core import CDict, CList, COpen, HLoc, It, Mut, NoneV, Obj, TupV, V, ZC, card_of, lit
from .types import (Any, Bool, Bytes, Dict, Int, List, Opt, Real, Ref, Set, Str, Tup, res, sort)

_qn = [0]


def qv(s, name="q"):
    _qn[0] += 1
    return z3.Const(f"{name}!{_qn[0]}", sort(s) if isinstance(s, ty.T) else s)


_depth = [0]


def _bind(q, ts, f, patterns=None):
    """bound names depend on the nesting depth only, so equal formulas are structurally equal"""
    if isinstance(ts, ty.T):
        ts = [ts]
    d0 = _depth[0]
    vs = []
    for t in ts:
        vs.append(z3.Const(f"q!{_depth[0]}", sort(t) if isinstance(t, ty.T) else t))
        _depth[0] += 1
    try:
        body = f(*vs)
        pats = [p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in patterns(*vs)] if patterns else []
        return q(vs, body, patterns=pats) if pats else q(vs, body)
    finally:
        _depth[0] = d0


def forall(ts, f, patterns=None):
    """forall(Int, lambda i: ...) / forall([Int, Str], lambda i, s: ...)"""
    return _bind(z3.ForAll, ts, f, patterns)


def exists(ts, f):
    return _bind(z3.Exists, ts, f)


class Opaque:
    """a named predicate whose definition is only unfolded where a contract reveals it"""

    def __init__(self, name, sorts, defn, ret=None):
        self.name = name
        self.sorts = [sort(t) if isinstance(t, ty.T) else t for t in sorts]
        self.fn = z3.Function(name, *self.sorts, ret if ret is not None else z3.BoolSort())
        self.defn = defn

    def __call__(self, *a):
        return self.fn(*a)

    def axiom(self):
        return forall(self.sorts, lambda *v: self.fn(*v) == self.defn(*v), lambda *v: [self.fn(*v)])


def imp(a, b):
    return z3.Implies(a, b)


def S_(s):
    return lit(Str, s)


def B_(s):
    return lit(Bytes, s)


def record(fields, optional=(), **fixed):
    """builder of a dict with known keys: a parameter type, or the result of an external call"""
    def build(eng, name="rec"):
        from .verify import new_value
        d = {}
        for k, t in fields.items():
            here = eng.fz(z3.BoolSort(), f"has_{k}") if k in optional else z3.BoolVal(True)
            d[k] = (here, new_value(eng, f"{name}.{k}", t))
        return Mut(eng.cell(CDict(d)))

    return build


def outcome(eng, value, exc):
    """an external call that either returns value() or raises exc"""
    if eng.choose([None, None]) == 1:
        eng.throw(exc)
    return value()


class ZS:
    """spec view of a set"""

    def __init__(self, t, e):
        self.t, self.e = t, e

    def has(self, x):
        return ty.sel(self.e, x)

    __getitem__ = has

    @property
    def card(self):
        return card_of(self.t)(self.e)

    def empty(self):
        return z3.Not(exists(self.t.e, lambda x: self.has(x)))

    def nonempty(self):
        return exists(self.t.e, lambda x: self.has(x))

    def subset(self, o):
        return forall(self.t.e, lambda x: imp(self.has(x), o.has(x)))

    def same(self, o):
        return forall(self.t.e, lambda x: self.has(x) == o.has(x))

    def is_(self, f):
        """set equals {x | f(x)}"""
        return forall(self.t.e, lambda x: self.has(x) == f(x))


class ZL:
    def __init__(self, t, e):
        self.t, self.e = t, e
        self.len = ty.llen(t, e)

    def at(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return wrapz(self.t.e, ty.lat(self.t, self.e, i))

    __getitem__ = at

    def raw(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return ty.lat(self.t, self.e, i)

    def has(self, x):
        return exists(Int, lambda i: z3.And(0 <= i, i < self.len, self.raw(i) == x))

    def all(self, f):
        return forall(Int, lambda i: imp(z3.And(0 <= i, i < self.len), f(i)))

    def same(self, o):
        return z3.And(self.len == o.len, self.all(lambda i: self.raw(i) == o.raw(i)))

    def distinct(self):
        return forall([Int, Int], lambda i, j: imp(
            z3.And(0 <= i, i < j, j < self.len), self.raw(i) != self.raw(j)))


class ZD:
    def __init__(self, t, e):
        self.t, self.e = t, e

    def has(self, k):
        return ty.sel(ty.ddom(self.t, self.e), k)

    def get(self, k):
        return wrapz(self.t.v, self.raw(k))

    __getitem__ = get

    def raw(self, k):
        return ty.sel(ty.dval(self.t, self.e), k)

    def all(self, f):
        return forall(self.t.k, lambda k: imp(self.has(k), f(k)))

    @property
    def len(self):
        return self.keys().card

    def keys(self):
        return ZS(Set(self.t.k), ty.ddom(self.t, self.e))

    def same(self, o):
        return forall(self.t.k, lambda k: z3.And(self.has(k) == o.has(k), imp(self.has(k), self.raw(k) == o.raw(k))))

    def same_except(self, o, k0):
        return forall(self.t.k, lambda k: imp(k != k0, z3.And(
            self.has(k) == o.has(k), imp(self.has(k), self.raw(k) == o.raw(k)))))

    def domain_is(self, f):
        return forall(self.t.k, lambda k: self.has(k) == f(k))


class ZO:
    def __init__(self, t, e):
        self.t, self.e = t, e

    @property
    def none(self):
        return ty.ois_none(self.t, self.e)

    @property
    def some(self):
        return z3.Not(self.none)

    @property
    def v(self):
        return wrapz(self.t.t, ty.oval(self.t, self.e))


class ZT:
    def __init__(self, t, e):
        self.t, self.e = t, e

    def __getitem__(self, i):
        return wrapz(self.t.ts[i], ty.acc(self.t, self.e, i))


def wrapz(t, e):
    t = res(t)
    if isinstance(t, Set):
        return ZS(t, e)
    if isinstance(t, List):
        return ZL(t, e)
    if isinstance(t, Dict):
        return ZD(t, e)
    if isinstance(t, Opt):
        return ZO(t, e)
    if isinstance(t, Tup):
        return ZT(t, e)
    return e


class View:
    """read access to a state: fields of the receiver, heap fields, ghosts"""

    def __init__(self, eng, st, selfv):
        self._e, self._st, self._self = eng, st, selfv

    def _in(self, f):
        e = self._e
        keep, e.st = e.st, self._st
        try:
            return f()
        finally:
            e.st = keep

    def val(self, v, t=None):
        """spec value of an interpreter value in this state"""
        if v is NoneV:
            return None
        if isinstance(v, V):
            return wrapz(v.t, v.e)
        if isinstance(v, TupV):
            ts = t.ts if isinstance(t, Tup) and len(t.ts) == len(v.vs) else [None] * len(v.vs)
            return [self.val(x, y) for x, y in zip(v.vs, ts)]
        if isinstance(v, Mut):
            def go():
                c = self._e.content(v.loc)
                if isinstance(c, ZC):
                    return wrapz(c.t, c.e)
                if isinstance(c, CList):
                    if t is None:
                        return [self.val(x) for x in c.items]
                    z = self._e.to_zc(c, t)
                    return wrapz(z.t, z.e)
                if isinstance(c, CDict):
                    if t is None:
                        return Rec(self, c)
                    z = self._e.to_zc(c, t)
                    return wrapz(z.t, z.e)
                if isinstance(c, COpen):
                    if t is not None:
                        z = self._e.to_zc(c, t)
                        return wrapz(z.t, z.e)
                    if not ty.is_open(c.t):
                        z = self._e.to_zc(c, c.t)
                        return wrapz(z.t, z.e)
                    return []
                return c

            return self._in(go)
        if isinstance(v, Obj):
            return ObjView(self, v)
        return v

    def f(self, name):
        """field of the receiver"""
        return self.fld(self._self, name)

    def fld(self, obj, name):
        if isinstance(obj, V):
            return self.h(res(obj.t).cls, name, obj.e)
        c = self._st.cells[obj.cid.id]
        if name not in c.fields:
            raise KeyError(name)
        return self.val(c.fields[name], self._e.objtypes.get((obj.cid.id, name)))

    def h(self, cls, field, ref):
        """field of heap object `ref` of class cls"""
        def go():
            return wrapz(self._e.reg.field_type(cls, field), ty.sel(self._e.harr(cls, field), ref))

        return self._in(go)

    def g(self, name):
        c = self._st.cells[self._e.ghost.id]
        return self.val(c.fields[name], self._e.gtypes.get(name))


class ObjView:
    def __init__(self, view, obj):
        self._v, self._o = view, obj

    def __getattr__(self, n):
        return self._v.fld(self._o, n)


class Rec:
    """concrete-shape dict"""

    def __init__(self, view, c):
        self._v, self._c = view, c

    def keys(self):
        return list(self._c.d)

    def present(self, k):
        return self._c.d[k][0] if k in self._c.d else z3.BoolVal(False)

    def __getitem__(self, k):
        return self._v.val(self._c.d[k][1])


class Ctx(View):
    """what requires/ensures see: c['param'] (entry value), c.f('field') now, c.old.f('field'), c.res"""

    def __init__(self, eng, env, old, selfv=None, result=None):
        View.__init__(self, eng, eng.st, selfv)
        self.env = env
        self.old = View(eng, old, selfv)
        self.result = result

    @property
    def res(self):
        self._st = self._e.st
        c = self._e.cur_contract_returns(self)
        return self.val(self.result, c)

    def f(self, name):
        self._st = self._e.st
        return View.f(self, name)

    def h(self, *a):
        self._st = self._e.st
        return View.h(self, *a)

    def g(self, n):
        self._st = self._e.st
        return View.g(self, n)

    def __getitem__(self, p):
        """entry value of a parameter"""
        return self.old.val(self.env[p], self._e.param_type(self, p))

    def now(self, p):
        """current value of a (mutable) parameter"""
        self._st = self._e.st
        return self.val(self.env[p], self._e.param_type(self, p))


class LoopCtx(View):
    """what loop invariants see: L['local'], L.k / L.done, L.f(...), L.entry_view (state at loop entry)"""

    def __init__(self, eng, fr, it):
        View.__init__(self, eng, eng.st, None)
        self.fr, self.it = fr, it
        self.k = None
        self.elem = None
        self.done_e = None
        self.entry = None
        self._self = eng.selfv
        self.old = View(eng, eng.st0, eng.selfv)

    @property
    def done(self):
        return ZS(Set(self.it.t), self.done_e)

    def visited(self, x):
        """x was an element of an earlier iteration"""
        if self.done_e is not None:
            return ty.sel(self.done_e, x)
        return exists(Int, lambda i: z3.And(0 <= i, i < self.k, self.item(i) == x))

    @property
    def n(self):
        return self.it.n

    def item(self, i):
        return self._e_val(self.it.at(i))

    def _e_val(self, v):
        return self.val(v)

    def has(self, x):
        return self.it.has(x)

    @property
    def pre(self):
        return View(self._e, self.entry, self._self)

    def _lookup(self, name, st):
        f = self.fr
        while f is not None:
            env = st.frames.get(f.fid, {})
            if name in env and env[name] is not None:
                return env[name]
            f = f.parent
        raise KeyError(name)

    def __getitem__(self, name):
        return self.val(self._lookup(name, self._st))

    def typed(self, name, t):
        return self.val(self._lookup(name, self._st), t)

    def p(self, name):
        """entry value of a parameter of the function under proof"""
        return self.old.val(self._e.env0[name], self._e.contract.params.get(name) if isinstance(
            self._e.contract.params.get(name), ty.T) else None)


class Contract:
    def __init__(self, qual, props, self_fields=None, params=None, requires=None, ensures=None, raises=None,
                 modifies=(), loops=None, returns=None, externals=None, ghosts=None, inline=False, globals=None,
                 selfkind=None, selfcls=None, name=None, note="", variant="", vacuous_ok=False, assigns_pre=None,
                 lemmas=None, timeout=None, only=None, after=None, skip_frame=False, expect_raise=False,
                 reveal=(), uses=(), value=None, locals=None, harness=None, axioms=(), copies=False):
        self.qual = qual
        self.props = [props] if isinstance(props, str) else list(props)
        self.self_fields = self_fields
        self.selfcls = selfcls
        self.params = params or {}
        self.requires = requires or (lambda c: {})
        self.ensures = ensures or (lambda c: {})
        self.raises = raises or {}
        self.modifies = list(modifies)
        self.loops = loops or {}
        self.returns = returns
        self.externals = externals or {}
        self.ghosts = ghosts or {}
        self.inline = inline
        self.globals = globals or {}
        self.variant = variant
        self.name = name or qual.split(":")[1] + (f"[{variant}]" if variant else "")
        self.note = note
        self.assigns_pre = assigns_pre
        self.lemmas = lemmas
        self.timeout = timeout
        self.skip_frame = skip_frame
        self.copies = copies
        self.locals = locals or {}  # element types of local containers that start empty
        self.harness = harness  # client code over the real functions, verified in the module of `qual`
        self.axioms = list(axioms)  # (what it says, thunk): definitions and facts taken as given
        self.value = value  # spec term the result equals (pure functions)
        self.reveal = list(reveal)  # Opaque predicates unfolded in this proof
        self.uses = list(uses)  # names of lemmas (proved separately) available in this proof
        self.expect_raise = expect_raise


class Registry:
    def __init__(self):
        self.contracts = {}  # qual -> contract used at call sites
        self.all = []
        self.classes = {}  # heap classes: name -> dict(field -> type), '@module', '@order'
        self.externals = {}
        self.globals = {}
        self.any_binop = None
        self.alloc = {}
        self.lemmas = {}

    def lemma(self, name, props, goal, hyps=()):
        """a lemma over the contracts: goal/hyps are thunks giving z3 formulas; hyps may be other lemmas' statements"""
        self.lemmas[name] = dict(name=name, props=[props] if isinstance(props, str) else list(props), goal=goal, hyps=hyps)

    def add(self, c, callee=True):
        self.all.append(c)
        if callee and not c.variant:
            self.contracts[c.qual] = c
        return c

    def heap_class(self, name, fields, module=None, order=None, base=None):
        d = dict(fields)
        if base is not None:
            d["@base"] = base
        self.classes[name] = dict(fields=d, module=module, order=order)

    def field_type(self, cls, f):
        return self.classes[cls]["fields"][f]

    def has_field(self, cls, f):
        return cls in self.classes and f in self.classes[cls]["fields"]

    def base_container(self, cls):
        return self.classes.get(cls, {}).get("fields", {}).get("@base")

    def is_heap_class(self, cls):
        return cls in self.classes

    def class_info(self, source, cls):
        d = self.classes.get(cls)
        if not d or not d["module"]:
            return None
        m = source.module(d["module"])
        return m.classes.get(cls) if m else None

    def order_key(self, cls):
        d = self.classes.get(cls)
        return d["order"] if d else None

    def use_contract(self, eng, c, fn):
        if eng.contract is c:
            return True  # recursion: its own contract
        return not getattr(eng, "no_contracts", False)

    def alloc_facts(self, eng, name):
        return self.alloc.get(name, lambda e: [])(eng)

