"""error.py: several outcomes collected into one error (P16)."""
import z3

from pyver import types as ty
from pyver.core import TupV, V, uf
from pyver.spec import Contract, S_, forall, imp, record
from pyver.types import Any, Int, List, Str, Tup, sort

M = "ipyparallel.error:"
A = ty.AnySort
ENT = Tup(Any, Any, Any, Any)  # name, text, traceback, engine
LE, LA = List(ENT), List(Any)
remote, composite, aborted = (z3.Function(n, A, z3.BoolSort()) for n in ("is_remote_error", "is_composite_error", "is_task_aborted"))
attr = {n: z3.Function("attr_" + n, A, A) for n in ("ename", "evalue", "traceback", "engine_info")}
members = z3.Function("attr_elist", A, sort(LE))
clsname, text = z3.Function("class_name", A, A), z3.Function("text_of", A, A)
none, nothing = z3.Const("any!None", A), z3.Const("empty_info", A)


def register(reg):
    def count(r):
        return z3.If(composite(r), ty.llen(LE, members(r)), z3.If(z3.Or(remote(r), aborted(r)), 1, 0))

    def entry(r, i):
        own = ty.mk(ENT, *[attr[n](r) for n in ("ename", "evalue", "traceback", "engine_info")])
        never = ty.mk(ENT, clsname(r), text(r), none, nothing)
        return z3.If(composite(r), ty.lat(LE, members(r), i), z3.If(remote(r), own, never))

    # where the failures of the k-th outcome start
    start = z3.Function("failures_before", sort(LA), z3.IntSort(), z3.IntSort())
    at = lambda l, k: ty.lat(LA, l, k)
    facts = [
        ("failures_before counts the failures of the earlier outcomes", lambda: z3.And(
            forall(LA, lambda l: start(l, z3.IntVal(0)) == 0, lambda l: [start(l, z3.IntVal(0))]),
            forall([LA, Int], lambda l, k: imp(k >= 0, z3.And(start(l, k + 1) == start(l, k) + count(at(l, k)), start(l, k) >= 0)), lambda l, k: [start(l, k + 1)]),
            forall([LA, Int], lambda l, k: imp(k >= 0, z3.And(start(l, k + 1) == start(l, k) + count(at(l, k)), start(l, k) >= 0)), lambda l, k: [(start(l, k), at(l, k))]))),
        ("composite errors are remote errors, aborted tasks are not", lambda: forall(Any, lambda r: z3.And(imp(composite(r), remote(r)), z3.Not(z3.And(remote(r), aborted(r))), ty.llen(LE, members(r)) >= 0))),
    ]

    def isinst(eng, v, cn):
        f = dict(RemoteError=remote, CompositeError=composite, TaskAborted=aborted).get(cn)
        return f(v.e) if f is not None else z3.BoolVal(False) if cn == "dict" else None

    get = lambda f, t=Any: (lambda eng, a, k: eng.wrap(t, f(a[0].e)))
    EXT = {"any.isinstance": isinst, "any.attr:elist": get(members, LE), "any.attr:__class__": lambda eng, a, k: a[0], "any.attr:__name__": get(clsname),
           "str": lambda eng, a, k: V(Any, text(a[0].e)) if isinstance(a[0], V) and a[0].t == Any else None, "record.as:Any": lambda eng, v: nothing}
    EXT.update({"any.attr:" + n: get(f) for n, f in attr.items()})

    def upto(L, E, k, l):
        return forall([Int, Int], lambda j, i: imp(z3.And(0 <= j, j < k, 0 <= i, i < count(at(l, j))), z3.And(
            start(l, j) + i < start(l, k), E.raw(start(l, j) + i) == entry(at(l, j), i))), lambda j, i: [(start(l, j), ty.lat(LE, members(at(l, j)), i))])

    def outer(L):
        E, l = L.typed("elist", LE), L.p("rdict_or_list").e
        return {"one-place-each": E.len == start(l, L.k), "each-in-its-place": placed(E, l, L.k)}

    def placed(E, l, k):
        """the first k outcomes' failures are where they belong"""
        return forall([Int, Int], lambda j, i: imp(z3.And(0 <= j, j < k, 0 <= i, i < count(at(l, j))), z3.And(
            start(l, j) + i < E.len, E.raw(start(l, j) + i) == entry(at(l, j), i))))

    def inner(L):
        E, E0, l = L.typed("elist", LE), L.pre, L.p("rdict_or_list").e
        r = L["r"]
        n0 = L.pre.val(L._lookup("elist", L.entry), LE).len
        k0 = L.k
        return {"so-far": z3.And(E.len == n0 + L.k, forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), E.raw(n0 + i) == ty.lat(LE, members(r), i)))),
                "earlier-kept": forall(Int, lambda i: imp(z3.And(0 <= i, i < n0), E.raw(i) == L.pre.val(L._lookup("elist", L.entry), LE).raw(i)))}

    R = lambda c: c["rdict_or_list"]
    failures = lambda c: start(R(c).e, R(c).len)
    reg.add(Contract(M + "collect_exceptions", "P16", params=dict(rdict_or_list=LA, method=Any), externals=EXT, returns=LA, axioms=facts, locals={"elist": LE},
                     loops={0: outer, 1: inner},
                     raises={"CompositeError": lambda c: (lambda E: {
                         "every-failure-once-in-order": z3.And(E.len == failures(c), placed(E, R(c).e, R(c).len)), "there-are-some": failures(c) > 0})(c.val(c.exc.args[1], LE))},
                     ensures=lambda c: {"none-failed": failures(c) == 0, "the-values": c.res.same(R(c))}))
    # ---------------------------------------------------------------- wrapping the current exception, and unwrapping it elsewhere
    etype, evalue, tb = (z3.Const("current_" + n, A) for n in ("type", "value", "traceback"))
    printable, lines = z3.Const("its_text_can_be_made", z3.BoolSort()), z3.Function("format_exception", A, A, A, A)
    tname = z3.Function("type_name", A, sort(Str))
    says = z3.Const("its_text", sort(Str))

    def text_of(eng, a, k):
        if not eng.decide(printable):
            eng.throw("?")
        return V(Str, says)

    W = {"sys.exc_info": lambda eng, a, k: TupV([V(Any, etype), V(Any, evalue), V(Any, tb)]), "traceback.format_exception": lambda eng, a, k: V(Any, lines(a[0].e, a[1].e, a[2].e)),
         "str": text_of, "any.attr:__name__": lambda eng, a, k: V(Str, tname(a[0].e))}
    unprintable = uf("fstr_<unprintable {} object>", sort(Str), sort(Str))
    reg.add(Contract(M + "wrap_exception", "P16", params=dict(engine_info=Any), externals=W,
                     ensures=lambda c: {"an-error": c.res["status"] == S_("error"), "its-name": c.res["ename"] == tname(etype), "its-traceback": c.res["traceback"] == lines(etype, evalue, tb),
                                        "its-text": imp(printable, c.res["evalue"] == says), "its-engine": c.res["engine_info"] == c["engine_info"]}))
    content = record(dict(ename=Any, evalue=Any, traceback=Any, engine_info=Any), optional=("engine_info",))
    joined = uf("str_join_Any", sort(Str), A, sort(Str))

    def kept(c):
        k, (name, value, trace, info) = c["content"], [a.e if isinstance(a, V) else none for a in c.result.args[:3]] + [c.result.args[3]]
        given = k.present("engine_info")
        return {"a-remote-error": z3.BoolVal(c.result.name == "RemoteError"), "its-name": name == k["ename"], "its-text": value == k["evalue"], "its-traceback": trace == joined(S_("\n"), k["traceback"]),
                "its-engine": z3.Implies(given, z3.BoolVal(isinstance(info, V)) if not isinstance(info, V) else info.e == k["engine_info"])}

    reg.add(Contract(M + "unwrap_exception", "P16", params=dict(content=content), ensures=kept))
    return reg
