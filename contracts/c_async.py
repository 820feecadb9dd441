"""client/asyncresult.py: what an AsyncResult settles to (P15, P16)."""
import z3

from pyver import types as ty
from pyver.core import ExcV, NoneV, V, uf
from pyver.spec import Contract, S_, exists, forall, imp
from pyver.types import Any, Bool, Dict, Int, List, Opt, Str, sort

M = "ipyparallel.client.asyncresult:"
A = ty.AnySort
LA = List(Any)
is_error = z3.Function("is_exception", A, z3.BoolSort())
failures = z3.Function("failures_in", sort(LA), z3.IntSort())
rebuilt = z3.Function("rebuilt_from", sort(LA), A)
answers = z3.Const("what_the_tasks_answered", sort(LA))
settled = z3.Const("already_settled", z3.BoolSort())


def register(reg):
    F = dict(_raw_results=LA, _single_result=Bool, _success=Opt(Bool), _return_exceptions=Bool, _fname=Any, msg_ids=List(Str))
    # how the result was settled: not at all, with a value, with one task's error, with the collected errors
    GH = dict(settled_with=Str, value=Any, times=Int)

    def settle(eng, kind, v):
        eng.gset("settled_with", V(Str, kind))
        eng.gset("value", V(Any, v))
        eng.gset("times", V(Int, eng.z(eng.gget("times"), Int) + 1))
        return NoneV

    def failed(eng, args, kw):
        e = args[-1]
        if e.name == "CompositeError":
            return settle(eng, S_("collected errors"), z3.Const("any!None", A))
        return settle(eng, S_("error"), e.args[0].e)

    def collect(eng, args, kw):
        """error.collect_exceptions, as its contract says"""
        l = eng.symbolic(args[0], LA)[1] if not isinstance(args[0], V) else args[0].e
        if eng.decide(failures(l) > 0):
            eng.throw("CompositeError")
        return args[0]

    same = ("lists are their elements", lambda: forall([LA, LA], lambda a, b: imp(z3.And(ty.llen(LA, a) == ty.llen(LA, b), forall(Int, lambda i: imp(z3.And(0 <= i, i < ty.llen(LA, a)), ty.lat(LA, a, i) == ty.lat(LA, b, i)))), a == b), lambda a, b: [(rebuilt(a), rebuilt(b))]))
    EXT = {"self.done": lambda e, a, k: V(Bool, settled), "Any.result": lambda e, a, k: e.wrap(LA, answers), "any.isinstance": lambda e, v, cn: is_error(v.e) if cn in ("Exception", "BaseException") else None,
           "any.raise": lambda e, a, k: ExcV("?", (a[0],)), "self.set_exception": failed, "self.set_result": lambda e, a, k: settle(e, S_("value"), e.z(a[-1], Any)),
           "ipyparallel.error:collect_exceptions": collect, M + "AsyncResult._reconstruct_result": lambda e, a, k: V(Any, rebuilt(e.symbolic(a[-1], LA)[1] if not isinstance(a[-1], V) else a[-1].e))}
    first = ty.lat(LA, answers, z3.IntVal(0))

    def outcome(c):
        one, alone = c.f("_single_result"), c.f("_return_exceptions")
        bad = z3.If(one, is_error(first), z3.And(z3.Not(alone), failures(answers) > 0))
        fresh = z3.Not(settled)
        return {"settled-once": c.g("times") == c.old.g("times") + z3.If(settled, 0, 1), "a-settled-one-stays": imp(settled, z3.And(c.g("settled_with") == c.old.g("settled_with"), c.g("value") == c.old.g("value"), c.f("_success").e == c.old.f("_success").e)),
                "the-answers-as-they-are": imp(fresh, c.f("_raw_results").e == answers),
                "its-value-unless-something-failed": imp(z3.And(fresh, z3.Not(bad)), z3.And(c.g("settled_with") == S_("value"), c.g("value") == rebuilt(answers), c.f("_success").some, c.f("_success").v)),
                "that-error": imp(z3.And(fresh, bad, one), z3.And(c.g("settled_with") == S_("error"), c.g("value") == first)),
                "all-errors-collected": imp(z3.And(fresh, bad, z3.Not(one)), c.g("settled_with") == S_("collected errors")),
                "not-successful-when-failed": imp(z3.And(fresh, bad), z3.And(c.f("_success").some, z3.Not(c.f("_success").v)))}

    reg.add(Contract(M + "AsyncResult._resolve_result", ["P15", "P16"], params=dict(f=Any), self_fields=F, ghosts=GH, externals=EXT, axioms=[same],
                     requires=lambda c: {"resolved-by-its-future": uf("truthy_Any", A, z3.BoolSort())(c["f"]), "someone-answered": ty.llen(LA, answers) >= 1}, modifies=["_raw_results", "_success", "ghost:settled_with", "ghost:value", "ghost:times"], ensures=outcome))
    return reg
