"""engine/kernel.py: which requests run, which are aborted (P20)."""
import z3

from pyver import types as ty
from pyver.core import NoneV, V, uf
from pyver.spec import Contract, S_, exists, forall, imp, record
from pyver.types import Any, Bool, Int, List, Opt, Set, Str, sort

M = "ipyparallel.engine.kernel:IPythonParallelKernel."
A = ty.AnySort


def register(reg):
    F = dict(aborted=Set(Str))
    GH = dict(refused=Set(Str), queues_aborted=Bool, answered=Bool)
    accepts = z3.Const("ipykernel_accepts", z3.BoolSort())
    said = lambda eng, a, k: eng.freshv("sent", Any)

    def refuse(eng, args, kw):
        m = eng.content(eng.content(args[-2].loc).d["header"][1].loc).d["msg_id"][1]
        t, s = eng.symbolic(eng.gget("refused"), Set(Str))
        eng.gset("refused", eng.wrap(Set(Str), z3.Store(s, eng.z(m, Str), True)))
        return eng.freshv("f", Any)

    def flag(name):
        def go(eng, a, k):
            eng.gset(name, V(Bool, z3.BoolVal(True)))
            return eng.freshv(name, Any)
        return go

    message = lambda eng, n="msg": record(dict(header=record(dict(msg_id=Str, msg_type=Str))))(eng, n)
    EXT = {"super.should_handle": lambda eng, a, k: V(Bool, accepts), M + "_send_abort_reply": refuse, "self._send_abort_reply": refuse, "inspect.isawaitable": lambda eng, a, k: V(Bool, eng.fz(z3.BoolSort(), "isawaitable")),
           "asyncio.ensure_future": "noop", "self.session.send": flag("answered"), M + "_abort_queues": flag("queues_aborted"), "self._abort_queues": flag("queues_aborted")}
    mid = lambda c: c["msg"]["header"]["msg_id"]
    was = lambda c: c.old.f("aborted").has(mid(c))
    reg.add(Contract(M + "should_handle", "P20", params=dict(stream=Any, msg=message, idents=Any), self_fields=F, ghosts=GH, externals=EXT, returns=Bool, modifies=["aborted", "ghost:refused"],
                     ensures=lambda c: {"runs-unless-aborted": c.res == z3.And(accepts, z3.Not(was(c))),
                                        "an-aborted-one-is-answered-as-such": c.g("refused").is_(lambda m: z3.Or(c.old.g("refused").has(m), z3.And(accepts, was(c), m == mid(c)))),
                                        "only-this-one-is-forgotten": c.f("aborted").is_(lambda m: z3.And(c.old.f("aborted").has(m), z3.Not(z3.And(accepts, m == mid(c)))))}))

    def aborting(L):
        return {"those-seen": forall(Str, lambda m: L.f("aborted").has(m) == z3.Or(L.old.f("aborted").has(m), L.visited(m)))}

    def case(name, t, named, none):
        parent = lambda eng, n="parent": record(dict(content=record(dict(msg_ids=t), optional=("msg_ids",) if t is not None else ())))(eng, n)
        given = lambda c: c["parent"]["content"].present("msg_ids")
        ids = lambda c: c["parent"]["content"]["msg_ids"]
        reg.add(Contract(M + "abort_request", "P20", name=f"abort_request[{name}]", variant=name, params=dict(stream=Any, ident=Any, parent=parent), self_fields=F, ghosts=GH, externals=EXT,
                         requires=lambda c: {"nothing-yet": z3.Not(z3.Or(c.g("answered"), c.g("queues_aborted")))}, modifies=["aborted", "ghost:answered", "ghost:queues_aborted"], loops={0: aborting},
                         ensures=lambda c: {"exactly-those-asked-for": c.f("aborted").is_(lambda m: z3.Or(c.old.f("aborted").has(m), z3.And(given(c), named(ids(c), m)))), "answered": c.g("answered"),
                                            "everything-waiting-when-none-named": c.g("queues_aborted") == z3.Or(z3.Not(given(c)), none(ids(c)))}))

    case("list", List(Str), lambda l, m: l.has(m), lambda l: l.len == 0)
    case("one", Str, lambda s, m: s == m, lambda s: z3.BoolVal(False))
    return reg
