"""cluster/launcher.py: what a launcher says of its process (P21)."""
import z3

from pyver import types as ty
from pyver.core import NoneV, V
from pyver.spec import Contract, S_, forall, imp
from pyver.types import Any, Int, List, Opt, Str

M = "ipyparallel.cluster.launcher:BaseLauncher."
LA = List(Any)


def register(reg):
    F = dict(args=List(Str), state=Str, start_data=Any, stop_data=Any, stop_callbacks=LA)
    GH = dict(called=LA, called_with=LA)

    def push(eng, g, x):
        t, l = eng.symbolic(eng.gget(g), LA)
        eng.gset(g, eng.wrap(LA, ty.mk(t, ty.llen(t, l) + 1, z3.Store(ty.larr(t, l), ty.llen(t, l), x))))

    def callback(eng, args, kw):
        push(eng, "called", args[0].e)
        push(eng, "called_with", eng.z(args[1], Any))
        return eng.freshv("r", Any)

    EXT = {"any.__call__": callback, M + "_log_output": "noop", "self._log_output": "noop"}
    K = dict(self_fields=F, ghosts=GH, externals=EXT, params=dict(data=Any), returns=Any)
    started = lambda c: {"has-a-name": c.f("args").len > 0}
    reg.add(Contract(M + "notify_start", "P21", requires=started, modifies=["start_data", "state"],
                     ensures=lambda c: {"running": c.f("state") == S_("running"), "what-was-started": c.f("start_data") == c["data"], "passed-on": c.res == c["data"]}, **K))

    def calling(L):
        a, w, cb, n0 = L.g("called"), L.g("called_with"), L.f("stop_callbacks"), L.old.g("called").len
        return {"one-call-each": z3.And(a.len == n0 + L.k, w.len == L.old.g("called_with").len + L.k),
                "in-order": forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), z3.And(a.raw(n0 + i) == cb.raw(i), w.raw(L.old.g("called_with").len + i) == L.p("data"))))}

    def stopped(c):
        o = c.old
        again = o.f("state") == S_("after")
        a, w, cb, n0, m0 = c.g("called"), c.g("called_with"), o.f("stop_callbacks"), o.g("called").len, o.g("called_with").len
        return {"over": c.f("state") == S_("after"), "passed-on": c.res == c["data"], "what-it-left": imp(z3.Not(again), c.f("stop_data") == c["data"]),
                "said-once-only": imp(again, z3.And(a.len == n0, c.f("stop_data") == o.f("stop_data"))),
                "everyone-told-in-order": imp(z3.Not(again), z3.And(a.len == n0 + cb.len, forall(Int, lambda i: imp(z3.And(0 <= i, i < cb.len), z3.And(a.raw(n0 + i) == cb.raw(i), w.raw(m0 + i) == c["data"])))))}

    reg.add(Contract(M + "notify_stop", "P21", requires=started, modifies=["stop_data", "state", "ghost:called", "ghost:called_with"], loops={0: calling}, ensures=stopped, **K))

    def listening(c):
        o = c.old
        over = o.f("state") == S_("after")
        a, cb, n0 = c.g("called"), c.f("stop_callbacks"), o.g("called").len
        return {"told-at-once-when-over": imp(over, z3.And(a.len == n0 + 1, a.raw(n0) == c["f"], c.g("called_with").raw(o.g("called_with").len) == o.f("stop_data"), cb.same(o.f("stop_callbacks")))),
                "told-later-otherwise": imp(z3.Not(over), z3.And(a.len == n0, cb.len == o.f("stop_callbacks").len + 1, cb.raw(o.f("stop_callbacks").len) == c["f"],
                                                               forall(Int, lambda i: imp(z3.And(0 <= i, i < o.f("stop_callbacks").len), cb.raw(i) == o.f("stop_callbacks").raw(i)))))}

    reg.add(Contract(M + "on_stop", "P21", params=dict(f=Any), modifies=["stop_callbacks", "ghost:called", "ghost:called_with"], ensures=listening, **{k: v for k, v in K.items() if k not in ("params", "returns")}))
    return reg
