"""client/view.py: options of a view (P19)."""
import z3

from pyver import types as ty
from pyver.core import CList, Mut, NoneV, TupV, V, uf
from pyver.spec import Contract, S_, exists, forall, imp
from pyver.types import Any, Bool, Bytes, Dict, Int, List, Opt, Set, Str, sort

from .c_dep import among, ids_of, isres

M = "ipyparallel.client.view:"
A = ty.AnySort
DA = Dict(Str, Any)
# what traitlets does with an assignment: refuse the value, or store it in the trait's own form; what it has stored it takes back as is
refused = uf("trait_refuses", sort(Str), A, z3.BoolSort())
stored = uf("trait_stores", sort(Str), A, A)
compared = lambda op: uf("compared_" + op, A, A, z3.BoolSort())
valid_dep = uf("valid_dependency", A, z3.BoolSort())


def register(reg):
    F = dict(_flag_names=List(Str))
    GH = dict(flags=DA)
    tab = lambda c: c.g("flags")
    names = lambda c: c.f("_flag_names")

    def read(eng, a, k):
        t, d = eng.symbolic(eng.gget("flags"), DA)
        return V(Any, z3.Select(ty.dval(DA, d), eng.z(a[1], Str)))

    def write(eng, a, k):
        t, d = eng.symbolic(eng.gget("flags"), DA)
        n, v = eng.z(a[1], Str), eng.z(a[2], Any)
        if eng.decide(refused(n, v)):
            eng.throw("TraitError")
        eng.gset("flags", eng.wrap(DA, ty.mk(DA, z3.Store(ty.ddom(DA, d), n, True), z3.Store(ty.dval(DA, d), n, stored(n, v)))))
        return NoneV

    EXT = {"getattr": read, "setattr": write}

    def settled(v):
        """every flag has a value its trait takes as it is"""
        return {"flags-are-there": names(v).all(lambda i: tab(v).has(names(v).raw(i))),
                "flags-settled": forall(Str, lambda n: imp(tab(v).has(n), z3.And(z3.Not(refused(n, tab(v).raw(n))), stored(n, tab(v).raw(n)) == tab(v).raw(n)))),
                "stored-is-settled": forall([Str, Any], lambda n, x: imp(z3.Not(refused(n, x)), z3.And(z3.Not(refused(n, stored(n, x))), stored(n, stored(n, x)) == stored(n, x))))}

    same = lambda a, b: forall(Str, lambda n: z3.And(tab(a).has(n) == tab(b).has(n), imp(tab(a).has(n), tab(a).raw(n) == tab(b).raw(n))))
    given = lambda kw, now, old: forall(Str, lambda n: z3.And(tab(now).has(n) == tab(old).has(n), imp(tab(old).has(n), tab(now).raw(n) == z3.If(kw.has(n), stored(n, kw.raw(n)), tab(old).raw(n)))))
    kept = lambda c: {"nothing-changed": same(c, c.old)}
    known = lambda c: forall(Str, lambda n: imp(c["kwargs"].has(n), names(c).has(n)))

    def checking(L):
        return {"known-so-far": forall(Str, lambda n: imp(L.visited(n), names(L).has(n)))}

    def setting(L):
        kw = L.p("kwargs")
        return {"set-so-far": forall(Str, lambda n: z3.And(tab(L).has(n) == tab(L.old).has(n), imp(tab(L.old).has(n), tab(L).raw(n) == z3.If(L.visited(n), stored(n, kw.raw(n)), tab(L.old).raw(n))))),
                "taken": forall(Str, lambda n: imp(L.visited(n), z3.Not(refused(n, kw.raw(n)))))}

    def undoing(L):
        kw = L.p("kwargs")
        return {"back-so-far": forall(Str, lambda n: z3.And(tab(L).has(n) == tab(L.old).has(n), imp(z3.And(tab(L.old).has(n), z3.Or(L.visited(n), z3.Not(kw.has(n)))), tab(L).raw(n) == tab(L.old).raw(n))))}

    fails = {"KeyError": lambda c: {**kept(c), "an-unknown-name": z3.Not(known(c))}, "TraitError": lambda c: {**kept(c), "a-refused-value": exists(Str, lambda n: z3.And(c["kwargs"].has(n), refused(n, c["kwargs"].raw(n))))}}
    works = lambda c: {"all-known": known(c), "those-named-are-set": given(c["kwargs"], c, c.old), "none-was-refused": forall(Str, lambda n: imp(c["kwargs"].has(n), z3.Not(refused(n, c["kwargs"].raw(n)))))}
    reg.add(Contract(M + "View.set_flags", "P19", params=dict(kwargs=DA), self_fields=F, ghosts=GH, externals=EXT, requires=settled, modifies=["ghost:flags"],
                     loops={0: checking, 1: setting, 2: undoing}, raises=fails, ensures=works, returns=lambda eng, c: NoneV))

    # a load-balanced view also looks at dependencies and the timeout first
    LBX = {**EXT, M + "LoadBalancedView._validate_dependency": lambda eng, a, k: V(Bool, valid_dep(eng.z(a[1], Any))), "any.compare": lambda eng, op, x, y: compared(op)(x, y)}
    sick = lambda c, n: z3.And(c["kwargs"].has(S_(n)), z3.Not(valid_dep(c["kwargs"].raw(S_(n)))))
    late = lambda c: z3.And(c["kwargs"].has(S_("timeout")), c["kwargs"].raw(S_("timeout")) != z3.Const("any!None", A), compared("Lt")(c["kwargs"].raw(S_("timeout")), c._e.z(c._e.const(0), Any)))
    reg.add(Contract(M + "LoadBalancedView.set_flags", "P19", params=dict(kwargs=DA), self_fields=F, ghosts=GH, externals=LBX, requires=settled, modifies=["ghost:flags"],
                     raises={**fails, "ValueError": lambda c: {**kept(c), "only-for-a-reason": z3.Or(sick(c, "follow"), sick(c, "after"), late(c))}, "TypeError": lambda c: {**kept(c), "a-timeout-was-given": c["kwargs"].has(S_("timeout"))}},
                     ensures=lambda c: {**works(c), "dependencies-valid": z3.Not(z3.Or(sick(c, "follow"), sick(c, "after"))), "timeout-not-negative": z3.Not(late(c))}, returns=lambda eng, c: NoneV))

    # the body of the with statement may do anything to the view, and may raise
    def body(eng, a, k):
        c = eng.own_ctx
        eng.emit("flags-in-effect-inside", given(c["kwargs"], c, c.old))
        eng.gset("flags", eng.freshv("flags_after_body", DA))
        c2 = c
        dom = ty.ddom(DA, eng.symbolic(eng.gget("flags"), DA)[1])
        for g in [forall(Str, lambda n: tab(c2).has(n) == tab(c2.old).has(n))]:
            eng.assume(g)
        if eng.choose([None, None]) == 1:
            eng.throw("BodyError")
        return NoneV

    def saving(L):
        return {"saved-so-far": forall(Str, lambda n: z3.And(L.typed("saved_flags", DA).has(n) == L.visited(n), imp(L.visited(n), L.typed("saved_flags", DA).raw(n) == tab(L.old).raw(n))))}

    def restoring(L):
        return {"restored-so-far": forall(Str, lambda n: z3.And(tab(L).has(n) == tab(L.old).has(n), imp(L.visited(n), tab(L).raw(n) == tab(L.old).raw(n))))}

    flags = lambda c: forall(Str, lambda n: imp(names(c).has(n), tab(c).raw(n) == tab(c.old).raw(n)))
    back = lambda c: {"flags-as-before": flags(c)}
    for cls, more in (("View", {}), ("LoadBalancedView", {"ValueError": back, "TypeError": back})):
        reg.add(Contract(M + "View.temp_flags", "P19", name=f"temp_flags[{cls}]", variant=cls, selfcls=M + cls, params=dict(kwargs=DA), self_fields=F, ghosts=GH, externals={**EXT, "yield": body}, requires=settled, modifies=["ghost:flags"],
                         locals=dict(saved_flags=DA), loops={0: saving, 1: restoring}, raises={"KeyError": back, "TraitError": back, "BodyError": back, **more}, ensures=back))
    
    # one call of a load-balanced view: what its message carries
    OPTS = ("block", "track", "after", "follow", "timeout", "targets", "retries", "label")
    rendered = uf("rendered", A, A)
    none = z3.Const("any!None", A)
    addresses = uf("engine_addresses", A, sort(List(Bytes)))
    dec = uf("decode", sort(Bytes), sort(Str))

    def build(eng, a, k):
        if eng.choose([None, None]) == 1:
            eng.throw("EnginesError")
        return TupV([eng.wrap(List(Bytes), addresses(eng.z(a[0], Any))), eng.freshv("ids", List(Int))])

    def chosen(c, o):
        return z3.If(c[o] == none, c.f(o), c[o])

    def send(eng, a, k):
        c = eng.own_ctx
        md = eng.content(k["metadata"].loc).d
        for o in ("after", "follow"):
            eng.emit(f"sent:{o}", eng.z(md[o][1], Any) == rendered(chosen(c, o)))
        for o in ("timeout", "retries", "label"):
            eng.emit(f"sent:{o}", eng.z(md[o][1], Any) == chosen(c, o))
        eng.emit("sent:track", eng.z(k["track"], Any) == chosen(c, "track"))
        to = c.val(md["targets"][1], List(Str))
        ad = c.val(eng.wrap(List(Bytes), addresses(chosen(c, "targets"))))
        eng.emit("sent:targets", z3.If(chosen(c, "targets") == none, to.len == 0, z3.And(to.len == ad.len, to.len > 0, to.all(lambda i: to.raw(i) == dec(ad.raw(i))))))
        eng.emit("sent:function", eng.z(a[1], Any) == c["f"])
        for n, x in (("args", a[2]), ("kwargs", a[3])):
            eng.emit("sent:" + n, z3.Implies(c[n] != none, eng.z(x, Any) == c[n] if isinstance(x, V) else z3.BoolVal(False)))
        eng.gset("sent", V(Int, eng.z(eng.gget("sent"), Int) + 1))
        return eng.freshv("future", Any)

    def wait(eng, a, k):
        if eng.choose([None, None]) == 1:
            eng.throw("RemoteError")
        return eng.freshv("value", Any)

    once = lambda c: {"nothing-sent": c.g("sent") == c.old.g("sent")}
    LF = {**{o: Any for o in OPTS}, "_task_scheme": Str}
    RX = {"self._socket.closed": lambda eng, a, k: V(Bool, eng.fz(z3.BoolSort(), "closed")), "self.client._build_targets": build, "self.client.send_apply_request": send, "any.get": wait, M + "AsyncResult": Any, "new:AsyncResult": lambda eng, a, k: eng.freshv("ar", Any), M + "getname": Str, "self._socket": Any,
          M + "LoadBalancedView._render_dependency": lambda eng, a, k: V(Any, rendered(eng.z(a[1], Any)))}
    reg.add(Contract(M + "LoadBalancedView._really_apply", "P19", params={**{o: Any for o in OPTS}, "f": Any, "args": Any, "kwargs": Any}, self_fields=LF, ghosts=dict(sent=Int), externals=RX, modifies=["ghost:sent"], returns=Any,
                     raises={"RuntimeError": once, "TypeError": once, "ValueError": once, "EnginesError": once, "RemoteError": lambda c: {"sent-once": c.g("sent") == c.old.g("sent") + 1}},
                     ensures=lambda c: {"sent-once": c.g("sent") == c.old.g("sent") + 1}))
    
    # the ids a dependency argument stands for
    as_dict = uf("dependency_as_dict", A, A)
    isdep = uf("isinst_Dependency", A, z3.BoolSort())

    def new_dep(eng, a, k):
        v = eng.freshv("dep", Set(Any))
        src = eng.own_ctx.val(a[0], List(Any))
        s = eng.symbolic(v, Set(Any))[1]
        eng.assume(forall(Any, lambda x: z3.Select(s, x) == among(src, x)))
        return v
    DX = {"any.isinstance": lambda eng, v, cn: {"AsyncResult": isres(v.e), "Dependency": isdep(v.e), "dict": z3.BoolVal(False)}.get(cn), "any.attr:msg_ids": lambda eng, a, k=None: eng.wrap(List(Any), ids_of(eng.z(a[0] if isinstance(a, (list, tuple)) else a, Any))),
          "any.as_dict": lambda eng, a, k: V(Any, as_dict(eng.z(a[0], Any))), "new:Dependency": new_dep, "ipyparallel.Dependency": new_dep}
    R = M + "LoadBalancedView._render_dependency"
    LA = List(Any)
    it = lambda c: c["dep"]
    reg.add(Contract(R, "P19", name="_render_dependency[none]", variant="none", params=dict(dep=None), self_fields={}, externals=DX, returns=LA, ensures=lambda c: {"nothing": c.res.len == 0}))
    reg.add(Contract(R, "P19", name="_render_dependency[dependency]", variant="dependency", params=dict(dep=Any), self_fields={}, externals=DX, returns=Any, requires=lambda c: {"is-one": isdep(it(c))}, ensures=lambda c: {"as-it-is": c.res == as_dict(it(c))}))
    reg.add(Contract(R, "P19", name="_render_dependency[result]", variant="result", params=dict(dep=Any), self_fields={}, externals=DX, returns=LA, requires=lambda c: {"is-one": z3.And(isres(it(c)), z3.Not(isdep(it(c))))},
                     ensures=lambda c: {"its-messages": z3.And(c.res.len == ty.llen(LA, ids_of(it(c))), c.res.all(lambda i: c.res.raw(i) == ty.lat(LA, ids_of(it(c)), i)))}))
    reg.add(Contract(R, "P19", name="_render_dependency[list]", variant="list", params=dict(dep=LA), self_fields={}, externals=DX, returns=LA, ensures=lambda c: {"exactly-those": forall(Any, lambda x: c.res.has(x) == among(it(c), x))}))
    
    # a call of a direct view: one message to each engine chosen, in order
    LB = List(Bytes)
    pickled = uf("prepickled", A, A)
    tracker_of, reply = uf("tracker_of", A, A), uf("reply_from", sort(Bytes), A)
    isint = uf("isinst_int", A, z3.BoolSort())
    DV = M + "DirectView."

    def build_some(eng, a, k):
        if eng.choose([None, None]) == 1:
            eng.throw("EnginesError")
        to = addresses(eng.z(a[0], Any))
        n = ty.llen(LB, to)
        eng.assume(z3.And(n >= 0, imp(isint(eng.z(a[0], Any)), n == 1)))  # an integer names one engine (proved: _build_targets[one-id])
        return TupV([eng.wrap(LB, to), eng.freshv("ids", List(Int))])

    def sending(what):
        def send(eng, a, k):
            c = eng.own_ctx
            what(eng, c, a, k)
            eng.emit("sent:label", eng.z(eng.content(k["metadata"].loc).d["label"][1], Any) == chosen(c, "label"))
            t, e = eng.symbolic(eng.gget("to"), LB)
            eng.gset("to", eng.wrap(LB, ty.mk(LB, ty.llen(LB, e) + 1, z3.Store(ty.larr(LB, e), ty.llen(LB, e), eng.z(k["ident"], Bytes)))))
            return V(Any, reply(eng.z(k["ident"], Bytes)))
        return send

    def the_call(eng, c, a, k):
        eng.emit("sent:function", eng.z(a[1], Any) == pickled(c["f"]))
        pa, pk = c.val(a[2], List(Any)), c.val(a[3], DA)
        eng.emit("sent:args", z3.And(pa.len == c["args"].len, pa.all(lambda i: pa.raw(i) == pickled(c["args"].raw(i)))))
        eng.emit("sent:kwargs", forall(Str, lambda n: z3.And(pk.has(n) == c["kwargs"].has(n), imp(pk.has(n), pk.raw(n) == pickled(c["kwargs"].raw(n))))))
        eng.emit("sent:track", eng.z(k["track"], Any) == chosen(c, "track"))

    def the_code(eng, c, a, k):
        eng.emit("sent:code", eng.z(a[1], Any) == c["code"])
        eng.emit("sent:silent", eng.z(k["silent"], Any) == c["silent"])

    addr = lambda v, c: v.val(c._e.wrap(LB, addresses(chosen(c, "targets"))))

    def fanning(L):
        c = L._e.own_ctx
        to, ad, fs = L.g("to"), addr(L, c), L.typed("futures", List(Any))
        return {"one-each-so-far": z3.And(to.len == L.k, forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), to.raw(i) == ad.raw(i)))), "a-future-each": z3.And(fs.len == L.k, fs.all(lambda i: fs.raw(i) == reply(ad.raw(i))))}

    def handle(eng, a, k):
        c = eng.own_ctx
        ad = addr(c, c)
        if isinstance(a[1], Mut):
            fs = c.val(a[1], List(Any))
            eng.emit("covers-each-reply-in-order", z3.And(fs.len == ad.len, fs.all(lambda i: fs.raw(i) == reply(ad.raw(i)))))
        else:
            eng.emit("covers-the-one-reply", z3.And(ad.len == 1, eng.z(a[1], Any) == reply(ad.raw(0))))
        return eng.freshv("ar", Any)
    unsent = lambda c: {"nothing-sent": c.g("to").len == 0}
    allsent = lambda c: {"one-to-each-in-order": c.g("to").same(addr(c, c))}
    DF = {o: Any for o in ("block", "track", "targets", "label")}
    common = {**RX, "self.client._build_targets": build_some, "new:AsyncResult": handle, "new:PrePickled": lambda eng, a, k: V(Any, pickled(eng.z(a[0], Any))), "any.attr:tracker": lambda eng, a, k=None: V(Any, tracker_of(eng.z(a[0] if isinstance(a, (list, tuple)) else a, Any))), "any.wait_for_output": wait}
    K = dict(self_fields=DF, ghosts=dict(to=LB), locals=dict(futures=List(Any)), loops={0: fanning}, requires=lambda c: {"nothing-yet": c.g("to").len == 0}, modifies=["ghost:to"], returns=Any, raises={"EnginesError": unsent, "RemoteError": allsent}, ensures=allsent)
    reg.add(Contract(DV + "_really_apply", ["P18", "P19"], params=dict(f=Any, args=List(Any), kwargs=DA, **DF), externals={**common, "self.client.send_apply_request": sending(the_call)}, **K))
    reg.add(Contract(DV + "execute", ["P18", "P19"], params=dict(code=Any, silent=Any, targets=Any, block=Any, label=Any), externals={**common, "self.client.send_execute_request": sending(the_code)}, **K))
    return reg
