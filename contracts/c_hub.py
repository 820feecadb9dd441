"""controller/hub.py: who is registered (P09) and what is recorded (P10)."""
import z3

from pyver import types as ty
from pyver.core import CDict, Mut, NoneV, V, uf
from pyver.spec import Contract, S_, exists, forall, imp, record
from pyver.types import Any, Bool, Bytes, Deque, Dict, Int, List, Opt, Real, Ref, Set, Str, sort

M = "ipyparallel.controller.hub:"
EC = Ref("EngineConnector")
LS = List(Str)
REG = dict(ids=Set(Int), by_ident=Dict(Bytes, Int), engines=Dict(Int, EC), hearts=Dict(Bytes, Int), incoming_registrations=Dict(Bytes, EC),
           _idcounter=Int, queues=Dict(Int, LS), tasks=Dict(Int, LS), completed=Dict(Int, LS), expect_stopped_hearts=Deque(Bytes))
REST = dict(engine_info=Any, client_info=Any, heartmonitor_period=Int, registration_timeout=Int, notifier=Opt(Any))
# what was announced to the clients (sets of engine ids), what was promised for a departed engine's unanswered tasks
GH = dict(told_of=Set(Int), told_gone=Set(Int), to_fail=Dict(Int, LS))
enc = uf("encode", sort(Str), sort(Bytes))


def registry(c):
    ids, by, eng, hearts, inc, n = (c.f(x) for x in ("ids", "by_ident", "engines", "hearts", "incoming_registrations", "_idcounter"))
    idof = lambda r: c.h("EngineConnector", "id", r)
    ident = lambda r: c.h("EngineConnector", "ident", r)
    uuid = lambda r: c.h("EngineConnector", "uuid", r)
    return {
        "ids-are-the-engines": forall(Int, lambda e: ids.has(e) == eng.has(e)),
        "engine-under-its-id": eng.all(lambda e: z3.And(idof(eng.raw(e)) == e, e < n)),
        "addressable": eng.all(lambda e: z3.And(by.has(ident(eng.raw(e))), by.raw(ident(eng.raw(e))) == e)),
        "heard": eng.all(lambda e: z3.And(hearts.has(ident(eng.raw(e))), hearts.raw(ident(eng.raw(e))) == e)),
        "no-other-address": by.all(lambda b: z3.And(eng.has(by.raw(b)), ident(eng.raw(by.raw(b))) == b)),
        "no-other-heart": hearts.all(lambda b: z3.And(eng.has(hearts.raw(b)), ident(eng.raw(hearts.raw(b))) == b)),
        "identity-from-uuid": z3.And(eng.all(lambda e: enc(uuid(eng.raw(e))) == ident(eng.raw(e))), inc.all(lambda b: enc(uuid(inc.raw(b))) == b)),
        "waiting-under-identity": inc.all(lambda b: z3.And(ident(inc.raw(b)) == b, idof(inc.raw(b)) < n)),
        "waiting-not-registered": inc.all(lambda b: z3.And(z3.Not(by.has(b)), z3.Not(eng.has(idof(inc.raw(b)))))),
        "waiting-ids-distinct": forall([Bytes, Bytes], lambda a, b: imp(z3.And(inc.has(a), inc.has(b), a != b), idof(inc.raw(a)) != idof(inc.raw(b)))),
        "books-exist": eng.all(lambda e: z3.And(c.f("queues").has(e), c.f("tasks").has(e), c.f("completed").has(e))),
    }


def register(reg):
    reg.heap_class("EngineConnector", dict(id=Int, uuid=Str, ident=Bytes, stallback=Opt(Any), registration_started=Real), module="ipyparallel.controller.hub")

    def new_ec(eng, args, kw):
        r = eng.freshv("ec", EC)
        for k, v in kw.items():
            eng.hset("EngineConnector", k, r.e, eng.z(v, reg.field_type("EngineConnector", k)))
        eng.newrefs.append(r.e)
        inc, en = eng.getattr_(eng.selfv, "incoming_registrations", None), eng.getattr_(eng.selfv, "engines", None)
        for d in (inc, en):  # a new object: nothing refers to it yet
            t, e = eng.symbolic(d)
            k = z3.Const("k!new", sort(t.k))
            eng.assume(z3.ForAll([k], z3.Implies(ty.sel(ty.ddom(t, e), k), ty.sel(ty.dval(t, e), k) != r.e)))
        return r

    def said(eng, args, kw):
        """what goes out on the notifier: which engine id is announced or retired"""
        g = {"registration_notification": "told_of", "unregistration_notification": "told_gone"}.get(eng.lit_of(args[1]))
        if g is not None:
            v = eng.content(kw["content"].loc).d["id"][1]
            t, s = eng.symbolic(eng.gget(g), Set(Int))
            eng.gset(g, eng.wrap(Set(Int), z3.Store(s, eng.z(v, Int), True)))
        return eng.freshv("sent", Any)

    def failure(eng, args, kw):
        return record(dict(status=lambda e, n: e.const("error"), ename=Str, evalue=Str, traceback=Any))(eng)

    def later(eng, args, kw):
        """a timer: what it will do is recorded at once"""
        eng.call(args[1], [], {}, None)
        return eng.freshv("timer", Any)

    def promised(eng, args, kw):
        """_handle_stranded_msgs(eid, uuid, outstanding) will run when the timer fires"""
        _, eid, uuid, out = args
        t, d = eng.symbolic(eng.gget("to_fail"), Dict(Int, LS))
        lt, l = eng.symbolic(out, LS)
        k = eng.z(eid, Int)
        eng.gset("to_fail", eng.wrap(t, ty.mk(t, z3.Store(ty.ddom(t, d), k, True), z3.Store(ty.dval(t, d), k, l))))
        return NoneV

    H = M + "Hub."
    EXT = {"new:EngineConnector": new_ec, "self.session.send": said, "self.query": Any, "self.query.flush": "noop", "self.monitor.flush": "noop",
           "ipyparallel.error:wrap_exception": failure, "self.loop.add_timeout": later, "self.loop.time": lambda eng, a, k: eng.freshv("now", Real), "self.loop.remove_timeout": "noop",
           "time.monotonic": lambda eng, a, k: eng.freshv("now", Real), H + "_save_engine_state": "noop", "zmq.POLLOUT": Any}
    K = dict(self_fields={**REG, **REST}, ghosts=GH, externals=EXT)
    R = lambda c: registry(c)
    idof = lambda c, r: c.h("EngineConnector", "id", r)
    free = lambda c, v, i: z3.And(z3.Not(v.f("engines").has(i)), v.f("incoming_registrations").all(lambda b: v.h("EngineConnector", "id", v.f("incoming_registrations").raw(b)) != i))

    def fresh_id(c):
        want = c["requested_id"]
        return {"nobody-has-it": free(c, c.old, c.res), "below-the-counter": z3.And(c.res < c.f("_idcounter"), c.f("_idcounter") >= c.old.f("_idcounter")),
                "as-requested-if-free": imp(z3.And(want.some, free(c, c.old, want.v)), c.res == want.v)}

    reg.add(Contract(H + "new_engine_id", "P09", params=dict(requested_id=Opt(Int)), returns=Int, modifies=["_idcounter"], requires=R, ensures=fresh_id, **K))
    reg.add(Contract(H + "finish_registration", "P09", params=dict(heart=Bytes), requires=R,
                     modifies=["ids", "engines", "by_ident", "queues", "tasks", "completed", "hearts", "incoming_registrations", "ghost:told_of"],
                     ensures=lambda c: {**R(c), **finished(c)}, **K))

    def finished(c):
        o = c.old
        inc, h = o.f("incoming_registrations"), c["heart"]
        e = o.h("EngineConnector", "id", inc.raw(h))
        ok = inc.has(h)
        return {
            "present": imp(ok, z3.And(c.f("engines").has(e), c.f("engines").raw(e) == inc.raw(h), c.f("by_ident").has(h), c.f("by_ident").raw(h) == e)),
            "announced": forall(Int, lambda x: c.g("told_of").has(x) == z3.Or(o.g("told_of").has(x), z3.And(ok, x == e, c.f("notifier").some, truthy(c.f("notifier").v)))),
            "no-longer-waiting": c.f("incoming_registrations").domain_is(lambda b: z3.And(inc.has(b), b != h)),
            "others-stay": forall(Int, lambda x: imp(z3.Not(z3.And(ok, x == e)), z3.And(c.f("engines").has(x) == o.f("engines").has(x), imp(o.f("engines").has(x), c.f("engines").raw(x) == o.f("engines").raw(x))))),
            "nothing-for-a-stranger": imp(z3.Not(ok), z3.And(c.f("engines").same(o.f("engines")), c.f("by_ident").same(o.f("by_ident")))),
        }

    truthy = uf("truthy_Any", ty.AnySort, z3.BoolSort())
    reg.add(Contract(H + "_purge_stalled_registration", "P09", params=dict(heart=Bytes), requires=R, modifies=["incoming_registrations"],
                     ensures=lambda c: {**R(c), "gone": c.f("incoming_registrations").domain_is(lambda b: z3.And(c.old.f("incoming_registrations").has(b), b != c["heart"]))}, **K))

    # ---------------------------------------------------------------- leaving
    def content_id(eng, name="msg"):
        return record(dict(content=record(dict(id=Int, queue=Str))))(eng, name)

    def left(c):
        o = c.old
        e = c["msg"]["content"]["id"]
        was = o.f("engines").has(e)
        E0 = o.f("engines")
        uid = o.h("EngineConnector", "ident", E0.raw(e))
        return {
            "not-present": z3.And(z3.Not(c.f("engines").has(e)), z3.Not(c.f("ids").has(e))),
            "not-addressable": c.f("by_ident").all(lambda b: c.f("by_ident").raw(b) != e),
            "not-heard": c.f("hearts").all(lambda b: c.f("hearts").raw(b) != e),
            "not-waiting": c.f("incoming_registrations").all(lambda b: imp(z3.Not(was), c.h("EngineConnector", "id", c.f("incoming_registrations").raw(b)) != e)),
            "announced": forall(Int, lambda x: c.g("told_gone").has(x) == z3.Or(o.g("told_gone").has(x), z3.And(was, x == e, c.f("notifier").some, truthy(c.f("notifier").v)))),
            "its-unanswered-tasks-will-be-failed": imp(was, z3.And(c.g("to_fail").has(e), c.g("to_fail").raw(e) == o.f("queues").raw(e))),
            "others-stay": forall(Int, lambda x: imp(x != e, z3.And(c.f("engines").has(x) == E0.has(x), imp(E0.has(x), c.f("engines").raw(x) == E0.raw(x))))),
        }

    L_ = dict(K, externals={**EXT, H + "_handle_stranded_msgs": promised})
    reg.add(Contract(H + "unregister_engine", "P09", params=dict(ident=Any, msg=content_id), requires=R,
                     modifies=["ids", "engines", "by_ident", "hearts", "incoming_registrations", "expect_stopped_hearts", "ghost:told_gone", "ghost:to_fail"],
                     loops={0: lambda L: {"none-yet": forall(Bytes, lambda b: imp(L.visited(b), L.h("EngineConnector", "id", L.f("incoming_registrations").raw(b)) != L.p("msg")["content"]["id"])),
                                          "not-chosen": L["remove_heart_id"] is None or L["remove_heart_id"].none}},
                     ensures=lambda c: {**R(c), **left(c)}, **L_))

    # ---------------------------------------------------------------- arriving
    def arrived(c):
        o = c.old
        u = c["msg"]["content"]["uuid"]
        h = enc(u)
        inc, inc0 = c.f("incoming_registrations"), o.f("incoming_registrations")
        clash = z3.Or(o.f("by_ident").has(h), inc0.has(h))
        given = c["msg"]["content"].present("uuid")
        return {
            "refused-when-in-use": imp(z3.And(given, clash), inc.same(inc0)),
            "accepted-otherwise": imp(z3.And(given, z3.Not(clash)), z3.And(
                inc.domain_is(lambda b: z3.Or(inc0.has(b), b == h)), c.h("EngineConnector", "uuid", inc.raw(h)) == u,
                free(c, o, c.h("EngineConnector", "id", inc.raw(h))))),
            "others-kept": forall(Bytes, lambda b: imp(b != h, z3.And(inc.has(b) == inc0.has(b), imp(inc0.has(b), inc.raw(b) == inc0.raw(b))))),
            "refused-without-identity": imp(z3.Not(given), inc.same(inc0)),
        }

    EC_MODS = [("EngineConnector", f) for f in ("id", "uuid", "ident", "stallback")]
    inj = lambda c: {"utf8-is-injective": forall([Str, Str], lambda a, b: imp(enc(a) == enc(b), a == b))}
    reg.add(Contract(H + "register_engine", "P09", params=dict(reg=Any, msg=record(dict(content=record(dict(uuid=Str, id=Opt(Int)), optional=("uuid", "id"))))),
                     requires=lambda c: {**R(c), **inj(c)}, modifies=["_idcounter", "incoming_registrations"],
                     loops={0: lambda L: {"no-clash-so-far": forall(Bytes, lambda b: imp(L.visited(b), L.h("EngineConnector", "uuid", L.f("incoming_registrations").raw(b)) != L["uuid"])),
                                          }},
                     ensures=lambda c: {**R(c), **arrived(c)}, **dict(K, externals={**EXT, H + "_purge_stalled_registration": "noop"})))

    # ---------------------------------------------------------------- being told
    DIS = Dict(Str, Str)
    i2s = uf("str_of_int", z3.IntSort(), sort(Str))
    s2i = uf("int_of_str", sort(Str), z3.IntSort())

    def reply(eng, args, kw):
        d = eng.content(eng.content(args[2].loc).d["engines"][1].loc)
        eng.gset("sent", eng.wrap(DIS, eng.to_zc(d, DIS).e))
        return eng.freshv("sent", Any)

    CK = dict(self_fields={**REG, **REST}, ghosts={**GH, "sent": DIS}, externals={**EXT, "self.session.send": reply})

    def told(c):
        E, sent = c.f("engines"), c.g("sent")
        return {"exactly-the-registered": z3.And(
            forall(Int, lambda e: imp(E.has(e), z3.And(sent.has(i2s(e)), sent.raw(i2s(e)) == c.h("EngineConnector", "uuid", E.raw(e))))),
            forall(Str, lambda x: imp(sent.has(x), z3.And(E.has(s2i(x)), i2s(s2i(x)) == x))))}

    digits = ("different numbers are written differently", lambda: forall(Int, lambda e: s2i(i2s(e)) == e, lambda e: [i2s(e)]))
    reg.add(Contract(H + "connection_request", "P09", params=dict(client_id=Any, msg=Any), requires=R, modifies=["ghost:sent"], axioms=[digits], locals={"jsonable": DIS},
                     loops={0: lambda L: {"listed": z3.And(
                         forall(Int, lambda e: imp(L.visited(e), z3.And(L.typed("jsonable", DIS).has(i2s(e)), L.typed("jsonable", DIS).raw(i2s(e)) == L.h("EngineConnector", "uuid", L.f("engines").raw(e))))),
                         forall(Str, lambda x: imp(L.typed("jsonable", DIS).has(x), z3.And(L.visited(s2i(x)), i2s(s2i(x)) == x))))}},
                     ensures=told, **CK))
    reg.add(Contract(H + "handle_new_heart", "P09", params=dict(heart=Bytes), requires=R,
                     modifies=["ids", "engines", "by_ident", "queues", "tasks", "completed", "hearts", "incoming_registrations", "ghost:told_of"],
                     ensures=lambda c: {**R(c), **finished(c)}, **K))

    def stopped(c):
        o, h = c.old, c["heart"]
        was = o.f("hearts").has(h)
        e = o.f("hearts").raw(h)
        return {"gone": imp(was, z3.And(z3.Not(c.f("engines").has(e)), z3.Not(c.f("by_ident").has(h)), z3.Not(c.f("hearts").has(h)))),
                "announced": forall(Int, lambda x: c.g("told_gone").has(x) == z3.Or(o.g("told_gone").has(x), z3.And(was, x == e, c.f("notifier").some, truthy(c.f("notifier").v)))),
                "its-unanswered-tasks-will-be-failed": imp(was, z3.And(c.g("to_fail").has(e), c.g("to_fail").raw(e) == o.f("queues").raw(e))),
                "others-stay": forall(Int, lambda x: imp(z3.Not(z3.And(was, x == e)), z3.And(c.f("engines").has(x) == o.f("engines").has(x), imp(o.f("engines").has(x), c.f("engines").raw(x) == o.f("engines").raw(x)))))}

    reg.add(Contract(H + "handle_stopped_heart", "P09", params=dict(heart=Bytes), requires=R,
                     modifies=["ids", "engines", "by_ident", "hearts", "incoming_registrations", "expect_stopped_hearts", "ghost:told_gone", "ghost:to_fail"],
                     ensures=lambda c: {**R(c), **stopped(c)}, **L_))
    LI = List(Int)
    reg.add(Contract(H + "_validate_targets", ["P09", "P10"], params=dict(targets=LI), returns=LI, requires=R, locals={"_targets": LI},
                     loops={0: lambda L: {"copied": z3.And(L.typed("_targets", LI).len == L.k, forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), L.typed("_targets", LI).raw(i) == L.p("targets").raw(i))))}},
                     ensures=lambda c: {"as-asked": c.res.same(c["targets"]), "all-registered": c.res.all(lambda i: c.f("ids").has(c.res.raw(i))), "some": c.res.len > 0},
                     raises={"IndexError": lambda c: {"only-for-a-stranger-or-none": z3.Or(c["targets"].len == 0, exists(Int, lambda x: z3.And(c["targets"].has(x), z3.Not(c.f("ids").has(x)))))}}, **K))
    return reg
