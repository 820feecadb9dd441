"""controller/hub.py: what is recorded of each task (P10)."""
import z3

from pyver import types as ty
from pyver.core import CDict, Mut, NoneV, V, uf
from pyver.spec import B_, Contract, S_, exists, forall, imp, record
from pyver.types import Any, Bool, Bytes, Dict, Int, List, Opt, Real, Ref, Set, Str, sort

M = "ipyparallel.controller.hub:"
H = M + "Hub."
LS = List(Str)
DL = Dict(Int, LS)
REC = Dict(Str, Any)
A = ty.AnySort
SS = sort(Str)
F = dict(by_ident=Dict(Bytes, Int), pending=Set(Str), all_completed=Set(Str), unassigned=Set(Str), queues=DL, tasks=DL, completed=DL)
# what was written to the database: for each id, the fields of the last write
GH = dict(written=Dict(Str, REC))
enc = uf("encode", SS, sort(Bytes))
# what a message says, as functions of its frames
valid = z3.Function("msg_valid", A, z3.BoolSort())
mid = z3.Function("msg_own_id", A, SS)
has_parent = z3.Function("msg_has_parent", A, z3.BoolSort())
pid = z3.Function("msg_parent_id", A, SS)
engine_of = z3.Function("msg_engine", A, SS)
has_engine = z3.Function("msg_has_engine", A, z3.BoolSort())
status_of = z3.Function("msg_status", A, A)
dest_task = z3.Function("msg_dest_task", A, SS)
dest_engine = z3.Function("msg_dest_engine", A, SS)
content_of = z3.Function("msg_content", A, A)
sid = uf("str_of_Any", A, SS)


def register(reg):
    def message(eng, args, kw):
        m = args[0].e
        if not eng.decide(valid(m)):
            eng.throw("ValueError")
        s = lambda e, t=Str: V(t, e)
        true = z3.BoolVal(True)
        rec = lambda d: Mut(eng.cell(CDict({k: (v if isinstance(v, tuple) else (true, v)) for k, v in d.items()})))
        return rec(dict(
            header=rec(dict(msg_id=s(mid(m)), session=eng.freshv("session", Str), date=eng.freshv("date", Any), msg_type=eng.freshv("type", Str))),
            parent_header=rec(dict(msg_id=(has_parent(m), s(pid(m))))),
            metadata=rec(dict(engine=(has_engine(m), s(engine_of(m))), status=s(status_of(m), Any), started=(eng.fz(z3.BoolSort(), "has_started"), eng.freshv("started", Any)))),
            content=s(content_of(m), Any) if not kw.get("content") else rec(dict(msg_id=s(dest_task(m)), engine_id=s(dest_engine(m)))),
            buffers=eng.freshv("buffers", Any)))

    def new_record(eng, args, kw):
        h = eng.content(args[0].loc).d["header"][1]
        r = eng.freshv("record", REC)
        t, e = eng.symbolic(r)
        k = S_("msg_id")
        for f in ("submitted", "client_uuid", "buffers"):
            eng.assume(ty.sel(ty.ddom(t, e), S_(f)))
        eng.assume(z3.And(ty.sel(ty.ddom(t, e), k), sid(ty.sel(ty.dval(t, e), k)) == eng.content(h.loc).d["msg_id"][1].e))
        return r

    def write(eng, args, kw):
        t, d = eng.symbolic(eng.gget("written"), Dict(Str, REC))
        k = eng.z(args[0], Str)
        c = eng.content(args[1].loc)
        if isinstance(c, CDict):
            # parts which are themselves mutable are copied (deepcopy): what they hold is not followed here
            put = CDict({n: (p, eng.freshv("copy", Any) if isinstance(x, Mut) else x) for n, (p, x) in c.d.items()})
            v = eng.to_zc(put, REC).e
        else:
            v = eng.to_zc(c, REC).e
        eng.gset("written", eng.wrap(t, ty.mk(t, z3.Store(ty.ddom(t, d), k, True), z3.Store(ty.dval(t, d), k, v))))
        if eng.choose([None, None]) == 1:
            eng.throw("KeyError")
        return NoneV

    def lookup(eng, args, kw):
        if eng.choose([None, None]):
            eng.throw("KeyError")
        r = eng.freshv("existing", REC)
        t, e = eng.symbolic(r)
        eng.assume(ty.sel(ty.ddom(t, e), S_("resubmitted")))
        return r

    def failure(eng, args, kw):
        return record(dict(status=lambda e, n: e.const("error"), ename=Str, evalue=Str, traceback=Any))(eng)

    anyval = lambda eng, a, k: eng.freshv("x", Any)
    EXT = {"self.session.deserialize": message, M + "init_record": new_record, "self.db.update_record": write, "self.db.add_record": write, "self.db.get_record": lookup,
           M + "ensure_date_is_parsed": "noop", "ipyparallel.util:ensure_timezone": anyval, "ipyparallel.util:utcnow": anyval, "ipyparallel.util:extract_dates": anyval,
           "ipyparallel.error:wrap_exception": failure, "any.as:Str": sid}
    K = dict(self_fields=F, ghosts=GH, externals=EXT)
    LB = List(Bytes)

    def books(c):
        """each engine has its lists; no task is both waiting and finished; what is queued or running somewhere is waiting"""
        P, D, by = c.f("pending"), c.f("all_completed"), c.f("by_ident")
        return {
            "lists": by.all(lambda b: z3.And(c.f("queues").has(by.raw(b)), c.f("tasks").has(by.raw(b)), c.f("completed").has(by.raw(b)))),
            "waiting-or-finished-not-both": forall(Str, lambda m: z3.Not(z3.And(P.has(m), D.has(m)))),
            "finished-work-was-finished": c.f("completed").all(lambda e: c.f("completed")[e].all(lambda i: D.has(c.f("completed")[e].raw(i)))),
        }

    once = lambda c: {"queued-at-most-once": c.f("queues").all(lambda e: c.f("queues")[e].distinct())}
    fresh = lambda c: {"new-task": z3.Not(c.f("all_completed").has(mid(c["msg"])))}
    same = lambda c, *fs: z3.And([c.f(f).same(c.old.f(f)) for f in fs])
    appended = lambda new, old, x: z3.And(new.len == old.len + 1, new.raw(old.len) == x, old.all(lambda i: new.raw(i) == old.raw(i)))

    def queued(c):
        o, m = c.old, c["msg"]
        b = c["idents"].raw(0)
        ok = z3.And(c["idents"].len >= 2, valid(m), o.f("by_ident").has(b))
        e = o.f("by_ident").raw(b)
        return {
            "waiting": forall(Str, lambda x: c.f("pending").has(x) == z3.Or(o.f("pending").has(x), z3.And(ok, x == mid(m)))),
            "queued-there": imp(ok, appended(c.f("queues")[e], o.f("queues")[e], mid(m))),
            "other-queues-untouched": forall(Int, lambda x: imp(z3.Not(z3.And(ok, x == e)), z3.And(c.f("queues").has(x) == o.f("queues").has(x), c.f("queues").raw(x) == o.f("queues").raw(x)))),
            "recorded": imp(ok, c.g("written").has(mid(m))),
            "nothing-else-recorded": forall(Str, lambda x: imp(z3.Not(z3.And(ok, x == mid(m))), z3.And(c.g("written").has(x) == o.g("written").has(x), c.g("written").raw(x) == o.g("written").raw(x)))),
        }

    reg.add(Contract(H + "save_queue_request", ["P10", "P23"], params=dict(idents=LB, msg=Any), requires=lambda c: {**books(c), **fresh(c)},
                     modifies=["pending", "queues", "ghost:written"], ensures=lambda c: {**books(c), **queued(c)}, **K))

    def answered(c, ok):
        """a reply to task t: whether it counts, it leaves the waiting set and is finished; its reply is what is written"""
        o, m = c.old, c["msg"]
        t = pid(m)
        was = z3.And(ok, o.f("pending").has(t))
        W = c.g("written")
        return {
            "no-longer-waiting": c.f("pending").is_(lambda x: z3.And(o.f("pending").has(x), z3.Not(z3.And(was, x == t)))),
            "finished": c.f("all_completed").is_(lambda x: z3.Or(o.f("all_completed").has(x), z3.And(was, x == t))),
            "reply-recorded": imp(was, z3.And(W.has(t), W[t].has(S_("result_content")), W[t].raw(S_("result_content")) == content_of(m))),
            "no-other-record-touched": forall(Str, lambda x: imp(x != t, z3.And(W.has(x) == o.g("written").has(x), W.raw(x) == o.g("written").raw(x)))),
        }

    def queue_reply(c):
        o, m = c.old, c["msg"]
        t, b = pid(m), c["idents"].raw(1)
        ok = z3.And(c["idents"].len >= 2, valid(m), o.f("by_ident").has(b), has_parent(m))
        e = o.f("by_ident").raw(b)
        was = z3.And(ok, o.f("pending").has(t))
        return {**answered(c, ok),
                "off-the-queue": imp(was, z3.And(c.f("queues")[e].len == o.f("queues")[e].len - z3.If(o.f("queues")[e].has(t), 1, 0), z3.Not(c.f("queues")[e].has(t)),
                                                 forall(Str, lambda x: imp(x != t, c.f("queues")[e].has(x) == o.f("queues")[e].has(x))))),
                "on-the-finished-list": imp(was, appended(c.f("completed")[e], o.f("completed")[e], t)),
                "other-engines-untouched": forall(Int, lambda x: imp(z3.Not(z3.And(was, x == e)), z3.And(c.f("queues").raw(x) == o.f("queues").raw(x), c.f("completed").raw(x) == o.f("completed").raw(x)))),
                "stranger-ignored": imp(z3.And(z3.Not(o.f("pending").has(t)), z3.Not(o.f("all_completed").has(t))), c.g("written").same(o.g("written")))}

    reg.add(Contract(H + "save_queue_result", ["P10", "P23"], params=dict(idents=LB, msg=Any),
                     requires=lambda c: {**books(c), **once(c)},
                     modifies=["pending", "all_completed", "queues", "completed", "ghost:written"], ensures=lambda c: {**books(c), **once(c), **queue_reply(c)}, **K))
    # ---------------------------------------------------------------- tasks and broadcasts
    def submitted(c, task):
        o, m = c.old, c["msg"]
        ok = valid(m)
        r = {"waiting": c.f("pending").is_(lambda x: z3.Or(o.f("pending").has(x), z3.And(ok, x == mid(m)))),
             "nothing-else-recorded": forall(Str, lambda x: imp(z3.Not(z3.And(ok, x == mid(m))), z3.And(c.g("written").has(x) == o.g("written").has(x), c.g("written").raw(x) == o.g("written").raw(x))))}
        if task:
            r["unassigned"] = c.f("unassigned").is_(lambda x: z3.Or(o.f("unassigned").has(x), z3.And(ok, x == mid(m))))
        return r

    some = lambda c: {"frames": c["idents"].len >= 1}
    reg.add(Contract(H + "save_task_request", ["P10", "P23"], params=dict(idents=LB, msg=Any), requires=lambda c: {**books(c), **fresh(c), **some(c)},
                     modifies=["pending", "unassigned", "ghost:written"], ensures=lambda c: {**books(c), **submitted(c, True)}, **K))
    reg.add(Contract(H + "save_broadcast_request", "P10", params=dict(idents=LB, msg=Any), requires=lambda c: {**books(c), **fresh(c), **some(c)},
                     modifies=["pending", "ghost:written"], ensures=lambda c: {**books(c), **submitted(c, False)}, **K))
    ABORTED = uf("inj_Str", SS, A)

    def task_reply(c, task=True):
        o, m = c.old, c["msg"]
        t = pid(m)
        ok = z3.And(valid(m), has_parent(m))
        b = z3.If(has_engine(m), enc(engine_of(m)), B_(b""))
        here = o.f("by_ident").has(b)
        e = o.f("by_ident").raw(b)
        was = z3.And(ok, o.f("pending").has(t))
        r = {**answered(c, ok),
             "finished-there-at-most": imp(was, z3.And(
                 forall(Int, lambda x: imp(z3.Not(z3.And(here, x == e)), c.f("completed").raw(x) == o.f("completed").raw(x))),
                 imp(here, z3.Or(appended(c.f("completed")[e], o.f("completed")[e], t), c.f("completed").raw(e) == o.f("completed").raw(e))))),
             "finished-list-kept-otherwise": imp(z3.Not(was), forall(Int, lambda x: c.f("completed").raw(x) == o.f("completed").raw(x))),
             "its-reply-only": imp(z3.Not(was), c.g("written").same(o.g("written")))}
        if task:
            r["assigned"] = c.f("unassigned").is_(lambda x: z3.And(o.f("unassigned").has(x), z3.Not(z3.And(ok, x == t))))
            g = z3.And(was, here)
            r["off-the-engine"] = imp(g, z3.Not(c.f("tasks")[e].has(t)))
            r["its-other-tasks-stay"] = imp(g, forall(Str, lambda x: imp(z3.And(x != t, o.f("tasks")[e].has(x)), c.f("tasks")[e].has(x))))
            r["it-gets-no-others"] = imp(g, forall(Str, lambda x: imp(c.f("tasks")[e].has(x), o.f("tasks")[e].has(x))))
            r["other-engines-untouched"] = forall(Int, lambda x: imp(z3.Not(z3.And(g, x == e)), c.f("tasks").raw(x) == o.f("tasks").raw(x)))
        return r

    tonce = lambda c: {"assigned-at-most-once": c.f("tasks").all(lambda e: c.f("tasks")[e].distinct())}
    reg.add(Contract(H + "save_task_result", ["P10", "P23"], params=dict(idents=LB, msg=Any), requires=lambda c: {**books(c), **some(c), **tonce(c)}, timeout=20,
                     modifies=["pending", "all_completed", "unassigned", "completed", "tasks", "ghost:written"], ensures=lambda c: {**books(c), **tonce(c), **task_reply(c)}, **K))
    reg.add(Contract(H + "save_broadcast_result", "P10", params=dict(idents=LB, msg=Any), requires=lambda c: {**books(c), **some(c)},
                     modifies=["pending", "all_completed", "completed", "ghost:written"], ensures=lambda c: {**books(c), **task_reply(c, False)}, **K))

    # ---------------------------------------------------------------- a task was handed to an engine
    def content_id(eng, args, kw):
        m = args[0].e
        if not eng.decide(valid(m)):
            eng.throw("ValueError")
        true = z3.BoolVal(True)
        c = Mut(eng.cell(CDict(dict(msg_id=(true, V(Str, dest_task(m))), engine_id=(true, V(Str, dest_engine(m)))))))
        return Mut(eng.cell(CDict(dict(content=(true, c)))))

    def assigned(c):
        o, m = c.old, c["msg"]
        t, b = dest_task(m), enc(dest_engine(m))
        ok = z3.And(valid(m), o.f("by_ident").has(b))
        e = o.f("by_ident").raw(b)
        T, T0 = c.f("tasks"), o.f("tasks")
        return {
            "assigned": c.f("unassigned").is_(lambda x: z3.And(o.f("unassigned").has(x), z3.Not(z3.And(ok, x == t)))),
            "with-that-engine": imp(ok, T[e].has(t)),
            "with-no-other": imp(ok, forall(Int, lambda x: imp(z3.And(T.has(x), x != e), z3.Not(T[x].has(t))))),
            "same-engines": forall(Int, lambda x: T.has(x) == T0.has(x)),
            "other-tasks-stay": forall([Int, Int], lambda x, i: imp(z3.And(T0.has(x), 0 <= i, i < T0[x].len, T0[x].raw(i) != t), T[x].has(T0[x].raw(i)))),
            "nothing-else-appears": forall([Int, Int], lambda x, i: imp(z3.And(T0.has(x), 0 <= i, i < T[x].len, T[x].raw(i) != t), T0[x].has(T[x].raw(i)))),
            "nothing-on-a-bad-message": imp(z3.Not(valid(m)), T.same(T0)),
        }

    reg.add(Contract(H + "save_task_destination", "P10", params=dict(idents=LB, msg=Any), requires=lambda c: {**books(c), **tonce(c)}, timeout=10,
                     modifies=["unassigned", "tasks", "ghost:written"],
                     loops={0: lambda L: {
                         "visited-are-rid-of-it": forall(Int, lambda x: imp(L.visited(x), z3.Not(L.f("tasks")[x].has(L["msg_id"])))),
                         "the-rest-stays": forall([Int, Int], lambda x, i: imp(z3.And(L.visited(x), 0 <= i, i < L.pre.f("tasks")[x].len, L.pre.f("tasks")[x].raw(i) != L["msg_id"]),
                                                                              L.f("tasks")[x].has(L.pre.f("tasks")[x].raw(i))), lambda x, i: [L.pre.f("tasks")[x].raw(i)]),
                         "nothing-new": forall([Int, Int], lambda x, i: imp(z3.And(L.visited(x), 0 <= i, i < L.f("tasks")[x].len), L.pre.f("tasks")[x].has(L.f("tasks")[x].raw(i)))),
                         "unvisited-as-they-were": forall(Int, lambda x: imp(z3.Not(L.visited(x)), L.f("tasks").raw(x) == L.pre.f("tasks").raw(x))),
                         "same-engines": forall(Int, lambda x: L.f("tasks").has(x) == L.pre.f("tasks").has(x)), **tonce(L)}},
                     raises={"KeyError": lambda c: {"only-for-an-unknown-engine": z3.Not(c.old.f("by_ident").has(enc(dest_engine(c["msg"]))))}},
                     ensures=lambda c: {**books(c), **tonce(c), **assigned(c)}, **dict(K, externals={**EXT, "self.session.deserialize": content_id})))

    # ---------------------------------------------------------------- the engine died
    def failed(c, out):
        o = c.old
        W = c.g("written")
        return {
            "none-waits": c.f("pending").is_(lambda x: z3.And(o.f("pending").has(x), z3.Not(out.has(x)))),
            "all-finished": c.f("all_completed").is_(lambda x: z3.Or(o.f("all_completed").has(x), z3.And(out.has(x), o.f("pending").has(x)))),
            "an-outcome-is-recorded-for-each": out.all(lambda i: imp(o.f("pending").has(out.raw(i)), z3.And(W.has(out.raw(i)), W[out.raw(i)].has(S_("result_content")), W[out.raw(i)].has(S_("completed"))))),
            "no-other-record-touched": forall(Str, lambda x: imp(z3.Not(z3.And(out.has(x), o.f("pending").has(x))), z3.And(W.has(x) == o.g("written").has(x), W.raw(x) == o.g("written").raw(x)))),
        }

    upto = lambda l, k, x: exists(Int, lambda i: z3.And(0 <= i, i < k, l.raw(i) == x))

    def failing(L):
        l, W, W0 = L.p("outstanding"), L.g("written"), L.pre.g("written")
        return {
            "none-so-far-waits": L.f("pending").is_(lambda x: z3.And(L.pre.f("pending").has(x), z3.Not(upto(l, L.k, x)))),
            "all-so-far-finished": L.f("all_completed").is_(lambda x: z3.Or(L.pre.f("all_completed").has(x), z3.And(upto(l, L.k, x), L.pre.f("pending").has(x)))),
            "recorded-so-far": forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k, L.pre.f("pending").has(l.raw(i))), z3.And(W.has(l.raw(i)), W[l.raw(i)].has(S_("result_content")), W[l.raw(i)].has(S_("completed"))))),
            "no-other": forall(Str, lambda x: imp(z3.Not(z3.And(upto(l, L.k, x), L.pre.f("pending").has(x))), z3.And(W.has(x) == W0.has(x), W.raw(x) == W0.raw(x)))),
        }

    reg.add(Contract(H + "_handle_stranded_msgs", "P10", params=dict(eid=Int, uuid=Str, outstanding=LS), requires=books,
                     modifies=["pending", "all_completed", "ghost:written"], loops={0: failing}, ensures=lambda c: {**books(c), **failed(c, c["outstanding"])}, **K))

    # ---------------------------------------------------------------- purging and asking
    def dropped(eng, args, kw):
        q = eng.content(args[0].loc).d
        if "msg_id" in q:
            ids = eng.content(q["msg_id"][1].loc).d["$in"][1]
            eng.gset("dropped", ids)
        else:
            t, s = eng.symbolic(eng.gget("dropped_of"), Set(Str))
            assert eng.lit_of(eng.content(q["completed"][1].loc).d["$ne"][1]) is None and set(q) == {"engine_uuid", "completed"}
            eng.gset("dropped_of", eng.wrap(Set(Str), z3.Store(s, eng.z(q["engine_uuid"][1], Str), True)))
        return NoneV

    ENG = Dict(Int, Ref("EngineConnector"))
    LI = List(Int)
    reg.add(Contract(H + "purge_results", "P10", params=dict(client_id=Any, msg=record(dict(content=record(dict(msg_ids=LS, engine_ids=LI))))),
                     self_fields={**F, "engines": ENG}, ghosts=dict(dropped=LS, dropped_of=Set(Str)),
                     externals={**EXT, "self.db.drop_matching_records": dropped, "self.session.send": "noop", "self.query": Any},
                     requires=lambda c: {"nothing-yet": z3.And(c.g("dropped").len == 0, forall(Str, lambda x: z3.Not(c.g("dropped_of").has(x))))},
                     modifies=["ghost:dropped", "ghost:dropped_of"],
                     loops={0: lambda L: {"of-those-engines": forall(Str, lambda x: imp(L.g("dropped_of").has(x), exists(Int, lambda i: z3.And(0 <= i, i < L.k, L.h("EngineConnector", "uuid", L.f("engines").raw(L["eids"].raw(i))) == x))))}},
                     ensures=lambda c: {
                         "never-a-waiting-task": imp(exists(Int, lambda i: z3.And(0 <= i, i < c["msg"]["content"]["msg_ids"].len, c.f("pending").has(c["msg"]["content"]["msg_ids"].raw(i)))),
                                                     z3.And(c.g("dropped").len == 0, forall(Str, lambda x: z3.Not(c.g("dropped_of").has(x))))),
                         "those-asked-otherwise": imp(forall(Int, lambda i: imp(z3.And(0 <= i, i < c["msg"]["content"]["msg_ids"].len), z3.Not(c.f("pending").has(c["msg"]["content"]["msg_ids"].raw(i))))),
                                                      c.g("dropped").same(c["msg"]["content"]["msg_ids"])),
                     }))

    def told(eng, args, kw):
        d = eng.content(kw["content"].loc).d
        ok = eng.lit_of(d["status"][1]) == "ok"
        eng.gset("said_ok", V(Bool, z3.BoolVal(ok)))
        if ok:
            for f in ("pending", "completed"):
                eng.gset("said_" + f, d[f][1])
        return NoneV

    def question(eng, name="msg"):
        true = z3.BoolVal(True)
        m = record(dict(content=record(dict(msg_ids=LS))))(eng, name)
        eng.content(eng.content(m.loc).d["content"][1].loc).d["status_only"] = (true, V(Bool, true))
        return m

    def status(c):
        ids, P, D = c["msg"]["content"]["msg_ids"], c.f("pending"), c.f("all_completed")
        known = ids.all(lambda i: z3.Or(P.has(ids.raw(i)), D.has(ids.raw(i))))
        return {
            "ok-iff-all-known": c.g("said_ok") == known,
            "waiting": imp(known, forall(Str, lambda x: c.g("said_pending").has(x) == z3.And(ids.has(x), P.has(x)))),
            "finished": imp(known, forall(Str, lambda x: c.g("said_completed").has(x) == z3.And(ids.has(x), z3.Not(P.has(x)), D.has(x)))),
        }

    reg.add(Contract(H + "get_results", "P10", name="get_results[status only]", params=dict(client_id=Any, msg=question), self_fields=F,
                     ghosts=dict(said_ok=Bool, said_pending=LS, said_completed=LS), externals={**EXT, "self.session.send": told, "self.query": Any},
                     modifies=["ghost:said_ok", "ghost:said_pending", "ghost:said_completed"], locals=dict(pending=LS, completed=LS),
                     loops={1: lambda L: {
                         "known-so-far": forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), z3.Or(L.f("pending").has(L["msg_ids"].raw(i)), L.f("all_completed").has(L["msg_ids"].raw(i))))),
                         "waiting-so-far": forall(Str, lambda x: L.typed("pending", LS).has(x) == z3.And(upto(L["msg_ids"], L.k, x), L.f("pending").has(x))),
                         "finished-so-far": forall(Str, lambda x: L.typed("completed", LS).has(x) == z3.And(upto(L["msg_ids"], L.k, x), z3.Not(L.f("pending").has(x)), L.f("all_completed").has(x)))}},
                     ensures=status))
    return reg
