"""client/client.py: which engines a call goes to (P18), what is outstanding (P17)."""
import z3

from pyver import types as ty
from pyver.core import CDict, Mut, NoneV, SliceV, TupV, V, uf
from pyver.spec import Contract, S_, exists, forall, imp, record
from pyver.types import Any, Bool, Bytes, Dict, Int, List, Opt, Ref, Set, Str, Tup, sort

M = "ipyparallel.client.client:Client."
LI, LB = List(Int), List(Bytes)
enc = uf("encode", sort(Str), sort(Bytes))

lower = uf("str_lower_0", sort(Str), sort(Str))


def register(reg):
    F = dict(_ids=LI, _engines=Dict(Int, Str))
    ids = lambda c: c.f("_ids")
    eng = lambda c: c.f("_engines")

    def known(c):
        """the ids are those of the engines, in order"""
        return {"ids-in-order": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < ids(c).len), ids(c).raw(i) < ids(c).raw(j))),
                "ids-are-the-engines": forall(Int, lambda e: ids(c).has(e) == eng(c).has(e)),
                "no-negative-id": ids(c).all(lambda i: ids(c).raw(i) >= 0)}

    def addressed(c):
        uuids, chosen = c.res[0], c.res[1]
        return {"one-address-each": uuids.len == chosen.len,
                "addresses-match": chosen.all(lambda i: z3.And(eng(c).has(chosen.raw(i)), uuids.raw(i) == enc(eng(c).raw(chosen.raw(i)))))}

    def case(name, params, requires, picks, refused):
        """refused: exception -> when; picks: what the chosen ids are"""
        none = lambda c: ids(c).len == 0
        raises = {"NoEnginesRegistered": lambda c: {"no-engines": none(c)}}
        for x, when in refused.items():
            raises[x] = lambda c, when=when: {"engines-there": z3.Not(none(c)), "not-one-of-them": when(c)}
        reg.add(Contract(M + "_build_targets", "P18", name=f"_build_targets[{name}]", params=params, self_fields=F, returns=Tup(LB, LI),
                         requires=lambda c: {**known(c), **(requires(c) if requires else {})}, raises=raises,
                         ensures=lambda c: {**addressed(c), "some-engines": z3.Not(none(c)), **picks(c)}))

    every = lambda c: {"all-in-order": c.res[1].same(ids(c))}
    case("nothing", dict(targets=None), None, every, {})
    case("by-word", dict(targets=Str), None, lambda c: {"only-all": lower(c["targets"]) == S_("all"), **every(c)},
         {"TypeError": lambda c: lower(c["targets"]) != S_("all")})
    t = lambda c: c["targets"]
    place = lambda c: z3.If(t(c) < 0, ids(c).raw(t(c) + ids(c).len), t(c))
    case("one-id", dict(targets=Int), None, lambda c: {"that-one": z3.And(c.res[1].len == 1, c.res[1].raw(0) == place(c)), "negative-counts-from-the-end": imp(t(c) < 0, t(c) + ids(c).len >= 0)},
         {"IndexError": lambda c: z3.Or(z3.And(t(c) >= 0, z3.Not(ids(c).has(t(c)))), t(c) + ids(c).len < 0)})
    case("list", dict(targets=LI), None, lambda c: {"these-in-order": c.res[1].same(t(c))},
         {"KeyError": lambda c: exists(Int, lambda i: z3.And(0 <= i, i < t(c).len, z3.Not(ids(c).has(t(c).raw(i)))))})

    # a slice of the ids: Python's own rule for where it starts, where it stops and how many it takes
    def slice_(eng_, n):
        o = lambda k: eng_.freshv(f"{n}.{k}", Opt(Int))
        return SliceV(o("start"), o("stop"), o("step"))

    def slice_meaning(c):
        s, n, r = c._e.env0["targets"], ids(c).len, c.res[1]
        a, b, st = (ty.Opt(Int), s.lower.e), s.upper.e, s.step.e
        O = ty.Opt(Int)
        none, val = (lambda x: ty.ois_none(O, x)), (lambda x: ty.oval(O, x))
        step = z3.If(none(st), 1, val(st))
        up = step > 0
        clip = lambda x: z3.If(x < 0, z3.If(x + n < 0, z3.If(up, 0, -1), x + n), z3.If(x >= n, z3.If(up, n, n - 1), x))
        start = z3.If(none(s.lower.e), z3.If(up, 0, n - 1), clip(val(s.lower.e)))
        stop = z3.If(none(b), z3.If(up, n, -1), clip(val(b)))
        before = lambda x: z3.If(up, x < stop, x > stop)
        return {"every-step": r.all(lambda k: z3.And(before(start + k * step), r.raw(k) == ids(c).raw(start + k * step))),
                "until-the-stop": z3.Not(before(start + r.len * step))}

    case("slice", dict(targets=slice_), lambda c: {}, slice_meaning,
         {"ValueError": lambda c: (lambda st: z3.And(z3.Not(ty.ois_none(Opt(Int), st)), ty.oval(Opt(Int), st) == 0))(c._e.env0["targets"].step.e)})
    books(reg, known)
    return reg


A = ty.AnySort
SS = sort(Str)
FUT = Ref("Future")
num = uf("int_of_Str", SS, z3.IntSort())


def books(reg, known):
    """P17: what is outstanding, what has come back, and who was told"""
    reg.heap_class("Future", dict(finished=Bool, value=Any))
    ENG = dict(_ids=LI, _engines=Dict(Int, Str))
    ids = lambda c: c.f("_ids")
    eng = lambda c: c.f("_engines")
    EXT = {"warnings.warn": "noop", "self._task_socket.close": "noop", "any.close": "noop"}
    OTHER = dict(_task_scheme=Str, _task_socket=Opt(Any), outstanding=Set(Str))
    K = dict(self_fields={**ENG, **OTHER}, externals=EXT)
    unlisted = lambda c: forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < ids(c).len), ids(c).raw(i) != ids(c).raw(j)))
    reg.add(Contract(M + "_stop_scheduling_tasks", ["P17", "P18"], modifies=["_task_socket"], requires=lambda c: {"there": c.f("_task_socket").some}, ensures=lambda c: {"no-more-tasks": c.f("_task_socket").none}, **K))

    def added(L):
        new = L.p("engines")
        key = (lambda k: num(k)) if new.t.k == Str else (lambda k: k)
        return {"once-each": unlisted(L), "ids-are-the-engines": forall(Int, lambda e: ids(L).has(e) == eng(L).has(e)), "no-negative-id": ids(L).all(lambda i: ids(L).raw(i) >= 0),
                "these-and-those-before": forall(Int, lambda e: eng(L).has(e) == z3.Or(eng(L.old).has(e), exists(new.t.k, lambda k: z3.And(L.visited(k), key(k) == e)))),
                "named": forall(new.t.k, lambda k: imp(L.visited(k), eng(L).raw(key(k)) == new.raw(k))),
                "others-keep-theirs": forall(Int, lambda e: imp(z3.And(eng(L.old).has(e), z3.Not(exists(new.t.k, lambda k: z3.And(L.visited(k), key(k) == e)))), eng(L).raw(e) == eng(L.old).raw(e)))}

    def update(name, kt):
        key = (lambda k: num(k)) if kt == Str else (lambda k: k)

        def ens(c):
            new = c["engines"]
            named = lambda e: exists(kt, lambda k: z3.And(new.has(k), key(k) == e))
            return {**known(c), "these-and-those-before": forall(Int, lambda e: eng(c).has(e) == z3.Or(eng(c.old).has(e), named(e))),
                    "named": new.all(lambda k: eng(c).raw(key(k)) == new.raw(k)),
                    "others-keep-theirs": forall(Int, lambda e: imp(z3.And(eng(c.old).has(e), z3.Not(named(e))), eng(c).raw(e) == eng(c.old).raw(e)))}

        ext = dict(EXT)
        if kt == Str:
            ext["int"] = lambda e, a, k: V(Int, num(a[0].e))
        reg.add(Contract(M + "_update_engines", ["P17", "P18"], name=f"_update_engines[{name}]", variant="" if kt == Int else name, params=dict(engines=Dict(kt, Str)), self_fields={**ENG, **OTHER}, externals=ext,
                         requires=lambda c: {**known(c), "ids-are-not-negative": c["engines"].all(lambda k: key(k) >= 0),
                                             "one-entry-an-id": forall([kt, kt], lambda a, b: imp(z3.And(c["engines"].has(a), c["engines"].has(b), key(a) == key(b)), a == b))},
                         modifies=["_ids", "_engines", "_task_socket"], loops={0: added}, ensures=ens))

    update("ids", Int)
    update("as-received", Str)
    # ---------------------------------------------------------------- replies
    BOOK = dict(outstanding=Set(Str), history=List(Str), results=Dict(Str, Any), metadata=Dict(Str, Any, default=z3.Const("fresh_metadata", A)),
                _futures=Dict(Str, FUT), _output_futures=Dict(Str, FUT), _outstanding_dict=Dict(Str, Set(Str), default="set"))
    GH = dict(md_co=Bool, md_uuid=Opt(Str), md_uuids=List(Str), md_eid=Any)
    done = lambda v, f: v.h("Future", "finished", f)
    value = lambda v, f: v.h("Future", "value", f)
    loads, loaded = z3.Function("loadable", A, z3.BoolSort()), z3.Function("loaded", A, A)

    def message(eng_, name="msg"):
        # the reply: its id, its outcome, where it ran
        return record(dict(header=Any, parent_header=record(dict(msg_id=Str)), metadata=record(dict(is_broadcast=Bool, is_coalescing=Bool, original_msg_id=Str, engine=Opt(Str), engines=List(Str))),
                           content=record(dict(status=Str, engine_info=Opt(Any)), optional=("engine_info",)), buffers=Any))(eng_, name)

    def books_ok(c):
        fu, out = c.f("_futures"), c.f("_output_futures")
        return {"waiting-or-answered": fu.all(lambda m: z3.Or(z3.Not(done(c, fu.raw(m))), z3.And(c.f("history").has(m), z3.Not(c.f("outstanding").has(m))))),
                "one-future-each": forall([Str, Str], lambda a, b: z3.And(imp(z3.And(fu.has(a), fu.has(b), a != b), fu.raw(a) != fu.raw(b)), imp(z3.And(fu.has(a), out.has(b)), fu.raw(a) != out.raw(b)),
                                                                       imp(z3.And(out.has(a), out.has(b), a != b), out.raw(a) != out.raw(b))))}

    def set_result(eng_, args, kw):
        f, v = args
        if eng_.decide(ty.sel(eng_.harr("Future", "finished"), f.e)):
            eng_.throw("InvalidStateError")
        eng_.hset("Future", "finished", f.e, z3.BoolVal(True))
        eng_.hset("Future", "value", f.e, eng_.z(v, Any))
        return NoneV

    def extracted(eng_, args, kw):
        """_extract_metadata: the reply's own account of where it ran"""
        m = eng_.content(args[-1].loc).d
        md = eng_.content(m["metadata"][1].loc).d
        t = record(dict(engine_id=Any))(eng_)
        c = eng_.content(t.loc).d
        c["is_coalescing"], c["engine"], c["engines"] = md["is_coalescing"], md["engine"], md["engines"]
        return t

    def md_update(eng_, args, kw):
        c = eng_.content(args[1].loc).d
        for g, k in (("md_co", "is_coalescing"), ("md_uuid", "engine"), ("md_uuids", "engines")):
            eng_.gset(g, c[k][1])
        return NoneV

    def md_get(eng_, args, kw):
        k = eng_.lit_of(args[1])
        if k == "engine_uuid":
            if eng_.decide(eng_.z(eng_.gget("md_co"), Bool)):
                return eng_.gget("md_uuids")
            return eng_.gget("md_uuid")
        return eng_.gget(dict(is_coalescing="md_co", engine_id="md_eid")[k])

    rest_ = z3.Function("parts_left", A, A)

    def deserialize(eng_, args, kw):
        b = eng_.z(args[0], Any)
        if not eng_.decide(loads(b)):
            eng_.throw("?")
        return TupV([V(Any, loaded(b)), V(Any, rest_(b))])

    lost, failed, unloadable = z3.Function("task_aborted", SS, A), z3.Const("error_in_reply", A), z3.Const("error_while_loading", A)
    EXT2 = {"print": "noop", M + "_extract_metadata": extracted, "Any.update": md_update, "any.__getitem__": md_get, "Any.get": md_get, "Future.done": lambda e, a, k: V(Bool, ty.sel(e.harr("Future", "finished"), a[0].e)),
            "Future.set_result": set_result, "ipyparallel.serialize.serialize:deserialize_object": deserialize,
            "new:TaskAborted": lambda e, a, k: V(Any, lost(a[0].e)), M + "_unwrap_exception": lambda e, a, k: V(Any, failed),
            "ipyparallel.error:wrap_exception": Any, "ipyparallel.error:unwrap_exception": lambda e, a, k: V(Any, unloadable),
            "new:ExecuteReply": lambda e, a, k: V(Any, z3.Const("execute_reply", A))}
    EXT3 = {"Future.done": EXT2["Future.done"]}
    M_ = lambda c: c["msg"]

    said_ = lambda c, k: M_(c)["metadata"][k] if k in M_(c)["metadata"].keys() else z3.BoolVal(False)

    def mid(c):
        own = M_(c)["parent_header"]["msg_id"]
        if "original_msg_id" not in M_(c)["metadata"].keys():
            return own
        return z3.If(z3.And(said_(c, "is_broadcast"), said_(c, "is_coalescing")), M_(c)["metadata"]["original_msg_id"], own)

    def where(c, u):
        """the reply says it comes from engine u"""
        if "engine" not in M_(c)["metadata"].keys():
            return z3.BoolVal(False)
        e = M_(c)["metadata"]["engine"]
        one = z3.And(e.some, e.v == u) if hasattr(e, "some") else e == u
        return z3.If(said_(c, "is_coalescing"), M_(c)["metadata"]["engines"].has(u), one) if "engines" in M_(c)["metadata"].keys() else one

    def removed_from(L):
        od, o0 = L.f("_outstanding_dict"), L.pre.f("_outstanding_dict")
        m = L["msg_id"]
        mem = lambda d, u, x: z3.And(d.has(u), d[u].has(x))
        return {"theirs-gone": forall([Str, Str], lambda u, x: mem(od, u, x) == z3.And(mem(o0, u, x), z3.Not(z3.And(x == m, L.visited(u)))))}

    def answered(c, kind):
        o, m = c.old, mid(c)
        st = M_(c)["content"]["status"]
        stale = z3.And(z3.Not(o.f("outstanding").has(m)), o.f("history").has(m))
        new = lambda e: imp(z3.Not(stale), e)
        fu, of = o.f("_futures"), o.f("_output_futures")
        ran_on = lambda u: where(c, u)
        mem = lambda d, u, x: z3.And(d.has(u), d[u].has(x))
        res = c.f("results").raw(m)
        said = {"no-longer-outstanding": c.f("outstanding").is_(lambda x: z3.And(o.f("outstanding").has(x), x != m)),
                "nor-on-its-engine": forall([Str, Str], lambda u, x: mem(c.f("_outstanding_dict"), u, x) == z3.And(mem(o.f("_outstanding_dict"), u, x), z3.Not(z3.And(x == m, ran_on(u))))),
                "its-result-kept": c.f("results").has(m), "other-results-kept": c.f("results").same_except(o.f("results"), m),
                "told": imp(fu.has(m), z3.And(done(c, fu.raw(m)), value(c, fu.raw(m)) == res)),
                "aborted-is-an-error": imp(st == S_("aborted"), res == lost(m)), "an-error-is-that-error": imp(st == S_("error"), res == failed),
                "nobody-else-told": forall(FUT, lambda f: imp(z3.And(z3.Not(z3.And(fu.has(m), f == fu.raw(m))), z3.Not(z3.And(of.has(m), f == of.raw(m)))), z3.And(done(c, f) == done(o, f), value(c, f) == value(o, f)))),
                "no-output-to-come": imp(z3.And(of.has(m), st != S_("ok"), z3.Or(z3.Not(M_(c)["content"].present("engine_info")), st == S_("aborted"))), done(c, of.raw(m)))}
        same = {"stale-changes-nothing": imp(stale, z3.And(c.f("outstanding").same(o.f("outstanding")), c.f("results").same(o.f("results")), forall(FUT, lambda f: z3.And(done(c, f) == done(o, f), value(c, f) == value(o, f))),
                                                           forall([Str, Str], lambda u, x: mem(c.f("_outstanding_dict"), u, x) == mem(o.f("_outstanding_dict"), u, x))))}
        return {**{k: new(v) for k, v in said.items()}, **same, **({"the-value": new(imp(st == S_("ok"), kind(c, res)))})}

    def parts_so_far(L):
        l = L.typed("deserialized_bufs", List(Any))
        b0 = L.p("msg")["buffers"]
        return {"so-far": z3.And(L["bufs"] == left(b0, l.len), forall(Int, lambda i: imp(z3.And(0 <= i, i < l.len), z3.And(loads(left(b0, i)), l.raw(i) == loaded(left(b0, i))))))}

    left = z3.Function("after_parts", A, z3.IntSort(), A)
    facts = [("after_parts drops the first objects", lambda: z3.And(forall(Any, lambda b: left(b, z3.IntVal(0)) == b), forall([Any, Int], lambda b, i: imp(i >= 0, left(b, i + 1) == rest_(left(b, i))), lambda b, i: [left(b, i + 1)])))]
    def every_part(c, res):
        b, inj = M_(c)["buffers"], c._e.inj(LA)
        part = lambda l, i: z3.And(loads(left(b, i)), ty.lat(LA, l, i) == loaded(left(b, i)))
        return z3.Or(res == unloadable, exists(LA, lambda l: z3.And(res == inj(l), z3.Not(truthy(left(b, ty.llen(LA, l)))), forall(Int, lambda i: imp(z3.And(0 <= i, i < ty.llen(LA, l)), part(l, i))))))

    LA, truthy = List(Any), uf("truthy_Any", A, z3.BoolSort())
    apply_value = lambda c, res: z3.BoolVal(True) if "buffers" not in M_(c).keys() else z3.If(M_(c)["metadata"]["is_coalescing"], every_part(c, res), z3.Or(z3.And(loads(M_(c)["buffers"]), res == loaded(M_(c)["buffers"])), z3.And(z3.Not(loads(M_(c)["buffers"])), res == unloadable)))
    ok = lambda c: {**books_ok(c), "requests-are-recorded": imp(c.f("_futures").has(mid(c)), c.f("history").has(mid(c))), "an-outcome": z3.Or(*[M_(c)["content"]["status"] == S_(s) for s in ("ok", "error", "aborted")])}
    W = ["outstanding", "results", "metadata", "_outstanding_dict", ("Future", "finished"), ("Future", "value"), "ghost:md_co", "ghost:md_uuid", "ghost:md_uuids"]
    reg.add(Contract(M + "_handle_apply_reply", ["P17", "P15"], params=dict(msg=message), self_fields=BOOK, ghosts=GH, externals=EXT2, requires=ok, modifies=W, axioms=facts, locals={"deserialized_bufs": List(Any)},
                     loops={0: removed_from, 1: parts_so_far}, ensures=lambda c: {**answered(c, apply_value), **books_ok(c)}))
    reg.add(Contract(M + "_handle_execute_reply", ["P17", "P15"], params=dict(msg=message), self_fields=BOOK, ghosts=GH, externals=EXT2, requires=ok, modifies=W,
                     loops={0: removed_from}, ensures=lambda c: {**answered(c, lambda c, res: res == z3.Const("execute_reply", A)), **books_ok(c)}))
    # ---------------------------------------------------------------- an engine leaves
    def fake(eng_, args, kw):
        c = {"header": V(Any, eng_.fz(A, "header")), "parent_header": record({})(eng_), "metadata": record({})(eng_), "content": kw["content"]}
        return Mut(eng_.cell(CDict({k: (z3.BoolVal(True), v) for k, v in c.items()})))

    gone = lambda eng_, a, k: record(dict(status=lambda e, n: e.const("error"), ename=Str, evalue=Str, traceback=Any))(eng_)
    EXT4 = {"self.session.msg": fake, "ipyparallel.error:wrap_exception": gone}

    def stranded_on(v, u, m):
        return z3.And(v.f("_outstanding_dict").has(u), v.f("_outstanding_dict")[u].has(m))

    def settled(now, old, m):
        fu = old.f("_futures")
        return z3.And(z3.Not(now.f("outstanding").has(m)), imp(z3.Or(old.f("outstanding").has(m), z3.Not(old.f("history").has(m))), z3.And(
            now.f("results").has(m), now.f("results").raw(m) == failed, imp(fu.has(m), z3.And(done(now, fu.raw(m)), value(now, fu.raw(m)) == failed)))))

    def as_before(now, old, m):
        fu, of = old.f("_futures"), old.f("_output_futures")
        keep = lambda d: imp(d.has(m), z3.And(done(now, d.raw(m)) == done(old, d.raw(m)), value(now, d.raw(m)) == value(old, d.raw(m))))
        return z3.And(now.f("outstanding").has(m) == old.f("outstanding").has(m), now.f("results").has(m) == old.f("results").has(m),
                      imp(old.f("results").has(m), now.f("results").raw(m) == old.f("results").raw(m)), keep(fu), keep(of))

    def elsewhere(now, old, u):
        mem = lambda v, x, m: z3.And(v.f("_outstanding_dict").has(x), v.f("_outstanding_dict")[x].has(m))
        return forall([Str, Str], lambda x, m: imp(x != u, mem(now, x, m) == mem(old, x, m)))

    def failing(L):
        u = L.p("uuid")
        hit = lambda m: z3.And(L.visited(m), z3.Not(L.old.f("results").has(m)))
        return {**books_ok(L), "the-visited-are-settled": forall(Str, lambda m: imp(hit(m), settled(L, L.old, m))),
                "the-others-are-as-before": forall(Str, lambda m: imp(z3.Not(hit(m)), as_before(L, L.old, m))), "other-engines-tasks-stay": elsewhere(L, L.old, u)}

    def stranded(c):
        hit = lambda m: z3.And(stranded_on(c.old, c["uuid"], m), z3.Not(c.old.f("results").has(m)))
        return {**books_ok(c), "its-unanswered-tasks-have-failed": forall(Str, lambda m: imp(hit(m), settled(c, c.old, m))),
                "the-others-are-as-before": forall(Str, lambda m: imp(z3.Not(hit(m)), as_before(c, c.old, m))), "other-engines-tasks-stay": elsewhere(c, c.old, c["uuid"])}

    known_tasks = lambda c, u: {"requests-are-recorded": forall(Str, lambda m: imp(z3.And(stranded_on(c, u, m), c.f("_futures").has(m)), c.f("history").has(m)))}
    reg.add(Contract(M + "_handle_stranded_msgs", "P17", params=dict(eid=Int, uuid=Str), self_fields=BOOK, ghosts=GH, externals=EXT4, requires=lambda c: {**books_ok(c), **known_tasks(c, c["uuid"])},
                     modifies=W, loops={0: failing}, ensures=stranded))

    def event(eng_, name="msg"):
        return record(dict(content=record(dict(id=Int, uuid=Str))))(eng_, name)

    CB = dict(_registration_callbacks=List(Any))
    W2 = ["_ids", "_engines", "_task_socket"]
    EXT5 = {**EXT, "any.__call__": lambda e, a, k: e.freshv("r", Any)}
    told = lambda L: {}
    reg.add(Contract(M + "_register_engine", "P17", params=dict(msg=event), self_fields={**ENG, **OTHER, **CB}, externals=EXT5, requires=lambda c: {**known(c), "id-not-negative": M_(c)["content"]["id"] >= 0},
                     modifies=W2, loops={0: told}, ensures=lambda c: {**known(c), "now-known": z3.And(eng(c).has(M_(c)["content"]["id"]), eng(c).raw(M_(c)["content"]["id"]) == M_(c)["content"]["uuid"]),
                                                                   "others-as-before": eng(c).same_except(eng(c.old), M_(c)["content"]["id"])}))

    def left_(c):
        e = M_(c)["content"]["id"]
        was = eng(c.old).has(e)
        u = eng(c.old).raw(e)
        hit = lambda m: z3.And(was, stranded_on(c.old, u, m), z3.Not(c.old.f("results").has(m)))
        return {**known(c), **books_ok(c), "gone": eng(c).domain_is(lambda x: z3.And(eng(c.old).has(x), x != e)), "others-as-before": eng(c).same_except(eng(c.old), e),
                "its-unanswered-tasks-have-failed": forall(Str, lambda m: imp(hit(m), settled(c, c.old, m))),
                "the-others-are-as-before": forall(Str, lambda m: imp(z3.Not(hit(m)), as_before(c, c.old, m))), "other-engines-tasks-stay": imp(was, elsewhere(c, c.old, u))}

    reg.add(Contract(M + "_unregister_engine", "P17", params=dict(msg=event), self_fields={**ENG, **OTHER, **CB, **BOOK}, ghosts=GH, externals=EXT5,
                     requires=lambda c: {**known(c), **books_ok(c), **known_tasks(c, eng(c).raw(M_(c)["content"]["id"]))}, modifies=[*W2, *W], loops={0: told}, ensures=left_))

    def reply(eng_, name="msg"):
        return record(dict(header=record(dict(date=Any), optional=("date",)), parent_header=record(dict(msg_id=Str, date=Any), optional=("date",)), content=record(dict(status=Str)),
                           metadata=record(dict(engine=Str, follow=Any, after=Any, is_broadcast=Bool, is_coalescing=lambda e, n: e.const(False), label=Any, started=Any),
                                           optional=("engine", "follow", "after", "is_broadcast", "is_coalescing", "label", "started"))))(eng_, name)

    which = z3.Function("engine_id_of", SS, A)
    parsed = z3.Function("parsed_date", A, A)

    def account(c):
        m, r = M_(c), c.res
        md, par = m["metadata"], m["parent_header"]
        here = lambda d, k: d.present(k)
        eq = lambda k, e: z3.BoolVal(False) if k not in r.keys() or not isinstance(r[k], z3.ExprRef) else z3.And(r.present(k), r[k] == e)
        says = {k: imp(here(md, k), eq(k, md[k])) for k in ("follow", "after", "is_broadcast", "label")}
        return {"its-task": r["msg_id"] == par["msg_id"], "its-outcome": r["status"] == m["content"]["status"], **{f"its-{k}": v for k, v in says.items()},
                "its-engine": imp(here(md, "engine"), z3.And(eq("engine_uuid", md["engine"]), eq("engine_id", which(md["engine"])))),
                "when-sent": imp(here(par, "date"), eq("submitted", par["date"])), "when-started": imp(here(md, "started"), eq("started", parsed(md["started"]))),
                "when-done": imp(here(m["header"], "date"), eq("completed", m["header"]["date"]))}

    reg.add(Contract(M + "_extract_metadata", "P17", name="_extract_metadata[leaf]", variant="leaf", params=dict(msg=reply), self_fields=dict(_engines=Any),
                     externals={"Any.get": lambda e, a, k: V(Any, which(a[1].e)), "ipyparallel.util:utcnow": Any, "ipyparallel.util:_parse_date": lambda e, a, k: V(Any, parsed(a[0].e))}, ensures=account))

    # ---------------------------------------------------------------- a view's own book
    reg.heap_class("ClientBook", dict(outstanding=Set(Str)))
    VIEW = dict(outstanding=Set(Str), client=Ref("ClientBook"))
    reg.add(Contract("ipyparallel.client.view:View._sync_results", "P17", self_fields=VIEW, modifies=["outstanding"], ensures=lambda c: {
        "what-the-client-still-waits-for": c.f("outstanding").is_(lambda m: z3.And(c.old.f("outstanding").has(m), c.h("ClientBook", "outstanding", c.f("client")).has(m)))}))
    # ---------------------------------------------------------------- forgetting
    theirs, these = z3.Const("tasks_of_the_targets", sort(List(Str))), z3.Const("tasks_of_the_jobs", sort(List(Str)))
    isin = lambda l, m: exists(Int, lambda i: z3.And(0 <= i, i < ty.llen(List(Str), l), ty.lat(List(Str), l, i) == m))
    PURGE = {M + "_msg_ids_from_target": lambda e, a, k: e.wrap(List(Str), theirs), M + "_msg_ids_from_jobs": lambda e, a, k: e.wrap(List(Str), these)}
    CACHES = ["results", "metadata", "_futures", "_output_futures"]
    waiting = lambda c: exists(Str, lambda m: z3.And(c.f("outstanding").has(m), z3.Or(isin(theirs, m), isin(these, m))))

    def forgetting(L):
        return {f"{n}-forgotten": z3.And(L.f(n).domain_is(lambda m: z3.And(L.old.f(n).has(m), z3.Not(L.visited(m)))), forall(Str, lambda m: imp(L.f(n).has(m), L.f(n).raw(m) == L.old.f(n).raw(m)))) for n in CACHES}

    kept = lambda c, gone_: {f"{n}-forgotten": z3.And(c.f(n).domain_is(lambda m: z3.And(c.old.f(n).has(m), z3.Not(gone_(m)))), forall(Str, lambda m: imp(c.f(n).has(m), c.f(n).raw(m) == c.old.f(n).raw(m)))) for n in CACHES}
    unchanged = lambda c: {"nothing-forgotten": z3.And(*[c.f(n).same(c.old.f(n)) for n in CACHES])}
    reg.add(Contract(M + "purge_local_results", "P17", name="purge_local_results[some]", variant="some", params=dict(jobs=List(Str), targets=List(Int)), self_fields=BOOK, externals=PURGE, modifies=CACHES,
                     loops={0: forgetting}, raises={"RuntimeError": lambda c: {"still-waited-for": waiting(c), **unchanged(c)}, "ValueError": lambda c: {"nothing-named": z3.And(c["jobs"].len == 0, c["targets"].len == 0), **unchanged(c)}},
                     ensures=lambda c: {"nothing-waited-for": z3.Not(waiting(c)), **kept(c, lambda m: z3.Or(isin(theirs, m), isin(these, m)))}))
    reg.add(Contract(M + "purge_local_results", "P17", name="purge_local_results[all]", variant="all", params=dict(jobs=lambda e, n: e.const("all"), targets=List(Int)), self_fields=BOOK, externals=PURGE, modifies=CACHES,
                     raises={"RuntimeError": lambda c: {"still-waited-for": c.f("outstanding").nonempty(), **unchanged(c)}},
                     ensures=lambda c: {"nothing-waited-for": c.f("outstanding").empty(), **kept(c, lambda m: z3.BoolVal(True))}))
