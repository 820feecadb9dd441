"""controller/broadcast_scheduler.py: a broadcast goes once to each target, its replies are joined when all are in (P07)."""
import z3

from pyver import types as ty
from pyver.core import CDict, CList, Mut, NoneV, TupV, V, uf
from pyver.spec import B_, ZL, Contract, S_, exists, forall, imp, record
from pyver.types import Any, Bool, Bytes, Dict, Int, List, Opt, Set, Str, Tup, sort

M = "ipyparallel.controller.broadcast_scheduler:"
B = M + "BroadcastScheduler."
TGT = Tup(Str, Int)
LT, LB, LS, LA = List(TGT), List(Bytes), List(Str), List(Any)
REPLIES = Dict(Bytes, Opt(LA))
ACC = Dict(Str, REPLIES)
SS, BS, A = sort(Str), sort(Bytes), ty.AnySort
enc = uf("encode", SS, BS)
name = lambda t: ty.acc(TGT, t, 0)
eid = lambda t: ty.acc(TGT, t, 1)


def register(reg):
    true = z3.BoolVal(True)

    def serialize(eng, args, kw):
        """the frames of a message carry its identities first and its header's id"""
        ids = kw.get("ident")
        if ids is not None:
            t, e = eng.symbolic(ids, LB)
            eng.gset("frame_to", V(Bytes, ty.lat(t, e, z3.IntVal(0))))
            h = eng.content(args[0].loc).d["header"][1]
            eng.gset("frame_id", eng.content(h.loc).d["msg_id"][1])
        return eng.freshv("frames", LA)

    def send(eng, args, kw):
        for g, f, t in (("sent_to", "frame_to", LB), ("sent_ids", "frame_id", LS)):
            lt, l = eng.symbolic(eng.gget(g), t)
            n = ty.llen(lt, l)
            eng.gset(g, eng.wrap(lt, ty.mk(lt, n + 1, z3.Store(ty.larr(lt, l), n, eng.z(eng.gget(f), t.e)))))
        return NoneV

    def message(eng, name="msg"):
        return record(dict(header=record(dict(msg_id=Str)), metadata=record(dict(original_msg_id=Str, is_coalescing=Bool, targets=LT)), content=Any, buffers=LA))(eng, name)

    GH = dict(frame_to=Bytes, frame_id=Str, sent_to=LB, sent_ids=LS)
    F = dict(is_leaf=Bool, connected_sub_scheduler_ids=LB, depth=Int, max_depth=Int)
    EXT = {"self.session.serialize": serialize, "self.engine_stream.send_multipart": send}
    MG = ["ghost:" + g for g in GH]
    new = lambda c: c["targets"].len
    went = lambda c: {"one-message-each-in-order": z3.And(
        c.g("sent_to").len == c.old.g("sent_to").len + new(c),
        c["targets"].all(lambda i: c.g("sent_to").raw(c.old.g("sent_to").len + i) == enc(name(c["targets"].raw(i)))),
        c.old.g("sent_to").all(lambda i: c.g("sent_to").raw(i) == c.old.g("sent_to").raw(i)))}

    def waits(c):
        acc, acc0, m = c.f("accumulated_replies"), c.old.f("accumulated_replies"), c["original_msg_id"]
        r = acc[m]
        return {
            "waits-for-exactly-its-targets": imp(c["is_coalescing"], z3.And(
                acc.has(m), forall(Bytes, lambda b: r.has(b) == exists(Int, lambda i: z3.And(0 <= i, i < c["targets"].len, enc(name(c["targets"].raw(i))) == b))),
                forall(Bytes, lambda b: imp(r.has(b), ty.ois_none(REPLIES.v, r.raw(b)))))),
            "its-targets-kept": imp(c["is_coalescing"], z3.And(c.f("accumulated_targets").has(m), c.f("accumulated_targets")[m].same(c["targets"]))),
            "other-broadcasts-untouched": z3.And(
                forall(Str, lambda x: imp(z3.Or(x != m, z3.Not(c["is_coalescing"])), z3.And(acc.has(x) == acc0.has(x), imp(acc0.has(x), acc.raw(x) == acc0.raw(x)))))),
        }

    reg.add(Contract(B + "send_to_targets", "P07", params=dict(msg=message, original_msg_id=Str, targets=LT, idents=LB, is_coalescing=Bool),
                     self_fields={**F, "accumulated_replies": ACC, "accumulated_targets": Dict(Str, LT)}, ghosts=GH, externals=EXT, locals={"{}": Tup(Bytes, Opt(LA))},
                     modifies=["accumulated_replies", "accumulated_targets", "arg:msg"] + MG,
                     loops={0: lambda L: {"sent-so-far": z3.And(
                         L.g("sent_to").len == L.pre.g("sent_to").len + L.k,
                         forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), L.g("sent_to").raw(L.pre.g("sent_to").len + i) == enc(name(L.p("targets").raw(i))))),
                         forall(Int, lambda i: imp(z3.And(0 <= i, i < L.pre.g("sent_to").len), L.g("sent_to").raw(i) == L.pre.g("sent_to").raw(i))))}},
                     ensures=lambda c: {**went(c), **waits(c)}))

    # ---------------------------------------------------------------- inner nodes of the tree
    toint = uf("int_of_str", SS, z3.IntSort())

    isint = uf("is_int_str", SS, z3.BoolSort())

    POW2 = uf("pow2", z3.IntSort(), z3.IntSort())
    digit = z3.Function("binary_digit", z3.IntSort(), z3.IntSort(), z3.IntSort())  # of a number, at a position from the left

    def child(c, t):
        """which child an engine's path goes through"""
        return digit(eid(t) % POW2(c.f("max_depth")), c.f("depth") + 1)

    def two(t):
        return lambda eng, n: Mut(eng.cell(CList([eng.freshv(f"{n}{i}", t) for i in range(2)])))

    def bits(eng, args, kw):
        """format(n, '0<k>b') for 0 <= n < 2**k: k digits, each 0 or 1"""
        r = eng.freshv("digits", LS)
        t, e = eng.symbolic(r, LS)
        i = z3.Int("i!bit")
        d = ty.lat(t, e, i)
        eng.assume(z3.ForAll([i], toint(d) == digit(eng.z(args[0], Int), i)))
        eng.assume(ty.llen(t, e) == eng.z(eng.getattr_(eng.selfv, "max_depth", None), Int) + 1)
        eng.assume(z3.ForAll([i], z3.And(z3.Or(d == S_("0"), d == S_("1")), z3.Or(toint(d) == 0, toint(d) == 1), isint(d))))
        return r

    def parts(c):
        """what each sub-scheduler was told to reach"""
        return c.g("told")

    def tell(eng, args, kw):
        h = eng.content(args[0].loc).d["metadata"][1]
        targets = eng.content(h.loc).d["targets"][1]
        t, d = eng.symbolic(eng.gget("told"), Dict(Bytes, LT))
        lt, l = eng.symbolic(kw["ident"], LB)
        k = ty.lat(lt, l, z3.IntVal(0))
        eng.gset("told", eng.wrap(t, ty.mk(t, z3.Store(ty.ddom(t, d), k, True), z3.Store(ty.dval(t, d), k, eng.z(targets, LT)))))
        return serialize(eng, args, kw)

    LLT = List(LT)
    has = lambda l, x: l.has(x)
    ids = lambda c: c.f("connected_sub_scheduler_ids")
    sub_req = lambda c: {"two-children": ids(c)[0] != ids(c)[1],
                         "inner-node": z3.And(0 <= c.f("depth"), c.f("depth") < c.f("max_depth")),
                         "nothing-told": forall(Bytes, lambda b: z3.Not(c.g("told").has(b)))}

    def routed(c):
        i, T = ids(c), c.g("told")
        a, b = T[i[0]], T[i[1]]
        return {
            "both-are-told": z3.And(T.has(i[0]), T.has(i[1])),
            "every-target-is-reached": c["targets"].all(lambda j: z3.Or(a.has(c["targets"].raw(j)), b.has(c["targets"].raw(j)))),
            "nobody-else-is": z3.And(a.all(lambda j: c["targets"].has(a.raw(j))), b.all(lambda j: c["targets"].has(b.raw(j)))),
            "each-once": a.len + b.len == c["targets"].len,
            "by-its-path": c["targets"].all(lambda j: z3.And(imp(child(c, c["targets"].raw(j)) == 0, a.has(c["targets"].raw(j))),
                                                             imp(child(c, c["targets"].raw(j)) != 0, b.has(c["targets"].raw(j))))),
        }

    def waits_sub(c):
        acc, acc0, m = c.f("accumulated_replies"), c.old.f("accumulated_replies"), c["original_msg_id"]
        i, T, r = ids(c), c.g("told"), acc[m]
        co = c["is_coalescing"]
        return {
            "waits-for-those-with-targets": imp(co, z3.And(acc.has(m), forall(Bytes, lambda b: r.has(b) == z3.And(z3.Or(b == i[0], b == i[1]), T[b].len > 0)))),
            "their-targets-known": imp(co, z3.And(c.f("accumulated_targets").has(m), forall(Bytes, lambda b: imp(r.has(b), c.f("accumulated_targets")[m].has(b))))),
            "for-all-of-them": imp(co, forall(Bytes, lambda b: imp(r.has(b), ty.ois_none(REPLIES.v, r.raw(b))))),
            "other-broadcasts-untouched": forall(Str, lambda x: imp(z3.Or(x != m, z3.Not(co)), z3.And(acc.has(x) == acc0.has(x), imp(acc0.has(x), acc.raw(x) == acc0.raw(x))))),
        }

    def splitting(L):
        P = L.typed("targets_by_scheduler", LLT)
        t = L.p("targets")
        upto = lambda x: exists(Int, lambda j: z3.And(0 <= j, j < L.k, t.raw(j) == x))
        return {
            "two": P.len == 2, "each-once": z3.And(P[0].len + P[1].len == L.k, P[0].len >= 0, P[1].len >= 0),
            "left": forall(Int, lambda j: imp(z3.And(0 <= j, j < L.k, child(L, t.raw(j)) == 0), P[0].has(t.raw(j)))),
            "right": forall(Int, lambda j: imp(z3.And(0 <= j, j < L.k, child(L, t.raw(j)) != 0), P[1].has(t.raw(j)))),
            "only-these": z3.And(P[0].all(lambda j: upto(P[0].raw(j))), P[1].all(lambda j: upto(P[1].raw(j)))),
        }

    reg.add(Contract(B + "send_to_sub_schedulers", "P07", params=dict(msg=message, original_msg_id=Str, targets=LT, idents=LB, is_coalescing=Bool),
                     self_fields={**F, "accumulated_replies": ACC, "accumulated_targets": Dict(Str, Dict(Bytes, LT)), "outgoing_streams": two(Any), "connected_sub_scheduler_ids": two(Bytes)},
                     ghosts={**GH, "told": Dict(Bytes, LT)}, externals={"self.session.serialize": tell, "any.send_multipart": send, "format": bits},
                     locals={"{}": Tup(Bytes, Opt(LA)), "[]": LT, "targets_by_scheduler": LLT}, requires=sub_req, copies=True,
                     modifies=["accumulated_replies", "accumulated_targets", "arg:msg", "ghost:told"] + MG, loops={0: splitting},
                     ensures=lambda c: {**routed(c), **waits_sub(c)}))

    # ---------------------------------------------------------------- joining the replies
    ALL = Dict(Str, Dict(Bytes, LT))
    FAIL = Dict(Str, Any)
    fstatus = z3.Function("status_of_msg", A, A)
    okmsg = z3.Function("reply_is_ok", A, z3.BoolSort())

    def reply_msg(eng, name="msg"):
        return record(dict(header=record(dict(msg_id=Str)), metadata=record(dict(status=Str, original_msg_id=Str, is_coalescing=Bool, broadcast_targets=LT), optional=("status",)), content=Any, buffers=LA))(eng, name)

    def finish(eng, args, kw):
        """the joined reply leaves for the client"""
        t, s = eng.symbolic(eng.gget("joined"), Set(Str))
        eng.gset("joined", eng.wrap(t, z3.Store(s, eng.z(eng.env0["original_msg_id"], Str), True)))
        return NoneV

    def plain_serialize(eng, args, kw):
        return eng.freshv("frames", LA)

    def joined(c):
        o, m, b = c.old, c["original_msg_id"], c["outgoing_id"]
        acc, acc0 = c.f("accumulated_replies"), o.f("accumulated_replies")
        isnone = lambda x: ty.ois_none(REPLIES.v, x)
        rest = forall(Bytes, lambda x: imp(z3.And(acc0[m].has(x), x != b), z3.Not(isnone(acc0[m].raw(x)))))
        return {
            "answered-iff-all-have": forall(Str, lambda x: c.g("joined").has(x) == z3.Or(o.g("joined").has(x), z3.And(x == m, rest))),
            "forgotten-once-answered": acc.domain_is(lambda x: z3.And(acc0.has(x), z3.Not(z3.And(x == m, rest)))),
            "noted-until-then": imp(z3.Not(rest), z3.And(acc[m].has(b), z3.Not(isnone(acc[m].raw(b))),
                                                          forall(Bytes, lambda x: z3.And(acc[m].has(x) == z3.Or(acc0[m].has(x), x == b), imp(x != b, acc[m].raw(x) == acc0[m].raw(x)))))),
            "other-broadcasts-untouched": forall(Str, lambda x: imp(x != m, z3.And(acc.has(x) == acc0.has(x), acc.raw(x) == acc0.raw(x)))),
        }

    def kept(c, when=lambda a, b: b):
        """an inner node knows the targets behind every reply it waits for"""
        acc, tgt, m = c.f("accumulated_replies"), c.f("accumulated_targets"), c["original_msg_id"]
        if not isinstance(ty.res(tgt.t.v), Dict):
            return {}  # a leaf: its targets are the engines themselves
        return {"targets-known": when(acc.has(m), forall(Bytes, lambda b: imp(acc[m].has(b), tgt[m].has(b))))}

    for leaf in (True, False):
        reg.add(Contract(B + "coalescing_reply", "P07", name=f"coalescing_reply[{'leaf' if leaf else 'inner'}]", params=dict(raw_msg=Any, msg=reply_msg, original_msg_id=Str, outgoing_id=Bytes, idents=LA),
                         self_fields={"is_leaf": lambda eng, n, leaf=leaf: eng.const(leaf), "accumulated_replies": ACC, "accumulated_targets": Dict(Str, LT) if leaf else ALL, "accumulated_failures": FAIL},
                         ghosts=dict(joined=Set(Str)), externals={"self.session.serialize": plain_serialize, "self.client_stream.send_multipart": finish, "any.copy": lambda eng, a, k: eng.freshv("copy", Any),
                                                                   "any.__getitem__": lambda eng, a, k: eng.freshv("part", Any), "any.__setitem__": lambda eng, a, k: NoneV, "record.as:Any": lambda eng, v: z3.Const("the_message", A), "any.extend": lambda eng, a, k: NoneV},
                         requires=lambda c: {"broadcast-in-progress": z3.And(c.f("accumulated_replies").has(c["original_msg_id"]), c.f("accumulated_targets").has(c["original_msg_id"])),
                                             **kept(c)},
                         modifies=["accumulated_replies", "accumulated_targets", "accumulated_failures", "arg:msg", "ghost:joined"], copies=True, locals={"buffers": LA},
                         ensures=lambda c: {**joined(c), **kept(c, imp)}))
    # ---------------------------------------------------------------- a message arrives
    valid = z3.Function("session_accepts", A, z3.BoolSort())
    mtargets, mid, moid = z3.Function("msg_targets", A, sort(LT)), z3.Function("msg_id_of", A, SS), z3.Function("msg_original", A, SS)
    hasoid, mco = z3.Function("msg_has_original", A, z3.BoolSort()), z3.Function("msg_coalesces", A, z3.BoolSort())
    rsender, okids = z3.Function("msg_sender", A, BS), z3.Function("msg_has_sender", A, z3.BoolSort())

    def frames(eng, args, kw):
        """identities and the rest: unreadable frames raise"""
        raw = args[0].e
        if not eng.decide(z3.Function("has_identities", A, z3.BoolSort())(raw)):
            eng.throw("ValueError")
        ids = eng.freshv("idents", eng.ident_t)
        return TupV([ids, V(Any, raw)])

    def sender_frames(eng, args, kw):
        raw = args[0].e
        if not eng.decide(z3.Function("has_identities", A, z3.BoolSort())(raw)):
            eng.throw("ValueError")
        ids = eng.freshv("idents", LB)
        t, l = eng.symbolic(ids, LB)
        eng.assume(okids(raw) == (ty.llen(t, l) > 0))
        eng.assume(z3.Implies(okids(raw), ty.lat(t, l, z3.IntVal(0)) == rsender(raw)))
        return TupV([ids, V(Any, raw)])

    def opened(fields, optional=(), **links):
        """session.deserialize: a message the session does not accept raises; otherwise its fields are functions of its frames"""
        def f(eng, args, kw):
            raw = args[0].e
            if not eng.decide(valid(raw)):
                eng.throw("ValueError")
            m = record(dict(header=record(dict(msg_id=lambda e, n: V(Str, mid(raw)))), content=Any, buffers=LA))(eng)
            d = {k: (hasoid(raw) if k in optional else z3.BoolVal(True), eng.wrap(t, fn(raw))) for k, (t, fn) in fields.items()}
            md = Mut(eng.cell(CDict(d)))
            c = eng.content(m.loc)
            eng.put(m.loc, CDict({**c.d, "metadata": (z3.BoolVal(True), md)}))
            return m
        return f

    raw = lambda c: c["raw_msg"]
    readable = z3.Function("has_identities", A, z3.BoolSort())
    accepted = lambda c: z3.And(readable(raw(c)), valid(raw(c)))

    def on_submission(leaf):
        def ens(c):
            o, m = c.old, z3.If(hasoid(raw(c)), moid(raw(c)), mid(raw(c)))
            ok = accepted(c)
            T = ZL(LT, mtargets(raw(c)))
            acc, acc0 = c.f("accumulated_replies"), o.f("accumulated_replies")
            same = forall(Str, lambda x: z3.And(acc.has(x) == acc0.has(x), imp(acc0.has(x), acc.raw(x) == acc0.raw(x))))
            out = {"an-invalid-message-does-nothing": imp(z3.Not(ok), z3.And(same, c.g("sent_to").len == o.g("sent_to").len if leaf else forall(Bytes, lambda b: z3.Not(c.g("told").has(b))))),
                   "waits-only-if-asked": imp(z3.And(ok, z3.Not(mco(raw(c)))), same),
                   "waits-if-asked": imp(z3.And(ok, mco(raw(c))), acc.has(m)),
                   "other-broadcasts-untouched": forall(Str, lambda x: imp(x != m, z3.And(acc.has(x) == acc0.has(x), imp(acc0.has(x), acc.raw(x) == acc0.raw(x)))))}
            if leaf:
                out["goes-to-each-target-once"] = imp(ok, z3.And(c.g("sent_to").len == o.g("sent_to").len + T.len,
                                                                 T.all(lambda i: c.g("sent_to").raw(o.g("sent_to").len + i) == enc(name(T.raw(i))))))
            else:
                i, G = ids(c), c.g("told")
                out["each-target-through-one-child"] = imp(ok, z3.And(
                    T.all(lambda j: z3.Or(G[i[0]].has(T.raw(j)), G[i[1]].has(T.raw(j)))), G[i[0]].len + G[i[1]].len == T.len))
            return out
        return ens

    sub_msg = opened(dict(original_msg_id=(Str, moid), is_coalescing=(Bool, mco), targets=(LT, mtargets)), optional=("original_msg_id",))

    def sub_frames(eng, args, kw):
        eng.ident_t = LB
        return frames(eng, args, kw)

    INEXT = {**EXT, "self.session.feed_identities": sub_frames, "self.session.deserialize": sub_msg}
    for leaf in (True, False):
        fields = {**F, "is_leaf": lambda eng, n, leaf=leaf: eng.const(leaf), "accumulated_replies": ACC, "accumulated_targets": Dict(Str, LT) if leaf else ALL}
        if not leaf:
            fields.update(outgoing_streams=two(Any), connected_sub_scheduler_ids=two(Bytes))
        reg.add(Contract(B + "dispatch_submission", ["P07", "P23"], name=f"dispatch_submission[{'leaf' if leaf else 'inner'}]", params=dict(raw_msg=Any), self_fields=fields,
                         ghosts=GH if leaf else {**GH, "told": Dict(Bytes, LT)}, externals=INEXT, requires=(lambda c: {}) if leaf else sub_req,
                         modifies=["accumulated_replies", "accumulated_targets"] + ([] if leaf else ["ghost:told"]) + MG, copies=True,
                         ensures=on_submission(leaf)))

    res_msg = opened(dict(original_msg_id=(Str, moid), is_coalescing=(Bool, mco), broadcast_targets=(LT, mtargets), status=(Str, z3.Function("msg_status", A, SS))))

    def onward(eng, args, kw):
        """a reply that is not joined leaves as it came, without its first frame"""
        eng.gset("passed_on", V(Int, eng.z(eng.gget("passed_on"), Int) + 1))
        return NoneV

    def on_result(leaf):
        def ens(c):
            o, m, b = c.old, moid(raw(c)), rsender(raw(c))
            ok = z3.And(accepted(c), okids(raw(c)))
            acc, acc0 = c.f("accumulated_replies"), o.f("accumulated_replies")
            isnone = lambda x: ty.ois_none(REPLIES.v, x)
            rest = forall(Bytes, lambda x: imp(z3.And(acc0[m].has(x), x != b), z3.Not(isnone(acc0[m].raw(x)))))
            co = z3.And(ok, mco(raw(c)))
            return {
                "passed-on-if-not-joined": c.g("passed_on") == o.g("passed_on") + z3.If(z3.And(ok, z3.Not(mco(raw(c)))), 1, 0),
                "answered-iff-all-have": forall(Str, lambda x: c.g("joined").has(x) == z3.Or(o.g("joined").has(x), z3.And(co, x == m, rest))),
                "forgotten-once-answered": acc.domain_is(lambda x: z3.And(acc0.has(x), z3.Not(z3.And(co, x == m, rest)))),
                "noted-until-then": imp(z3.And(co, z3.Not(rest)), z3.And(acc[m].has(b), z3.Not(isnone(acc[m].raw(b))))),
                "others-untouched": forall(Str, lambda x: imp(z3.Not(z3.And(co, x == m)), z3.And(acc.has(x) == acc0.has(x), acc.raw(x) == acc0.raw(x)))),
            }
        return ens

    for leaf in (True, False):
        in_progress = lambda c, leaf=leaf: {"broadcast-in-progress": imp(z3.And(accepted(c), mco(raw(c))), z3.And(c.f("accumulated_replies").has(moid(raw(c))), c.f("accumulated_targets").has(moid(raw(c))))),
                                            **({} if leaf else {"targets-known": imp(z3.And(accepted(c), mco(raw(c))), forall(Bytes, lambda b: imp(
                                                c.f("accumulated_replies")[moid(raw(c))].has(b), c.f("accumulated_targets")[moid(raw(c))].has(b))))})}
        reg.add(Contract(B + "dispatch_result", ["P07", "P23"], name=f"dispatch_result[{'leaf' if leaf else 'inner'}]", params=dict(raw_msg=Any),
                         self_fields={"is_leaf": lambda eng, n, leaf=leaf: eng.const(leaf), "accumulated_replies": ACC, "accumulated_targets": Dict(Str, LT) if leaf else ALL, "accumulated_failures": FAIL},
                         ghosts=dict(joined=Set(Str), passed_on=Int), requires=in_progress, copies=True,
                         externals={"self.session.feed_identities": sender_frames, "self.session.deserialize": res_msg, "self.client_stream.send_multipart": onward, "any.__getslice__": lambda eng, a, k: eng.freshv("rest", Any)},
                         modifies=["accumulated_replies", "accumulated_targets", "accumulated_failures", "ghost:joined", "ghost:passed_on"], ensures=on_result(leaf)))
    return reg
