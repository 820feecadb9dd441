"""controller/heartmonitor.py: who is declared alive or dead (P08)."""
import z3

from pyver.core import NoneV, V, uf
from pyver.spec import Contract, ZS, exists, forall, imp
from pyver.types import Any, Bytes, Dict, Int, List, Real, Set, Str, sort

M = "ipyparallel.controller.heartmonitor:HeartMonitor."
SB = Set(Bytes)
F = dict(hearts=SB, responses=SB, on_probation=Dict(Bytes, Int), last_ping=Real, lifetime=Real, tic=Real, max_heartmonitor_misses=Int)
GH = dict(told_new=SB, told_dead=SB)
text = z3.Function("ping_text", z3.RealSort(), sort(Bytes))  # str(lifetime).encode('ascii')


def register(reg):
    def beat_text(eng, args, kw):
        """str(x) of a ping time: the text is a function of the time"""
        from pyver import types as ty
        a = args[0]
        if isinstance(a, V) and a.t == Real:
            return V(Str, eng_text(a.e))
        return None

    eng_text = z3.Function("real_text", z3.RealSort(), sort(Str))

    def announce(eng, args, kw):
        """what the hub is told: the set of hearts handed to this method"""
        kind = eng.lit_of(args[1])
        g = {"new_heart": "told_new", "stopped_heart": "told_dead"}.get(kind)
        if g is None:
            return eng.freshv("sent", Any)
        c = eng.content(kw["content"].loc).d["hearts"][1]
        names = c
        from pyver import types as ty
        t, e = eng.symbolic(names, List(Str))
        enc = uf("encode", sort(Str), sort(Bytes))
        has = lambda x: exists(Int, lambda i: z3.And(0 <= i, i < ty.llen(t, e), enc(ty.lat(t, e, i)) == x))
        t0, told = eng.symbolic(eng.gget(g), SB)
        x = z3.Const("x!told", sort(Bytes))
        eng.gset(g, eng.wrap(SB, z3.Lambda([x], z3.Or(ty.sel(told, x), has(x)))))
        return eng.freshv("sent", Any)

    EXT = {"self.session.send": announce, "self.monitor_stream": Any, "self.ping_stream.send": "noop", "self.ping_stream.flush": "noop", "self.pong_stream.flush": "noop",
           "time.monotonic": lambda eng, a, k: eng.freshv("now", Real), "str": beat_text, "self.debug": Any}
    K = dict(self_fields=F, ghosts=GH, externals=EXT)
    enc, dec = uf("encode", sort(Str), sort(Bytes)), uf("decode", sort(Bytes), sort(Str))
    # engine identities are ascii text (uuids): decoding and encoding one gives it back
    ascii_ids = lambda c: {"ascii": forall(Bytes, lambda h: enc(dec(h)) == h)}

    def counted(c):
        missed, prob, hearts, mx = c["missed_beats"], c["on_probation"], c["hearts"], c.f("max_heartmonitor_misses")
        cnt = lambda h: z3.If(prob.has(h), prob.raw(h), 0) + 1
        fails, newp = c.res[0], c.res[1]
        absent = lambda h: z3.And(missed.has(h), hearts.has(h))
        return {
            "dead-exactly-when-too-many-misses": forall(Bytes, lambda h: fails.has(h) == z3.And(absent(h), cnt(h) > mx)),
            "others-counted": forall(Bytes, lambda h: z3.And(newp.has(h) == z3.And(absent(h), cnt(h) <= mx), imp(newp.has(h), newp.raw(h) == cnt(h)))),
        }

    def counting(L):
        missed, prob, hearts, mx = L.p("missed_beats"), L.p("on_probation"), L.p("hearts"), L.f("max_heartmonitor_misses")
        cnt = lambda h: z3.If(prob.has(h), prob.raw(h), 0) + 1
        fails, newp = L.typed("failures", List(Bytes)), L.typed("new_probation", Dict(Bytes, Int))
        seen = lambda h: L.visited(h)
        return {
            "dead": forall(Bytes, lambda h: fails.has(h) == z3.And(seen(h), cnt(h) > mx)),
            "counted": forall(Bytes, lambda h: z3.And(newp.has(h) == z3.And(seen(h), cnt(h) <= mx), imp(newp.has(h), newp.raw(h) == cnt(h)))),
        }

    from pyver.types import Tup
    reg.add(Contract(M + "_check_missed", "P08", params=dict(missed_beats=SB, on_probation=Dict(Bytes, Int), hearts=SB), loops={0: counting},
                     returns=Tup(List(Bytes), Dict(Bytes, Int)), ensures=counted, **K))
    reg.add(Contract(M + "handle_new_hearts", "P08", params=dict(hearts=SB), modifies=["hearts", "ghost:told_new"], requires=ascii_ids,
                     loops={0: lambda L: {"added": L.f("hearts").is_(lambda h: z3.Or(L.pre.f("hearts").has(h), L.visited(h)))}},
                     ensures=lambda c: {"known": c.f("hearts").is_(lambda h: z3.Or(c.old.f("hearts").has(h), c["hearts"].has(h))),
                                        "announced": c.g("told_new").is_(lambda h: z3.Or(c.old.g("told_new").has(h), c["hearts"].has(h)))}, **K))
    reg.add(Contract(M + "handle_heart_failure", "P08", params=dict(hearts=List(Bytes)), modifies=["hearts", "ghost:told_dead"], requires=ascii_ids,
                     loops={0: lambda L: {"removed": forall(Bytes, lambda h: L.f("hearts").has(h) == z3.And(L.pre.f("hearts").has(h), z3.Not(L.visited(h))))}},
                     ensures=lambda c: {"forgotten": c.f("hearts").is_(lambda h: z3.And(c.old.f("hearts").has(h), z3.Not(c["hearts"].has(h)))),
                                        "announced": c.g("told_dead").is_(lambda h: z3.Or(c.old.g("told_dead").has(h), c["hearts"].has(h)))}, **K))

    def beaten(c):
        o = c.old
        H0, R, P0, mx = o.f("hearts"), o.f("responses"), o.f("on_probation"), c.f("max_heartmonitor_misses")
        H, P = c.f("hearts"), c.f("on_probation")
        new = lambda h: z3.And(R.has(h), z3.Not(H0.has(h)))
        missed = lambda h: z3.And(H0.has(h), z3.Not(R.has(h)))
        cnt = lambda h: z3.If(P0.has(h), P0.raw(h), 0) + 1
        dead = lambda h: z3.And(missed(h), cnt(h) > mx)
        return {
            "new-hearts-announced": c.g("told_new").is_(lambda h: z3.Or(o.g("told_new").has(h), new(h))),
            "dead-hearts-announced": c.g("told_dead").is_(lambda h: z3.Or(o.g("told_dead").has(h), dead(h))),
            "known": H.is_(lambda h: z3.Or(new(h), z3.And(H0.has(h), z3.Not(dead(h))))),
            "an-answer-clears-the-count": forall(Bytes, lambda h: imp(R.has(h), z3.Not(P.has(h)))),
            "misses-counted": forall(Bytes, lambda h: z3.And(P.has(h) == z3.And(missed(h), cnt(h) <= mx), imp(P.has(h), P.raw(h) == cnt(h)))),
            "answers-start-afresh": c.f("responses").empty(),
            "last-ping-remembered": c.f("last_ping") == o.f("lifetime"),
        }

    reg.add(Contract(M + "beat", "P08", modifies=["hearts", "responses", "on_probation", "last_ping", "lifetime", "tic", "ghost:told_new", "ghost:told_dead"], requires=ascii_ids, ensures=beaten, **K))

    enc = uf("encode", sort(Str), sort(Bytes))

    def pong(c):
        m = c["msg"]
        R, R0 = c.f("responses"), c.old.f("responses")
        cur, last = enc(eng_text(c.f("lifetime"))), enc(eng_text(c.f("last_ping")))
        good = z3.Or(m.raw(1) == cur, m.raw(1) == last)
        return {"only-an-echo-of-a-recent-ping-counts": forall(Bytes, lambda h: R.has(h) == z3.Or(R0.has(h), z3.And(good, h == m.raw(0))))}

    reg.add(Contract(M + "handle_pong", "P08", params=dict(msg=List(Bytes)), modifies=["responses"], requires=lambda c: {"frames": c["msg"].len >= 2},
                     ensures=pong, **K))
    return reg
