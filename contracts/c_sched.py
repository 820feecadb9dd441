"""controller/task_scheduler.py: which engine a task goes to, and what becomes of it (P04, P05, P06)."""
import z3

from pyver.spec import Contract, Opaque, S_, exists, forall, imp, outcome, record
from pyver import types as ty
from pyver.core import TupV
from pyver.types import Any, Bool, Bytes, Deque, Dict, Int, List, Opt, Real, Ref, Set, Str, Tup

from pyver.types import res

from .c_dep import DEAD, MET

M = "ipyparallel.controller.task_scheduler:"
T = M + "TaskScheduler."
J, D = Ref("Job"), Ref("Dependency")

FIELDS = dict(
    hwm=Int, targets=List(Bytes), loads=List(Int), pending=Dict(Bytes, Dict(Str, J)), completed=Dict(Bytes, Set(Str)),
    failed=Dict(Bytes, Set(Str)), all_completed=Set(Str), all_failed=Set(Str), all_done=Set(Str), all_ids=Set(Str),
    queue=Deque(J), queue_map=Dict(Str, J), graph=Dict(Str, Set(Str)), retries=Dict(Str, Int), destinations=Dict(Str, Bytes),
    ident=Bytes)


def zand(*a):
    return z3.And(*a)


def rng(i, n):
    return z3.And(0 <= i, i < n)


# ---------------------------------------------------------------- scheduler state
class S:
    """reading helpers over a View (now or old)"""

    def __init__(self, v):
        self.v = v

    def __getattr__(self, n):
        return self.v.f(n)

    def job(self, r, f):
        return self.v.h("Job", f, r)

    def dep(self, r, f):
        return self.v.h("Dependency", f, r)

    def pend(self, e, m):
        p = self.pending
        return z3.And(p.has(e), p[e].has(m))

    def is_target(self, e):
        return self.targets.has(e)

    def depargs(self, d, e=None):
        b = self.dep(d, "@base")
        if e is None:
            ok, ko = self.all_completed.e, self.all_failed.e
        else:
            ok, ko = self.completed[e].e, self.failed[e].e
        return b.e, self.dep(d, "all"), self.dep(d, "success"), self.dep(d, "failure"), ok, ko

    def shape(self, lag=None):
        """`lag`: an engine whose answered task is still listed as outstanding"""
        t, l = self.targets, self.loads
        late = lambda i: 0 if lag is None else z3.If(t.raw(i) == lag, 1, 0)
        return {
            "loads-count-outstanding-tasks": t.all(lambda i: l.raw(i) == self.pending[t.raw(i)].len - late(i)),
            "one-load-per-engine": t.len == l.len,
            "engines-distinct": t.distinct(),
            "engine-books-exist": t.all(lambda i: z3.And(self.pending.has(t.raw(i)), self.completed.has(t.raw(i)), self.failed.has(t.raw(i)))),
        }


def deps_ok(v):
    """every dependency object accepts at least one outcome (Dependency.__init__ raises otherwise)"""
    return forall(D, lambda d: z3.Or(v.h("Dependency", "success", d), v.h("Dependency", "failure", d)))


job_of = z3.Function("job_of", z3.DeclareSort("Str"), z3.DeclareSort("Ref"))  # ghost: the job created for a task id
header_id = z3.Function("header_id", z3.DeclareSort("Any"), z3.DeclareSort("Str"))  # ghost: msg_id in a header


def inv(v, skip=None, moving=None, graph_skip=None, lag=None, retry_skip=None):
    """scheduler invariant; `skip`: a waiting task not yet entered in the graph; `moving`: a task just started that is
    still listed as waiting; `graph_skip`: a task that just finished"""
    s = S(v)
    g = v.g("answered")
    no = lambda m: z3.BoolVal(False) if skip is None else m == skip
    mov = lambda m: z3.BoolVal(False) if moving is None else m == moving
    deps = lambda m, d: z3.Or(s.dep(s.job(job_of(m), "after"), "@base").has(d), s.dep(s.job(job_of(m), "follow"), "@base").has(d))
    return {
        **s.shape(lag),
        "hwm": s.hwm >= 0,
        "within-hwm": z3.Or(s.hwm == 0, s.loads.all(lambda i: s.loads.raw(i) <= s.hwm)),
        "dependencies-decidable": deps_ok(v),
        "waiting": forall(Str, lambda m: imp(s.queue_map.has(m), z3.And(
            z3.Not(s.all_done.has(m)), s.queue_map.raw(m) == job_of(m), s.job(job_of(m), "msg_id") == m, z3.Not(s.job(job_of(m), "removed")),
            header_id(s.job(job_of(m), "header")) == m))),
        "running": forall([Bytes, Str], lambda e, m: imp(s.pend(e, m), z3.And(
            z3.Not(s.all_done.has(m)), s.pending[e].raw(m) == job_of(m), s.job(job_of(m), "msg_id") == m, z3.Not(s.job(job_of(m), "removed")),
            header_id(s.job(job_of(m), "header")) == m,
            after_met(s, job_of(m))))),
        "running-where-allowed": forall([Bytes, Str], lambda e, m: imp(s.pend(e, m), allowed(s, job_of(m), e))),
        "books-of-running": forall([Bytes, Str], lambda e, m: imp(s.pend(e, m), z3.And(s.completed.has(e), s.failed.has(e)))),
        "retries-known": forall(Str, lambda m: imp(z3.And(z3.Not(no(m)), s.queue_map.has(m)), s.retries.has(m))),
        "retries-known-running": forall([Bytes, Str], lambda e, m: imp(s.pend(e, m), z3.Or(s.retries.has(m), z3.BoolVal(False) if retry_skip is None else m == retry_skip))),
        "not-waiting-and-running": forall([Bytes, Str], lambda e, m: z3.Or(mov(m), z3.Not(s.pend(e, m)), z3.Not(s.queue_map.has(m)))),
        "running-once": forall([Bytes, Bytes, Str], lambda e, f, m: imp(z3.And(s.pend(e, m), s.pend(f, m)), e == f)),
        "done-is-completed-or-failed": forall(Str, lambda m: z3.And(
            s.all_done.has(m) == z3.Or(s.all_completed.has(m), s.all_failed.has(m)), z3.Not(z3.And(s.all_completed.has(m), s.all_failed.has(m))))),
        "answered-iff-done": g.same(s.all_done),
        "queue-holds-known-jobs": s.queue.all(lambda i: s.queue.raw(i) == job_of(s.job(s.queue.raw(i), "msg_id"))),
        "graph-tracks-waiting": forall([Str, Str], lambda d, m: imp(z3.And(s.graph.has(d), s.graph[d].has(m)), z3.And(s.queue_map.has(m), deps(m, d)))),
        "graph-complete": forall([Str, Str], lambda d, m: imp(z3.And(z3.Not(no(m)), s.queue_map.has(m), deps(m, d), z3.Not(s.all_done.has(d))), z3.And(s.graph.has(d), s.graph[d].has(m)))),
        "graph-of-unfinished": forall(Str, lambda d: imp(s.graph.has(d), z3.Or(z3.Not(s.all_done.has(d)), z3.BoolVal(False) if graph_skip is None else d == graph_skip))),
    }


from pyver.types import sort
from pyver.spec import ZL

LISTED = Opaque("listed", [List(Bytes), Bytes], lambda l, x: ZL(List(Bytes), l).has(x))


def _lists(reg):
    LT = List(Bytes)
    w = lambda l: ZL(LT, l)
    reg.lemma("front-is-listed", ["P04"], lambda: forall([LT, Bytes], lambda l, x: imp(z3.And(w(l).len > 0, w(l).raw(0) == x), LISTED(l, x)), lambda l, x: [LISTED(l, x)]), hyps=[LISTED.axiom])
    reg.lemma("listed-stays-after-insert", ["P04"], lambda: forall([LT, LT, Bytes], lambda l, m, x: imp(
        z3.And(w(m).len == w(l).len + 1, w(l).len >= 0, w(l).all(lambda i: w(m).raw(i + 1) == w(l).raw(i)), LISTED(l, x)), LISTED(m, x)), lambda l, m, x: [(LISTED(l, x), LISTED(m, x))]), hyps=[LISTED.axiom])


def same_engines(b, a):
    return forall(Bytes, lambda x: LISTED(b.targets.e, x) == LISTED(a.targets.e, x), lambda x: [LISTED(b.targets.e, x)])


def progress(o, n, skip=None, fin=None):
    """what a rescan may change: waiting tasks start or fail; nothing is lost, nothing else moves.
    `fin`: a running task that just came back"""
    a, b = S(o), S(n)
    back = (lambda m: m == fin) if fin is not None else (lambda m: z3.BoolVal(False))
    no = (lambda m: m == skip) if skip is not None else (lambda m: z3.BoolVal(False))
    return {
        "no-task-lost": forall(Str, lambda m: imp(z3.And(z3.Not(no(m)), a.queue_map.has(m)), z3.Or(
            b.queue_map.has(m), b.all_failed.has(m), exists(Bytes, lambda e: b.pend(e, m))))),
        "nothing-new-waits": forall(Str, lambda m: imp(b.queue_map.has(m), z3.Or(no(m), back(m), a.queue_map.has(m)))),
        "running-stays": forall([Bytes, Str], lambda e, m: imp(a.pend(e, m), z3.Or(back(m), b.pend(e, m)))),
        "only-live-engines-get-tasks": forall([Bytes, Str], lambda e, m: imp(b.pend(e, m), z3.Or(a.pend(e, m), LISTED(a.targets.e, e)))),
        "only-waiting-starts": forall([Bytes, Str], lambda e, m: imp(b.pend(e, m), z3.Or(no(m), back(m), a.pend(e, m), a.queue_map.has(m)))),
        "outcomes-stay": forall(Str, lambda m: z3.And(imp(a.all_done.has(m), b.all_done.has(m)), imp(a.all_failed.has(m), b.all_failed.has(m)),
                                                      z3.Or(back(m), a.all_completed.has(m) == b.all_completed.has(m)))),
        "only-waiting-fails": forall(Str, lambda m: imp(b.all_done.has(m), z3.Or(no(m), back(m), a.all_done.has(m), a.queue_map.has(m)))),
        "same-engines": same_engines(b, a),
        "same-engine-books": forall(Bytes, lambda x: z3.And(b.pending.has(x) == a.pending.has(x), b.completed.has(x) == a.completed.has(x), b.failed.has(x) == a.failed.has(x))),
        "targets-only-shrink": forall([J, Bytes], lambda j, e: imp(b.job(j, "targets").has(e), a.job(j, "targets").has(e))),
    }


def after_met(s, j):
    return MET(*s.depargs(s.job(j, "after")))


def allowed(s, j, e):
    """engine e may hold job j: not refused there before, among the requested engines, location dependency met there"""
    return z3.And(
        z3.Not(s.job(j, "blacklist").has(e)),
        z3.Or(s.job(j, "targets").empty(), s.job(j, "targets").has(e)),
        MET(*s.depargs(s.job(j, "follow"), e)))


def eligible(s, j, i):
    """engine number i may be given job j"""
    e = s.targets.raw(i)
    return z3.And(
        rng(i, s.targets.len),
        z3.Or(s.hwm == 0, s.loads.raw(i) < s.hwm),
        allowed(s, j, e))


def fresh(t, name="ext"):
    """an external call returning an arbitrary value"""
    return lambda eng, args, kw: eng.freshv(name, t)


def scheme(eng, args, kw):
    """the configured scheme: any of the functions verified below (plainrandom, lru, twobin, leastload) against this contract"""
    t, e = eng.symbolic(args[0], List(Int))
    from pyver import types as ty
    r = eng.freshv("scheme", Int)
    eng.emit("pre:scheme:some-engine", ty.llen(t, e) > 0, None)
    eng.assume(z3.And(0 <= r.e, r.e < ty.llen(t, e)))
    return r


def register(reg):
    reg.heap_class("Dependency", dict(all=Bool, success=Bool, failure=Bool), module="ipyparallel.controller.dependency", base=Set(Str))
    reg.heap_class("Job", dict(msg_id=Str, raw_msg=List(Bytes), idents=List(Bytes), msg=Any, header=Any, metadata=Any, targets=Set(Bytes),
                               after=D, follow=D, timeout=Opt(Real), removed=Bool, timestamp=Real, timeout_id=Int, blacklist=Set(Bytes)),
                   module="ipyparallel.controller.task_scheduler", order=lambda eng, r: z3.Select(eng.harr("Job", "timestamp"), r))

    _lists(reg)
    # ---- the choosing schemes
    some = lambda c: {"some": c["loads"].len > 0}
    inr = lambda c: {"in-range": rng(c.res, c["loads"].len)}

    def randint(eng, args, kw):
        r = eng.freshv("randint", Int)
        a, b = eng.z(args[0], Int), eng.z(args[1], Int)
        eng.emit("pre:randint:range", a <= b, None)
        eng.assume(z3.And(a <= r.e, r.e <= b))
        return r

    ext = {"random.randint": randint, "randint": randint}
    for nm in ("plainrandom", "lru", "twobin"):
        reg.add(Contract(M + nm, "P04", params=dict(loads=List(Int)), requires=some, ensures=inr, returns=Int, externals=ext))
    reg.contracts[M + "lru"].ensures = lambda c: {**inr(c), "front-of-the-line": c.res == 0}
    reg.add(Contract(M + "leastload", "P04", params=dict(loads=List(Int)), requires=some, returns=Int, ensures=lambda c: {
        **inr(c),
        "least": c["loads"].all(lambda i: c["loads"].raw(c.res) <= c["loads"].raw(i)),
        "first-of-the-least": forall(Int, lambda i: imp(z3.And(0 <= i, i < c.res), c["loads"].raw(i) > c["loads"].raw(c.res)))}))

    # ---- engine availability
    reg.add(Contract(T + "available_engines", ["P04", "P05", "P06"], self_fields=FIELDS, returns=List(Int),
                     requires=lambda c: {**S(c).shape(), "hwm": c.f("hwm") >= 0},
                     loops={0: lambda L: (lambda a: {
                         "in-range": a.all(lambda i: z3.And(0 <= a.raw(i), a.raw(i) < L.k, L.f("loads").raw(a.raw(i)) < L.f("hwm"))),
                         "complete": forall(Int, lambda e: imp(z3.And(0 <= e, e < L.k, L.f("loads").raw(e) < L.f("hwm")), a.has(e))),
                     })(L.typed("available", List(Int)))},
                     ensures=lambda c: {
                         "only-below-hwm": c.res.all(lambda i: z3.And(rng(c.res.raw(i), c.f("targets").len), z3.Or(c.f("hwm") == 0, c.f("loads").raw(c.res.raw(i)) < c.f("hwm")))),
                         "all-below-hwm": forall(Int, lambda e: imp(z3.And(rng(e, c.f("targets").len), z3.Or(c.f("hwm") == 0, c.f("loads").raw(e) < c.f("hwm"))), c.res.has(e))),
                     }))

    # ---- load bookkeeping
    def rotated(c, i, n):
        """index in the old order of what is now at position i, when old position c['idx'] moved to the back"""
        x = c["idx"]
        return z3.If(i < x, i, z3.If(i < n - 1, i + 1, x))

    reg.add(Contract(T + "add_job", ["P04"], self_fields=FIELDS, params=dict(idx=Int), modifies=["targets", "loads"],
                     requires=lambda c: {"idx": rng(c["idx"], c.f("targets").len), "lens": c.f("targets").len == c.f("loads").len},
                     ensures=lambda c: {
                         "same-engines": z3.And(c.f("targets").len == c.old.f("targets").len, c.f("loads").len == c.old.f("loads").len),
                         "least-recently-used-order": c.f("targets").all(lambda i: c.f("targets").raw(i) == c.old.f("targets").raw(rotated(c, i, c.old.f("targets").len))),
                         "nobody-lost": c.old.f("targets").all(lambda i: c.f("targets").raw(z3.If(i < c["idx"], i, z3.If(i == c["idx"], c.old.f("targets").len - 1, i - 1))) == c.old.f("targets").raw(i)),
                         "one-more-task": c.f("loads").all(lambda i: c.f("loads").raw(i) == c.old.f("loads").raw(rotated(c, i, c.old.f("targets").len)) + z3.If(i == c.f("loads").len - 1, 1, 0)),
                     }))
    reg.add(Contract(T + "finish_job", ["P04"], self_fields=FIELDS, params=dict(idx=Int), modifies=["loads"],
                     requires=lambda c: {"idx": rng(c["idx"], c.f("loads").len)},
                     ensures=lambda c: {
                         "same-engines": c.f("loads").len == c.old.f("loads").len,
                         "one-less-task": c.f("loads").all(lambda i: c.f("loads").raw(i) == c.old.f("loads").raw(i) - z3.If(i == c["idx"], 1, 0)),
                     }))

    # ---- submission
    GH = dict(dest=Bytes, sent=List(Bytes), nsent=Int)

    def send_dest(eng, args, kw):
        from pyver.core import V
        eng.gset("dest", V(Bytes, eng.z(args[0], Bytes)))
        return None_(eng)

    def send_task(eng, args, kw):
        from pyver.core import V, Mut
        from pyver import types as ty
        t, e = eng.symbolic(args[0], List(Bytes))
        eng.gset("sent", eng.wrap(List(Bytes), e))
        eng.gset("nsent", V(Int, eng.gget("nsent").e + 1))
        return None_(eng)

    def submitted(c, i, e):
        """job sent to engine e, which was number i and eligible"""
        s, o = S(c), S(c.old)
        j = c["job"]
        return {
            "a-single-send": c.g("nsent") == c.old.g("nsent") + 1,
            "sent-to-it": c.g("dest") == e,
            "sent-unchanged": c.g("sent").same(c.old.h("Job", "raw_msg", j)),
        }

    EXT = {"self.mon_stream": Any, "self.client_stream": Any, "self.query_stream": Any, "self.notifier_stream": Any, "self.engine_stream.send": send_dest, "self.engine_stream.send_multipart": send_task, "self.session.send": fresh(Any),
           "self.scheme": scheme}
    SUBMOD = ["targets", "loads", "pending", "ghost:dest", "ghost:sent", "ghost:nsent"]

    def sub_post(c, chosen):
        """chosen(i): old index i was allowed"""
        s, o = S(c), S(c.old)
        j, m = c["job"], c.old.h("Job", "msg_id", c["job"])
        e = c.g("dest")
        return {
            "to-an-allowed-engine": exists(Int, lambda i: z3.And(rng(i, o.targets.len), o.targets.raw(i) == e, chosen(i))),
            "a-live-engine": LISTED(o.targets.e, e),
            "recorded-there": z3.And(s.pend(e, m), s.pending[e].raw(m) == j),
            "nothing-else-recorded": forall([Bytes, Str], lambda x, y: imp(z3.Or(x != e, y != m), z3.And(
                s.pend(x, y) == o.pend(x, y), imp(o.pend(x, y), s.pending[x].raw(y) == o.pending[x].raw(y))))),
            "same-engine-books": s.pending.domain_is(lambda x: o.pending.has(x)),
            "a-single-send": c.g("nsent") == c.old.g("nsent") + 1,
            "sent-unchanged": c.g("sent").same(c.old.h("Job", "raw_msg", j)),
            "same-engines": same_engines(s, o),
            "within-hwm": z3.Or(s.hwm == 0, s.loads.all(lambda i: s.loads.raw(i) <= s.hwm)),
            **s.shape(),
        }

    INDICES = Opt(List(Int))
    reg.add(Contract(T + "submit_task", ["P04", "P05", "P06"], self_fields=FIELDS, params=dict(job=J, indices=INDICES), ghosts=GH, reveal=[LISTED],
                     modifies=SUBMOD, externals=EXT,
                     requires=lambda c: {**S(c).shape(), "some": c.f("targets").len > 0,
                                         "within-hwm": z3.Or(S(c).hwm == 0, S(c).loads.all(lambda i: S(c).loads.raw(i) <= S(c).hwm)),
                                         "only-eligible-engines": z3.If(
                                             c["indices"].some,
                                             z3.And(c["indices"].v.len > 0, c["indices"].v.all(lambda k: eligible(S(c), c["job"], c["indices"].v.raw(k)))),
                                             S(c).targets.all(lambda i: eligible(S(c), c["job"], i))),
                                         "time-dependency-met": after_met(S(c), c["job"]),
                                         "not-running": forall(Bytes, lambda e: z3.Not(S(c).pend(e, S(c).job(c["job"], "msg_id"))))},
                     ensures=lambda c: sub_post(c, lambda i: imp(c["indices"].some, c["indices"].v.has(i)))))
    # ---- the rest of the scheduler, under one invariant
    GH2 = dict(GH, answered=Set(Str))
    ALL = ["P04", "P05", "P06"]
    STABLE = ["dependency-met-is-stable"]

    def answer(eng, m):
        from pyver.core import Mut, ZC
        from pyver import types as ty
        v = eng.gget("answered")
        t, e = eng.symbolic(v, Set(Str))
        eng.emit("reply:at-most-once", z3.Not(ty.sel(e, m)), None)
        eng.gset("answered", eng.wrap(Set(Str), z3.Store(e, m, z3.BoolVal(True))))

    def session_send(eng, args, kw):
        if len(args) > 1 and eng.lit_of(args[1]) == "apply_reply":
            answer(eng, header_id(eng.z(kw["parent"], Any)))
        return eng.freshv("sent_msg", Any)

    EXT2 = dict(EXT)
    EXT2.update({"self.session.send": session_send, "ipyparallel.error:wrap_exception": fresh(Any),
                 "self.loop.add_timeout": "noop", "time.time": fresh(Real), "self.client_stream.send_multipart": "noop"})
    MOD = SUBMOD + ["queue_map", "graph", "queue", "all_done", "all_failed", "ghost:answered", ("Job", "removed"), ("Job", "targets")]
    K = dict(self_fields=FIELDS, ghosts=GH2, externals=EXT2)

    def untrack(mid):
        """while job `mid` is dropped from the dependency graph: the entries of the dependencies visited so far lost it"""
        def f(L):
            g, g0 = L.f("graph"), L.pre.f("graph")
            return {"same-entries": g.domain_is(g0.has),
                    "dropped": forall([Str, Str], lambda d, m: imp(g0.has(d), g[d].has(m) == z3.And(
                        g0[d].has(m), z3.Not(z3.And(m == mid(L), L.done.has(d))))))}
        return f

    def track(L):
        s, o = S(L), S(L.pre)
        g, g0 = s.graph, o.graph
        m = L["msg_id"]
        return {"entries": g.domain_is(lambda d: z3.Or(g0.has(d), L.done.has(d))),
                "added": forall([Str, Str], lambda d, x: imp(g.has(d), g[d].has(x) == z3.Or(
                    z3.And(g0.has(d), g0[d].has(x)), z3.And(x == m, L.done.has(d)))))}

    reg.add(Contract(T + "fail_unreachable", ALL, params=dict(msg_id=Str), modifies=MOD, uses=STABLE, **K,
                     loops={0: untrack(lambda L: L.p("msg_id"))},
                     requires=lambda c: inv(c, skip=c["msg_id"]),
                     ensures=lambda c: {**inv(c), **progress(c.old, c), "gone": z3.Not(S(c).queue_map.has(c["msg_id"])),
                                        "failed": imp(S(c.old).queue_map.has(c["msg_id"]), z3.And(S(c).all_failed.has(c["msg_id"]), c.g("answered").has(c["msg_id"])))}))
    def known_job(c):
        s, j = S(c), c["job"]
        m = s.job(j, "msg_id")
        return {"job": z3.And(j == job_of(m), z3.Not(s.job(j, "removed")), header_id(s.job(j, "header")) == m)}

    def placed(c):
        """maybe_run: what True and False mean"""
        s, o = S(c), S(c.old)
        j = c["job"]
        m = o.job(j, "msg_id")
        quiet = z3.And(s.queue_map.same(o.queue_map), s.graph.same(o.graph), s.queue.same(o.queue), s.all_done.same(o.all_done), s.all_failed.same(o.all_failed))
        running = exists(Bytes, lambda e: s.pend(e, m))
        return {
            **inv(c, skip=m, moving=m), **progress(c.old, c, skip=m),
            "started-once-or-not-at-all": c.res == running,
            "started-on-an-eligible-engine": imp(c.res, exists(Int, lambda i: z3.And(eligible(o, j, i), s.pend(o.targets.raw(i), m)))),
            "otherwise-untouched": z3.Or(quiet, z3.And(z3.Not(c.res), s.all_failed.has(m))),
            "failed-means-answered": imp(s.all_failed.has(m), z3.And(c.g("answered").has(m), z3.Not(s.queue_map.has(m)))),
            "refused-leaves-it-waiting": imp(z3.Not(z3.Or(c.res, s.all_failed.has(m))), z3.And(s.queue_map.has(m) == o.queue_map.has(m), z3.Not(s.job(j, "removed")))),
            "failed-leaves-books-closed": imp(s.all_failed.has(m), z3.And(*inv(c).values())),
        }

    def not_running(c):
        s, m = S(c), S(c).job(c["job"], "msg_id")
        return {"retries-known-for-it": s.retries.has(m), "not-done": z3.Not(s.all_done.has(m)), "not-running": forall(Bytes, lambda e: z3.Not(s.pend(e, m)))}

    reg.add(Contract(T + "maybe_run", ALL, params=dict(job=J), locals=dict(dests=Set(Opt(Bytes))), modifies=MOD, uses=STABLE + ["no-dependency-is-met"], returns=Bool, **K,
                     requires=lambda c: {**inv(c, skip=S(c).job(c["job"], "msg_id")), **known_job(c), **not_running(c),
                                         "time-dependency-met": after_met(S(c), c["job"])},
                     ensures=placed))
    reg.add(Contract(T + "save_unmet", ALL, params=dict(job=J), modifies=["queue_map", "queue", "graph", ("Job", "timeout_id")], **K,
                     requires=lambda c: {**inv(c, skip=S(c).job(c["job"], "msg_id")), **known_job(c), **not_running(c)},
                     loops={0: track},
                     ensures=lambda c: {**inv(c), "waits": c.f("queue_map").has(S(c).job(c["job"], "msg_id")),
                                        "others-wait-on": c.f("queue_map").same_except(c.old.f("queue_map"), S(c).job(c["job"], "msg_id"))}))

    reg.add(Contract(T + "update_graph", ALL, params=dict(dep_id=Opt(Str), success=Bool), modifies=MOD, uses=STABLE, **K,
                     requires=inv2,
                     loops={0: lambda L: {**inv(L), **progress(L.old, L),
                                          "jobs-known": (lambda q: q.all(lambda i: q.raw(i) == job_of(L.h("Job", "msg_id", q.raw(i)))))(L.typed("jobs", Deque(J))),
                                          "restore-known": (lambda q: q.all(lambda i: q.raw(i) == job_of(L.h("Job", "msg_id", q.raw(i)))))(L.typed("to_restore", List(J))),
                                          }, 1: untrack(lambda L: L["msg_id"])},
                     ensures=lambda c: {**inv(c), **progress(c.old, c)}))

    # ---- replies
    BOOKS = ["completed", "failed", "all_completed", "destinations", ("Job", "blacklist"), ("Job", "timeout_id")]

    def relay(eng, args, kw):
        """the reply goes out: it must be addressed to the client that submitted the task, and be the only one"""
        t, e = eng.symbolic(args[0], List(Bytes))
        env = eng.contract.relay(eng)
        eng.emit("reply:to-the-submitting-client", ZL(t, e).raw(0) == env[0], None)
        answer(eng, env[1])
        return None_(eng)

    def hr_env(eng):
        c = eng.content(eng.env0["idents"].loc)
        st, eng.st = eng.st, eng.st0
        try:
            t, e = eng.symbolic(eng.env0["idents"], List(Bytes))
            par = eng.content(eng.env0["parent"].loc).d["msg_id"][1].e
        finally:
            eng.st = st
        return ZL(t, e).raw(1), par

    def came_back(c, engine, m):
        s, o = S(c), S(c.old)
        return {"no-longer-there": z3.Not(s.pend(engine, m))}

    PAR = record(dict(msg_id=Str))
    who = lambda c: c["idents"].raw(0)
    what = lambda c: c["parent"]["msg_id"]
    TOP = dict(self_fields=FIELDS, ghosts=GH2, externals=dict(EXT2, **{"self.client_stream.send_multipart": relay}))
    hr = Contract(T + "handle_result", ALL, params=dict(idents=List(Bytes), parent=PAR, raw_msg=List(Bytes), success=Bool),
                  modifies=MOD + BOOKS + ["arg:raw_msg"], uses=STABLE, **TOP,
                  requires=lambda c: {**inv(c, lag=who(c), retry_skip=what(c)), "idents": c["idents"].len >= 2, "frames": c["raw_msg"].len >= 2, "running-there": S(c).pend(who(c), what(c))},
                  ensures=lambda c: {**inv(c), **progress(c.old, c, fin=what(c)), **came_back(c, who(c), what(c)),
                                     "finished": S(c).all_done.has(what(c)),
                                     "outcome": z3.If(c["success"], z3.And(S(c).all_completed.has(what(c)), S(c).completed[who(c)].has(what(c))),
                                                      z3.And(S(c).all_failed.has(what(c)), S(c).failed[who(c)].has(what(c)))),
                                     "answered": c.g("answered").has(what(c))})
    hr.relay = hr_env
    reg.add(hr)
    reg.add(Contract(T + "handle_unmet_dependency", ALL, params=dict(idents=List(Bytes), parent=PAR), modifies=MOD + BOOKS, uses=STABLE, **K,
                     requires=lambda c: {**inv(c, lag=who(c)), "idents": c["idents"].len >= 2, "running-there": S(c).pend(who(c), what(c))},
                     ensures=lambda c: {**inv(c), **progress(c.old, c, fin=what(c)), **came_back(c, who(c), what(c)),
                                        "moved-on": moved_on(c, what(c))}))

    # ---- a reply arrives: `sender`, ... are what the frames decode to (jupyter_client's session, assumed)
    def identities(eng, args, kw):
        t, e = eng.symbolic(eng.env0["raw_msg"], List(Bytes))

        def ok():
            eng.assume(decodes(e))
            ids = eng.freshv("idents", List(Bytes))
            z = ZL(*eng.symbolic(ids, List(Bytes)))
            eng.assume(z3.And(z.len >= 2, z.raw(0) == sender(e), z.raw(1) == client(e), ty.llen(t, e) >= 2))
            return TupV([ids, eng.freshv("rest", Any)])

        if eng.choose([None, None]) == 1:
            eng.assume(z3.Not(decodes(e)))
            eng.throw("ValueError")
        return ok()

    def reply_msg(eng, args, kw):
        t, e = eng.symbolic(eng.env0["raw_msg"], List(Bytes))
        m = record(dict(metadata=record(dict(status=Str, dependencies_met=Bool), optional=["dependencies_met"]), parent_header=PAR))(eng, "msg")
        d = eng.content(m.loc).d
        md = eng.content(d["metadata"][1].loc).d
        eng.assume(md["status"][1].e == status(e))
        here, v = md["dependencies_met"]
        eng.assume(z3.Or(z3.Not(here), v.e) == deps_met(e))
        eng.assume(eng.content(d["parent_header"][1].loc).d["msg_id"][1].e == answers(e))
        return m

    raw = lambda c: c["raw_msg"].e
    from_, about = (lambda c: sender(raw(c))), (lambda c: answers(raw(c)))

    def settled(c):
        s, o, m = S(c), S(c.old), about(c)
        mine = z3.And(decodes(raw(c)), o.pend(from_(c), m))
        ok = status(raw(c)) == S_("ok")
        final = z3.And(deps_met(raw(c)), z3.Or(ok, o.retries.raw(m) <= 0))
        quiet = z3.And(s.queue_map.same(o.queue_map), s.all_done.same(o.all_done), s.graph.same(o.graph), s.retries.same(o.retries), c.g("nsent") == c.old.g("nsent"),
                       forall([Bytes, Str], lambda e, x: s.pend(e, x) == o.pend(e, x)))
        return {
            "late-or-garbled-reply-ignored": imp(z3.Not(mine), quiet),
            "no-longer-there": imp(mine, z3.Not(s.pend(from_(c), m))),
            "final-result-settles": imp(z3.And(mine, final), z3.And(s.all_completed.has(m) == ok, s.all_failed.has(m) == z3.Not(ok), c.g("answered").has(m))),
            "otherwise-tried-again-or-failed": imp(z3.And(mine, z3.Not(final)), moved_on(c, m)),
            "a-retry-used-up": imp(z3.And(mine, deps_met(raw(c)), z3.Not(ok), o.retries.raw(m) > 0), z3.And(s.retries.has(m), s.retries.raw(m) == o.retries.raw(m) - 1)),
            "refusal-costs-no-retry": imp(z3.And(mine, z3.Not(deps_met(raw(c)))), s.retries.same(o.retries)),
        }


    REPLY = dict(K, externals=dict(EXT2, **{"self.session.feed_identities": identities, "self.session.deserialize": reply_msg,
                                            "self.mon_stream.send_multipart": "noop"}))
    reg.add(Contract(T + "dispatch_result", ALL, params=dict(raw_msg=List(Bytes)), modifies=MOD + BOOKS + ["retries", "arg:raw_msg"], uses=STABLE, reveal=[LISTED], **REPLY,
                     requires=lambda c: {**inv(c), "engines-answer-what-they-were-sent": imp(LISTED(S(c).targets.e, from_(c)), S(c).pend(from_(c), about(c)))},
                     ensures=lambda c: {**inv(c), **progress(c.old, c, fin=about(c)), **settled(c)}))

    # ---- engines come and go
    def others(d, *drop):
        return {k: v for k, v in d.items() if k not in drop}

    uid = lambda c: c["uid"]
    reg.add(Contract(T + "_register_engine", ALL, params=dict(uid=Bytes), modifies=MOD + BOOKS, uses=STABLE + ["front-is-listed", "listed-stays-after-insert"], **K,
                     requires=lambda c: {**inv(c), "new-engine": z3.And(z3.Not(S(c).is_target(uid(c))), z3.Not(S(c).pending.has(uid(c))))},
                     ensures=lambda c: {**inv(c), "registered": LISTED(S(c).targets.e, uid(c)),
                                        "others-stay": forall(Bytes, lambda x: imp(LISTED(S(c.old).targets.e, x), LISTED(S(c).targets.e, x))),
                                        **others(progress(c.old, c), "same-engines", "same-engine-books", "only-live-engines-get-tasks")}))
    reg.add(Contract(T + "_unregister_engine", ALL, params=dict(uid=Bytes), modifies=["targets", "loads", "completed", "failed"], uses=STABLE,
                     self_fields=FIELDS, ghosts=GH2, externals=dict(EXT2, **{"self.engine_stream.flush": "noop", "self.loop.time": fresh(Real)}),
                     requires=inv, raises={"ValueError": lambda c: {"not-registered": z3.Not(S(c.old).is_target(uid(c)))}},
                     ensures=lambda c: {**inv(c), "gets-no-more-work": z3.Not(S(c).is_target(uid(c))),
                                        "others-stay": exists(Int, lambda k: z3.And(rng(k, S(c.old).targets.len), S(c.old).targets.raw(k) == uid(c), S(c).targets.len == S(c.old).targets.len - 1,
                                                                                    S(c).targets.all(lambda i: S(c).targets.raw(i) == S(c.old).targets.raw(z3.If(i < k, i, i + 1)))))}))
    reg.add(Contract(T + "job_timeout", ALL, params=dict(job=J, timeout_id=Int), modifies=MOD, uses=STABLE, **K,
                     requires=lambda c: {**inv(c), "job": c["job"] == job_of(S(c).job(c["job"], "msg_id")), "has-timeout": S(c).job(c["job"], "timeout").some},
                     ensures=lambda c: {**inv(c), **progress(c.old, c),
                                        "gives-up-waiting": imp(S(c.old).job(c["job"], "timeout_id") == c["timeout_id"], z3.Not(S(c).queue_map.has(S(c.old).job(c["job"], "msg_id")))),
                                        }))

    # ---- tasks on a lost engine
    frame_id = z3.Function("frame_id", sort(List(Bytes)), sort(Str))  # the task id in the header frame of a submission
    rest_id = z3.Function("rest_id", sort(Any), sort(Str))

    def feed(eng, args, kw):
        t, e = eng.symbolic(args[0], List(Bytes))
        ids, rest = eng.freshv("idents", List(Bytes)), eng.freshv("rest", List(Any))
        eng.assume(ZL(*eng.symbolic(ids, List(Bytes))).len >= 1)
        r = ZL(*eng.symbolic(rest, List(Any)))
        eng.assume(z3.And(r.len >= 4, header_id(r.raw(1)) == frame_id(e)))
        return TupV([ids, rest])

    def ser(eng, args, kw):
        d = eng.content(args[0].loc).d
        ids = eng.content(kw["ident"].loc).items
        out = eng.freshv("reply", List(Bytes))
        e = eng.symbolic(out, List(Bytes))[1]
        eng.assume(z3.And(decodes(e), sender(e) == eng.z(ids[0], Bytes), client(e) == eng.z(ids[1], Bytes), deps_met(e),
                          answers(e) == header_id(d["parent"][1].e), status(e) == eng.z(d["status"][1], Str), ty.llen(List(Bytes), e) >= 2))
        return out

    def message(eng, args, kw):
        from pyver.core import CDict, Mut
        md = eng.content(kw["metadata"].loc).d
        return Mut(eng.cell(CDict({"parent": (z3.BoolVal(True), kw["parent"]), "status": md["status"]})))

    def map_(eng, args, kw):
        from pyver.core import Ext
        return args[1] if isinstance(args[0], Ext) and args[0].dotted == "zmq.Message" else None

    def stranded(L):
        s, o = S(L), S(L.old)
        eng_ = L.p("engine")
        lst = L.item
        return {**inv(L),
                "nothing-new-there": forall(Str, lambda m: imp(s.pend(eng_, m), o.pend(eng_, m))),
                "dealt-with": forall(Int, lambda k: imp(z3.And(0 <= k, k < L.k), z3.Not(s.pend(eng_, lst(k))))),
                **strand_progress(s, o, eng_, lambda m: s.pend(eng_, m), L.g("answered"))}

    def strand_progress(s, o, eng_, left, ans):
        return {
            "not-a-target": z3.Not(LISTED(s.targets.e, eng_)),
            "nobody-lost": forall(Str, lambda m: imp(o.pend(eng_, m), z3.Or(left(m), s.queue_map.has(m), z3.And(s.all_failed.has(m), ans.has(m)),
                                                                         exists(Bytes, lambda e: z3.And(e != eng_, s.pend(e, m)))))),
            "waiting-not-lost": forall(Str, lambda m: imp(o.queue_map.has(m), z3.Or(s.queue_map.has(m), s.all_failed.has(m), exists(Bytes, lambda e: s.pend(e, m))))),
            "elsewhere-stays": forall([Bytes, Str], lambda e, m: imp(z3.And(o.pend(e, m), e != eng_), s.pend(e, m))),
            "outcomes-stay": forall(Str, lambda m: z3.And(imp(o.all_done.has(m), s.all_done.has(m)), o.all_completed.has(m) == s.all_completed.has(m))),
            "books": z3.And(s.pending.has(eng_), s.completed.has(eng_), s.failed.has(eng_)),
        }

    gone = lambda c: c["engine"]
    reg.add(Contract(T + "handle_stranded_tasks", ["P06"], params=dict(engine=Bytes), modifies=MOD + BOOKS + ["retries"], uses=STABLE, reveal=[LISTED],
                     self_fields=FIELDS, ghosts=GH2, loops={0: stranded},
                     externals=dict(EXT2, **{"self.session.feed_identities": feed, "self.session.unpack": lambda eng, a, kw: getattr(a[0], "recv", a[0]),
                                             "self.session.msg": message, "self.session.serialize": ser, "map": map_, "zmq.Message": lambda eng, a, kw: a[0], "ipyparallel.util:utcnow": fresh(Any)}),
                     requires=lambda c: {**inv(c), "lost": z3.Not(LISTED(c.f("targets").e, gone(c))), "not-a-target": z3.Not(S(c).is_target(gone(c))),
                                         "books": z3.And(c.f("pending").has(gone(c)), c.f("completed").has(gone(c)), c.f("failed").has(gone(c))),
                                         "frames": forall(J, lambda j: frame_id(S(c).job(j, "raw_msg").e) == S(c).job(j, "msg_id"))},
                     ensures=lambda c: {**inv(c), "none-left": forall(Str, lambda m: z3.Not(S(c).pend(gone(c), m))),
                                        **others(strand_progress(S(c), S(c.old), gone(c), lambda m: z3.BoolVal(False), c.g("answered")), "books")}))

    # ---- a task arrives
    sub_id = z3.Function("submitted_id", sort(List(Bytes)), sort(Str))
    has_after = z3.Function("has_after", sort(List(Bytes)), z3.BoolSort())
    after_of = z3.Function("after_of", sort(List(Bytes)), sort(D))

    def sub_ident(eng, args, kw):
        t, e = eng.symbolic(eng.env0["raw_msg"], List(Bytes))
        if eng.choose([None, None]) == 1:
            eng.assume(z3.Not(decodes(e)))
            eng.throw("ValueError")
        eng.assume(decodes(e))
        return TupV([eng.freshv("idents", List(Bytes)), eng.freshv("rest", Any)])

    def sub_msg(eng, args, kw):
        t, e = eng.symbolic(eng.env0["raw_msg"], List(Bytes))
        m = record(dict(header=record(dict(msg_id=Str)), metadata=record(dict(targets=List(Str), retries=Int, after=Opt(Ref("AfterSpec")), follow=Any, timeout=Opt(Real)))))(eng, "msg")  # an absent entry is one with the default value
        h = eng.content(eng.content(m.loc).d["header"][1].loc).d
        eng.assume(h["msg_id"][1].e == sub_id(e))
        a = eng.content(eng.content(m.loc).d["metadata"][1].loc).d["after"][1]
        eng.assume(has_after(e) == z3.Not(ty.ois_none(res(a.t), a.e)))
        return m

    def new_dep(eng, args, kw):
        """construction of an (immutable) Dependency: a reference whose fields hold what was asked for"""
        from pyver.core import V
        from pyver.core import CList, COpen
        r = eng.fresh("dep", D)
        H = lambda f: ty.sel(eng.harr("Dependency", f), r)
        eng.assume(z3.Or(H("success"), H("failure")))
        a = args[0]
        if isinstance(a, V):
            if Ref("AfterSpec") in (res(a.t), getattr(res(a.t), "t", None)):
                t, e = eng.symbolic(eng.env0["raw_msg"], List(Bytes))
                eng.assume(r == after_of(e))
        else:
            c = eng.content(a.loc)
            if isinstance(c, (CList, COpen)):
                eng.assume(H("@base") == ty.empty(Set(Str)))
            else:
                eng.assume(H("@base") == eng.symbolic(a, Set(Str))[1])
        for k, v in kw.items():
            eng.assume(H(k) == eng.z(v, Bool))
        return V(D, r)

    def new_job(eng, args, kw):
        """Job.__init__ runs on a new object, which the ghost function job_of names; its header is the submitted one"""
        from pyver.core import Fn, V
        m = eng.z(kw["msg_id"], Str)
        ref = V(J, job_of(m))
        q = z3.Const("m!new", sort(Str))
        eng.assume(z3.ForAll([q], z3.Implies(q != m, job_of(q) != ref.e)))
        h = eng.freshv("header", Any)
        eng.assume(header_id(h.e) == m)
        eng.newrefs.append(ref.e)
        ci = eng.source.module("ipyparallel.controller.task_scheduler").classes["Job"]
        kw = dict(kw, header=h, msg=eng.freshv("msg", Any), metadata=eng.freshv("md", Any))
        eng.callfn(Fn(eng.source.method(ci, "__init__"), None, None, ref), args, kw, None)
        return ref

    from pyver.core import V
    MET_OBJ = z3.Const("MET_object", sort(D))
    sid = lambda c: sub_id(c["raw_msg"].e)

    def unused(c):
        s, m = S(c), sid(c)
        return {"task-id-is-new": z3.And(z3.Not(s.queue_map.has(m)), z3.Not(s.all_done.has(m)), forall(Bytes, lambda e: z3.Not(s.pend(e, m))),
                                         s.queue.all(lambda i: s.job(s.queue.raw(i), "msg_id") != m)),
                "empty-dependency": z3.And(s.dep(MET_OBJ, "@base").empty(), z3.Or(s.dep(MET_OBJ, "success"), s.dep(MET_OBJ, "failure")))}

    def means_the_same(c):
        """the time dependency the task waits for is never weaker than the one submitted"""
        s, m, r = S(c), sid(c), c["raw_msg"].e
        SS = sort(Set(Str))
        have, want = s.job(job_of(m), "after"), after_of(r)
        args = lambda d: (s.dep(d, "@base").e, s.dep(d, "all"), s.dep(d, "success"), s.dep(d, "failure"))
        sup = lambda a, b: forall(Str, lambda x: imp(a.has(x), b[x]))
        return {"time-dependency-not-weakened": imp(z3.And(decodes(r), has_after(r), s.queue_map.has(m)), forall([SS, SS], lambda o, k: imp(
            z3.And(sup(S(c.old).all_completed, o), sup(S(c.old).all_failed, k), MET(*args(have), o, k)), MET(*args(want), o, k))))}

    reg.add(Contract(T + "dispatch_submission", ALL, params=dict(raw_msg=List(Bytes)), uses=STABLE + ["no-dependency-is-met", "leaving-out-finished-ones-keeps-the-meaning", "met-without-the-finished-ones-stays-met"],
                     modifies=MOD + BOOKS + ["all_ids", "retries"] + [("Job", f) for f in ("msg_id", "raw_msg", "idents", "msg", "header", "metadata", "after", "follow", "timeout", "timestamp")],
                     self_fields=FIELDS, ghosts=GH2, globals={"MET": V(D, MET_OBJ)},
                     externals=dict(EXT2, **{"self.notifier_stream.flush": "noop", "self.session.feed_identities": sub_ident, "self.session.deserialize": sub_msg,
                                             "self.mon_stream.send_multipart": "noop", "new:Dependency": new_dep, "ipyparallel.Dependency": new_dep, "new:Job": new_job}),
                     requires=lambda c: {**inv(c), **unused(c)},
                     ensures=lambda c: {**inv(c), **others(progress(c.old, c, skip=sid(c)), "targets-only-shrink"), **means_the_same(c),
                                        "accepted-or-answered": imp(decodes(c["raw_msg"].e), moved_on(c, sid(c))),
                                        "garbled-ignored": imp(z3.Not(decodes(c["raw_msg"].e)), z3.And(S(c).queue_map.same(S(c.old).queue_map), S(c).all_done.same(S(c.old).all_done)))}))
    return reg


_RAW = sort(List(Bytes))
_Str, _Bytes = sort(Str), sort(Bytes)
decodes = z3.Function("decodes", _RAW, z3.BoolSort())
sender, client = z3.Function("sender", _RAW, _Bytes), z3.Function("client_of", _RAW, _Bytes)
answers, status = z3.Function("answers", _RAW, _Str), z3.Function("status_of", _RAW, _Str)
deps_met = z3.Function("dependencies_met", _RAW, z3.BoolSort())


def moved_on(c, m):
    s = S(c)
    return z3.Or(s.queue_map.has(m), z3.And(s.all_failed.has(m), c.g("answered").has(m)), exists(Bytes, lambda e: s.pend(e, m)))


def inv2(c):
    o = c["dep_id"]
    d = inv(c)
    s = S(c)
    d["graph-of-unfinished"] = forall(Str, lambda x: imp(s.graph.has(x), z3.Or(z3.Not(s.all_done.has(x)), z3.And(o.some, x == o.v))))
    d["finished"] = imp(o.some, s.all_done.has(o.v))
    return d


def None_(eng):
    from pyver.core import NoneV
    return NoneV
