"""Random histories of the load-balanced task system, with an independent model of what must hold.

One history: tasks with targets, time and location dependencies, retries, timeouts, failing / unmet-dependency bodies;
engines joining, dying and being declared dead; message deliveries in seeded order.  The model sees only what crosses
the network: dispatches to engines, replies to clients, registrations.
"""
import random

import sim
from common import fail

from ipyparallel.controller.dependency import Dependency

CUR = None  # world whose engine is executing


def task_body(k):
    import world

    return world.CUR.run_body(k)


def body(k):
    import world

    return world.CUR.run_body(k)


class T:
    def plain(self):
        return not (self.targets or self.after[0] or self.follow[0] or self.dispatched)


class World:
    def __init__(self, c, props):
        """props: which obligations to report"""
        global CUR
        CUR = self
        self.c, self.props = c, props
        r = self.r = random.Random(c["seed"])
        sim.seeded_random(c["seed"])
        self.tasks, self.by_id = [], {}
        self.dispatches = []
        self.inflight = {}
        self.members = []  # engine idents the scheduler has been told about, LRU first
        self.gone = set()
        self.final = {}  # msg_id -> ok?
        self.where = {}  # msg_id -> engine ident of its final result
        self.attempts = {}
        self.problems = []
        self.plain_waiting = set()  # submission order; received by the scheduler and not started
        s = self.s = sim.Sim(random.Random(c["seed"] + 1), engines=0, hwm=c["hwm"], scheme=c["scheme"])
        self.hook()
        for _ in range(c["engines"]):
            s.add_engine()
        s.drain()
        self.v = s.client.load_balanced_view()

    # ------------------------------------------------------------ observation
    def hook(self):
        s = self.s
        eng_sink, cli_sink, note_cb = s.s_engine.sink, s.s_client.sink, s.s_notify.cb
        res_cb = s.s_engine.cb

        def to_engine(fr):
            self.on_dispatch(fr)
            eng_sink(fr)

        def to_client(fr):
            self.on_reply(fr)
            cli_sink(fr)

        def note(frames):
            idents, m = self.parse(frames)
            uid = m["content"]["uuid"].encode()
            if m["header"]["msg_type"] == "registration_notification":
                if uid not in self.members:
                    self.members.insert(0, uid)
                    self.inflight.setdefault(uid, set())
            else:
                if uid in self.members:
                    self.members.remove(uid)
                self.gone.add(uid)
                for mid in self.inflight.get(uid, ()):
                    if mid in self.by_id:
                        self.by_id[mid].died += 1
            note_cb(frames)

        def result(frames):
            bs = [bytes(f) for f in frames]
            uid = bs[0]
            try:
                idents, m = self.parse(bs)
                mid = m["parent_header"]["msg_id"]
                self.inflight.setdefault(uid, set()).discard(mid)
            except Exception:
                pass
            res_cb(frames)

        s.s_engine.sink, s.s_client.sink = to_engine, to_client
        s.s_notify.cb = note
        s.s_engine.cb = result
        sub_cb = s.s_client.cb

        def submission(frames):
            try:
                _, m = self.parse(frames)
                t = self.by_id.get(m["header"]["msg_id"])
                if t is not None and t.plain() and not t.timeout:
                    self.plain_waiting.add(t.k)
            except Exception:
                pass
            sub_cb(frames)

        s.s_client.cb = submission

    def bad(self, prop, key, what):
        if prop in self.props and len(self.problems) < 5:
            self.problems.append((key, what))

    def parse(self, fr):
        return sim.parse(fr)

    def met(self, dep, ok, ko):
        ids, all_, succ, failu = dep
        if not ids:
            return True
        ag = set()
        if succ:
            ag |= ok
        if failu:
            ag |= ko
        return set(ids) <= ag if all_ else bool(set(ids) & ag)

    def dead_dep(self, dep, ok, ko):
        ids, all_, succ, failu = dep
        if not ids:
            return False
        ag = set()
        if not succ:
            ag |= ok
        if not failu:
            ag |= ko
        return bool(set(ids) & ag) if all_ else set(ids) <= ag

    def ok_set(self, at=None):
        return {m for m, o in self.final.items() if o and (at is None or self.where.get(m) == at)}

    def ko_set(self, at=None):
        return {m for m, o in self.final.items() if not o and (at is None or self.where.get(m) == at)}

    def permitted(self, t, uid):
        if t.targets and uid not in t.targets:
            return "outside its targets"
        if uid in t.tried:
            return "an engine it already failed on"
        if not self.met(t.follow, self.ok_set(uid), self.ko_set(uid)):
            return "an engine where its location dependency is not met"
        return None

    def on_dispatch(self, fr):
        uid = fr[0]
        try:
            idents, m = self.parse(fr[1:])
        except Exception:
            return
        mid = m["header"]["msg_id"]
        t = self.by_id.get(mid)
        if t is None:
            return
        n_by = {u: len(self.inflight.get(u, ())) for u in self.members}
        if uid not in self.members:
            self.bad("P04", "dispatch-to-unregistered", f"task {t.k} sent to {uid!r}, not a registered engine")
        hwm = self.c["hwm"]
        if hwm and n_by.get(uid, 0) >= hwm:
            self.bad("P04", "hwm-exceeded", f"engine {uid!r} already has {n_by[uid]} tasks, limit {hwm}")
        why = self.permitted(t, uid)
        if why:
            self.bad("P05", "placed-" + why.replace(" ", "-"), f"task {t.k} dispatched to {why}: {uid!r}; targets {t.targets} follow {t.follow} tried {t.tried}")
        if not self.met(t.after, self.ok_set(), self.ko_set()):
            self.bad("P05", "ran-before-after", f"task {t.k} dispatched before {t.after}; finished {self.final}")
        if t.plain() and self.plain_waiting:
            first = min(self.plain_waiting)
            if first < t.k:
                self.bad("P06", "overtaken", f"task {t.k} was started before task {first}, submitted earlier with the same (no) constraints")
        self.plain_waiting.discard(t.k)
        if mid in self.final:
            self.bad("P06", "dispatched-after-final", f"task {t.k} dispatched again after its final reply")
        if any(mid in f for u, f in self.inflight.items() if u in self.members):
            self.bad("P06", "dispatched-twice", f"task {t.k} dispatched while an earlier dispatch is outstanding")
        el = [u for u in self.members if not (hwm and n_by[u] >= hwm) and not self.permitted(t, u)]
        if uid in el:
            sch = self.c["scheme"]
            low = min(n_by[u] for u in el)
            if sch == "leastload":
                first = next(u for u in el if n_by[u] == low)
                if n_by[uid] != low:
                    self.bad("P04", "not-least-loaded", f"task {t.k} sent to load {n_by[uid]}, an eligible engine has {low}")
                elif uid != first:
                    self.bad("P04", "not-lru-among-least", f"task {t.k} sent to {uid!r}, least recently used is {first!r}")
            elif sch == "lru" and uid != el[0]:
                self.bad("P04", "not-lru", f"task {t.k} sent to {uid!r}, least recently used eligible is {el[0]!r}")
        if uid in self.members:
            self.members.remove(uid)
            self.members.append(uid)
        self.inflight.setdefault(uid, set()).add(mid)
        t.dispatched.append(uid)
        t.last = uid

    def on_reply(self, fr):
        try:
            idents, m = self.parse(fr)
        except Exception:
            return
        mid = m["parent_header"].get("msg_id")
        t = self.by_id.get(mid)
        if t is None:
            return
        st = m["content"].get("status")
        if mid in self.final:
            self.bad("P06", "two-final-replies", f"task {t.k} answered twice")
            return
        self.final[mid] = st == "ok"
        self.plain_waiting.discard(t.k)
        t.reply = m["content"]
        uid = fr[1] if len(idents) > 1 else None
        if uid is not None and (uid in self.inflight):
            self.where[mid] = uid
        if st == "ok" and not t.outcomes.get(uid) == "ok":
            self.bad("P06", "ok-without-success", f"task {t.k} reported ok, engines did {t.outcomes}")
        ran = [o for o in t.outcomes.values() if o == "fail"]
        if st != "ok" and m["content"].get("ename") not in (None, "ImpossibleDependency", "InvalidDependency", "TaskTimeout", "EngineError"):
            if len(ran) + t.died <= t.retries and len(ran) + t.died >= 1:
                self.bad("P06", "gave-up-early", f"task {t.k} failed for good after {len(ran)} failures with {t.retries} retries")

    # ------------------------------------------------------------ bodies
    def run_body(self, k):
        t = self.tasks[k]
        e = self.s.running
        uid = e.ident
        t.execs.append(uid)
        kind = t.kind
        if kind == "unmet" and e.eid % t.mod != 0:
            t.outcomes[uid] = "unmet"
            t.tried.add(uid)
            from ipyparallel.error import UnmetDependency

            raise UnmetDependency("not here")
        if kind == "fail" or (kind == "flaky" and len([o for o in t.outcomes.values() if o == "fail"]) < t.nfail):
            t.outcomes[uid] = "fail"
            t.tried.add(uid)
            raise ValueError(f"task {k} fails")
        t.outcomes[uid] = "ok"
        return ("value", k)

    # ------------------------------------------------------------ operations
    def dep(self, r):
        if not self.tasks or r.random() < .45:
            return ([], True, True, False), None
        ids = [t.mid for t in r.sample(self.tasks, min(len(self.tasks), r.randrange(1, 4)))]
        all_ = r.random() < .6
        succ, failu = r.choice([(True, False), (True, False), (True, True), (False, True)])
        return (ids, all_, succ, failu), Dependency(ids, all=all_, success=succ, failure=failu)

    def submit(self, r):
        t = T()
        t.k = len(self.tasks)
        t.kind = r.choice(["ok", "ok", "ok", "fail", "flaky", "unmet"])
        t.nfail, t.mod = r.randrange(1, 3), 2
        t.retries = r.choice([0, 0, 1, 2])
        t.execs, t.dispatched, t.outcomes, t.tried, t.reply, t.last, t.died = [], [], {}, set(), None, None, 0
        t.after, after = self.dep(r) if r.random() < self.c["pdep"] else (([], True, True, False), None)
        t.follow, follow = self.dep(r) if r.random() < self.c["pdep"] * .6 else (([], True, True, False), None)
        live = [e for e in self.s.engines.values() if not e.declared]
        t.targets, tg = set(), None
        if live and r.random() < self.c["ptgt"]:
            ch = r.sample(live, r.randrange(1, len(live) + 1))
            known = [e.eid for e in ch if e.eid in self.s.client.ids]
            if known:
                tg = known
                t.targets = {self.s.engines[i].ident for i in known if i in self.s.engines}
                tg = [i for i in known if i in self.s.engines]
        t.timeout = r.choice([0, 0, 0, 0, 3]) if self.c["timeouts"] else 0
        self.tasks.append(t)
        with self.v.temp_flags(after=after, follow=follow, targets=tg or None, retries=t.retries, timeout=t.timeout):
            t.ar = self.v.apply_async(body, t.k)
        t.mid = t.ar.msg_ids[0]
        self.by_id[t.mid] = t

    def die(self, r):
        live = [i for i, e in self.s.engines.items() if not e.declared]
        if not live:
            return
        eid = r.choice(live)
        if r.random() < self.c["pzombie"]:
            self.s.lose_heart(eid)
        else:
            self.s.kill(eid)

    def op(self, r):
        x = r.random()
        c = self.c
        if x < .5:
            self.submit(r)
        elif x < .5 + c["pdie"]:
            self.die(r)
        elif x < .5 + c["pdie"] + c["pjoin"]:
            self.s.add_engine_async()
        elif x < .55 + c["pdie"] + c["pjoin"]:
            self.fire(r)
        else:
            self.s.steps(r.randrange(1, 25))

    def fire(self, r):
        ts = [e for e in self.s.loop.timeouts]
        if ts:
            e = min(ts, key=lambda e: e[0])
            self.s.loop.fire(e)
            sim.run_ready()

    def run(self):
        s, r, c = self.s, self.r, self.c
        for _ in range(c["ops"]):
            if len(self.tasks) < c["tasks"]:
                self.op(r)
            else:
                s.steps(10)
            if self.problems:
                break
        if not self.problems:
            s.settle()
            self.quiet("")
        if not self.problems and c.get("rejoin"):
            # everything that waited for a place to run gets one
            for _ in range(2):
                s.add_engine()
            s.settle()
            self.quiet("after a new engine joined")
        if self.problems:
            key, what = self.problems[0]
            fail(key, what + " | trace tail: " + " ".join(s.trace[-12:]))
        return len(self.tasks) > 1 and len(self.final) > 0

    def quiet(self, when):
        """nothing is in flight any more: who is still unanswered, and may that be?"""
        s = self.s
        hwm = self.c["hwm"]
        ok, ko = self.ok_set(), self.ko_set()
        for t in self.tasks:
            if t.mid in self.final:
                if not t.ar.ready():
                    self.bad("P06", "reply-not-delivered", f"task {t.k} answered, its result is not ready")
                else:
                    try:
                        v = t.ar.get(timeout=0)
                        if list(v) != ["value", t.k]:
                            self.bad("P06", "wrong-value", f"task {t.k} gave {v!r}")
                        if not self.final[t.mid]:
                            self.bad("P06", "failure-hidden", f"task {t.k} failed but its result is {v!r}")
                    except Exception as e:
                        if self.final[t.mid]:
                            self.bad("P06", "success-hidden", f"task {t.k} succeeded but get raised {e!r}")
                fails = sum(1 for o in t.outcomes.values() if o == "fail")
                if fails > t.retries + 1:
                    self.bad("P06", "too-many-runs", f"task {t.k} ran and failed {fails} times with {t.retries} retries")
                if len(t.execs) != len(set(t.execs)):
                    self.bad("P06", "ran-twice-on-one-engine", f"task {t.k} ran on {t.execs}")
                continue
            if t.ar.ready():
                self.bad("P06", "ready-without-reply", f"task {t.k}")
            if any(t.mid in f for u, f in self.inflight.items() if u in self.members):
                self.bad("P06", "stuck-in-flight", f"task {t.k} dispatched, never answered")
                continue
            # waiting
            if not self.members:
                continue
            dead_after, dead_follow = self.dead_dep(t.after, ok, ko), self.dead_dep(t.follow, ok, ko)
            if dead_after or dead_follow:
                self.bad("P05", "impossible-not-failed", f"{when} task {t.k} waits though its dependency can never be met: after {t.after} follow {t.follow} ok={ok} failed={ko}")
            if self.met(t.after, ok, ko):
                free = [u for u in self.members if not (hwm and len(self.inflight.get(u, ())) >= hwm) and not self.permitted(t, u)]
                if free:
                    self.bad("P06", "runnable-left-waiting", f"{when} task {t.k} is runnable on {free} but waits; after={t.after} follow={t.follow} targets={t.targets} tried={t.tried}")


def gen(r, **over):
    c = dict(seed=r.randrange(10**9), engines=r.randrange(0, 5), hwm=r.choice([0, 1, 1, 2, 3]),
             scheme=r.choice(["leastload", "leastload", "lru", "plainrandom", "twobin", "weighted"]), tasks=r.choice([3, 6, 10, 18]),
             ops=r.choice([12, 25, 45]), pdep=r.choice([0, .3, .7]), ptgt=r.choice([0, .3]), pdie=r.choice([0, 0, .06]),
             pjoin=r.choice([0, .05]), pzombie=r.choice([0, 0, .5, 1]), timeouts=r.random() < .15, rejoin=r.random() < .6)
    c.update(over)
    return c


def gen_hard(r, **over):
    """few engines that die, targeted tasks that fail and are retried, dependents that want failures"""
    return gen(r, engines=r.randrange(2, 4), hwm=1, tasks=r.choice([4, 6, 8]), ops=r.choice([15, 25]), pdep=.8, ptgt=.6, pdie=.12,
               pjoin=0, rejoin=False, **over)
