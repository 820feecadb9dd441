"""P20: engines' request handlers: one answer each, no aborted work, namespaces exact."""
import json
import random

from common import Driver, check, fail

d = Driver("P20", "random sessions of real clients' direct and load-balanced views with real engine request handlers over the simulated network (apply with values, "
           "errors of every kind, name games, push, pull, get, scatter, clear, aborts racing with deliveries), against a model of each engine's namespace and "
           "request list; a case counts when at least two requests reached an engine")
import sim  # noqa: E402

import ipyparallel as ipp  # noqa: E402
from ipyparallel import serialize, Reference  # noqa: E402

NAMES = ["a", "b", "f", "args", "kwargs", "result", "ns", "_IP_PUSH_TMP_", "user_ns", "key", "keys", "name", "value", "tmp", "msg_id", "working", "prefix", "code"]


def t_echo(*a, **k):
    return (a, k)


def t_names():
    import ipyparallel.util as u

    return None


SRC = {
    "echo": "def fn(*a, **k): return ('echo', a, k)",
    "get": "def fn(n): return globals().get(n, 'absent')",
    "set": "def fn(n, v):\n    globals()[n] = v\n    return v",
    "raise": "def fn(n): raise ValueError(n)",
    "weird": "def fn():\n    class Odd(Exception):\n        def __str__(self): raise RuntimeError('no text')\n    raise Odd()",
    "exit": "def fn(): raise SystemExit(3)",
    "kbd": "def fn(): raise KeyboardInterrupt('x')",
    "unpick": "def fn(): return (x for x in ())",
    "unmet": "def fn():\n    from ipyparallel.error import UnmetDependency\n    raise UnmetDependency('z')",
    "mutate": "def fn(x):\n    x.append(9)\n    return x",
    "wipe": "def fn():\n    for k in [k for k in globals() if k.startswith('_') and k.endswith(('_f', '_args', '_kwargs', '_result'))]: globals().pop(k)\n    return 'wiped'",
}


def user(ns):
    return {k: v for k, v in ns.items() if k not in ("__builtins__", "__name__")}


class Model:
    def __init__(self):
        self.ns = {}
        self.aborted = set()


class Session:
    def __init__(self, c):
        self.c = c
        self.r = random.Random(c["seed"])
        sim.seeded_random(c["seed"])
        self.s = sim.Sim(random.Random(c["seed"] + 1), engines=c["engines"], hwm=0)
        self.m = {e: Model() for e in self.s.engines}
        self.want = {}   # msg_id -> (kind, fn(model) -> expected outcome)
        self.replies = {}
        self.started = set()
        self.ars = []
        self.reached = 0
        for e in self.s.engines.values():
            e.kernel.shell.user_ns["__name__"] = "__main__"
            e.step = self.wrap_step(e, e.step)
            e.control = self.wrap_control(e, e.control)
        s_out = self.s.engine_out

        def engine_out(e, kind, fr):
            idents, m = sim.parse(fr)
            if kind != "control":
                self.replies.setdefault((e.eid, m["parent_header"]["msg_id"]), []).append(m)
            return s_out(e, kind, fr)

        self.s.engine_out = engine_out

    def wrap_control(self, e, orig):
        def control(frames):
            idents, m = sim.parse(frames)
            t = m["header"]["msg_type"]
            mod = self.m[e.eid]
            if t == "abort_request":
                mod.aborted |= set(m["content"]["msg_ids"])
            waiting = [sim.parse(f)[1]["header"]["msg_id"] for _, f in e.inbox]
            orig(frames)
            if t == "abort_request" and not m["content"]["msg_ids"]:
                for mid in waiting:
                    rs = self.replies.get((e.eid, mid), [])
                    check(len(rs) == 1 and rs[0]["content"]["status"] == "aborted", "abort-all", lambda: f"aborting all pending: waiting request answered {[x['content'] for x in rs]}")
            if t == "clear_request":
                mod.ns.clear()
                left = user(e.kernel.shell.user_ns)
                check(not left, "clear-leaves-names", lambda: f"after clear the engine still holds {sorted(left)}")
                e.kernel.shell.user_ns["__builtins__"] = __builtins__
                e.kernel.shell.user_ns["__name__"] = "__main__"

        return control

    def wrap_step(self, e, orig):
        def step():
            kind, frames = e.inbox[0]
            idents, m = sim.parse(frames)
            mid = m["header"]["msg_id"]
            mod = self.m[e.eid]
            before = len(self.replies.get((e.eid, mid), []))
            self.reached += 1
            ab = mid in mod.aborted
            self.ran = None
            nr = len(e.ran)
            orig()
            got = self.replies.get((e.eid, mid), [])[before:]
            check(len(got) == 1, "replies", lambda: f"{len(got)} replies to one request {mid}")
            rep = got[0]
            st = rep["content"]["status"]
            if ab:
                check(st == "aborted", "aborted-not-refused", lambda: f"aborted request answered {rep['content']}")
                check(rep["metadata"].get("status") == "aborted", "aborted-status", lambda: f"metadata of an aborted reply: {rep['metadata']}")
                check(rep["header"]["msg_type"] == m["header"]["msg_type"].replace("_request", "_reply"), "reply-type", lambda: rep["header"]["msg_type"])
            else:
                check(st != "aborted", "aborted-unasked", lambda: f"request never aborted answered aborted")
                self.compare(e, mid, mod, rep)
            now = {k: v for k, v in user(e.kernel.shell.user_ns).items()}
            check(now == mod.ns, "namespace-differs", lambda: f"after {self.want.get(mid, ('?',))[0]} engine {e.eid} holds {now!r}, expected {mod.ns!r}")

        return step

    def compare(self, e, mid, mod, rep):
        kind, fn = self.want[mid]
        exp = fn(mod)
        c = rep["content"]
        if exp[0] == "value":
            check(c["status"] == "ok", "value-not-returned", lambda: f"{kind}: {c}")
            v, rest = serialize.deserialize_object(rep["buffers"], {})
            check(v == exp[1] and not rest, "value-differs", lambda: f"{kind}: engine returned {v!r}, expected {exp[1]!r}")
            check(rep["metadata"]["dependencies_met"] is True and rep["metadata"]["status"] == "ok", "reply-metadata", lambda: rep["metadata"])
        else:
            check(c["status"] == "error" and c["ename"] == exp[1], "error-differs", lambda: f"{kind}: engine answered {c}, expected {exp}")
            if len(exp) > 2:
                check(c["evalue"] == exp[2], "error-text", lambda: f"{kind}: error text {c['evalue']!r}, expected {exp[2]!r}")
            check(c["engine_info"]["engine_id"] == e.eid and c["engine_info"]["engine_uuid"] == e.uuid, "error-place", lambda: c["engine_info"])
            check(rep["metadata"]["dependencies_met"] is (exp[1] != "UnmetDependency"), "unmet-mark", lambda: rep["metadata"])
        check(rep["metadata"]["engine"] == e.uuid, "reply-metadata", lambda: rep["metadata"])

    # ---------------------------------------------------------------- operations
    def note(self, ar, kind, fn):
        for mid in ar.msg_ids:
            self.want[mid] = (kind, fn)
        self.ars.append((ar, kind))

    def val(self):
        r = self.r
        return r.choice([1, "s", [1, 2], (1, "x"), None, {"k": [1]}, b"bytes" * 3])

    def op(self):
        r = self.r
        ids = sorted(self.s.engines)
        tg = r.choice([ids, r.sample(ids, r.randrange(1, len(ids) + 1)), [r.choice(ids)]])
        v = self.s.client.direct_view(tg)
        v.block = False
        k = r.random()
        if k < .3:
            n = r.choice(list(SRC))
            g = {"__name__": "__main__", "__builtins__": __builtins__}
            exec(SRC[n], g)
            f = g["fn"]
            name, val = r.choice(NAMES), self.val()
            if n == "echo":
                a, kw = tuple(self.val() for _ in range(r.randrange(3))), {x: self.val() for x in r.sample(["f", "args", "kwargs", "a", "track", "targets"], r.randrange(3))}
                self.note(v.apply(f, *a, **kw), n, lambda m: ("value", ("echo", a, kw)))
            elif n == "get":
                self.note(v.apply(f, name), n, lambda m: ("value", m.ns.get(name, "absent")))
            elif n == "set":
                def eff(m, name=name, val=val):
                    m.ns[name] = val
                    return ("value", val)
                self.note(v.apply(f, name, val), n, eff)
            elif n == "raise":
                self.note(v.apply(f, str(val)), n, lambda m: ("error", "ValueError", str(val)))
            elif n == "mutate":
                x = [1]
                self.note(v.apply(f, x), n, lambda m: ("value", [1, 9]))
                check(x == [1], "argument-altered", "the caller's list was altered")
            elif n == "wipe":
                self.note(v.apply(f), n, lambda m: ("value", "wiped"))
            else:
                e = dict(weird="Odd", exit="SystemExit", kbd="KeyboardInterrupt", unpick="TypeError", unmet="UnmetDependency")[n]
                self.note(v.apply(f), n, lambda m: ("error", e))
        elif k < .5:
            ns = {n: self.val() for n in r.sample(NAMES, r.randrange(1, 4))}

            def eff(m, ns=ns):
                for a, b in ns.items():
                    m.ns[a] = b
                return ("value", None)
            self.note(v.push(ns, block=False), "push", eff)
        elif k < .65:
            names = r.sample(NAMES, r.randrange(1, 4))
            one = r.random() < .4
            arg = names[0] if one else names

            def eff(m):
                if one:
                    return ("value", m.ns[names[0]]) if names[0] in m.ns else ("error", "NameError")
                if all(n in m.ns for n in names):
                    return ("value", [m.ns[n] for n in names])
                return ("error", "NameError")
            self.note(v.pull(arg, block=False), "pull", eff)
        elif k < .72:
            name = r.choice(NAMES)
            f = lambda x: ("ref", x)  # noqa
            f.__module__ = "__main__"
            self.note(v.apply(f, Reference(name)), "reference", lambda m: ("value", ("ref", m.ns[name])) if name in m.ns else ("error", "NameError"))
        elif k < .8:
            self.s.client.clear(targets=tg, block=False)
        elif k < .95 and self.ars:
            which = r.sample(self.ars, min(len(self.ars), r.randrange(1, 4)))
            how = r.randrange(3)
            jobs = [a for a, _ in which] if how == 0 else [m for a, _ in which for m in a.msg_ids] if how == 1 else which[0][0]
            self.s.client.abort(jobs, targets=tg, block=False)
        else:
            self.s.client.abort(targets=tg, block=False)
        self.s.steps(r.choice([0, 0, 1, 3, 10]))

    def run(self):
        for _ in range(self.c["n"]):
            self.op()
        self.s.drain()
        for ar, kind in self.ars:
            check(ar.ready(), "unanswered", lambda: f"{kind} never answered")
        for e in self.s.engines.values():
            check(not e.inbox, "unanswered", "requests left in an engine's inbox")
        for (eid, mid), rs in self.replies.items():
            check(len(rs) == 1, "replies", lambda: f"{len(rs)} replies to {mid}")
        return self.reached >= 2


def case_session(c):
    return Session(c).run()


def case_abort(c):
    """abort_request with and without ids, straight at the handler"""
    k = sim.SimKernel(sim.mksession("eng"), "eng", 0)
    hit = []
    k._abort_queues = lambda *a: hit.append(1)
    out = []
    st = sim.FStream(lambda fr: out.append([bytes(x) for x in fr]))
    cs = sim.mksession("client")
    content = {} if c["ids"] == "absent" else {"msg_ids": c["ids"]}
    msg = cs.msg("abort_request", content=content)
    k.abort_request(st, [b"client"], msg)
    ids = c["ids"] if isinstance(c["ids"], list) else [c["ids"]] if isinstance(c["ids"], str) and c["ids"] not in ("absent", "") else []
    check(k.aborted == set(ids), "abort-names", lambda: f"abort of {c['ids']!r} marked {k.aborted}")
    check(bool(hit) == (not ids), "abort-all", lambda: f"abort of {c['ids']!r}: everything pending aborted: {bool(hit)}")
    check(len(out) == 1 and sim.parse(out[0])[1]["content"]["status"] == "ok", "replies", lambda: f"{len(out)} abort replies")
    return True


d.add("abort", case_abort, cases=[dict(ids=i) for i in (["a"], ["a", "b"], "a", [], None, "absent")])
d.add("session", case_session, gen=lambda r: dict(seed=r.randrange(1 << 30), engines=r.choice([1, 1, 2, 3]), n=r.choice([5, 15, 40])))
d.main()
