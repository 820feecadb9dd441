"""P18: naming engines."""
from common import Driver, check, fail

d = Driver("P18", "random sets of registered engines (with gaps left by departures) and random ways of naming them, through indexing the client, direct, broadcast and load-balanced views, "
           "view attributes and call arguments, compared with indexing the sorted list of ids: the engines reached, their order, the view's targets and length, and that refused calls send nothing; "
           "membership changes between calls; a case counts when at least one accepted and one refused call were compared")
import random  # noqa: E402

import sim  # noqa: E402


def who(*a):
    import sim

    return sim._CUR.eid


REFUSED = object()


def resolve(e, ids):
    """what the expression selects, by indexing"""
    if not ids:
        return REFUSED
    t = e["t"]
    if t in ("all", "none"):
        return list(ids)
    if t == "int":
        v = e["v"]
        if v >= 0:
            return [v] if v in ids else REFUSED
        return [ids[v]] if -v <= len(ids) else REFUSED
    if t == "slice":
        out = ids[slice(*e["v"])]
    elif t in ("list", "tuple"):
        if not all(isinstance(x, int) and x in ids for x in e["v"]):
            return REFUSED
        out = list(e["v"])
    elif t == "range":
        out = list(range(*e["v"]))
        if not all(x in ids for x in out):
            return REFUSED
    else:
        return REFUSED
    return out or REFUSED


def build(e):
    t = e["t"]
    return {"all": lambda: "all", "none": lambda: None, "int": lambda: e["v"], "slice": lambda: slice(*e["v"]), "list": lambda: list(e["v"]),
            "tuple": lambda: tuple(e["v"]), "range": lambda: range(*e["v"]), "bad": lambda: {"set": {0}, "str": "any", "float": 0.5, "dict": {0: 1}, "bytes": b"0"}[e["v"]]}[t]()


def expr(r, ids):
    t = r.choice(["int", "int", "int", "slice", "slice", "list", "list", "tuple", "range", "all", "none", "bad"])
    n = len(ids)
    top = max(ids, default=0)
    if t == "int":
        return dict(t=t, v=r.choice(ids) if ids and r.random() < .5 else r.randrange(-n - 2, top + 3))
    if t == "slice":
        def b():
            return r.choice([None, r.randrange(-n - 2, n + 3)])
        return dict(t=t, v=[b(), b(), r.choice([None, None, 1, 2, 3, -1, -2])])
    if t in ("list", "tuple"):
        if r.random() < .1:
            return dict(t=t, v=[])
        v = r.sample(ids, r.randrange(n + 1)) if ids else []
        if r.random() < .3:
            v.insert(r.randrange(len(v) + 1), r.choice([top + 1, -1, 999, "0", None] + [i for i in range(top) if i not in ids]))
        return dict(t=t, v=v)
    if t == "range":
        a = r.choice(ids) if ids else 0
        return dict(t=t, v=[a, r.choice([a, a + 1, a + 2, top + 1, top + 2]), r.choice([1, 1, 2])])
    if t == "bad":
        return dict(t=t, v=r.choice(["set", "str", "float", "dict", "bytes"]))
    return dict(t=t)


class W:
    def __init__(self, c):
        self.r = random.Random(c["seed"])
        sim.seeded_random(c["seed"])
        self.s = sim.Sim(random.Random(c["seed"] + 1), engines=0, hwm=0)
        self.s.bcast_setup(c["depth"])
        self.cl = self.s.client
        self.cl.block = False
        self.sent = []
        out = self.s.client_out

        def client_out(c, ch, fr):
            if ch in ("mux", "task", "broadcast", "control"):
                i, m = sim.parse(fr)
                self.sent.append((ch, i[0].decode() if ch in ("mux", "control") else None, m))
            return out(c, ch, fr)

        self.s.client_out = client_out
        for _ in range(c["engines"]):
            self.join()
        self.acc = self.ref = 0
        self.fixed = []   # (view, expected ids)
        self.lazy = []

    def join(self):
        e = self.s.add_engine()
        e.kernel.shell.eid = e.eid
        self.s.drain()

    def leave(self):
        if self.s.engines:
            self.s.kill(self.r.choice(sorted(self.s.engines)))
            self.s.drain()

    @property
    def ids(self):
        return sorted(self.s.engines)

    def uuid(self, i):
        return self.s.engines[i].uuid

    def attempt(self, how, want, f, reach=None, ordered=True):
        """f() is accepted exactly when want says so, and reaches exactly those engines; reach(result) reads them"""
        self.sent.clear()
        done = len(self.s.executed)
        try:
            res = f()
        except Exception as e:
            self.s.drain()
            check(want is REFUSED, "refused-valid", lambda: f"{how} with ids {self.ids}: refused with {e!r}, though it selects {want}")
            check(not self.sent, "refused-but-sent", lambda: f"{how} with ids {self.ids}: refused, but messages were sent to {[(c, u) for c, u, _ in self.sent]}")
            self.ref += 1
            return None
        self.s.drain()
        check(want is not REFUSED, "accepted-invalid", lambda: f"{how} with ids {self.ids}: accepted, engines run {[e for e, _ in self.s.executed[done:]]}")
        self.acc += 1
        got = [e for e, _ in self.s.executed[done:]] if reach is None else reach(res)
        if not ordered or reach is None:
            check(sorted(got) == sorted(want), "wrong-engines", lambda: f"{how} with ids {self.ids}: reached {got}, selects {want}")
        else:
            check(got == want, "wrong-engines", lambda: f"{how} with ids {self.ids}: reached {got}, selects {want}")
        return res

    def hollow(self, t):
        """selects nothing, which for requests without a result is the same as refusing"""
        return t is not None and t != "all" and (t == [] or t == () or isinstance(t, range) and not t or isinstance(t, slice) and not self.ids[t])

    def vals(self, ar):
        v = ar.get(0)
        return v if isinstance(v, list) else [v]

    def view_matches(self, v, how, want):
        t = v.targets
        got = list(t) if isinstance(t, (list, tuple, range)) else self.ids if t in ("all", None) else [t]
        check(got == want, "view-targets", lambda: f"{how} with ids {self.ids}: targets {t!r}, selects {want}")
        check(len(v) == len(want), "view-length", lambda: f"{how} with ids {self.ids}: length {len(v)}, selects {want}")

    def call(self, v, how, want, single, targets=None):
        """some call on a direct or broadcast view that should reach `want`"""
        bc = type(v).__name__ == "BroadcastView"
        kw = {} if targets is None else dict(targets=targets)
        k = self.r.choice(["apply", "apply", "execute", "push", "pull", "scatter", "gather", "map", "clear", "abort"] if not bc else ["apply", "execute", "push", "pull"])
        mux = lambda _: [next(i for i in self.s.engines if self.uuid(i) == u) for c, u, _m in self.sent if c == "mux"]  # noqa: E731
        ctl = lambda _: [next(i for i in self.s.engines if self.uuid(i) == u) for c, u, _m in self.sent if c == "control"]  # noqa: E731
        how = f"{how}.{k}"
        if k == "apply":
            if kw:
                with v.temp_flags(**kw):
                    return self.attempt(how, want, lambda: v.apply_async(who), self.vals, ordered=not getattr(v, "is_coalescing", False))
            return self.attempt(how, want, lambda: v.apply_async(who), self.vals, ordered=not getattr(v, "is_coalescing", False))
        rd = None if bc else mux
        if k == "execute":
            return self.attempt(how, want, lambda: v.execute("pass", block=False, **kw), rd)
        if k == "push":
            return self.attempt(how, want, lambda: v.push(dict(q=1), block=False, **kw), rd)
        if k == "pull":
            return self.attempt(how, want, lambda: v.pull("__builtins__" if False else "__name__", block=False, **kw), rd)
        if k == "scatter":
            return self.attempt(how, want, lambda: v.scatter("z", list(range(20)), block=False, **kw), rd)
        if k == "gather":
            return self.attempt(how, want, lambda: v.gather("z", block=False, **kw), rd)
        if k == "map":
            if kw:
                with v.temp_flags(**kw):
                    return self.attempt(how, want, lambda: v.map_async(who, range(20)), rd)
            return self.attempt(how, want, lambda: v.map_async(who, range(20)), rd)
        if k == "clear":
            if want is REFUSED and not kw or self.hollow(targets):
                return
            return self.attempt(how, want, lambda: self.cl.clear(targets=v.targets, block=False) if not kw else v.clear(block=False, **kw), ctl)
        if k == "abort":
            if want is REFUSED and not kw or self.hollow(targets):
                return
            return self.attempt(how, want, lambda: v.abort(jobs=["nope"], block=False, **kw), ctl)

    def make(self, e, how, f, want):
        self.sent.clear()
        try:
            v = f()
        except Exception as x:
            check(want is REFUSED, "refused-valid", lambda: f"{how} with ids {self.ids}: refused with {x!r}, though it selects {want}")
            check(not self.sent, "refused-but-sent", lambda: f"{how}: refused, but sent something")
            self.ref += 1
            return None
        return v

    def one(self):
        r = self.r
        ids = self.ids
        e = expr(r, ids)
        want = resolve(e, ids)
        obj = build(e)
        how = r.choice(["index", "direct", "broadcast", "balanced", "attr", "arg", "lattr", "queue", "lmap"])
        desc = f"{how}[{obj!r}]"
        if how == "index":
            if e["t"] in ("all", "none", "bad"):
                want = REFUSED
            v = self.make(e, desc, lambda: self.cl[obj], want)
        elif how == "direct":
            v = self.make(e, desc, lambda: self.cl.direct_view(obj), want if e["t"] != "all" else want)
        elif how == "broadcast":
            v = self.make(e, desc, lambda: self.cl.broadcast_view(obj, is_coalescing=r.random() < .3), want)
        elif how in ("balanced", "lattr"):
            if how == "balanced":
                v = self.make(e, desc, lambda: self.cl.load_balanced_view(obj), want)
            else:
                v = self.cl.load_balanced_view()
                v.targets = obj
            if v is not None:
                def reach(ar):
                    t = self.sent[0][2]["metadata"]["targets"]
                    if not t:
                        return self.ids if e["t"] in ("all", "none") else ["any"]
                    return [next(i for i in self.s.engines if self.uuid(i) == u) for u in t]
                if not ids and e["t"] in ("all", "none"):
                    return
                if want is not REFUSED and how == "balanced":
                    self.view_matches(v, desc, want)
                ar = self.attempt(desc, want, lambda: v.apply_async(who), reach)
                if ar is not None:
                    check(ar.get(0) in want, "wrong-engine", lambda: f"{desc} with ids {ids}: ran on {ar.get(0)}, selects {want}")
            return
        elif how == "lmap":
            if not ids or e["t"] in ("all", "none"):
                return
            v = self.cl.load_balanced_view()
            with v.temp_flags(targets=obj):
                ar = self.attempt(desc, want, lambda: v.map_async(who, range(6)), lambda ar: sorted(set(want)) if set(ar.get(0)) <= set(want) else ar.get(0), ordered=False)
            return
        elif how == "attr":
            if not ids:
                return
            v = self.cl[:]
            v.targets = obj
            if want is not REFUSED:
                check(len(v) == len(want), "view-length", lambda: f"view with targets {obj!r}, ids {ids}: length {len(v)}, selects {want}")
            self.call(v, desc, want, False)
            return
        elif how == "arg":
            if not ids:
                return
            if e["t"] == "none":
                return
            v = self.cl[:] if r.random() < .7 else self.cl.broadcast_view()
            self.call(v, desc, want, False, targets=obj)
            return
        else:
            if e["t"] == "none" or not ids:
                return
            if want is REFUSED and e["t"] in ("slice", "list", "tuple", "range"):
                if resolve_empty(e, ids):
                    return
            self.attempt(desc, want, lambda: self.cl.queue_status(targets=obj), lambda q: want if "queue" in q else sorted(k for k in q if isinstance(k, int)), ordered=False)
            return
        if v is None:
            return
        if want is not REFUSED:
            self.view_matches(v, desc, want)
        self.call(v, desc, want, e["t"] == "int")
        if want is not REFUSED:
            if e["t"] == "all" and how == "direct":
                self.lazy.append((v, desc))
            elif how != "broadcast":
                self.fixed.append((v, desc, want))

    def older(self):
        """views made before membership changed"""
        r = self.r
        if self.lazy and r.random() < .5:
            v, desc = r.choice(self.lazy)
            check(len(v) == len(self.ids), "lazy-length", lambda: f"{desc}: length {len(v)}, engines {self.ids}")
            self.call(v, desc + " later", self.ids or REFUSED, False)
        elif self.fixed:
            v, desc, want = r.choice(self.fixed)
            check(len(v) == len(want), "view-length", lambda: f"{desc} later: length {len(v)}, selected {want}")
            self.call(v, desc + " later", want if all(x in self.ids for x in want) else REFUSED, False)

    def run(self, n):
        for _ in range(n):
            x = self.r.random()
            if x < .07:
                self.leave()
            elif x < .13:
                self.join()
            elif x < .35:
                self.older()
            else:
                self.one()
        return self.acc and self.ref


def resolve_empty(e, ids):
    try:
        return not build(e) or (e["t"] == "slice" and not ids[slice(*e["v"])]) or (e["t"] == "range" and not len(range(*e["v"])))
    except Exception:
        return False


def case_naming(c):
    return bool(W(c).run(c["n"]))


def gen(r):
    return dict(seed=r.randrange(1 << 30), engines=r.choice([0, 1, 2, 3, 4, 5, 7]), depth=r.choice([0, 1, 2]), n=r.choice([10, 30]))


d.add("naming", case_naming, gen=gen)
d.main()
