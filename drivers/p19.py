"""P19: view options."""
from common import Driver, check

d = Driver("P19", "random programs of setting options (all together, one by one, for a block, for one call, invalid ones, in blocks that raise) on load-balanced, direct and broadcast views and of calls of every kind on them, "
           "the options carried by every message sent and the views' attributes afterwards compared with a stack model; a case counts when a call was made inside a block with temporary options")
import inspect  # noqa: E402
import random  # noqa: E402

import sim  # noqa: E402

import ipyparallel as ipp  # noqa: E402

SIG = inspect.signature(sim.js.Session.send)
Dependency = ipp.Dependency


try:
    LB = {"track", "after", "follow", "timeout", "targets", "retries", "label"} & set(inspect.signature(ipp.LoadBalancedView._really_apply).parameters)
except Exception:
    LB = set()


def f0(*a, **k):
    return len(a)


class Boom(Exception):
    pass


def canon(x):
    """what a rendered dependency means"""
    if isinstance(x, dict):
        return (sorted(set(x["dependencies"])), bool(x["all"]), bool(x["success"]), bool(x["failure"]))
    return (sorted(set(x or [])), True, True, False)


def nodep(c):
    return c if c[0] else ([],)


class V:
    """a view and what its options should be"""

    def __init__(self, kind, v, flags):
        self.kind, self.v, self.flags = kind, v, flags


class W:
    def __init__(self, c):
        self.r = random.Random(c["seed"])
        sim.seeded_random(c["seed"])
        self.s = sim.Sim(random.Random(c["seed"] + 1), engines=0, hwm=0)
        self.s.bcast_setup(1)
        self.cl = self.s.client
        self.cl.block = False
        for _ in range(c["engines"]):
            self.s.add_engine()
        self.s.drain()
        self.ids = sorted(self.s.engines)
        self.uuid = {i: e.uuid for i, e in self.s.engines.items()}
        self.sent = []
        out = self.s.client_out

        def client_out(cl, ch, fr):
            if ch in ("mux", "task", "broadcast"):
                i, m = sim.parse(fr)
                self.sent.append((ch, i[0].decode() if ch == "mux" else None, m, self.track))
            self.track = None
            return out(cl, ch, fr)

        self.s.client_out = client_out
        self.track = None
        send = self.cl.session.send

        def session_send(*a, **k):
            # (the transport drops tracking for streams, so it is seen where it is asked for)
            self.track = SIG.bind(None, *a, **k).arguments.get("track", False)
            return send(*a, **k)

        self.cl.session.send = session_send
        self.ars = []
        self.views = []
        self.inside = 0
        for k in ("lb", "lb", "dv", "bv"):
            self.make(k)

    def make(self, kind):
        base = dict(block=False, track=False, label=None)
        if kind == "lb":
            v = self.cl.load_balanced_view()
            base.update(targets=None, follow=None, after=None, timeout=v.timeout, retries=0)
        elif kind == "dv":
            v = self.cl[:]
            base.update(targets=list(self.ids))
        else:
            v = self.cl.broadcast_view()
            base.update(targets=list(self.ids))
        self.views.append(V(kind, v, base))

    # ------------------------------------------------------------------ options
    def dep(self):
        r = self.r
        some = r.sample(self.ars, min(len(self.ars), r.randrange(3)))
        ids = [m for a in some for m in a.msg_ids]
        k = r.randrange(9)
        if k == 0:
            return None, ([],)
        if k == 1:
            return "some-id", (["some-id"], True, True, False)
        if k == 2 and some:
            return some[0], (sorted(some[0].msg_ids), True, True, False)
        if k == 3:
            return list(ids), (sorted(ids), True, True, False)
        if k == 4:
            return list(some) + ["x"], (sorted(ids + ["x"]), True, True, False)
        if k == 5:
            return set(some) | {"y"}, (sorted(ids + ["y"]), True, True, False)
        al, su = r.random() < .5, r.random() < .5
        fa = r.random() < .5 or not su
        if k == 6:
            return Dependency(some + ["z"], all=al, success=su, failure=fa), (sorted(ids + ["z"]), al, su, fa)
        if k == 7:
            return Dependency(ids, all=al, success=su, failure=fa), (sorted(ids), al, su, fa)
        return dict(dependencies=ids + ["w"], all=al, success=su, failure=fa), (sorted(ids + ["w"]), al, su, fa)

    def value(self, v, name):
        """a valid value of an option: what is given, what messages and attributes then hold"""
        r = self.r
        if name == "block":
            return False, False
        if name == "track":
            b = r.random() < .5
            return b, b
        if name == "label":
            x = r.choice([None, "a", "label two", "3"])
            return x, x
        if name == "targets":
            if v.kind == "lb" and r.random() < .4:
                return None, None
            x = sorted(r.sample(self.ids, r.randrange(1, len(self.ids) + 1)))
            return x, x
        if name == "timeout":
            x = r.choice([None, 0, 5, 0.5, 1e6])
            return x, x
        if name == "retries":
            x = r.choice([0, 1, 2, 7])
            return x, x
        return self.dep()

    def names(self, v):
        return ["block", "track", "targets", "label"] + (["follow", "after", "timeout", "retries"] if v.kind == "lb" else [])

    def some(self, v):
        ns = self.r.sample(self.names(v), self.r.randrange(1, 4))
        got = {n: self.value(v, n) for n in ns}
        return {n: g for n, (g, _) in got.items()}, {n: (w, g) for n, (g, w) in got.items()}

    def invalid(self, v):
        r = self.r
        bad = [dict(nonsense=1), dict(block="maybe"), dict(track=[1]), dict(history=["x"]), dict(client=None)]
        if v.kind == "lb":
            bad += [dict(timeout=-1), dict(timeout="x"), dict(retries="many"), dict(retries=1.5), dict(follow=3), dict(after=[1]), dict(after=b"x"), dict(follow=dict(a=1)),
                    dict(after=dict(dependencies="x", all=True, success=True, failure=False)), dict(after=dict(dependencies=[1], all=True, success=True, failure=False))]
        else:
            bad += [dict(retries=1), dict(after=["x"]), dict(timeout=3)]
        b = r.choice(bad)
        ok, _ = self.some(v)
        items = list({**ok, **b}.items())
        r.shuffle(items)
        return dict(items)

    def attrs(self, v):
        out = {}
        for n in self.names(v):
            x = getattr(v.v, n)
            if isinstance(x, Dependency):
                x = ("dep", sorted(x), x.all, x.success, x.failure)
            elif isinstance(x, (set, list, tuple)):
                x = (type(x).__name__, sorted(str(id(y)) if hasattr(y, "msg_ids") else repr(y) for y in x))
            elif isinstance(x, dict):
                x = repr(sorted(x.items()))
            out[n] = x
        return out

    # ------------------------------------------------------------------ expectations
    def flag(self, v, name):
        x = v.flags[name]
        return x[0] if isinstance(x, tuple) and len(x) == 2 and name in ("follow", "after") else x

    def see(self, v, how, over=None, engines=None, tracked=None):
        """the messages just sent carry the options"""
        want = dict(v.flags)
        want.update(over or {})
        for ch, u, m, tr in self.sent:
            md = m["metadata"]
            check(md.get("label") == want["label"], "label-differs", lambda: f"{how}: message carries label {md.get('label')!r}, the view's is {want['label']!r}")
            if tr is not None and m["buffers"]:
                t = want["track"] if tracked is None else tracked
                check(bool(tr) == bool(t), "track-differs", lambda: f"{how}: sent with track={tr}, the view's is {t}")
            if v.kind == "lb":
                check(md["retries"] == want["retries"], "retries-differ", lambda: f"{how}: message carries retries {md['retries']!r}, the view's are {want['retries']!r}")
                t = md["timeout"]
                check(t == want["timeout"] or (t is None) == (want["timeout"] is None) and t is not None and float(t) == float(want["timeout"]), "timeout-differs",
                      lambda: f"{how}: message carries timeout {t!r}, the view's is {want['timeout']!r}")
                ts = [self.uuid[i] for i in want["targets"] or []]
                check(md["targets"] == ts, "targets-differ", lambda: f"{how}: message may run on {md['targets']}, the view's targets are {want['targets']}")
                for n in ("follow", "after"):
                    w = want[n] or ([],)
                    g = canon(md[n])
                    check(nodep(g) == nodep(w) if len(w[0]) == 0 else g == w, f"{n}-differs", lambda: f"{how}: message carries {n} {md[n]!r}, the view's means {w!r}")
        if v.kind == "dv":
            got = [u for _, u, _, _ in self.sent]
            ts = [self.uuid[i] for i in (engines or want["targets"])]
            check(got == ts, "engines-differ", lambda: f"{how}: sent to {got}, the targets are {ts}")
        if v.kind == "bv":
            for ch, u, m, _ in self.sent:
                if ch == "broadcast":
                    got = [t for t, _ in m["metadata"]["targets"]]
                    ts = [self.uuid[i] for i in (engines or want["targets"])]
                    check(got == ts, "engines-differ", lambda: f"{how}: sent to {got}, the targets are {ts}")

    def same(self, v, before, how):
        after = self.attrs(v)
        check(after == before, "options-changed", lambda: f"{how}: options were {before}, are {after}")

    # ------------------------------------------------------------------ actions
    def call(self, v):
        r = self.r
        self.sent.clear()
        big = (b"x" * 300000,) if r.random() < .2 else ()
        before = self.attrs(v)
        kinds = {"lb": ["apply", "async", "map", "remote", "parallel", "executor", "pmap"] + (["given"] if LB else []), "dv": ["apply", "async", "map", "remote", "parallel", "execute", "push", "pull", "executor"],
                 "bv": ["apply", "async", "execute", "push", "remote"]}[v.kind]
        k = r.choice(kinds)
        over, engines, tracked = {}, None, None
        ar = None
        if k == "apply":
            ar = v.v.apply(f0, *big)
        elif k == "async":
            ar = v.v.apply_async(f0, *big, x=1)
        elif k == "given":
            # the apply of one task with options of its own: those given count, for the others the view's
            given, want = self.some(v)
            over = {n: w for n, (w, g) in want.items() if n in LB and g is not None}
            ar = v.v._really_apply(f0, big, {}, block=False, **{n: given[n] for n in over})
        elif k == "executor":
            ar = v.v.executor.submit(f0, *big)
        elif k == "map":
            if r.random() < .5 and v.kind != "bv":
                over["label"] = r.choice(["m1", "m2"])
            ar = v.v.map(f0, range(5), block=False, **over)
            if v.kind == "dv":
                engines = v.flags["targets"][:5]
            if v.kind == "dv":
                tracked = False  # its own argument, off by default
        elif k in ("remote", "parallel", "pmap"):
            given, want = self.some(v)
            given.pop("block", None)
            want.pop("block", None)
            over = {n: w for n, (w, g) in want.items()}
            if k == "remote":
                ar = v.v.remote(block=False, **given)(f0)(*big)
            else:
                p = v.v.parallel(block=False, **given)(f0)
                ar = p(range(3)) if k == "parallel" else p.map(range(3))
                if v.kind == "dv":
                    engines = over.get("targets", v.flags["targets"])[:3]
        elif k == "execute":
            if r.random() < .3:
                engines = [r.choice(self.ids)]
            if r.random() < .3 and v.kind == "dv":
                over["label"] = "ex"
            kw = dict(over)
            if engines:
                kw["targets"] = list(engines)
            ar = v.v.execute("1", block=False, **kw)
        elif k == "push":
            if r.random() < .3:
                engines = [r.choice(self.ids)]
            kw = dict(targets=list(engines)) if engines else {}
            if r.random() < .5:
                kw["track"] = tracked = r.random() < .5
            ar = v.v.push(dict(k=big), block=False, **kw)
        elif k == "pull":
            ar = v.v.pull("k", block=False)
        check(self.sent, "nothing-sent", lambda: f"{v.kind}.{k}: nothing was sent")
        self.see(v, f"{v.kind}.{k} with {({n: x for n, x in v.flags.items() if x})} and {over}", over, engines, tracked)
        self.same(v, before, f"{v.kind}.{k}")
        if hasattr(ar, "msg_ids"):
            self.ars.append(ar)
        self.inside += self.depth > 0
        if r.random() < .3:
            self.s.steps(r.randrange(40))

    depth = 0

    def change(self, v):
        r = self.r
        if r.random() < .25:
            n = r.choice(self.names(v))
            g, w = self.value(v, n)
            setattr(v.v, n, g)
            v.flags[n] = w
        else:
            given, want = self.some(v)
            v.v.set_flags(**given)
            for n, (w, g) in want.items():
                v.flags[n] = w

    def refused(self, v):
        before = self.attrs(v)
        bad = self.invalid(v)
        how = self.r.choice(["set", "temp"] + (["remote"] if "client" not in bad else []))
        self.sent.clear()
        try:
            if how == "set":
                v.v.set_flags(**bad)
            elif how == "temp":
                with v.v.temp_flags(**bad):
                    pass
            else:
                bad.pop("block", None)
                bad["nonsense"] = 1
                v.v.remote(block=False, **bad)(f0)()
        except Exception:
            self.same(v, before, f"{v.kind}: refused {how} of {bad}")
            check(not self.sent, "refused-but-sent", lambda: f"{how} of {bad} refused, but a message was sent")
        else:
            check(False, "accepted-invalid", lambda: f"{v.kind}: {how} of {bad} was accepted")

    def refused_call(self, v):
        """a call that raises"""
        before = self.attrs(v)
        try:
            k = self.r.randrange(3)
            if k == 0:
                v.v.remote(block=False, label="t")(f0)(Unpicklable())
            elif k == 1:
                v.v.map(f0, broken(), block=False)
            elif v.kind == "lb":
                v.v.map(f0, [Unpicklable()], block=False, label="q")
            else:
                v.v.push(7)
        except Exception:
            pass
        self.same(v, before, f"{v.kind}: a call that raises")

    def block(self, v, depth):
        given, want = self.some(v)
        before = self.attrs(v)
        old = dict(v.flags)
        raises = self.r.random() < .4
        try:
            with v.v.temp_flags(**given):
                for n, (w, g) in want.items():
                    v.flags[n] = w
                self.depth += 1
                for _ in range(self.r.randrange(1, 5)):
                    self.act(depth + 1)
                if raises:
                    raise Boom
        except Boom:
            check(raises, "spurious-raise", "raised")
        else:
            check(not raises, "swallowed", lambda: f"an exception raised in a block with temporary options {given} disappeared")
        finally:
            self.depth -= 1
        v.flags = old
        self.same(v, before, f"{v.kind}: after a block with {given}{' that raised' if raises else ''}")

    def act(self, depth=0):
        v = self.r.choice(self.views)
        x = self.r.random()
        if x < .45:
            self.call(v)
        elif x < .6:
            self.change(v)
        elif x < .72:
            self.refused(v)
        elif x < .76:
            self.refused_call(v)
        elif depth < 3:
            self.block(v, depth)

    def run(self, n):
        for _ in range(n):
            self.act()
        return self.inside > 0


class Unpicklable:
    def __reduce__(self):
        raise TypeError("not this one")


def broken():
    yield 1
    raise ValueError("broken sequence")


def case_options(c):
    return W(c).run(c["n"])


def gen(r):
    return dict(seed=r.randrange(1 << 30), engines=r.choice([1, 2, 3, 5]), n=r.choice([10, 30]))


d.add("options", case_options, gen=gen)
d.main()
