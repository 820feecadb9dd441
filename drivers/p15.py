"""P15: result handles resolve once, truthfully, in order."""
import random
from concurrent.futures import CancelledError, Future

from common import Driver, check

d = Driver("P15", "random histories of direct, load-balanced and mapped calls of a real client on the simulated cluster, with engines lost and joining, aborts, output and "
           "replies moving in any order, handles split, joined and re-requested, each query at each point compared with a model of what has been delivered; random "
           "completion orders of combined futures; a case counts when at least three finished handles were queried")
import sim  # noqa: E402,F401
import cworld  # noqa: E402

from ipyparallel.client.futures import MessageFuture, multi_future  # noqa: E402


def case_history(c):
    return cworld.CWorld(c, {"P15"}).run()


def gen(r):
    return dict(seed=r.randrange(1 << 30), engines=r.choice([1, 2, 2, 3, 4]), n=r.choice([20, 60, 120]), faults=r.random() < .4, hwm=r.choice([0, 1]), bcast=r.choice([None, None, 0, 1, 2]))


def case_combined(c):
    r = random.Random(c["seed"])
    fs = [(MessageFuture(str(i)) if r.random() < .5 else Future()) for i in range(c["n"])]
    kids = fs + [r.choice(fs) for _ in range(c["dup"])] if fs else []
    r.shuffle(kids)
    order = list(range(len(fs)))
    r.shuffle(order)
    plan = {i: r.choice(["ok", "ok", "ok", "bad", "cancel" if c["cancel"] else "ok"]) for i in order}

    def finish(i):
        if plan[i] == "ok":
            fs[i].set_result(i)
        elif plan[i] == "bad":
            fs[i].set_exception(ValueError(i))
        else:
            fs[i].cancel()

    pre = order[:c["pre"]]
    for i in pre:
        finish(i)
    calls = []
    f = multi_future(kids)
    f.add_done_callback(lambda x: calls.append(x))
    used = {fs.index(k) for k in kids}
    done = set(pre)
    check(f.done() == (used <= done), "combined-early", lambda: f"combined future done: {f.done()} with {len(done & used)} of {len(used)} parts done")
    for i in order[c["pre"]:]:
        finish(i)
        done.add(i)
        check(f.done() == (used <= done), "combined-done", lambda: f"combined future done: {f.done()} with {len(done & used)} of {len(used)} parts done")
    check(calls == [f], "combined-callback", lambda: f"callback ran {len(calls)} times")
    bad = [fs.index(k) for k in kids if plan[fs.index(k)] != "ok"]
    if bad:
        e = None
        try:
            f.result(0)
        except (Exception, CancelledError) as x:
            e = x
        check(e is not None, "combined-failure", lambda: f"parts {bad} failed, combined gives {f.result(0)}")
        check(isinstance(e, CancelledError) if plan[bad[0]] == "cancel" else (isinstance(e, ValueError) and e.args == (bad[0],)), "combined-failure", lambda: f"first failing part {bad[0]} ({plan[bad[0]]}), combined raises {e!r}")
    else:
        check(f.result(0) == [fs.index(k) for k in kids], "combined-values", lambda: f"{f.result(0)}")
    for k in kids:
        if isinstance(k, MessageFuture) and plan[fs.index(k)] != "cancel":
            check(k.wait(0) is True, "message-wait", lambda: "a finished message future does not report it")
    return len(fs) > 1


def case_unloadable(c):
    """a reply whose value cannot be loaded is still a reply: the handle resolves, with that failure"""
    r = random.Random(c["seed"])
    s = sim.Sim(random.Random(c["seed"] + 1), engines=2)
    s.drain()
    cl = s.client
    cl.block = False
    kinds = [r.choice(["ok", "ok", "bad", "unloadable", "unloadable"]) for _ in range(c["n"])]
    ars = []
    for i, k in enumerate(kinds):
        v = cl[r.randrange(2)] if r.random() < .5 else cl.load_balanced_view()
        ars.append(v.apply_async(cworld.give, i, k))
    while True:
        try:
            s.drain()
            break
        except LookupError:
            pass  # an event loop logs what a handler raises and goes on
    want = dict(bad="ValueError", unloadable="LookupError")
    for i, (k, ar) in enumerate(zip(kinds, ars)):
        check(ar.ready(), "unloadable-not-ready", lambda: f"call {i} ({k}) is not ready after every reply has come: {kinds}")
        check(ar.successful() == (k == "ok"), "unloadable-successful", lambda: f"call {i} ({k}): successful() is {ar.successful()}")
        try:
            got = ("value", ar.get(0))
        except Exception as e:
            got = ("raised", getattr(e, "ename", type(e).__name__))
        check(got == (("value", i) if k == "ok" else ("raised", want[k])), "unloadable-get", lambda: f"call {i} ({k}): get gave {got}")
    check(not cl.outstanding, "unloadable-outstanding", lambda: f"outstanding after every reply: {cl.outstanding}")
    return "unloadable" in kinds


def case_blocking(c):
    """blocking iteration and get while another thread runs the network"""
    w = cworld.CWorld(c, {"P15"})
    rec = None
    while rec is None:
        rec = w.submit()
        if rec is not None and rec.single:
            rec = None
    got, err = [], None
    with w.s.pump():
        try:
            for x in rec.ar:
                got.append(x)
        except Exception as e:
            err = e
    w.s.drain()
    fails = w.failures(rec)
    if not fails:
        check(err is None and got == list(w.value(rec)), "iter-blocking", lambda: f"{rec.kind}: iterating gave {got} {err!r}, expected {w.value(rec)}")
    else:
        check(err is not None, "failure-unreported", lambda: f"{rec.kind}: iterating gave {got}, failures {fails}")
        names = [x[0] for x in err.elist] if hasattr(err, "elist") else [err.ename]
        check(all(n in [f[0] for f in fails] for n in names), "iter-failure", lambda: f"{names} vs {fails}")
    for how in ("ready", "get", "meta", "output"):
        w.look(rec, how)
    return True


d.add("history", case_history, gen=gen, weight=6)
d.add("combined", case_combined, gen=lambda r: (lambda n: dict(seed=r.randrange(1 << 30), n=n, dup=r.choice([0, 0, 1, 3]), pre=r.randrange(n + 1), cancel=r.random() < .2))(r.randrange(1, 7)))
d.add("unloadable", case_unloadable, gen=lambda r: dict(seed=r.randrange(1 << 30), n=r.randrange(1, 8)), weight=1)
d.add("blocking", case_blocking, gen=lambda r: dict(seed=r.randrange(1 << 30), engines=r.choice([2, 3]), n=0, faults=False), weight=1)
d.main()
