"""P02: a parallel map gives what the builtin map gives."""
import itertools
import random
import threading

from common import Driver, check, fail

d = Driver("P02", "random maps over a simulated cluster of the real controller, client and engine code: 1-5 engines, direct / "
           "load-balanced / broadcast views, chunk sizes, ordered or not, several sequences of unequal lengths, generators, "
           "failing elements; message schedules drawn from the seed.  A case counts when at least two elements were mapped")
import sim  # noqa: E402

import ipyparallel as ipp  # noqa: E402


def f1(x):
    return ("f", x)


def f2(x, y):
    return (x, y)


def f3(x, y, z):
    return [x, y, z]


def flist(x):
    return [x] * (x % 3)


def fnone(x):
    return None


def fbad(x):
    if x % 5 == 3:
        raise ValueError(f"bad {x}")
    return x


FS = dict(f1=f1, f2=f2, f3=f3, flist=flist, fnone=fnone, fbad=fbad)


def seqs(kind, lens):
    out, ref = [], []
    for i, n in enumerate(lens):
        base = [10 * i + j for j in range(n)]
        k = kind[i]
        out.append({"list": lambda: list(base), "tuple": lambda: tuple(base), "range": lambda: range(10 * i, 10 * i + n),
                    "gen": lambda: (b for b in base), "iter": lambda: iter(base)}[k]())
        ref.append(base)
    return out, ref


def mkview(s, c):
    if c["view"] == "lb":
        return s.client.load_balanced_view(c["targets"])
    return s.client.direct_view(c["targets"] if c["targets"] is not None else "all")


def case_map(c):
    sim.seeded_random(c["seed"])
    s = sim.Sim(random.Random(c["seed"]), engines=c["engines"], hwm=c["hwm"], scheme=c["scheme"])
    v = mkview(s, c)
    f = FS[c["f"]]
    ss, ref = seqs(c["kinds"], c["lens"])
    want = list(map(f, *ref))
    kw = dict(return_exceptions=c["rexc"])
    if c["view"] == "lb":
        kw.update(chunksize=c["chunk"], ordered=c["ordered"])
    ar = v.map_async(f, *ss, **kw)
    if max(c["lens"]) == 0:
        check(list(ar) == [], "empty-map", f"map over nothing gave {ar!r}")
        return False
    if c["mode"] == "get":
        s.drain()
        check(ar.ready(), "not-ready", lambda: f"map not finished after every message was delivered; {s.sched.queue!r}")
        got = ar.get(timeout=0)
        check(type(got) is list, "get-type", f"map gave a {type(got)}")
        again = ar.get(timeout=0)
        check(again == got, "get-twice", f"{got!r} then {again!r}")
        it = list(ar)
        check(it == want, "iterate-finished", f"iterating the finished map gave {it!r}, builtin map gives {want!r}")
    else:
        s.steps(c["pre"])
        with s.pump():
            got = list(ar)
        if not c["ordered"] and c["view"] == "lb":
            check(sorted(map(repr, got)) == sorted(map(repr, want)), "unordered-elements",
                  f"unordered map yielded {got!r}, the elements are {want!r}")
            got = want
    check(got == want, f"value-{c['view']}", f"map over {ref!r} gave {got!r}, builtin map gives {want!r}")
    if len(want) == len(ref[0]) and c["view"] == "lb" and c["chunk"] == 1 and len(set(c["lens"])) == 1:
        check(len(ar) == len(want), "len", f"len of the result is {len(ar)} for {len(want)} elements")
    check(not s.client.outstanding, "outstanding-left", f"{s.client.outstanding}")
    return len(want) > 1


def gen_map(r, view=None):
    fn = r.choice(["f1", "f1", "f2", "f3", "flist", "fnone"])
    ns = {"f2": 2, "f3": 3}.get(fn, 1)
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 11, 16])
    lens = [n if r.random() < .7 else max(0, n + r.randrange(-3, 6)) for _ in range(ns)]
    e = r.randrange(1, 5)
    return dict(seed=r.randrange(10**9), engines=e, view=view or r.choice(["lb", "direct"]),
                targets=None if r.random() < .6 else sorted(r.sample(range(e), r.randrange(1, e + 1))),
                f=fn, kinds=[r.choice(["list", "tuple", "range", "gen", "iter"]) for _ in lens], lens=lens,
                chunk=r.choice([1, 1, 2, 3, 4, 7, 100, None]), ordered=r.random() < .6, rexc=r.random() < .2,
                hwm=r.choice([0, 1, 2]), scheme=r.choice(["leastload", "lru", "plainrandom", "twobin", "weighted"]),
                mode=r.choice(["get", "iter"]), pre=r.randrange(0, 60))


def case_bcast(c):
    sim.seeded_random(c["seed"])
    s = sim.Sim(random.Random(c["seed"]), engines=c["engines"], bdepth=c["depth"])
    s.bcast_setup(c["depth"])
    v = s.client.broadcast_view(c["targets"] or "all", is_coalescing=c["co"])
    ss, ref = seqs(c["kinds"], c["lens"])
    f = FS[c["f"]]
    want = list(map(f, *ref))
    ar = v.map(f, *ss, block=False)
    s.drain()
    got = ar.get(timeout=0)
    check(got == want, "value-broadcast", f"map over {ref!r} gave {got!r}, builtin map gives {want!r}")
    check(list(ar) == want, "iter-broadcast", lambda: f"{list(ar)!r}")
    return len(want) > 1


def gen_bcast(r):
    c = gen_map(r)
    c.update(depth=r.choice([0, 1, 2]), co=r.random() < .5, lens=[c["lens"][0]] * len(c["lens"]))
    if not max(c["lens"]):
        c["lens"] = [3] * len(c["lens"])
    return c


def case_fail(c):
    """one failing element: the map fails; with return_exceptions the failure stays in its place"""
    sim.seeded_random(c["seed"])
    s = sim.Sim(random.Random(c["seed"]), engines=c["engines"])
    v = mkview(s, c)
    xs = list(range(c["n"]))
    kw = dict(chunksize=c["chunk"]) if c["view"] == "lb" else {}
    ar = v.map_async(fbad, xs, return_exceptions=c["rexc"], **kw)
    s.drain()
    bad = [x for x in xs if x % 5 == 3]
    check(ar.ready(), "fail-not-ready", "map with a failing element never finishes")
    # what each task covers
    if c["view"] == "lb":
        q = -(-c["n"] // c["chunk"])
    else:
        q = len(v.targets) if isinstance(v.targets, list) else c["engines"]
    parts, at = [], 0
    for p in range(q):
        k = c["n"] // q + (1 if p < c["n"] % q else 0)
        if k:
            parts.append(xs[at:at + k])
        at += k
    if not c["rexc"]:
        if not bad:
            check(ar.get(timeout=0) == xs, "fail-value", "")
            return False
        try:
            r = ar.get(timeout=0)
        except (ipp.error.CompositeError, ipp.error.RemoteError) as e:
            r = ar.get(timeout=0, return_exceptions=True)
        else:
            fail("failure-hidden", f"map with failing elements {bad} returned {r!r}")
    else:
        got = ar.get(timeout=0)
        want = []
        for p in parts:
            b = [x for x in p if x in bad]
            if b:
                want.append(("!", f"bad {b[0]}"))
            else:
                want += p
        norm = [("!", g.evalue) if isinstance(g, Exception) else g for g in got]
        check(norm == want, "return-exceptions-place", f"got {norm!r}, expected {want!r}")
    return bool(bad)


def case_imap(c):
    sim.seeded_random(c["seed"])
    s = sim.Sim(random.Random(c["seed"]), engines=c["engines"])
    v = s.client.load_balanced_view()
    out = []
    n = c["n"]
    seen = []
    f = FS[c["f"]]
    n2 = max(0, n + c["extra"])
    limit = c["engines"] if c["mo"] == "auto" else c["mo"]
    running, peak = [], [0]
    real = v.apply_async

    def counted(*a, **k):
        running[:] = [x for x in running if not x.done()]
        ar = real(*a, **k)
        running.append(ar)
        peak[0] = max(peak[0], len(running))
        return ar

    v.apply_async = counted

    def src():
        for i in range(n):
            seen.append(i)
            yield i
        if c["boom"]:
            raise KeyError("source failed")

    ss = (src(), range(50, 50 + n2)) if f is f2 else (src(),)
    want, failed = [], None
    for i in range(min(n, n2) if f is f2 else n):
        try:
            want.append(f(*((i, 50 + i) if f is f2 else (i,))))
        except ValueError as e:
            want.append(("!", str(e)))
    with s.pump():
        err = None
        try:
            g = v.imap(f, *ss, ordered=c["ordered"], max_outstanding=c["mo"], return_exceptions=c["rexc"])
            for x in g:
                out.append(("!", x.evalue) if isinstance(x, Exception) else x)
        except Exception as e:
            err = e
    if limit:
        check(peak[0] <= limit, "imap-outstanding", f"{peak[0]} calls outstanding at once, the limit is {limit}")
    if c["boom"] and not (f is f2 and n2 < n):
        check(isinstance(err, KeyError) or (not c["rexc"] and isinstance(err, ipp.RemoteError)), "imap-source-error", f"the input iterator failed with KeyError, the map raised {err!r}")
        return n > 1
    bad = [w for w in want if isinstance(w, tuple) and w[0] == "!"]
    if bad and not c["rexc"]:
        check(isinstance(err, ipp.RemoteError) and ("!", err.evalue) in bad, "imap-failure", f"elements {bad} fail, the map raised {err!r} after {out!r}")
        if c["ordered"]:
            check(out == want[:want.index(bad[0])], "imap-before-failure", f"{out!r} before the failure at {bad[0]}")
        return n > 1
    check(err is None, "imap-error", f"{err!r}")
    if c["ordered"]:
        check(out == want, "imap-ordered", f"{out!r} instead of {want!r}")
    else:
        check(sorted(out, key=repr) == sorted(want, key=repr), "imap-unordered", f"{out!r} instead of {want!r}")
    check(seen == list(range(n)) or f is f2, "imap-consumption", f"consumed {seen!r}")
    return n > 1


def case_parallel(c):
    """@parallel functions: one call per part, rejoined"""
    sim.seeded_random(c["seed"])
    s = sim.Sim(random.Random(c["seed"]), engines=c["engines"])
    v = s.client[:]

    def doubled(x):
        return [2 * i for i in x]

    pf = v.parallel(dist=c["dist"], block=False)(doubled)
    xs = list(range(c["n"]))
    ar = pf(xs)
    s.drain()
    got = ar.get(timeout=0)
    check(got == [2 * i for i in xs], f"parallel-{c['dist']}", f"{got!r}")
    ar = pf.map(xs)
    f = v.parallel(dist=c["dist"], block=False)(f1)
    ar = f.map(xs)
    s.drain()
    got = ar.get(timeout=0)
    check(got == [f1(i) for i in xs], f"parallel-map-{c['dist']}", f"{got!r}")
    return c["n"] > 1


d.add("map", case_map, gen=gen_map, weight=5)
d.add("bcast", case_bcast, gen=gen_bcast, weight=2)
d.add("fail", case_fail, weight=2, gen=lambda r: dict(
    seed=r.randrange(10**9), engines=r.randrange(1, 5), view=r.choice(["lb", "direct"]), targets=None, n=r.randrange(1, 15),
    chunk=r.choice([1, 2, 3, 5]), rexc=r.random() < .7))
d.add("imap", case_imap, weight=2, gen=lambda r: dict(
    seed=r.randrange(10**9), engines=r.randrange(1, 4), n=r.randrange(0, 12), ordered=r.random() < .6, mo=r.choice([0, 1, 2, 3, 5, "auto"]),
    f=r.choice(["f1", "f1", "f2", "fbad", "fnone"]), extra=r.randrange(-3, 3), rexc=r.random() < .5, boom=r.random() < .2))
d.add("parallel", case_parallel, gen=lambda r: dict(seed=r.randrange(10**9), engines=r.randrange(1, 6), n=r.randrange(1, 20), dist=r.choice("br")))
d.main()
