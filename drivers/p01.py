"""P01: cutting a sequence into parts and rejoining them gives the sequence back."""
from collections import deque

from common import Driver, check, fail

d = Driver("P01", "every (length, parts) pair up to 33x12 for lists and both distributions, plus random lists, tuples, "
           "strings, ranges, deques and 1-d/2-d arrays of several dtypes; a case counts when there is at least one element")
import numpy as np  # noqa: E402

from ipyparallel.client import map as M  # noqa: E402

KINDS = ["list", "tuple", "range", "str", "bytes", "deque", "dictkeys", "arr-int", "arr-float", "arr-2d", "arr-str", "arr-bool", "arr-obj", "list-none", "list-arr", "arr-complex", "arr-dt"]


def make(kind, n):
    if kind == "list":
        return [f"v{i}" for i in range(n)]
    if kind == "list-none":
        return [None if i % 3 else i for i in range(n)]
    if kind == "list-arr":
        return [[i, i + 1] for i in range(n)]
    if kind == "tuple":
        return tuple(range(100, 100 + n))
    if kind == "range":
        return range(3, 3 + 2 * n, 2)
    if kind == "str":
        return "".join(chr(0x61 + i % 26) for i in range(n))
    if kind == "bytes":
        return bytes(i % 256 for i in range(n))
    if kind == "deque":
        return deque(range(n))
    if kind == "dictkeys":
        return {f"k{i}": i for i in range(n)}.keys()
    if kind == "arr-int":
        return np.arange(n, dtype="int32") * 7
    if kind == "arr-float":
        return np.arange(n) / 4
    if kind == "arr-2d":
        return np.arange(3 * n, dtype="int64").reshape(n, 3)
    if kind == "arr-str":
        return np.array([f"s{i}" for i in range(n)], dtype="U6")
    if kind == "arr-bool":
        return np.arange(n) % 3 == 0
    if kind == "arr-obj":
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = ("x", i)
        return a
    if kind == "arr-complex":
        return np.arange(n) * (1 + 2j)
    if kind == "arr-dt":
        return np.arange(n).astype("datetime64[D]")
    raise AssertionError(kind)


def aslist(x):
    return x.tolist() if isinstance(x, np.ndarray) else list(x)


def expected_block(n, q):
    sizes = [n // q + (1 if p < n % q else 0) for p in range(q)]
    out, at = [], 0
    for s in sizes:
        out.append((at, at + s))
        at += s
    return out


def parts_of(m, seq, q, n=None):
    return [m.getPartition(seq, p, q) if n is None else m.getPartition(seq, p, q, n) for p in range(q)]


def case_round_trip(c):
    dist, kind, n, q, passn = c
    m = M.dists[dist]()
    seq = make(kind, n)
    if dist == "r" and kind in ("deque", "dictkeys"):
        return False  # striping needs slicing
    ref = aslist(make(kind, n))
    parts = parts_of(m, seq, q, n if passn else None)
    check(aslist(seq) == ref, "input-mutated", "partitioning changed the caller's sequence")
    for p, part in enumerate(parts):
        got = aslist(part)
        if dist == "b":
            a, b = expected_block(n, q)[p]
            want = ref[a:b]
        else:
            want = ref[p::q]
        check(got == want, f"part-{dist}", f"part {p} of {q} of {kind}[{n}] is {got!r}, expected {want!r}")
        check(abs(len(got) - n / q) < 1, f"balance-{dist}", f"part {p} has {len(got)} of {n} elements over {q}")
        if isinstance(seq, np.ndarray):
            check(isinstance(part, np.ndarray) and part.dtype == seq.dtype, "part-dtype", f"{part!r}")
    if kind in ("str", "bytes", "range", "deque", "dictkeys"):
        # rejoining is defined for lists, tuples and arrays
        parts = [list(p) for p in parts]
    back = m.joinPartitions(parts)
    check(len(back) == n and aslist(back) == ref, f"rejoin-{dist}" + ("-array" if isinstance(seq, np.ndarray) else ""),
          lambda: f"{kind}[{n}] in {q} parts rejoined as {aslist(back)!r}, expected {ref!r}")
    if isinstance(seq, np.ndarray):
        check(isinstance(back, np.ndarray) and back.dtype == seq.dtype and back.shape == seq.shape,
              f"rejoin-{dist}-array-type", lambda: f"{seq.dtype}{seq.shape} came back as {getattr(back,'dtype',type(back))}{getattr(back,'shape','')}")
    return n > 0


def case_prefix(c):
    """a stated length smaller than the sequence partitions exactly that prefix"""
    dist, n, extra, q = c
    m = M.dists[dist]()
    seq = list(range(n + extra))
    got = m.joinPartitions([m.getPartition(seq, p, q, n) for p in range(q)])
    check(list(got) == seq[:n], f"prefix-{dist}", f"first {n} of {n+extra} in {q} parts gave {got!r}")
    return n > 0


def case_bad_part(c):
    n, p, q = c
    try:
        r = M.Map().getPartition(list(range(n)), p, q)
    except ValueError:
        return True
    fail("bad-part-accepted", f"part {p} of {q} accepted: {r!r}")


def case_scatter_gather(c):
    """through views, the real controller code and engines' namespaces"""
    import random

    import sim

    seed, eng, dist, kind, n, subset = c
    s = sim.Sim(random.Random(seed), engines=eng)
    tg = sorted(random.Random(seed + 5).sample(range(eng), subset)) if subset < eng else "all"
    if seed % 3 == 0 and isinstance(tg, list):
        tg = tg[::-1]
    v = s.client.direct_view(tg)
    seq = make(kind, n)
    ref = aslist(make(kind, n))
    ar = v.scatter("x", seq, dist=dist, block=False)
    s.drain()
    ar.get(timeout=0)
    g = v.gather("x", dist=dist, block=False)
    s.drain()
    back = g.get(timeout=0)
    check(aslist(back) == ref, f"scatter-gather-{dist}", lambda: f"{kind}[{n}] over targets {tg} came back as {aslist(back)!r}")
    if isinstance(seq, np.ndarray):
        check(isinstance(back, np.ndarray) and back.dtype == seq.dtype and back.shape == seq.shape, f"scatter-gather-{dist}-type",
              lambda: f"{seq.dtype}{seq.shape} came back {getattr(back, 'dtype', type(back))}")
    # iteration over the gathered result gives the elements one by one, same order (block distribution)
    if dist == "b":
        g2 = v.gather("x", dist=dist, block=False)
        s.drain()
        it = list(g2)
        check([aslist(np.asarray(e)) if isinstance(e, np.ndarray) else e for e in it] == [aslist(e) if isinstance(e, np.ndarray) else e for e in seq] or
              [x.tolist() if hasattr(x, "tolist") else x for x in it] == ref, "gather-iter", lambda: f"iterated {it!r}")
    return n > 0


def grid():
    top_n, top_q = (33, 12) if not d.thorough else (80, 24)
    for dist in "br":
        for n in range(top_n + 1):
            for q in range(1, top_q + 1):
                yield [dist, "list", n, q, bool(n % 2)]
    for kind in KINDS:
        for dist in "br":
            for n in (0, 1, 2, 5, 7, 12):
                for q in (1, 2, 3, 5, 8):
                    yield [dist, kind, n, q, False]
    for q in (97, 1000):
        for n in (0, 96, 97, 98, 1001, 12345):
            for dist in "br":
                yield [dist, "arr-int", n, q, False]


for h in d.hints:
    pass
d.add("round-trip", case_round_trip, cases=lambda: grid(),
      gen=lambda r: [r.choice("br"), r.choice(KINDS), r.randrange(0, 200), r.randrange(1, 40), r.random() < .5], weight=2)
d.add("prefix", case_prefix, cases=lambda: ([x, n, e, q] for x in "br" for n in (0, 1, 4, 9) for e in (0, 1, 5) for q in (1, 2, 4, 7)),
      gen=lambda r: [r.choice("br"), r.randrange(0, 60), r.randrange(0, 9), r.randrange(1, 20)], weight=.3)
d.add("bad-part", case_bad_part, cases=[[4, -1, 2], [4, 2, 2], [0, 0, 0], [5, 9, 3], [5, -3, 3]])
SG = [k for k in KINDS if k not in ("str", "bytes", "range", "deque", "dictkeys", "arr-obj", "arr-dt")]
d.add("scatter-gather", case_scatter_gather,
      gen=lambda r: (lambda e: [r.randrange(10**6), e, r.choice("br"), r.choice(SG), r.choice([0, 1, 2, 3, 7, 20]), r.randrange(1, e + 1)])(r.randrange(1, 6)), weight=3)
d.main()
