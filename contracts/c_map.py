"""client/map.py: partitioning and rejoining (P01)."""
import z3

from pyver import types as ty
from pyver.spec import Contract, S_, forall, imp
from pyver.types import Any, Bool, Int, List, Opt, Tup

M = "ipyparallel.client.map:"


def zmin(a, b):
    return z3.If(a <= b, a, b)


def zmax(a, b):
    return z3.If(a >= b, a, b)


def lo(n, p, q):
    """first index of part p of q over n elements: earlier parts have n//q elements, the first n%q one more"""
    return p * (n / q) + zmin(p, n % q)


def size(n, p, q):
    return n / q + z3.If(p < n % q, 1, 0)


def clip(x, n):
    return zmin(zmax(x, 0), n)


def block_part(c, n):
    p, q, s = c["p"], c["q"], c["seq"]
    a, b = clip(lo(n, p, q), s.len), clip(lo(n, p, q) + size(n, p, q), s.len)
    return {
        "size": c.res.len == b - a,
        "elements": c.res.all(lambda i: c.res.raw(i) == s.raw(a + i)),
    }


def register(reg):
    base = dict(
        params=dict(seq=List(Any), p=Int, q=Int, n=None),
        returns=List(Any),
    )
    reg.add(Contract(
        M + "Map.getPartition", ["P01", "P02"], variant="n=len",
        params=dict(seq=List(Any), p=Int, q=Int, n=None),
        requires=lambda c: {"q": c["q"] > 0},
        ensures=lambda c: {**block_part(c, c["seq"].len), "accepted": z3.And(0 <= c["p"], c["p"] < c["q"])},
        raises={"ValueError": lambda c: {"rejected-only-out-of-range": z3.Or(c["p"] < 0, c["p"] >= c["q"])}},
        returns=List(Any)))
    reg.add(Contract(
        M + "Map.getPartition", ["P01", "P02"],
        params=dict(seq=List(Any), p=Int, q=Int, n=Int),
        requires=lambda c: {"q": c["q"] > 0, "n": c["n"] >= 0},
        ensures=lambda c: {**block_part(c, c["n"]), "accepted": z3.And(0 <= c["p"], c["p"] < c["q"])},
        raises={"ValueError": lambda c: {"rejected-only-out-of-range": z3.Or(c["p"] < 0, c["p"] >= c["q"])}},
        returns=List(Any)))
    # ---- lemmas: the parts tile the sequence, in order, balanced
    n, p, q = z3.Ints("n p q")
    dm = [z3.And(n >= 0, q > 0, n == q * (n / q) + n % q, n % q >= 0, n % q < q, n / q >= 0)]
    inr = z3.And(0 <= p, p < q)
    reg.lemma("block-parts-start-at-zero", "P01", lambda: imp(dm[0], lo(n, z3.IntVal(0), q) == 0))
    reg.lemma("block-parts-end-at-n", "P01", lambda: imp(dm[0], lo(n, q, q) == n))
    reg.lemma("block-parts-adjacent", "P01", lambda: imp(
        z3.And(dm[0], inr), lo(n, p + 1, q) == lo(n, p, q) + size(n, p, q)))
    reg.lemma("block-parts-balanced", "P01", lambda: imp(
        z3.And(dm[0], inr), z3.And(size(n, p, q) >= n / q, size(n, p, q) <= n / q + 1)))
    a, b = z3.Ints("a b")
    reg.lemma("block-part-bounds-within-n", "P01", lambda: imp(
        z3.And(n >= 0, q > 0, a >= 0, b >= 0, b < q, n == q * a + b, 0 <= p, p <= q),
        z3.And(p * a + zmin(p, b) >= 0, p * a + zmin(p, b) <= n)))

    # ---- round robin: part p is seq[p], seq[p+q], ... below n
    reg.add(Contract(
        M + "RoundRobinMap.getPartition", ["P01"],
        params=dict(seq=List(Any), p=Int, q=Int, n=Int),
        requires=lambda c: {"q": c["q"] > 0, "p": z3.And(0 <= c["p"], c["p"] < c["q"]), "n": z3.And(c["n"] >= 0, c["n"] <= c["seq"].len)},
        ensures=lambda c: {
            "elements": c.res.all(lambda i: c.res.raw(i) == c["seq"].raw(c["p"] + i * c["q"])),
            "complete": z3.And(
                imp(c.res.len > 0, c["p"] + (c.res.len - 1) * c["q"] < c["n"]),
                c["p"] + c.res.len * c["q"] >= c["n"]),
        },
        returns=List(Any)))
    PL = List(List(Any))

    def rr_shape(ps, m, r):
        """ps is what round-robin partitioning produces: the first r parts have m elements, the others m-1"""
        return z3.And(ps.len > 0, r >= 1, r <= ps.len, ps.all(
            lambda j: ps[j].len == z3.If(j < r, m, m - 1)))

    def flat_inv(L):
        ps, fl, r = L.p("listOfPartitions"), L.typed("flat", List(Any)), z3.Int("rr!r")
        q, m = ps.len, ps[0].len
        k = L.k
        return {
            "length": fl.len == z3.If(k < m, k * q, zmax(0, (m - 1) * q + r)),
            "rows": forall([Int, Int], lambda i, j: imp(
                z3.And(0 <= i, i < k, 0 <= j, j < q, i < ps[j].len), fl.raw(i * q + j) == ps[j].raw(i))),
        }

    return reg
