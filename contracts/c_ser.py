"""serialize/serialize.py: large parts travel on their own and come back where they were (P13)."""
import z3

from pyver import types as ty
from pyver.core import V, uf
from pyver.spec import Contract, S_, exists, forall, imp
from pyver.types import Any, Bool, Int, List, Opt, Ref, sort

M = "ipyparallel.serialize.serialize:"
A = ty.AnySort
OB = Opt(Any)
LB, LA = List(OB), List(Any)
CAN = Ref("CannedObject")
nbytes, view, plain = z3.Function("nbytes", A, z3.IntSort()), z3.Function("is_memoryview", A, z3.BoolSort()), z3.Function("tobytes", A, A)
FLAGS = z3.ArraySort(z3.IntSort(), z3.BoolSort())
FS = [FLAGS]
rank = z3.Function("how_many_before", FLAGS, z3.IntSort(), z3.IntSort())


def register(reg):
    reg.heap_class("CannedObject", dict(buffers=LB), module="ipyparallel.serialize.canning")
    none, val = (lambda x: ty.ois_none(OB, x)), (lambda x: ty.oval(OB, x))
    bufs = lambda v, o: v.h("CannedObject", "buffers", o)
    holes, large = z3.Function("holes_of", sort(LB), FLAGS), z3.Function("large_in", sort(LB), z3.IntSort(), FLAGS)
    L_ = lambda l, i: ty.lat(LB, l, i)
    defs = ("holes_of/large_in mark the missing and the large places", lambda: z3.And(
        forall([LB, Int], lambda l, i: z3.Select(holes(l), i) == none(L_(l, i)), lambda l, i: [z3.Select(holes(l), i), (holes(l), L_(l, i))]),
        forall([LB, Int, Int], lambda l, t, i: z3.Select(large(l, t), i) == (nbytes(val(L_(l, i))) > t), lambda l, t, i: [z3.Select(large(l, t), i), (large(l, t), L_(l, i))])))
    given = ("how_many_before counts the marked places", lambda: z3.And(forall(FS, lambda a: rank(a, z3.IntVal(0)) == 0, lambda a: [rank(a, z3.IntVal(0))]),
             forall([FLAGS, Int], lambda a, k: imp(k >= 0, z3.And(rank(a, k + 1) == rank(a, k) + z3.If(z3.Select(a, k), 1, 0), rank(a, k) >= 0)), lambda a, k: [rank(a, k + 1)]),
             forall([FLAGS, Int], lambda a, k: imp(k >= 0, rank(a, k + 1) == rank(a, k) + z3.If(z3.Select(a, k), 1, 0)), lambda a, k: [(rank(a, k), z3.Select(a, k))])))
    # how many are marked before k depends on the marks before k only (induction over k)
    a_, b_, k_ = z3.Const("a!r", FLAGS), z3.Const("b!r", FLAGS), z3.Int("k!r")
    agree = lambda k: forall(Int, lambda i: imp(z3.And(0 <= i, i < k), z3.Select(a_, i) == z3.Select(b_, i)))
    reg.lemma("places-before-none", "P13", lambda: imp(given[1](), rank(a_, z3.IntVal(0)) == rank(b_, z3.IntVal(0))))
    reg.lemma("places-before-one-more", "P13", lambda: imp(z3.And(given[1](), k_ >= 0, imp(agree(k_), rank(a_, k_) == rank(b_, k_)), agree(k_ + 1)), rank(a_, k_ + 1) == rank(b_, k_ + 1)))
    by_induction = ("how_many_before depends on the places before only (by induction, lemmas places-before-*)", lambda: forall([FLAGS, FLAGS, Int], lambda a, b, k: imp(
        z3.And(k >= 0, forall(Int, lambda i: imp(z3.And(0 <= i, i < k), z3.Select(a, i) == z3.Select(b, i)))), rank(a, k) == rank(b, k)), lambda a, b, k: [(rank(a, k), rank(b, k))]))
    reg.lemma("places-counted-upwards", "P13", lambda: imp(z3.And(given[1](), k_ >= 0), z3.And(rank(a_, k_) >= 0, rank(a_, k_) <= rank(a_, k_ + 1))))
    upwards = ("how_many_before grows (by induction, lemma places-counted-upwards)", lambda: forall([FLAGS, Int, Int], lambda a, i, k: imp(z3.And(0 <= i, i <= k), rank(a, i) <= rank(a, k)), lambda a, i, k: [(rank(a, i), rank(a, k))]))
    EXT = {"any.isinstance": lambda eng, v, cn: view(v.e) if cn == "memoryview" else None, "any.attr:nbytes": lambda eng, a, k: V(Int, nbytes(a[0].e)), "any.__len__": lambda eng, a, k: V(Int, nbytes(a[0].e)),
           "Any.tobytes": lambda eng, a, k: V(Any, plain(a[0].e))}
    O = lambda c: c["obj"]
    big = lambda l, t: large(l.e, t)
    small = lambda b: z3.If(view(b), plain(b), b)
    lists = lambda c: {"buffers-are-lists": forall(CAN, lambda o: bufs(c, o).len >= 0, lambda o: [bufs(c, o).len])}
    given_data = lambda c: {**lists(c), "every-part-is-there": bufs(c, O(c)).all(lambda i: z3.Not(none(bufs(c, O(c)).raw(i)))), "threshold-is-a-size": c["threshold"] >= 0}

    def taken(now, old, out, t, k):
        f = big(old, t)
        return {"as-many": out.len == rank(f, k),
                "in-order": forall(Int, lambda i: imp(z3.And(0 <= i, i < k, z3.Select(f, i)), z3.And(rank(f, i) < out.len, out.raw(rank(f, i)) == val(old.raw(i))))),
                "marked-or-kept": forall(Int, lambda i: imp(z3.And(0 <= i, i < k), z3.If(z3.Select(f, i), none(now.raw(i)), z3.And(z3.Not(none(now.raw(i))), val(now.raw(i)) == small(val(old.raw(i)))))))}

    untouched = lambda L, o: forall(CAN, lambda x: imp(x != o, bufs(L, x).e == bufs(L.old, x).e))

    def extracting(L):
        o, t = L.p("obj"), L.p("threshold")
        now, old = bufs(L, o), bufs(L.old, o)
        return {**taken(now, old, L.typed("buffers", LA), t, L.k), "rest-untouched": forall(Int, lambda i: imp(z3.And(L.k <= i, i < old.len), now.raw(i) == old.raw(i))), "same-length": now.len == old.len, "no-other": untouched(L, o)}

    others = lambda c: forall(CAN, lambda o: imp(o != O(c), c.h("CannedObject", "buffers", o).e == c.old.h("CannedObject", "buffers", o).e))
    reg.add(Contract(M + "_extract_buffers", "P13", params=dict(obj=CAN, threshold=Int), returns=LA, externals=EXT, axioms=[given, defs], requires=given_data, modifies=[("CannedObject", "buffers")], locals={"buffers": LA},
                     loops={0: extracting}, ensures=lambda c: {**taken(bufs(c, O(c)), bufs(c.old, O(c)), c.res, c["threshold"], bufs(c.old, O(c)).len), "same-length": bufs(c, O(c)).len == bufs(c.old, O(c)).len, "no-other": others(c)}))
    hole = lambda l: holes(l.e)

    def filled(now, old, b, k):
        f = hole(old)
        return {"filled-or-kept": forall(Int, lambda i: imp(z3.And(0 <= i, i < k), z3.If(z3.Select(f, i), z3.And(z3.Not(none(now.raw(i))), val(now.raw(i)) == b.raw(rank(f, i))), now.raw(i) == old.raw(i))))}

    def left(after, b, n):
        return {"those-used-are-gone": after.len == b.len - n, "the-rest-in-order": after.all(lambda i: after.raw(i) == b.raw(n + i))}

    def restoring(L):
        o, b = L.p("obj"), L.p("buffers")
        now, old = bufs(L, o), bufs(L.old, o)
        f = hole(old)
        return {**filled(now, old, b, L.k), "rest-untouched": forall(Int, lambda i: imp(z3.And(L.k <= i, i < old.len), now.raw(i) == old.raw(i))), "same-length": now.len == old.len, "no-other": untouched(L, o),
                **left(L.typed("buffers", LA), b, rank(f, L.k)), "counted": rank(f, L.k) <= b.len}

    enough = lambda c: {**lists(c), "enough": forall(Int, lambda k: imp(z3.And(0 <= k, k <= bufs(c, O(c)).len), rank(hole(bufs(c, O(c))), k) <= c["buffers"].len), lambda k: [rank(hole(bufs(c, O(c))), k)])}
    reg.add(Contract(M + "_restore_buffers", "P13", params=dict(obj=CAN, buffers=LA), externals=EXT, axioms=[given, defs], requires=enough, modifies=[("CannedObject", "buffers"), "arg:buffers"],
                     loops={0: restoring}, ensures=lambda c: {**filled(bufs(c, O(c)), bufs(c.old, O(c)), c["buffers"], bufs(c.old, O(c)).len), "same-length": bufs(c, O(c)).len == bufs(c.old, O(c)).len,
                                                             **left(c.now("buffers"), c["buffers"], rank(hole(bufs(c.old, O(c))), bufs(c.old, O(c)).len)), "no-other": others(c)}))
    # sending and receiving one after the other: every part is back in its place
    def back(c):
        now, old, t = bufs(c, O(c)), bufs(c.old, O(c)), c["threshold"]
        return {"every-part-in-its-place": z3.And(now.len == old.len, old.all(lambda i: z3.And(z3.Not(none(now.raw(i))), val(now.raw(i)) == z3.If(nbytes(val(old.raw(i))) > t, val(old.raw(i)), small(val(old.raw(i))))))),
                "nothing-left-over": c.res.len == 0}

    reg.add(Contract(M + "_restore_buffers", "P13", name="sent-and-restored", variant="harness", params=dict(obj=CAN, threshold=Int), returns=LA, axioms=[given, defs, by_induction, upwards], requires=given_data,
                     harness="def there_and_back(obj, threshold):\n    parts = _extract_buffers(obj, threshold)\n    _restore_buffers(obj, parts)\n    return parts",
                     modifies=[("CannedObject", "buffers")], ensures=back))
    return reg
