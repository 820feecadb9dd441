"""controller/dependency.py: when a dependency is met or impossible (P03)."""
import z3

from pyver import types as ty
from pyver.core import NoneV, uf
from pyver.spec import Contract, Opaque, exists, forall, imp, record
from pyver.types import Any, Bool, Int, List, Opt, Set, Str, sort

A = ty.AnySort

M = "ipyparallel.controller.dependency:"
F = {"@base": Set(Str), "all": Bool, "success": Bool, "failure": Bool}


def met(ids, all_, succ, fail, ok, ko):
    """ids, ok, ko: membership functions"""
    acc = lambda x: z3.Or(z3.And(succ, ok(x)), z3.And(fail, ko(x)))
    none = forall(Str, lambda x: z3.Not(ids(x)))
    return z3.Or(none, z3.If(all_, forall(Str, lambda x: imp(ids(x), acc(x))), exists(Str, lambda x: z3.And(ids(x), acc(x)))))


def dead(ids, all_, succ, fail, ok, ko):
    rej = lambda x: z3.Or(z3.And(z3.Not(succ), ok(x)), z3.And(z3.Not(fail), ko(x)))
    some = exists(Str, lambda x: ids(x))
    return z3.And(some, z3.If(all_, exists(Str, lambda x: z3.And(ids(x), rej(x))), forall(Str, lambda x: imp(ids(x), rej(x)))))


_S = z3.ArraySort(z3.DeclareSort("Str"), z3.BoolSort())
_h = lambda a: (lambda x: z3.Select(a, x))
# opaque: (ids, all, success, failure, completed, failed)
MET = Opaque("dep_met", [_S, Bool, Bool, Bool, _S, _S], lambda i, a, s, f, o, k: met(_h(i), a, s, f, _h(o), _h(k)))
DEAD = Opaque("dep_impossible", [_S, Bool, Bool, Bool, _S, _S], lambda i, a, s, f, o, k: dead(_h(i), a, s, f, _h(o), _h(k)))
EMPTY = z3.K(z3.DeclareSort("Str"), z3.BoolVal(False))

# which ids a dependency names
isstr, isres = uf("isinst_str", A, z3.BoolSort()), uf("isinst_AsyncResult", A, z3.BoolSort())
ids_of = uf("msg_ids_of", A, sort(List(Any)))
named = lambda d, x: z3.Or(z3.And(isstr(d), d == x), z3.And(z3.Not(isstr(d)), isres(d), exists(Int, lambda j: z3.And(0 <= j, j < ty.llen(List(Any), ids_of(d)), ty.lat(List(Any), ids_of(d), j) == x))))
fit = lambda d: z3.Or(isstr(d), isres(d))
among = lambda l, x: exists(Int, lambda i: z3.And(0 <= i, i < l.len, named(l.raw(i), x)))


def register(reg):
    def flags(c):
        return {"some-outcome-accepted": z3.Or(c.f("success"), c.f("failure"))}

    for variant, t in (("", Set(Str)), ("no-failed-set", None)):
        def args(c, t=t):
            return c.f("@base").e, c.f("all"), c.f("success"), c.f("failure"), c["completed"].e, (c["failed"].e if t is not None else EMPTY)
        K = dict(variant=variant, self_fields=F, params=dict(completed=Set(Str), failed=t), requires=flags, returns=Bool, reveal=[MET, DEAD])
        reg.add(Contract(M + "Dependency.check", ["P03", "P05"],
                         value=lambda c, args=args: MET(*args(c)), **K))
        reg.add(Contract(M + "Dependency.unreachable", ["P03", "P05"],
                         value=lambda c, args=args: DEAD(*args(c)), **K))
    # ---- which ids a dependency has: those given, and those of the results given
    def base(eng, a, k):
        eng.setattr_(a[0], "@base", eng.call_builtin("set", [a[1]], {}, None), None)
        return NoneV
    kinds = lambda eng, v, cn: {"str": isstr(v.e), "AsyncResult": z3.And(isres(v.e), z3.Not(isstr(v.e))), "dict": z3.BoolVal(False)}.get(cn)
    DX = {"set.__init__": base, "any.isinstance": kinds, "any.attr:msg_ids": lambda eng, a, k=None: eng.wrap(List(Any), ids_of(eng.z(a[0] if isinstance(a, (list, tuple)) else a, Any)))}

    # where the ids of the i-th element start
    LA = List(Any)
    off = uf("ids_before", sort(LA), z3.IntSort(), z3.IntSort())
    width = lambda d: z3.If(isstr(d), 1, ty.llen(LA, ids_of(d)))
    offsets = ("how many ids the first elements give", lambda: forall([sort(LA), Int], lambda l, i: z3.And(off(l, 0) == 0, imp(0 <= i, off(l, i + 1) == off(l, i) + width(ty.lat(LA, l, i)))), lambda l, i: [ty.lat(LA, l, i)]))
    starts = ("how many ids the first elements give", lambda: forall([sort(LA)], lambda l: off(l, 0) == 0, lambda l: [off(l, 0)]))

    counts = ("a list has a length", lambda: forall(Any, lambda d: ty.llen(LA, ids_of(d)) >= 0, lambda d: [ids_of(d)]))

    def gathering(off_list):
        def inv(L):
            got = L.typed("ids", List(Any))
            l, n, at = off_list(L), got.len, (lambda i: ty.lat(LA, off_list(L), i))
            return {"length": z3.And(n == off(l, L.k), n >= 0),
                    "nothing-else": got.all(lambda j: exists(Int, lambda i: z3.And(0 <= i, i < L.k, named(at(i), got.raw(j))))),
                    "strings": forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), z3.And(0 <= off(l, i), off(l, i) + width(at(i)) <= n, imp(isstr(at(i)), got.raw(off(l, i)) == at(i)))), lambda i: [at(i)]),
                    "results": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < L.k, isres(at(i)), z3.Not(isstr(at(i))), 0 <= j, j < ty.llen(LA, ids_of(at(i)))), got.raw(off(l, i) + j) == ty.lat(LA, ids_of(at(i)), j)), lambda i, j: [ty.lat(LA, ids_of(at(i)), j)]),
                    "all-fit": forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), fit(L.item(i))))}
        return inv

    def made(name, t, has, misfit, flag, requires=None):
        reg.add(Contract(M + "Dependency.__init__", ["P03", "P19"], name=f"Dependency.__init__[{name}]", variant=name, params=dict(dependencies=t, all=Bool, success=Bool, failure=Bool), self_fields={**F, "@base": Set(Any)}, externals=DX,
                         requires=requires, locals=dict(ids=List(Any)), loops={0: gathering((lambda L: L.p('dependencies')['dependencies'].e) if callable(t) else (lambda L: L.p('dependencies').e))}, axioms=[offsets, starts, counts], modifies=["@base", "all", "success", "failure"],
                         raises={"TypeError": lambda c: misfit(c), "ValueError": lambda c: z3.Not(z3.Or(flag(c, "success"), flag(c, "failure")))},
                         ensures=lambda c: {"exactly-those-ids": c.f("@base").is_(lambda x: has(c, x)), "nothing-unfit": z3.Not(misfit(c)), **{n: c.f(n) == flag(c, n) for n in ("all", "success", "failure")}, "some-outcome-accepted": z3.Or(c.f("success"), c.f("failure"))}))
    unfit = lambda l: exists(Int, lambda i: z3.And(0 <= i, i < l.len, z3.Not(fit(l.raw(i)))))
    own = lambda c, n: c[n]
    made("list", List(Any), lambda c, x: among(c["dependencies"], x), lambda c: unfit(c["dependencies"]), own)
    made("one", Any, lambda c, x: named(c["dependencies"], x), lambda c: z3.BoolVal(False), own, lambda c: {"a-name-or-a-result": fit(c["dependencies"])})
    rec = lambda eng, n="d": record(dict(dependencies=List(Any), all=Bool, success=Bool, failure=Bool), optional=("dependencies", "all", "success", "failure"))(eng, n)
    put = lambda c, n: z3.If(c["dependencies"].present(n), c["dependencies"][n], z3.BoolVal(True) if n == "all" else c[n])
    inrec = lambda c, f, no: z3.If(c["dependencies"].present("dependencies"), f(c["dependencies"]["dependencies"]), no)
    made("dict", rec, lambda c, x: inrec(c, lambda l: among(l, x), z3.BoolVal(False)), lambda c: inrec(c, unfit, z3.BoolVal(False)), put)
    # ---- algebra: with disjoint outcomes, never both met and impossible; once true, stays true as tasks finish
    disj = lambda a, b: forall(Str, lambda x: z3.Not(z3.And(a[x], b[x])))
    sub = lambda a, b: forall(Str, lambda x: imp(a[x], b[x]))
    T6 = [_S, Bool, Bool, Bool, _S, _S]
    T8 = T6 + [_S, _S]
    hy = [MET.axiom, DEAD.axiom]
    B3 = [Bool, Bool, Bool]
    same = lambda a, s, f, a1, s1, f1: z3.And(a == a1, s == s1, f == f1)  # apart, so that matching does not need them merged
    left_out = lambda i, r, s, f, o, k: forall(Str, lambda x: imp(i[x], z3.Or(r[x], z3.And(s, o[x]), z3.And(f, k[x]))))
    reg.lemma("leaving-out-finished-ones-keeps-the-meaning", ["P03", "P05"], lambda: forall([_S, _S] + B3 + B3 + [_S, _S], lambda i, r, a, s, f, a1, s1, f1, o, k: imp(
        z3.And(same(a, s, f, a1, s1, f1), left_out(i, r, s, f, o, k), a, MET(r, a1, s1, f1, o, k)), MET(i, a, s, f, o, k)),
        lambda i, r, a, s, f, a1, s1, f1, o, k: [(MET(r, a1, s1, f1, o, k), MET(i, a, s, f, o, k))]), hyps=[MET.axiom])
    reg.lemma("met-without-the-finished-ones-stays-met", ["P03", "P05"], lambda: forall([_S, _S] + B3 + B3 + [_S, _S, _S, _S], lambda i, r, a, s, f, a1, s1, f1, o, k, o2, k2: imp(
        z3.And(same(a, s, f, a1, s1, f1), left_out(i, r, s, f, o, k), a, sub(o, o2), sub(k, k2), MET(r, a1, s1, f1, o, k)), MET(i, a, s, f, o2, k2)),
        lambda i, r, a, s, f, a1, s1, f1, o, k, o2, k2: [(MET(r, a1, s1, f1, o, k), MET(i, a, s, f, o2, k2))]), hyps=[MET.axiom])

    def all8(f, m, d=None):
        return lambda: forall(T8, lambda i, al, su, fa, o, k, o2, k2: f(i, al, su, fa, o, k, o2, k2),
                              lambda i, al, su, fa, o, k, o2, k2: [(m(i, al, su, fa, o, k), (d or m)(i, al, su, fa, o2, k2))])

    reg.lemma("dependency-never-met-and-impossible", "P03", lambda: forall(T6, lambda i, al, su, fa, o, k: imp(
        z3.And(disj(o, k), z3.Or(su, fa)), z3.Not(z3.And(MET(i, al, su, fa, o, k), DEAD(i, al, su, fa, o, k))))), hy)
    reg.lemma("dependency-decided-when-all-finished", "P03", lambda: forall(T6, lambda i, al, su, fa, o, k: imp(
        forall(Str, lambda x: imp(i[x], z3.Or(o[x], k[x]))), z3.Or(MET(i, al, su, fa, o, k), DEAD(i, al, su, fa, o, k)))), hy)
    reg.lemma("dependency-met-is-stable", "P03", all8(lambda i, al, su, fa, o, k, o2, k2: imp(
        z3.And(sub(o, o2), sub(k, k2), MET(i, al, su, fa, o, k)), MET(i, al, su, fa, o2, k2)), MET), hy)
    reg.lemma("dependency-impossible-is-stable", "P03", all8(lambda i, al, su, fa, o, k, o2, k2: imp(
        z3.And(sub(o, o2), sub(k, k2), DEAD(i, al, su, fa, o, k)), DEAD(i, al, su, fa, o2, k2)), DEAD), hy)
    reg.lemma("dependency-impossible-never-becomes-met", "P03", all8(lambda i, al, su, fa, o, k, o2, k2: imp(
        z3.And(sub(o, o2), sub(k, k2), disj(o2, k2), z3.Or(su, fa), DEAD(i, al, su, fa, o, k)), z3.Not(MET(i, al, su, fa, o2, k2))), DEAD, MET), hy)
    reg.lemma("no-dependency-is-met", "P03", lambda: forall(T6, lambda i, al, su, fa, o, k: imp(
        forall(Str, lambda x: z3.Not(i[x])), MET(i, al, su, fa, o, k)), lambda i, al, su, fa, o, k: [MET(i, al, su, fa, o, k)]), hy)
    return reg
