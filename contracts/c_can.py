"""serialize/canning.py: the buffers of a partial's arguments are pooled and handed back in place (P14)."""
import z3

from pyver import types as ty
from pyver.core import Mut, NoneV, V, ZC, uf
from pyver.spec import Contract, ZL, exists, forall, imp
from pyver.types import Any, Bool, Dict, Int, List, Opt, Ref, Set, Str, sort

M = "ipyparallel.serialize.canning:CannedPartial."
A = ty.AnySort
C = Ref("CannedObject")
LB, LC, LI = List(Opt(Any)), List(C), List(Int)
DC, DI = Dict(Str, C), Dict(Str, Int)
IS = z3.IntSort()
KEYS = z3.ArraySort(sort(Str), z3.BoolSort())
canned = uf("canned", A, sort(C))
isc = uf("is_canned_object", sort(C), z3.BoolSort())  # can() leaves most objects as they are: no CannedObject then
in_order = uf("sorted_names", KEYS, sort(List(Str)))
before_arg = uf("buffers_before_arg", sort(LI), IS, IS)
before_key = uf("buffers_before_key", sort(List(Str)), sort(DI), IS, IS)
uncanned = uf("uncanned", sort(C), sort(LB), A)


def register(reg):
    LS = List(Str)
    AX = [("names in order are the names, each once", lambda: forall([KEYS], lambda s: z3.And(
              ty.llen(LS, in_order(s)) >= 0,
              forall(Int, lambda i: imp(z3.And(0 <= i, i < ty.llen(LS, in_order(s))), z3.Select(s, ty.lat(LS, in_order(s), i))), lambda i: [ty.lat(LS, in_order(s), i)]),
              forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < ty.llen(LS, in_order(s))), ty.lat(LS, in_order(s), i) != ty.lat(LS, in_order(s), j)), lambda i, j: [(ty.lat(LS, in_order(s), i), ty.lat(LS, in_order(s), j))]),
              forall(Str, lambda x: imp(z3.Select(s, x), z3.And(0 <= place(s, x), place(s, x) < ty.llen(LS, in_order(s)), ty.lat(LS, in_order(s), place(s, x)) == x)), lambda x: [z3.Select(s, x)])), lambda s: [in_order(s)])),
          ("sums of buffer counts", lambda: z3.And(
              forall([sort(LI)], lambda l: before_arg(l, 0) == 0, lambda l: [larr(l)]),
              forall([sort(LI), Int], lambda l, i: imp(0 <= i, before_arg(l, i + 1) == before_arg(l, i) + ty.lat(LI, l, i)), lambda l, i: [(before_arg(l, i), ty.lat(LI, l, i))]),
              forall([sort(LS), sort(DI)], lambda k, d: before_key(k, d, 0) == 0, lambda k, d: [before_key(k, d, 0)]),
              forall([sort(LS), sort(DI), Int], lambda k, d, i: imp(0 <= i, before_key(k, d, i + 1) == before_key(k, d, i) + z3.Select(ty.dval(DI, d), ty.lat(LS, k, i))), lambda k, d, i: [(before_key(k, d, i), ty.lat(LS, k, i))])))]
    place = uf("place_in_order", KEYS, sort(Str), IS)
    larr = lambda l: before_arg(l, 0)

    def ordered(eng, a, k):
        t, e = eng.symbolic(a[0])
        return eng.wrap(LS, in_order(ty.ddom(t, e)))

    def kinds(eng, v, cn):
        return isc(v.e) if cn == "CannedObject" else None

    F = dict(func=Any, args=LC, keywords=DC, buffers=LB, arg_buffer_counts=LI, keyword_buffer_counts=DI)

    def H(v, o):
        return v.h("CannedObject", "buffers", o)

    def apart(args, kws):
        """every argument was canned into an object of its own"""
        return z3.And(forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < args.len), args.raw(i) != args.raw(j))),
                      forall([Str, Str], lambda x, y: imp(z3.And(kws.has(x), kws.has(y), x != y), kws.raw(x) != kws.raw(y))),
                      forall([Int, Str], lambda i, x: imp(z3.And(0 <= i, i < args.len, kws.has(x)), args.raw(i) != kws.raw(x))))

    def shape(v):
        args, kws, b, ac, kc = (v.f(x) for x in ("args", "keywords", "buffers", "arg_buffer_counts", "keyword_buffer_counts"))
        ks = ZL(LS, in_order(ty.ddom(DI, kc.e)))
        na = before_arg(ac.e, args.len)
        return {"a-count-each": ac.len == args.len, "counts": ac.all(lambda i: ac.raw(i) >= 0), "key-counts": forall(Str, lambda x: imp(kc.has(x), z3.And(kws.has(x), kc.raw(x) >= 0))),
                "all-buffers-counted": b.len == na + before_key(ks.e, kc.e, ks.len),
                "no-partial-sum-beyond": forall(Int, lambda i: imp(z3.And(0 <= i, i <= args.len), z3.And(0 <= before_arg(ac.e, i), before_arg(ac.e, i) <= na)), lambda i: [before_arg(ac.e, i)]),
                "nor-of-keys": forall(Int, lambda i: imp(z3.And(0 <= i, i <= ks.len), z3.And(0 <= before_key(ks.e, kc.e, i), before_key(ks.e, kc.e, i) <= before_key(ks.e, kc.e, ks.len))), lambda i: [before_key(ks.e, kc.e, i)]),
                "apart": apart(args, kws)}

    def given_back(v, old, upto_a, upto_k):
        args, kws, b, ac, kc = (old.f(x) for x in ("args", "keywords", "buffers", "arg_buffer_counts", "keyword_buffer_counts"))
        ks = ZL(LS, in_order(ty.ddom(DI, kc.e)))
        na = before_arg(ac.e, args.len)
        return {"args": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < upto_a, ac.raw(i) > 0), z3.And(H(v, args.raw(i)).len == ac.raw(i), imp(z3.And(0 <= j, j < ac.raw(i)), H(v, args.raw(i)).raw(j) == b.raw(before_arg(ac.e, i) + j))))),
                "keywords": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < upto_k), z3.And(H(v, kws.raw(ks.raw(i))).len == kc.raw(ks.raw(i)), imp(z3.And(0 <= j, j < kc.raw(ks.raw(i))), H(v, kws.raw(ks.raw(i))).raw(j) == b.raw(na + before_key(ks.e, kc.e, i) + j)))))}

    def rest(L, start):
        b, o = L.f("buffers"), L.old.f("buffers")
        return {"the-rest-in-order": z3.And(b.len == o.len - start, b.all(lambda j: b.raw(j) == o.raw(start + j)))}

    def to_args(L):
        ac = L.old.f("arg_buffer_counts")
        return {**given_back(L, L.old, L.k, z3.IntVal(0)), **rest(L, before_arg(ac.e, L.k))}

    def to_keys(L):
        ac, kc, args = L.old.f("arg_buffer_counts"), L.old.f("keyword_buffer_counts"), L.old.f("args")
        ks = in_order(ty.ddom(DI, kc.e))
        return {**given_back(L, L.old, args.len, L.k), **rest(L, before_arg(ac.e, args.len) + before_key(ks, kc.e, L.k))}

    def built(eng, a, k):
        """the arguments and keywords are what their canned forms give back with the buffers they have now"""
        c = eng.own_ctx
        now = eng.harr("CannedObject", "buffers")
        val = lambda r: uncanned(r, z3.Select(now, r))
        if "*" in k:
            got, want = c.val(k["*"], List(Any)), c.old.f("args")
            eng.emit("each-argument-from-its-buffers", z3.And(got.len == want.len, got.all(lambda i: got.raw(i) == val(want.raw(i)))))
        else:
            eng.emit("each-argument-from-its-buffers", z3.BoolVal(False))
        if "**" in k:
            got, want = c.val(k["**"], Dict(Str, Any)), c.old.f("keywords")
            eng.emit("each-keyword-from-its-buffers", forall(Str, lambda x: z3.And(got.has(x) == want.has(x), imp(want.has(x), got.raw(x) == val(want.raw(x))))))
        else:
            eng.emit("each-keyword-from-its-buffers", z3.BoolVal(False))
        eng.emit("the-function", eng.z(a[0], Any) == uf("uncanned_f", A, A)(c.old.f("func")))
        return eng.freshv("partial", Any)
    un = lambda eng, a, k: V(Any, uncanned(a[0].e, z3.Select(eng.harr("CannedObject", "buffers"), a[0].e)) if isinstance(a[0].t, Ref) else uf("uncanned_f", A, A)(eng.z(a[0], Any)))
    some = lambda c: c.old.f("buffers").len > 0
    ks_len = lambda c: ty.llen(LS, in_order(ty.ddom(DI, c.old.f("keyword_buffer_counts").e)))
    EXT = {"sorted": ordered, "ref.isinstance": kinds, "ipyparallel.serialize.canning:uncan": un, "functools.partial": built}
    reg.add(Contract(M + "get_object", "P14", params=dict(g=Any), self_fields=F, externals=EXT, axioms=AX, requires=shape, modifies=["buffers", ("CannedObject", "buffers")], returns=Any, loops={0: to_args, 1: to_keys},
                     ensures=lambda c: {k: imp(some(c), x) for k, x in given_back(c, c.old, c.old.f("args").len, ks_len(c)).items()}))
    
    # pooling: afterwards the shape above holds, and each argument's place in the pool has its buffers
    LA, DA = List(Any), Dict(Str, Any)
    args_of, kws_of, func_of = uf("partial_args", A, sort(LA)), uf("partial_keywords", A, sort(DA)), uf("partial_func", A, A)
    arg = lambda eng, a: eng.z(a[0] if isinstance(a, (list, tuple)) else a, Any)
    pargs = lambda c: ZL(LA, args_of(c["f"]))
    pkws = lambda c: c.val(c._e.wrap(DA, kws_of(c["f"])))

    def can(eng, a, k):
        return V(C, canned(eng.z(a[0], Any)))

    def fresh_ones(c):
        p, q = pargs(c), pkws(c)
        cn = canned
        return {"canned-apart": z3.And(p.len >= 0, forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < p.len), cn(p.raw(i)) != cn(p.raw(j)))),
                                       forall([Str, Str], lambda x, y: imp(z3.And(q.has(x), q.has(y), x != y), cn(q.raw(x)) != cn(q.raw(y)))),
                                       forall([Int, Str], lambda i, x: imp(z3.And(0 <= i, i < p.len, q.has(x)), cn(p.raw(i)) != cn(q.raw(x))))),
                "a-list-has-a-length": forall(C, lambda o: H(c, o).len >= 0)}

    n_of = lambda v, o: z3.If(isc(o), H(v, o).len, 0)
    at_key = uf("pooled_before_key", A, IS, IS)  # buffers of the keywords before the i-th, in order of their names
    K_ = lambda c: ZL(LS, in_order(ty.ddom(DA, kws_of(c["f"]))))
    kw = lambda c, i: canned(pkws(c).raw(K_(c).raw(i)))
    AX2 = AX[:1] + [("sums of argument buffer counts", lambda: z3.And(forall([sort(LI)], lambda l: before_arg(l, 0) == 0, lambda l: [larr(l)])))]

    def sums(c):
        old = c.old
        return {"places": z3.And(at(c, 0) == 0, at_key(c["f"], 0) == 0, forall(Int, lambda i: imp(0 <= i, at(c, i + 1) == at(c, i) + n_of(old, canned(pargs(c).raw(i)))), lambda i: [pargs(c).raw(i)]),
                                 forall(Int, lambda i: imp(0 <= i, at_key(c["f"], i + 1) == at_key(c["f"], i) + n_of(old, kw(c, i))), lambda i: [K_(c).raw(i)]))}
    at_arg = uf("pooled_before_arg", A, IS, IS)
    at = lambda c, i: at_arg(c["f"], i)

    def pooled(v, old, c, ka, kk):
        """the buffers of the first ka arguments and kk keywords are in the pool, in order"""
        ac, kc, b = v.f("arg_buffer_counts"), v.f("keyword_buffer_counts"), v.f("buffers")
        p, q, K = pargs(c), pkws(c), K_(c)
        na = at(c, ka)
        o = lambda i: canned(p.raw(i))
        return {"a-count-each": ac.len == ka, "its-count": forall(Int, lambda i: imp(z3.And(0 <= i, i < ka), ac.raw(i) == n_of(old, o(i))), lambda i: [ac.raw(i)]),
                "args-in-the-pool": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < ka, isc(o(i)), 0 <= j, j < H(old, o(i)).len), b.raw(at(c, i) + j) == H(old, o(i)).raw(j))),
                "keywords-counted": forall(Str, lambda x: z3.And(kc.has(x) == z3.And(q.has(x), isc(canned(q.raw(x))), place(ty.ddom(DA, kws_of(c["f"])), x) < kk), imp(kc.has(x), kc.raw(x) == H(old, canned(q.raw(x))).len))),
                "keywords-in-the-pool": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < kk, isc(kw(c, i)), 0 <= j, j < H(old, kw(c, i)).len), b.raw(na + at_key(c["f"], i) + j) == H(old, kw(c, i)).raw(j))),
                "places-within": z3.And(forall(Int, lambda i: imp(z3.And(0 <= i, i < ka), z3.And(0 <= at(c, i), at(c, i) + n_of(old, o(i)) <= na)), lambda i: [p.raw(i)]),
                                        forall(Int, lambda i: imp(z3.And(0 <= i, i < kk), z3.And(0 <= at_key(c["f"], i), at_key(c["f"], i) + n_of(old, kw(c, i)) <= at_key(c["f"], kk))), lambda i: [K.raw(i)])),
                "no-negative-place": z3.And(na >= 0, at_key(c["f"], kk) >= 0), "nothing-else-pooled": b.len == na + at_key(c["f"], kk)}

    def emptied(v, old, c, ka, kk):
        p, K = pargs(c), K_(c)
        H2 = lambda o: imp(isc(o), H(v, o).len == 0)
        return {"none-is-left-behind": z3.And(forall(Int, lambda i: imp(z3.And(0 <= i, i < ka), H2(canned(p.raw(i)))), lambda i: [p.raw(i)]), forall(Int, lambda i: imp(z3.And(0 <= i, i < kk), H2(kw(c, i))), lambda i: [K.raw(i)])),
                "the-rest-keeps-its-own": z3.And(forall(Int, lambda i: imp(z3.And(ka <= i, i < p.len), v._e.harr("CannedObject", "buffers")[canned(p.raw(i))] == old_of(old)[canned(p.raw(i))]), lambda i: [p.raw(i)]),
                                                 forall(Int, lambda i: imp(z3.And(kk <= i, i < K.len), v._e.harr("CannedObject", "buffers")[kw(c, i)] == old_of(old)[kw(c, i)]), lambda i: [K.raw(i)]))}
    old_of = lambda old: old._st.heap.get(("CannedObject", "buffers"))
    own = lambda L: L._e.own_ctx
    pool_a = lambda L: {**pooled(L, L.old, own(L), L.k, z3.IntVal(0)), **emptied(L, L.old, own(L), L.k, z3.IntVal(0))}
    pool_k = lambda L: {**pooled(L, L.old, own(L), pargs(own(L)).len, L.k), **emptied(L, L.old, own(L), pargs(own(L)).len, L.k)}
    X0 = {"sorted": ordered, "ref.isinstance": kinds, "any.isinstance": lambda eng, v, cn: z3.BoolVal(True) if cn == "partial" else None, "ipyparallel.serialize.canning:can": can, "any.attr:args": lambda eng, a, k=None: eng.wrap(LA, args_of(arg(eng, a))),
          "any.attr:keywords": lambda eng, a, k=None: eng.wrap(DA, kws_of(arg(eng, a))), "any.attr:func": lambda eng, a, k=None: V(Any, func_of(arg(eng, a)))}
    reg.add(Contract(M + "__init__", "P14", params=dict(f=Any), self_fields=F, externals=X0, axioms=AX2, requires=lambda c: {**fresh_ones(c), **sums(c)}, modifies=list(F) + [("CannedObject", "buffers")],
                     loops={0: pool_a, 1: pool_k}, locals={}, ensures=lambda c: {**pooled(c, c.old, c, pargs(c).len, K_(c).len), **emptied(c, c.old, c, pargs(c).len, K_(c).len), "args": c.f("args").all(lambda i: c.f("args").raw(i) == canned(pargs(c).raw(i))),
                                                                     "keywords": forall(Str, lambda x: z3.And(c.f("keywords").has(x) == pkws(c).has(x), imp(pkws(c).has(x), c.f("keywords").raw(x) == canned(pkws(c).raw(x)))))}))
    return reg
