"""serialize/serialize.py: a call travels as its function, positional and keyword arguments and arrives as the same (P13).

serialize_object / deserialize_object of one value are taken by contract (a value's parts, whatever follows them, give the value back and leave what follows);
what is proved is that pack_apply_message and unpack_apply_message put any number of them together and take them apart again.
"""
import z3

from pyver import types as ty
from pyver.core import CDict, Mut, NoneV, TupV, V, uf
from pyver.spec import Contract, ZL, exists, forall, imp
from pyver.types import Any, Dict, Int, List, Set, Str, sort

M = "ipyparallel.serialize.serialize:"
A = ty.AnySort
LA, LLA, LS, DA = List(Any), List(List(Any)), List(Str), Dict(Str, Any)
IS = z3.IntSort()
ser = uf("parts_of", A, IS, IS, sort(LA))
back = uf("rebuilt", A, A, A)
flat = uf("one_after_another", sort(LLA), sort(LA))
off = uf("parts_before", sort(LLA), IS, IS)
info = uf("call_info", IS, IS, sort(LS), A)
nargs, nbufs, names_of = uf("nargs_in", A, IS), uf("narg_bufs_in", A, IS), uf("kw_keys_in", A, sort(LS))
true = z3.BoolVal(True)


def register(reg):
    n_ = lambda l: ty.llen(LA, l)
    at = lambda l, i: ty.lat(LA, l, i)
    row = lambda l, i: ty.lat(LLA, l, i)
    rows = lambda l: z3.And(ty.llen(LLA, l) >= 0, forall([IS], lambda i: imp(z3.And(0 <= i, i < ty.llen(LLA, l)), n_(row(l, i)) >= 0), lambda i: [row(l, i)]))
    AX = [
          ("a value has at least one part", lambda: forall([A, IS, IS], lambda o, t, n: n_(ser(o, t, n)) >= 1, lambda o, t, n: [ser(o, t, n)])),
          ("parts one after another", lambda: z3.And(
              forall([sort(LLA)], lambda l: z3.And(off(l, 0) == 0, n_(flat(l)) == off(l, ty.llen(LLA, l))), lambda l: [flat(l)]),
              forall([sort(LLA), IS], lambda l, i: imp(0 <= i, off(l, i + 1) == off(l, i) + n_(row(l, i))), lambda l, i: [(off(l, i), row(l, i))]),
              forall([sort(LLA)], lambda l: imp(rows(l), z3.And(
                  forall([IS], lambda i: imp(z3.And(0 <= i, i <= ty.llen(LLA, l)), z3.And(0 <= off(l, i), off(l, i) <= off(l, ty.llen(LLA, l)))), lambda i: [off(l, i)]),
                  forall([IS, IS], lambda i, j: imp(z3.And(0 <= i, i < ty.llen(LLA, l), 0 <= j, j < n_(row(l, i))), at(flat(l), off(l, i) + j) == at(row(l, i), j)), lambda i, j: [at(row(l, i), j)]))), lambda l: [flat(l)]))),
          ("pickling the call's description keeps it", lambda: forall([IS, IS, sort(LS)], lambda a, b, k: z3.And(nargs(info(a, b, k)) == a, nbufs(info(a, b, k)) == b, names_of(info(a, b, k)) == k), lambda a, b, k: [info(a, b, k)]))]

    def serialized(eng, a, k):
        t, n = (eng.z(x, Int) for x in a[1:3]) if len(a) > 1 else (z3.IntVal(1024), z3.IntVal(64))
        return eng.wrap(LA, ser(eng.z(a[0], Any), t, n))

    def chained(eng, a, k):
        e0 = eng.symbolic(a[0], LLA)[1]
        e = eng.fresh("parts", LLA)
        eng.assume(ty.llen(LLA, e) == ty.llen(LLA, e0))
        eng.assume(forall([IS], lambda i: imp(z3.And(0 <= i, i < ty.llen(LLA, e0)), row(e, i) == row(e0, i)), lambda i: [row(e, i)]))
        which = "argparts" if eng.z(eng.gget("chained"), Int).num_args() == 0 else "kwparts"
        eng.gset(which, eng.wrap(LLA, e))
        eng.gset("chained", V(Int, eng.z(eng.gget("chained"), Int) + 1))
        return eng.wrap(LA, flat(e))

    def dumps(eng, a, k):
        d = eng.content(a[0].loc).d
        assert set(d) == {"nargs", "narg_bufs", "kw_keys"}
        names = eng.symbolic(d["kw_keys"][1], LS)[1]
        eng.gset("names", eng.wrap(LS, names))
        return V(Any, info(eng.z(d["nargs"][1], Int), eng.z(d["narg_bufs"][1], Int), names))

    def loads(eng, a, k):
        p = eng.z(a[0], Any)
        return Mut(eng.cell(CDict(dict(nargs=(true, V(Int, nargs(p))), narg_bufs=(true, V(Int, nbufs(p))), kw_keys=(true, eng.wrap(LS, names_of(p)))))))

    def deserialized(eng, a, k):
        b = eng.symbolic(a[0], LA)[1]
        g = eng.z(a[1], Any)
        x, r = eng.freshv("obj", Any), eng.fresh("rest", LA)
        begins = lambda o, t, n: z3.And(n_(b) >= n_(ser(o, t, n)), forall(Int, lambda j: imp(z3.And(0 <= j, j < n_(ser(o, t, n))), at(b, j) == at(ser(o, t, n), j)), lambda j: [at(ser(o, t, n), j)]))
        eng.assume(forall([A, IS, IS], lambda o, t, n: imp(begins(o, t, n), z3.And(x.e == back(o, g), n_(r) == n_(b) - n_(ser(o, t, n)), forall(Int, lambda j: imp(z3.And(0 <= j, j < n_(r)), at(r, j) == at(b, n_(ser(o, t, n)) + j)), lambda j: [at(r, j)]))),
                          lambda o, t, n: [ser(o, t, n)]))
        eng.assume(n_(r) >= 0)
        return TupV([x, eng.wrap(LA, r)])

    G = dict(chained=Int, argparts=LLA, kwparts=LLA, names=LS, sent_f=Any, sent_args=LA, sent_kw=DA, t=Int, n=Int)
    EXT = {M + "serialize_object": serialized, M + "deserialize_object": deserialized, "chain.from_iterable": chained, "itertools.chain.from_iterable": chained, "pickle.dumps": dumps, "pickle.loads": loads}

    def sent(v, b):
        """b is the call (sent_f, sent_args, sent_kw) laid out part after part"""
        f, args, kw, P, Q, names = (v.g(x) for x in ("sent_f", "sent_args", "sent_kw", "argparts", "kwparts", "names"))
        t, n = v.g("t"), v.g("n")
        F = ser(f, z3.IntVal(1024), z3.IntVal(64))
        n0 = n_(F)
        FP, FQ = flat(P.e), flat(Q.e)
        na = n_(FP)
        return {
            "a-row-for-each-argument": z3.And(P.len == args.len, args.all(lambda i: row(P.e, i) == ser(args.raw(i), t, n))),
            "a-row-for-each-keyword": z3.And(Q.len == names.len, names.all(lambda i: z3.And(kw.has(names.raw(i)), row(Q.e, i) == ser(kw.raw(names.raw(i)), t, n)))),
            "every-keyword-named": forall(Str, lambda x: imp(kw.has(x), exists(Int, lambda i: z3.And(0 <= i, i < names.len, names.raw(i) == x)))),
            "size": b.len == n0 + 1 + na + n_(FQ),
            "function-first": forall(Int, lambda j: imp(z3.And(0 <= j, j < n0), b.raw(j) == at(F, j))),
            "description": b.raw(n0) == info(args.len, na, names.e),
            "arguments": forall(Int, lambda j: imp(z3.And(0 <= j, j < na), b.raw(n0 + 1 + j) == at(FP, j))),
            "keywords": forall(Int, lambda j: imp(z3.And(0 <= j, j < n_(FQ)), b.raw(n0 + 1 + na + j) == at(FQ, j))),
        }

    these = lambda c: {"none-yet": c.g("chained") == 0, "this-call": z3.And(c.g("sent_f") == c["f"], c.g("sent_args").e == c["args"].e, c.g("sent_kw").e == c["kwargs"].e, c.g("t") == c["buffer_threshold"], c.g("n") == c["item_threshold"])}
    W = ["ghost:chained", "ghost:argparts", "ghost:kwparts", "ghost:names"]
    reg.add(Contract(M + "pack_apply_message", "P13", params=dict(f=Any, args=LA, kwargs=DA, buffer_threshold=Int, item_threshold=Int), returns=LA, externals=EXT, axioms=AX, ghosts=G, requires=these, modifies=W, ensures=lambda c: sent(c, c.res)))

    def taking(left, L, which, done):
        P = L.g(which)
        FP = flat(P.e)
        return {"so-far": off(P.e, L.k) + left.len == n_(FP), "the-rest": left.all(lambda j: left.raw(j) == at(FP, off(P.e, L.k) + j)), **done}

    def args_loop(L):
        a = L.typed("args", LA)
        return taking(L.typed("arg_bufs", LA), L, "argparts", {"as-many": a.len == L.k, "rebuilt": a.all(lambda i: a.raw(i) == back(L.g("sent_args").raw(i), L.p("g")))})

    def kw_loop(L):
        d, names, kw = L.typed("kwargs", DA), L.g("names"), L.g("sent_kw")
        return taking(L.typed("kwarg_bufs", LA), L, "kwparts", {
            "named-so-far": forall(Str, lambda x: d.has(x) == exists(Int, lambda i: z3.And(0 <= i, i < L.k, names.raw(i) == x))),
            "rebuilt": forall(Str, lambda x: imp(d.has(x), d.raw(x) == back(kw.raw(x), L.p("g"))))})

    def received(c, r):
        f, args, kw = r
        a, k = c.g("sent_args"), c.g("sent_kw")
        return {"same-function": f == back(c.g("sent_f"), c["g"]), "same-arguments": z3.And(args.len == a.len, args.all(lambda i: args.raw(i) == back(a.raw(i), c["g"]))),
                "same-keywords": forall(Str, lambda x: z3.And(kw.has(x) == k.has(x), imp(k.has(x), kw.raw(x) == back(k.raw(x), c["g"]))))}

    RET = ty.Tup(Any, LA, DA)
    reg.add(Contract(M + "unpack_apply_message", "P13", params=dict(bufs=LA, g=Any, copy=ty.Bool), returns=RET, externals=EXT, axioms=AX, ghosts=G, requires=lambda c: sent(c, c["bufs"]), locals=dict(args=LA, kwargs=DA, arg_bufs=LA, kwarg_bufs=LA),
                     loops={0: args_loop, 1: kw_loop}, ensures=lambda c: received(c, c.res)))
    return reg
