"""controller/dictdb.py: queries (P11) and limits (P12) of the in-memory database."""
import z3

from pyver import types as ty
from pyver.core import Mut, NoneV, V, uf
from pyver.spec import Contract, S_, ZD, exists, forall, imp
from pyver.types import Any, Bool, Bytes, Dict, Int, List, Opt, Real, Set, Str, sort

M = "ipyparallel.controller.dictdb:"
REC = Dict(Str, Any)
RECS = Dict(Str, REC)
LB = List(Bytes)
F = dict(_records=RECS, _culled_ids=Set(Str), _buffer_bytes=Int, size_limit=Int, record_limit=Int, cull_fraction=Real)

# ---- what a record holds
truthy = uf("truthy_Any", ty.AnySort, z3.BoolSort())
as_list = z3.Function("buffers_in", ty.AnySort, sort(LB))
blen = uf("len_Bytes", sort(Bytes), z3.IntSort())
upto = z3.Function("bytes_upto", sort(LB), z3.IntSort(), z3.IntSort())  # length of the first i buffers together
held = z3.Function("bytes_held", sort(RECS), z3.IntSort())  # bytes of all records together
size_of = z3.Function("bytes_of", sort(REC), z3.IntSort())


def part(e, key):
    k = S_(key)
    v = ty.sel(ty.dval(REC, e), k)
    l = as_list(v)
    return z3.If(z3.And(ty.sel(ty.ddom(REC, e), k), truthy(v)), upto(l, ty.llen(LB, l)), 0)


def upto_def():
    l, i = z3.Const("l!u", sort(LB)), z3.Int("i!u")
    return z3.And(z3.ForAll([l], upto(l, 0) == 0, patterns=[upto(l, 0)]),
                  z3.ForAll([l, i], imp(z3.And(0 <= i, i < ty.llen(LB, l)), upto(l, i + 1) == upto(l, i) + blen(ty.lat(LB, l, i))), patterns=[upto(l, i + 1)]),
                  z3.ForAll([l, i], imp(i >= 0, upto(l, i) >= 0), patterns=[upto(l, i)]))


def size_def():
    r = z3.Const("r!z", sort(REC))
    return z3.And(z3.ForAll([r], size_of(r) == part(r, "buffers") + part(r, "result_buffers"), patterns=[size_of(r)]))


def size_pos():
    r = z3.Const("r!z", sort(REC))
    return z3.ForAll([r], size_of(r) >= 0, patterns=[size_of(r)])


def held_def():
    D = sort(RECS)
    dom, val = z3.Const("d!h", z3.ArraySort(sort(Str), z3.BoolSort())), z3.Const("v!h", z3.ArraySort(sort(Str), sort(REC)))
    k, r = z3.Const("k!h", sort(Str)), z3.Const("r!h", sort(REC))
    mk = lambda a, b: ty.mk(RECS, a, b)
    here = z3.If(dom[k], size_of(val[k]), 0)
    put = mk(z3.Store(dom, k, True), z3.Store(val, k, r))
    drop = mk(z3.Store(dom, k, False), val)
    repl = mk(dom, z3.Store(val, k, r))
    d = z3.Const("dd!h", D)
    return z3.And(
        z3.ForAll([dom, val, k, r], held(put) == held(mk(dom, val)) - here + size_of(r), patterns=[held(put)]),
        z3.ForAll([dom, val, k], held(drop) == held(mk(dom, val)) - here, patterns=[held(drop)]),
        z3.ForAll([dom, val, k, r], imp(dom[k], held(repl) == held(mk(dom, val)) - here + size_of(r)), patterns=[held(repl)]),
        z3.ForAll([d], held(d) >= 0, patterns=[held(d)]),
        z3.ForAll([d], imp(ty.ddom(RECS, d) == z3.K(sort(Str), z3.BoolVal(False)), held(d) == 0), patterns=[held(d)]))


LEN = ("the length of a list of buffers is the sum of their lengths (defined by recursion)", upto_def)
SIZE = ("the bytes of a record are those of its buffers and result buffers", size_def)
POS = ("a record holds no negative number of bytes", size_pos)
HELD = ("the bytes held by a table are the sum over its records (defined by insertion and removal)", held_def)

# ---- values
NONE = z3.Const("any!None", ty.AnySort)
is_none = lambda v: v == NONE
A = ty.AnySort
passes = z3.Function("passes", A, A, z3.BoolSort())  # (condition object, value or None)
cond_of = z3.Function("condition", A, A)  # the condition object built from an operator dictionary
eq_of = z3.Function("equality", A, A)  # ... from {'$eq': value}
holds = z3.Function("test", A, A, A, z3.BoolSort())  # test(value, operand)
is_dict = uf("isinst_dict", A, z3.BoolSort())


def field(r, k):
    """the value of a field, None when absent"""
    return z3.If(ty.sel(ty.ddom(REC, r), k), ty.sel(ty.dval(REC, r), k), NONE)


def meets(cond, value):
    return z3.If(z3.And(cond != NONE, is_dict(cond)), passes(cond_of(cond), value), passes(eq_of(cond), value))


def matches(check, r):
    """record r satisfies every condition of the query"""
    return forall(Str, lambda k: imp(check.has(k), meets(check.raw(k), field(r, k))))


sid = uf("str_of_Any", A, sort(Str))
when = z3.Function("instant", ty.AnySort, z3.RealSort())


def register(reg):
    is_date = uf("isinst_datetime", ty.AnySort, z3.BoolSort())

    def with_zone(eng, args, kw):
        """the same kind of value, never None"""
        r = eng.freshv("zoned", Any)
        eng.assume(z3.And(r.e != NONE, is_date(r.e)))
        return r

    EXT = {"any.__iter__": lambda eng, a, k: eng.wrap(LB, as_list(a[0].e)), "order:Any": when,
           "copy.deepcopy": lambda eng, a, k: Mut(eng.cell(eng.content(a[0].loc))) if isinstance(a[0], Mut) else a[0], "any.as:Str": sid,
           "any.attr:tzinfo": Any, "ipyparallel.util:ensure_timezone": with_zone}
    K = dict(self_fields=F, externals=EXT)

    def moved(sign):
        return lambda c: {"account": c.f("_buffer_bytes") == c.old.f("_buffer_bytes") + sign * size_of(c["rec"].e)}

    def inner(sign):
        def inv(L):
            key = L["key"]
            r = L.p("rec").e
            l = as_list(ty.sel(ty.dval(REC, r), key))
            have = z3.And(ty.sel(ty.ddom(REC, r), key), truthy(ty.sel(ty.dval(REC, r), key)))
            return {"sum": L.f("_buffer_bytes") == L.pre.f("_buffer_bytes") + sign * upto(l, L.k)}
        return inv

    reg.add(Contract(M + "DictDB._drop_bytes", "P12", params=dict(rec=REC), modifies=["_buffer_bytes"], loops={1: inner(-1)}, ensures=moved(-1), axioms=[LEN, SIZE], **K))
    FULL = z3.BoolVal(True)
    has_time = lambda r: z3.And(ty.sel(ty.ddom(REC, r), S_("submitted")), z3.Not(is_none(ty.sel(ty.dval(REC, r), S_("submitted")))))
    time_of = lambda r: when(ty.sel(ty.dval(REC, r), S_("submitted")))

    def account(c):
        """the size account is what is held; every record has its submission time"""
        R = c.f("_records")
        return {"account-is-what-is-held": c.f("_buffer_bytes") == held(R.e),
                "submitted-known": R.all(lambda m: has_time(R.raw(m)))}

    def settings(c):
        return {"limits": z3.And(c.f("size_limit") >= 0, c.f("record_limit") >= 0, c.f("cull_fraction") >= 0, c.f("cull_fraction") <= 1)}

    reg.add(Contract(M + "DictDB.drop_record", ["P11", "P12"], params=dict(msg_id=Str), modifies=["_records", "_buffer_bytes"],
                     requires=account, axioms=[HELD],
                     raises={"KeyError": lambda c: {"only-when-absent": z3.Not(c.old.f("_records").has(c["msg_id"])), "nothing-changed": c.f("_records").same(c.old.f("_records")),
                                                    "nothing-changed-2": c.f("_buffer_bytes") == c.old.f("_buffer_bytes")}},
                     ensures=lambda c: {**account(c), "was-there": c.old.f("_records").has(c["msg_id"]), "gone": z3.Not(c.f("_records").has(c["msg_id"])),
                                        "counted": c.f("_records").len == c.old.f("_records").len - 1,
                                        "others-untouched": c.f("_records").same_except(c.old.f("_records"), c["msg_id"])}, **K))
    reg.add(Contract(M + "DictDB.get_history", ["P11", "P12"], requires=account, returns=List(Str),
                     ensures=lambda c: {"exactly-the-submitted": forall(Str, lambda m: c.res.has(m) == c.f("_records").has(m)),
                                        "each-once": c.res.distinct(), "as-many": c.res.len == c.f("_records").len,
                                        "oldest-first": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < c.res.len),
                                                               time_of(c.f("_records").raw(c.res.raw(i))) <= time_of(c.f("_records").raw(c.res.raw(j)))))}, **K))
    R0 = lambda c: c.old.f("_records")
    # what culling may do, from any state to the state it leaves
    def culled(c, pre, others=True):
        old, now, oc, nc = pre.f("_records"), c.f("_records"), pre.f("_culled_ids"), c.f("_culled_ids")
        return {
            "kept-are-unchanged": forall(Str, lambda m: imp(now.has(m), z3.And(old.has(m), now.raw(m) == old.raw(m)))),
            "forgotten-are-remembered-as-culled": forall(Str, lambda m: nc.has(m) == z3.Or(oc.has(m), z3.And(old.has(m), z3.Not(now.has(m))))),
            "only-the-oldest-go": forall([Str, Str], lambda a, b: imp(z3.And(old.has(a), z3.Not(now.has(a)), now.has(b)), time_of(old.raw(a)) <= time_of(old.raw(b)))),
        }

    def cull_loop(L):
        now, old = L.f("_records"), L.pre.f("_records")
        h = L.it
        gone = lambda m: L.visited(m)
        return {**account(L),
                "remaining": forall(Str, lambda m: z3.And(now.has(m) == z3.And(old.has(m), z3.Not(gone(m))), imp(now.has(m), now.raw(m) == old.raw(m)))),
                "culled": forall(Str, lambda m: L.f("_culled_ids").has(m) == z3.Or(L.pre.f("_culled_ids").has(m), gone(m))),
                "counted": now.len == old.len - L.k}

    reg.add(Contract(M + "DictDB._cull_oldest", "P12", params=dict(n=Int), modifies=["_records", "_buffer_bytes", "_culled_ids"], loops={0: cull_loop},
                     requires=lambda c: {**account(c), "n": c["n"] >= 0}, axioms=[HELD],
                     ensures=lambda c: {**account(c), **culled(c, c.old),
                                        "as-many-as-asked": c.f("_records").len == z3.If(c["n"] < R0(c).len, R0(c).len - c["n"], 0)}, **K))
    def within(c):
        return {"records-within-limit": c.f("_records").len <= c.f("record_limit"), "bytes-within-limit": c.f("_buffer_bytes") <= c.f("size_limit")}

    def size_loop(L):
        return {**account(L), **culled(L, L.pre), "not-more": L.f("_records").len <= L.pre.f("_records").len}

    shrunk = ("a fraction of a limit is within the limit", lambda: forall([Int, Real], lambda s_, f: imp(z3.And(s_ >= 0, f >= 0, f <= 1),
              z3.And(z3.ToReal(s_) * (1 - f) >= 0, z3.ToReal(s_) * (1 - f) <= z3.ToReal(s_)))))
    reg.add(Contract(M + "DictDB._maybe_cull", "P12", modifies=["_records", "_buffer_bytes", "_culled_ids"], loops={0: size_loop},
                     requires=lambda c: {**account(c), **settings(c)}, axioms=[HELD], ensures=lambda c: {**account(c), **within(c), **culled(c, c.old)}, **K))
    reg.add(Contract(M + "DictDB._add_bytes", "P12", params=dict(rec=REC), modifies=["_records", "_buffer_bytes", "_culled_ids"], loops={1: inner(1)},
                     requires=lambda c: {**settings(c), "account-lacks-the-record": c.f("_buffer_bytes") + size_of(c["rec"].e) == held(c.f("_records").e),
                                         "submitted-known": account(c)["submitted-known"]},
                     axioms=[HELD, LEN, SIZE], ensures=lambda c: {**account(c), **within(c), **culled(c, c.old)}, **K))
    DATES = ("submitted", "started", "completed", "received")

    def dated(c):
        r0, r = c["rec"], c.now("rec")
        isd = lambda k: z3.Or([k == S_(x) for x in DATES])
        return {"same-fields": forall(Str, lambda k: r.has(k) == r0.has(k)), "only-dates-touched": forall(Str, lambda k: z3.Or(isd(k), r.raw(k) == r0.raw(k))),
                "absent-stays-absent": forall(Str, lambda k: imp(r.has(k), (r.raw(k) == NONE) == (r0.raw(k) == NONE))),
                "dates-are-dates": z3.And([imp(z3.And(r.has(S_(x)), r.raw(S_(x)) != NONE), is_date(r.raw(S_(x)))) for x in DATES])}

    reg.add(Contract(M + "DictDB._check_dates", ["P11", "P12"], params=dict(rec=REC), modifies=["arg:rec"], ensures=dated,
                     raises={"ValueError": lambda c: {"only-for-a-bad-date": z3.Or([z3.And(c["rec"].has(S_(x)), z3.Not(is_none(c["rec"].raw(S_(x)))), z3.Not(is_date(c["rec"].raw(S_(x))))) for x in DATES])}}, **K))
    both = lambda c: {**account(c), **settings(c)}
    plain = lambda r, r0: forall(Str, lambda k: imp(z3.And([k != S_(x) for x in DATES]), z3.And(r.has(k) == r0.has(k), r.raw(k) == r0.raw(k))))

    def added(c):
        now, old = c.f("_records"), R0(c)
        m = c["msg_id"]
        oc, nc = c.old.f("_culled_ids"), c.f("_culled_ids")
        return {**account(c), **within(c), "was-new": z3.Not(old.has(m)),
                "others-kept-or-culled": forall(Str, lambda k: imp(k != m, z3.And(
                    imp(now.has(k), z3.And(old.has(k), now.raw(k) == old.raw(k))),
                    nc.has(k) == z3.Or(oc.has(k), z3.And(old.has(k), z3.Not(now.has(k))))))),
                "the-new-one": z3.And(nc.has(m) == z3.Not(now.has(m)), imp(now.has(m), plain(now[m], c["rec"]))),
                "only-the-oldest-go": forall([Str, Str], lambda a, b: imp(z3.And(a != m, b != m, old.has(a), z3.Not(now.has(a)), now.has(b)), time_of(old.raw(a)) <= time_of(old.raw(b))))}

    reg.add(Contract(M + "DictDB.add_record", ["P11", "P12"], params=dict(msg_id=Str, rec=REC), modifies=["_records", "_buffer_bytes", "_culled_ids", "arg:rec"],
                     requires=lambda c: {**both(c), "submitted": has_time(c["rec"].e)}, axioms=[HELD], ensures=added,
                     raises={"KeyError": lambda c: {"only-when-present": R0(c).has(c["msg_id"]), "unchanged": c.f("_records").same(R0(c))}, "ValueError": lambda c: {"unchanged": c.f("_records").same(R0(c))}}, **K))

    def updated(c):
        now, old, m, d = c.f("_records"), R0(c), c["msg_id"], c["rec"]
        return {**account(c), **within(c), "was-known": z3.And(old.has(m), z3.Not(c.old.f("_culled_ids").has(m))),
                "no-new-record": forall(Str, lambda k: imp(now.has(k), old.has(k))),
                "others-untouched": forall(Str, lambda k: imp(z3.And(k != m, now.has(k)), now.raw(k) == old.raw(k))),
                "named-fields-set": imp(now.has(m), forall(Str, lambda k: imp(z3.And([k != S_(x) for x in DATES]), z3.And(
                    now[m].has(k) == z3.Or(old[m].has(k), d.has(k)), imp(now[m].has(k), now[m].raw(k) == z3.If(d.has(k), d.raw(k), old[m].raw(k)))))))}

    reg.add(Contract(M + "DictDB.update_record", ["P11", "P12"], params=dict(msg_id=Str, rec=REC), modifies=["_records", "_buffer_bytes", "_culled_ids", "arg:rec"],
                     requires=lambda c: {**both(c), "submission-not-erased": imp(c["rec"].has(S_("submitted")), has_time(c["rec"].e))}, axioms=[HELD, SIZE], ensures=updated,
                     raises={"KeyError": lambda c: {"only-when-absent": z3.Or(c.old.f("_culled_ids").has(c["msg_id"]), z3.Not(R0(c).has(c["msg_id"]))), "unchanged": c.f("_records").same(R0(c))},
                             "ValueError": lambda c: {"unchanged": c.f("_records").same(R0(c))}}, **K))
    reg.add(Contract(M + "DictDB.get_record", ["P11", "P12"], params=dict(msg_id=Str), returns=REC,
                     ensures=lambda c: {"the-record": z3.And(R0(c).has(c["msg_id"]), c.res.e == R0(c).raw(c["msg_id"]))},
                     raises={"KeyError": lambda c: {"only-when-absent": z3.Or(c.old.f("_culled_ids").has(c["msg_id"]), z3.Not(R0(c).has(c["msg_id"])))}}, **K))
    # ---------------------------------------------------------------- queries
    def new_filter(eng, args, kw):
        a = args[0]
        if isinstance(a, V):
            return V(Any, cond_of(a.e))
        d = eng.content(a.loc).d
        assert list(d) == ["$eq"]
        return V(Any, eq_of(eng.z(d["$eq"][1], Any)))

    Q = dict(self_fields=F, externals={**EXT, "new:CompositeFilter": new_filter, "any.__call__": lambda eng, a, k: V(Bool, passes(a[0].e, eng.z(a[1], Any)))})
    reg.add(Contract(M + "DictDB._match_one", "P11", params=dict(rec=REC, tests=REC), returns=Bool,
                     loops={0: lambda L: {"so-far": forall(Str, lambda k: imp(L.visited(k), passes(L.p("tests").raw(k), field(L.p("rec").e, k))))}},
                     ensures=lambda c: {"all-tests": c.res == forall(Str, lambda k: imp(c["tests"].has(k), passes(c["tests"].raw(k), field(c["rec"].e, k))))}, **Q))
    own_id = lambda c: {"keyed-by-id": c.f("_records").all(lambda m: z3.And(c.f("_records")[m].has(S_("msg_id")), sid(c.f("_records")[m].raw(S_("msg_id"))) == m))}

    def built(L):
        t, ch = L.typed("tests", REC), L.p("check")
        return {"tests": forall(Str, lambda k: z3.And(t.has(k) == L.visited(k), imp(t.has(k), t.raw(k) == z3.If(z3.And(ch.raw(k) != NONE, is_dict(ch.raw(k))), cond_of(ch.raw(k)), eq_of(ch.raw(k))))))}

    LR = List(REC)

    def scanned(L):
        ms, R, ch = L.typed("matches", LR), L.f("_records"), L.p("check")
        idof = lambda i: sid(ms[i].raw(S_("msg_id")))
        return {"found": forall(Str, lambda m: imp(z3.And(L.visited(m), matches(ch, R.raw(m))), ms.has(R.raw(m)))),
                "nothing-else": ms.all(lambda i: z3.And(L.visited(idof(i)), R.has(idof(i)), ms.raw(i) == R.raw(idof(i)), matches(ch, ms.raw(i)))),
                "each-once": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < ms.len), idof(i) != idof(j)))}

    def found(c):
        R, rs = c.f("_records"), c.res
        idof = lambda i: sid(rs[i].raw(S_("msg_id")))
        return {"every-match": forall(Str, lambda m: imp(z3.And(R.has(m), matches(c["check"], R.raw(m))), rs.has(R.raw(m)))),
                "only-matches": rs.all(lambda i: z3.And(R.has(idof(i)), rs.raw(i) == R.raw(idof(i)), matches(c["check"], rs.raw(i)))),
                "each-once": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < rs.len), idof(i) != idof(j)))}

    reg.add(Contract(M + "DictDB._match", "P11", params=dict(check=REC), returns=LR, requires=own_id, loops={0: built, 1: scanned}, ensures=found,
                     locals={"tests": REC, "matches": LR}, **Q))
    LS = List(Str)

    def picked(c):
        r, d, ks = c["rec"], c.res, c["keys"]
        want = lambda k: z3.Or(k == S_("msg_id"), ks.has(k))
        return {"asked-fields-and-id": forall(Str, lambda k: d.has(k) == want(k)), "their-values": forall(Str, lambda k: imp(want(k), z3.And(r.has(k), d.raw(k) == r.raw(k))))}

    reg.add(Contract(M + "DictDB._extract_subdict", "P11", params=dict(rec=REC, keys=LS), returns=REC, ensures=picked, locals={"d": REC},
                     loops={0: lambda L: {"so-far": forall(Str, lambda k: z3.And(L.typed("d", REC).has(k) == z3.Or(k == S_("msg_id"), L.visited(k)),
                                                                                imp(L.typed("d", REC).has(k), z3.And(L.p("rec").has(k), L.typed("d", REC).raw(k) == L.p("rec").raw(k)))))}},
                     raises={"KeyError": lambda c: {"a-field-is-missing": z3.Or(z3.Not(c["rec"].has(S_("msg_id"))), exists(Str, lambda k: z3.And(c["keys"].has(k), z3.Not(c["rec"].has(k)))))}}, **Q))
    reg.add(Contract(M + "DictDB.find_records", "P11", variant="whole", params=dict(check=REC, keys=None), returns=LR, requires=own_id, ensures=found, **Q))

    def found_part(c):
        R, rs, ks = c.f("_records"), c.res, c["keys"]
        idof = lambda i: sid(rs[i].raw(S_("msg_id")))
        want = lambda k: z3.Or(k == S_("msg_id"), ks.has(k))
        cut = lambda d, r: z3.And(forall(Str, lambda k: z3.And(d.has(k) == want(k), imp(want(k), d.raw(k) == r.raw(k)))))
        return {"only-matches": rs.all(lambda i: z3.And(R.has(idof(i)), matches(c["check"], R.raw(idof(i))))),
                "asked-fields-only": imp(ks.len > 0, rs.all(lambda i: cut(rs[i], R[idof(i)]))),
                "all-fields-when-none-asked": imp(ks.len == 0, rs.all(lambda i: rs.raw(i) == R.raw(idof(i)))),
                "every-match": forall(Str, lambda m: imp(z3.And(R.has(m), matches(c["check"], R.raw(m))), exists(Int, lambda i: z3.And(0 <= i, i < rs.len, idof(i) == m)))),
                "each-once": forall([Int, Int], lambda i, j: imp(z3.And(0 <= i, i < j, j < rs.len), idof(i) != idof(j)))}

    reg.add(Contract(M + "DictDB.find_records", "P11", params=dict(check=REC, keys=LS), returns=LR, requires=own_id, ensures=found_part,
                     raises={"KeyError": lambda c: {"a-field-is-missing": exists([Str, Str], lambda m, k: z3.And(c.f("_records").has(m), c["keys"].has(k), z3.Not(c.f("_records")[m].has(k))))}}, **Q))

    def dropped(c):
        now, old = c.f("_records"), R0(c)
        return {**account(c), "exactly-the-matching-go": forall(Str, lambda m: now.has(m) == z3.And(old.has(m), z3.Not(matches(c["check"], old.raw(m))))),
                "others-untouched": forall(Str, lambda m: imp(now.has(m), now.raw(m) == old.raw(m)))}

    def dropping(L):
        now, old, ms = L.f("_records"), L.pre.f("_records"), L.typed("matches", LR)
        idof = lambda i: sid(ms[i].raw(S_("msg_id")))
        done = lambda m: exists(Int, lambda i: z3.And(0 <= i, i < L.k, idof(i) == m))
        return {**account(L), "left": forall(Str, lambda m: z3.And(now.has(m) == z3.And(old.has(m), z3.Not(done(m))), imp(now.has(m), now.raw(m) == old.raw(m))))}

    reg.add(Contract(M + "DictDB.drop_matching_records", ["P11", "P12"], params=dict(check=REC), modifies=["_records", "_buffer_bytes"], axioms=[HELD],
                     requires=lambda c: {**own_id(c), **account(c)}, loops={0: dropping}, ensures=dropped, **Q))
    # ---------------------------------------------------------------- conditions
    LA = List(Any)
    CF = dict(self_fields=dict(tests=LA, values=LA), externals={"any.__call__": lambda eng, a, k: V(Bool, holds(a[0].e, eng.z(a[1], Any), eng.z(a[2], Any)))})
    reg.add(Contract(M + "CompositeFilter.__call__", "P11", params=dict(value=Any), returns=Bool,
                     requires=lambda c: {"one-operand-each": c.f("tests").len == c.f("values").len},
                     loops={0: lambda L: {"so-far": forall(Int, lambda i: imp(z3.And(0 <= i, i < L.k), holds(L.f("tests").raw(i), L.p("value"), L.f("values").raw(i))))}},
                     ensures=lambda c: {"every-condition": c.res == c.f("tests").all(lambda i: holds(c.f("tests").raw(i), c["value"], c.f("values").raw(i)))}, **CF))
    # ---- what each operator means: verified on the entries of the real table, through client code that looks them up
    rel = {n: z3.Function("py_" + n, A, A, z3.BoolSort()) for n in ("lt", "gt", "le", "ge", "in", "glob")}
    OP = {f"operator.{n}": (lambda n: lambda eng, a, k: V(Bool, rel[n](a[0].e, a[1].e)))(n) for n in ("lt", "gt", "le", "ge")}
    OP.update({"any.__contains__": lambda eng, a, k: rel["in"](eng.z(a[1], Any), a[0].e), "any.__iter__": lambda eng, a, k: eng.wrap(LA, listed(a[0].e)),
               "fnmatch.fnmatch": lambda eng, a, k: V(Bool, rel["glob"](a[0].e, a[1].e))})
    listed = z3.Function("elements", A, sort(LA))
    order = lambda n: lambda a, b: z3.And(a != NONE, b != NONE, rel[n](a, b))
    MEAN = {"$lt": order("lt"), "$gt": order("gt"), "$lte": order("le"), "$gte": order("ge"), "$eq": lambda a, b: a == b, "$ne": lambda a, b: a != b,
            "$in": lambda a, b: rel["in"](a, b), "$nin": lambda a, b: z3.Not(rel["in"](a, b)),
            "$exists": lambda a, b: z3.If(truthy(b), a != NONE, a == NONE), "$glob": lambda a, b: z3.And(a != NONE, rel["glob"](a, b)),
            "$all": lambda a, b: z3.And(a != NONE, forall(Int, lambda i: imp(z3.And(0 <= i, i < ty.llen(LA, listed(b))), rel["in"](ty.lat(LA, listed(b), i), a))))}
    for op, mean in MEAN.items():
        reg.add(Contract(M + "filters", "P11", name=f"filters[{op!r}]", variant=op, harness=f"def use(a, b):\n    return True if filters[{op!r}](a, b) else False",
                         params=dict(a=Any, b=Any), returns=Bool, ensures=lambda c, mean=mean: {"meaning": c.res == mean(c["a"], c["b"])}, externals=OP), callee=False)
    return reg
