"""P13: serialization round trips."""
from common import Driver, check, fail

d = Driver("P13", "random values (nested containers, byte strings, arrays of many dtypes and layouts, memory views, functions; sizes around every "
           "threshold) and calls, through buffers as bytes or memory views with trailing buffers; all combinations of small thresholds; a case "
           "counts when it carries at least one non-empty value")
import values  # noqa: E402

from ipyparallel import serialize as ser  # noqa: E402
from ipyparallel.serialize import canning  # noqa: E402
from ipyparallel.serialize.serialize import PrePickled  # noqa: E402


def wire(bufs, how):
    bs = [bytes(b) for b in bufs]
    return [memoryview(b) for b in bs] if how else bs


def case_object(c):
    o, o2 = values.build(c["v"]), values.build(c["v"])
    tail = [b"", b"tail", b"more"][: c["tail"]]
    kw = {}
    if c["bt"] is not None:
        kw["buffer_threshold"] = c["bt"]
    if c["it"] is not None:
        kw["item_threshold"] = c["it"]
    obj = PrePickled(o) if c.get("pre") else o
    for turn in range(2 if c.get("pre") else 1):
        bufs = ser.serialize_object(obj, **kw)
        diff = values.same(o2, o)
        check(diff is None, "original-altered", lambda: f"serializing changed the original: {diff}")
        if c["bt"] is not None and not c.get("pre"):
            pass
        got, rest = ser.deserialize_object(wire(bufs, c["mv"]) + list(tail), {})
        check([bytes(x) for x in rest] == tail, "buffers-consumed", lambda: f"{len(bufs)} buffers sent, {len(rest)} left of {len(tail)} following ones: {rest!r}")
        diff2 = values.same(o2, got)
        check(diff2 is None, "object-changed", lambda: diff2)
    return True


def fplain(*a, **k):
    return (a, k)


def case_call(c):
    args = tuple(values.build(v) for v in c["args"])
    kwargs = {k: values.build(v) for k, v in c["kw"]}
    base = 7

    def clo(*a, **k):
        return (base, a, k)

    f = [fplain, clo, len][c["f"]]
    kw = {}
    if c["bt"] is not None:
        kw["buffer_threshold"] = c["bt"]
    if c["it"] is not None:
        kw["item_threshold"] = c["it"]
    msg = ser.pack_apply_message(f, args, kwargs, **kw)
    g, a, k = ser.unpack_apply_message(wire(msg, c["mv"]), {}, copy=bool(c["mv"]))
    check(type(a) is tuple and len(a) == len(args), "argument-count", lambda: f"{len(args)} arguments became {len(a)}")
    dd = values.same(args, a, "args")
    check(dd is None, "arguments-changed", lambda: dd)
    check(set(k) == set(kwargs), "keyword-names", lambda: f"keywords {sorted(kwargs)} became {sorted(k)}")
    for n in kwargs:
        dk = values.same(kwargs[n], k[n], f"kwargs[{n!r}]")
        check(dk is None, "keyword-value-changed", lambda: dk)
    if c["f"] == 2:
        check(g is len, "function-changed", f"len became {g!r}")
    else:
        want, got = f(1, x=2), g(1, x=2)
        check(got == want, "function-changed", lambda: f"function gave {got!r}, expected {want!r}")
    return bool(args or kwargs)


def case_several(c):
    """several objects in one buffer list: each takes exactly its own"""
    objs = [values.build(v) for v in c["vs"]]
    bufs = []
    for o in objs:
        bufs.extend(wire(ser.serialize_object(o, buffer_threshold=c["bt"]), 0))
    for i, o in enumerate(objs):
        got, bufs = ser.deserialize_object(bufs, {})
        dd = values.same(o, got, f"object {i}")
        check(dd is None, "object-mixed-up", lambda: dd)
    check(bufs == [], "buffers-left", lambda: f"{len(bufs)} buffers left over")
    return True


BT = [None, 0, 1, 7, 8, 9, 1000]
IT = [None, None, 0, 1, 2, 3, 64, 70, 1000]
d.add("object", case_object, gen=lambda r: dict(v=values.top(r), bt=r.choice(BT), it=r.choice(IT), mv=r.randrange(2), tail=r.randrange(4), pre=r.random() < .1), weight=3)
d.add("call", case_call, gen=lambda r: dict(args=[values.top(r) for _ in range(r.choice([0, 1, 2, 3]))],
                                           kw=[[k, values.top(r)] for k in r.sample(["z", "a", "m", "é"], r.randrange(0, 4))],
                                           f=r.randrange(3), bt=r.choice(BT), it=r.choice(IT), mv=r.randrange(2)), weight=2)
d.add("several", case_several, gen=lambda r: dict(vs=[values.top(r) for _ in range(r.randrange(1, 5))], bt=r.choice([0, 1, 8, 9, 1000])))
d.main()
