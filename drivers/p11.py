"""P11: the bundled local databases against a model of queries."""
import fnmatch
import os
import tempfile
from datetime import datetime, timedelta, timezone

from common import Driver, check, fail

d = Driver("P11", "random sequences of add, update, drop, read and query on both local databases with the same records (absent values, timestamps of several zones and "
           "without microseconds, equal timestamps, unusual texts), every operator and random conjunctions; a case counts when at least one query matched some but not all records")
import sim  # noqa: E402,F401

from ipyparallel.controller.dictdb import DictDB  # noqa: E402
from ipyparallel.controller.sqlitedb import SQLiteDB  # noqa: E402

TXT = ["", "a", "b", "ab", "group/a", "group/b", "x*y", "x?y", "é", "Z", "10", "9"]
LOCAL = timezone(timedelta(hours=3))
ZONES = [timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-8)), LOCAL]
STR = ["client_uuid", "engine_uuid", "label", "queue", "stdout"]
DATE = ["submitted", "started", "completed"]
KEYS = ["msg_id", "header", "metadata", "content", "buffers", "submitted", "client_uuid", "engine_uuid", "started", "completed", "resubmitted", "received", "result_header",
        "result_metadata", "result_content", "result_buffers", "queue", "execute_input", "execute_result", "error", "stdout", "stderr", "label"]


def when(x):
    """[seconds, microseconds, zone]"""
    return None if x is None else (datetime(2020, 3, 1, tzinfo=timezone.utc) + timedelta(seconds=x[0], microseconds=x[1])).astimezone(ZONES[x[2]])


def plain(x):
    """a moment of the last zone is given without zone: it means local time"""
    return x.astimezone().replace(tzinfo=None) if isinstance(x, datetime) and x.tzinfo is LOCAL else x


def gdate(r):
    return [r.choice([0, 1, 2, 3600, 7200, -19800, 40000]), r.choice([0, 0, 1, 500000]), r.choice([0, 0, 0, 1, 1, 2, 2, 3])]


def gval(r, key, none=True):
    if none and r.random() < .25 and key != "submitted":
        return None
    return gdate(r) if key in DATE else r.choice(TXT)


def val(key, v):
    return when(v) if key in DATE else v


def grec(r):
    return {k: gval(r, k) for k in STR + DATE} | {"bufs": [r.randrange(5) for _ in range(r.randrange(3))], "res": r.choice([None, [], [3]])}


def record(mid, s):
    rec = {k: None for k in KEYS}
    rec.update(msg_id=mid, header={"msg_id": mid, "n": [1, {"k": None}]}, metadata={"t": "x"}, content={}, buffers=[bytes(n) for n in s["bufs"]],
               result_buffers=None if s["res"] is None else [bytes(n) for n in s["res"]])
    for k in STR + DATE:
        rec[k] = val(k, s[k])
    return rec


def gcond(r, ids, both=True):
    key = r.choice(STR + DATE + ["msg_id", "msg_id"])
    v = (lambda: r.choice(ids + ["m", "zz"]) if key == "msg_id" else gval(r, key, none=False))
    if r.random() < .35:
        return [key, None, (None if r.random() < .3 else v())]
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        op = r.choice(["$lt", "$gt", "$lte", "$gte", "$eq", "$ne", "$in", "$nin", "$glob"] + ([] if both else ["$exists"]))
        if op in ("$in", "$nin"):
            o = [v() for _ in range(r.choice([0, 1, 2, 3]))]
        elif op == "$glob":
            if key in DATE:
                continue
            o = r.choice(["*", "a*", "*b", "?", "group/*", "x[*]y", "*[?]*", "[ab]", ""])
        elif op == "$exists":
            o = r.random() < .5
        elif op in ("$eq", "$ne") and r.random() < .3:
            o = None
        else:
            o = v()
        if not any(q[0] == op for q in ops):
            ops.append([op, o])
    return [key, ops or [["$ne", None]], None]


def query(q):
    out = {}
    for key, ops, v in q:
        if ops is None:
            out[key] = val(key, v)
        else:
            out[key] = {op: ([val(key, x) for x in o] if op in ("$in", "$nin") else o if op in ("$glob", "$exists") else val(key, o)) for op, o in ops}
    return out


def asked(q):
    """the query as it is given to the database: bounds may lack a zone"""
    return {k: {op: plain(o) for op, o in c.items()} if isinstance(c, dict) else c for k, c in query(q).items()}


def holds(rec, check_):
    for key, c in check_.items():
        a = rec[key]
        if not isinstance(c, dict):
            if a != c:
                return False
            continue
        for op, b in c.items():
            if op in ("$lt", "$gt", "$lte", "$gte"):
                if a is None or b is None:
                    return False
                ok = {"$lt": a < b, "$gt": a > b, "$lte": a <= b, "$gte": a >= b}[op]
            elif op == "$eq":
                ok = a == b
            elif op == "$ne":
                ok = a != b
            elif op == "$in":
                ok = a in b
            elif op == "$nin":
                ok = a not in b
            elif op == "$exists":
                ok = (a is not None) == b
            elif op == "$glob":
                ok = a is not None and fnmatch.fnmatchcase(a, b)
            if not ok:
                return False
    return True


def norm(rec):
    return {k: ([bytes(b) for b in v or []] if k in ("buffers", "result_buffers") else v) for k, v in rec.items()}


def gen(r, both=True):
    ids, ops = [], []
    for i in range(r.choice([2, 5, 10])):
        mid = f"m{i:02d}"
        ids.append(mid)
        ops.append(["add", mid, grec(r)])
    for _ in range(r.choice([5, 12, 25])):
        k = r.random()
        if k < .12:
            mid = f"n{len(ids):02d}"
            ids.append(mid)
            ops.append(["add", mid, grec(r)])
        elif k < .27:
            ops.append(["update", r.choice(ids + ["absent"]), {k2: gval(r, k2) for k2 in r.sample(STR + DATE, r.randrange(1, 4))}])
        elif k < .32:
            ops.append(["drop", r.choice(ids)])
        elif k < .38:
            ops.append(["dropmatch", [gcond(r, ids, both) for _ in range(r.choice([0, 1, 1, 2, 2]))] if r.random() < .9 else []])
        elif k < .45:
            ops.append(["get", r.choice(ids + ["absent"])])
        else:
            n = r.choice([0, 1, 1, 2, 3])
            cs = {}
            for _ in range(n):
                c = gcond(r, ids, both)
                cs[c[0]] = c
            ops.append(["find", list(cs.values()), r.choice([None, None, [], ["msg_id"], r.sample(KEYS, 3), ["stdout", "msg_id"], ["buffers"]])])
    return dict(ops=ops, both=both)


def run(c):
    partial = False
    with tempfile.TemporaryDirectory() as tmp:
        dbs = [("dict", DictDB())]
        if c["both"]:
            dbs.append(("sqlite", SQLiteDB(location=tmp, filename="t.db", table="t")))
        model = {}
        try:
            for op in c["ops"]:
                for name, db in dbs:
                    if op[0] == "add":
                        db.add_record(op[1], {k: plain(v) for k, v in record(op[1], op[2]).items()})
                    elif op[0] == "update":
                        new = {k: val(k, v) for k, v in op[2].items()}
                        given = dict(new)
                        try:
                            db.update_record(op[1], new)
                            if op[1] not in model and name == "dict":
                                fail("absent-updated", f"{name}: updating an absent record raised nothing")
                        except KeyError:
                            check(op[1] not in model, "update-refused", lambda: f"{name}: update of {op[1]} refused")
                        check(new == given, "argument-altered", lambda: f"{name}: update altered its argument")
                    elif op[0] == "drop":
                        if op[1] in model:
                            db.drop_record(op[1])
                    elif op[0] == "dropmatch":
                        q = asked(op[1])
                        db.drop_matching_records(q)
                        check(q == asked(op[1]), "argument-altered", lambda: f"{name}: the query was altered")
                    elif op[0] == "get":
                        try:
                            got = db.get_record(op[1])
                            check(op[1] in model, "absent-read", lambda: f"{name}: reading an absent record returned {got!r}")
                            check(norm(got) == norm(model[op[1]]), "record-differs", lambda: f"{name}: {diff(model[op[1]], got)}")
                            got["header"]["msg_id"] = "spoiled"
                            got["buffers"].append(b"spoiled") if got["buffers"] is not None else None
                        except KeyError:
                            check(op[1] not in model, "present-not-read", lambda: f"{name}: reading {op[1]} failed")
                    else:
                        q, keys = asked(op[1]), (None if op[2] is None else list(op[2]))
                        got = db.find_records(q, keys)
                        check(q == asked(op[1]), "argument-altered", lambda: f"{name}: the query was altered")
                        check(keys == op[2], "argument-altered", lambda: f"{name}: the list of keys {op[2]} became {keys}")
                        want = {m: r for m, r in model.items() if holds(r, query(op[1]))}
                        partial |= 0 < len(want) < len(model)
                        ids = [g.get("msg_id", "?") for g in got]
                        check(sorted(ids) == sorted(want), "query-result", lambda: f"{name}: {query(op[1])} gave {sorted(ids)}, expected {sorted(want)}")
                        ks = set(op[2]) | {"msg_id"} if op[2] else set(KEYS)
                        for g in got:
                            check(set(g) == ks, "query-fields", lambda: f"{name}: fields {sorted(g)} for requested {op[2]}")
                            w = {k: want[g["msg_id"]][k] for k in ks}
                            check(norm(g) == norm(w), "record-differs", lambda: f"{name}: {diff(w, g)}")
                            if "header" in g:
                                g["header"]["n"] = 5
                # the model moves
                if op[0] == "add":
                    model[op[1]] = record(op[1], op[2])
                elif op[0] == "update" and op[1] in model:
                    model[op[1]].update({k: val(k, v) for k, v in op[2].items()})
                elif op[0] == "drop":
                    model.pop(op[1], None)
                elif op[0] == "dropmatch":
                    q = query(op[1])
                    for m in [m for m, r in model.items() if holds(r, q)]:
                        del model[m]
                for name, db in dbs:
                    if not all(r["submitted"] for r in model.values()):
                        continue
                    h = db.get_history()
                    check(sorted(h) == sorted(model), "history-members", lambda: f"{name}: history {sorted(h)}, records {sorted(model)}")
                    t = [model[m]["submitted"] for m in h]
                    check(all(x <= y for x, y in zip(t, t[1:])), "history-order", lambda: f"{name}: history not by submission time: {list(zip(h, t))}")
            for name, db in dbs:
                for m, r in model.items():
                    check(norm(db.get_record(m)) == norm(r), "record-differs", lambda: f"{name}: {m}: {diff(r, db.get_record(m))}")
        finally:
            for name, db in dbs:
                if name == "sqlite":
                    db.close()
    return partial


def diff(a, b):
    a, b = norm(a), norm(b)
    return "; ".join(f"{k}: {a.get(k)!r} became {b.get(k)!r}" for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k) or (k in a) != (k in b))


def case_special(c):
    """operators of the in-memory database that sqlite does not have, straight on values"""
    db = DictDB()
    for i, v in enumerate([None, 0, 1, 2, 3, 6, 7]):
        db.add_record(f"m{i}", {"msg_id": f"m{i}", "v": v, "submitted": None, "tags": None if v is None else list(range(v)), "buffers": []})
    got = sorted(r["v"] for r in db.find_records({"v": {"$exists": True}}))
    check(got == [0, 1, 2, 3, 6, 7], "exists", lambda: f"$exists true gave {got}")
    got = [r["v"] for r in db.find_records({"v": {"$exists": False}})]
    check(got == [None], "exists", lambda: f"$exists false gave {got}")
    got = sorted(r["v"] for r in db.find_records({"v": {"$mod": [3, 0]}}))
    check(got == [0, 3, 6], "mod", lambda: f"$mod gave {got}")
    got = sorted(r["v"] for r in db.find_records({"tags": {"$all": [0, 2]}}))
    check(got == [3, 6, 7], "all", lambda: f"$all gave {got}")
    got = sorted(r["v"] for r in db.find_records({"v": {"$gt": 1, "$lt": 7}, "tags": {"$ne": [0, 1]}}))
    check(got == [3, 6], "conjunction", lambda: f"conjunction gave {got}")
    for bad in ({"v": {"$nope": 1}},):
        try:
            db.find_records(bad)
        except KeyError:
            continue
        fail("bad-operator", "an unknown operator was accepted")
    return True


def case_asked(c):
    """the same questions asked by a client of the hub"""
    import random

    import ipyparallel as ipp

    s = sim.Sim(random.Random(c["seed"]), engines=0)
    model = {}
    for mid, spec in c["recs"]:
        model[mid] = record(mid, spec)
        s.db.add_record(mid, record(mid, spec))
    partial = False

    def asks(*a, **k):
        f = s.client._send(*a, **k)
        s.drain()
        check(f.done(), "asked-unanswered", lambda: f"{a[1:]} {k} was not answered")
        return f.result()

    s.client._send_recv = asks
    if True:
        h = s.client.hub_history()
        if all(r["submitted"] for r in model.values()):
            check(sorted(h) == sorted(model), "asked-history", lambda: f"history {h}, records {sorted(model)}")
            t = [model[m]["submitted"] for m in h]
            check(all(x <= y for x, y in zip(t, t[1:])), "asked-history", lambda: f"history not by submission time: {list(zip(h, t))}")
        for q, keys in c["asks"]:
            given = query(q)
            got = s.client.db_query(given, None if keys is None else list(keys))
            check(given == query(q), "argument-altered", "the query was altered")
            want = {m: r for m, r in model.items() if holds(r, query(q))}
            partial |= 0 < len(want) < len(model)
            check(sorted(g.get("msg_id", "?") for g in got) == sorted(want), "asked-result", lambda: f"{query(q)} gave {[g.get('msg_id') for g in got]}, expected {sorted(want)}")
            ks = set(keys) | {"msg_id"} if keys else set(KEYS) - {"buffers", "result_buffers"}
            for g in got:
                check(set(g) == ks, "asked-fields", lambda: f"fields {sorted(g)} for requested {keys}")
                w = {k: want[g["msg_id"]][k] for k in ks}
                check(norm(g) == norm(w), "asked-record", lambda: diff(w, g))
        try:
            got = s.client.db_query({"stdout": {"$nope": 1}})
        except ipp.RemoteError:
            got = None
        check(got is None or not model, "asked-bad", lambda: f"an unknown operator gave {got!r}")
    return partial


def gen_asked(r):
    ids = [f"m{i:02d}" for i in range(r.choice([0, 1, 3, 6]))]
    asks = []
    for _ in range(4):
        cs = {}
        for _ in range(r.choice([0, 1, 1, 2])):
            cnd = gcond(r, ids or ["m00"], False)
            cs[cnd[0]] = cnd
        asks.append([list(cs.values()), r.choice([None, [], ["msg_id"], r.sample(KEYS, 3), ["stdout", "buffers"], ["buffers", "result_buffers"], ["result_buffers", "started"]])])
    return dict(seed=r.randrange(1 << 30), recs=[[i, grec(r)] for i in ids], asks=asks)


d.add("asked", case_asked, gen=gen_asked)
d.add("special", case_special, cases=[{}])
d.add("both", run, gen=lambda r: gen(r, True), weight=2)
d.add("dict", run, gen=lambda r: gen(r, False))
d.main()
