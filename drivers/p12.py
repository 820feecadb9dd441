"""P12: limits of the in-memory database."""
from datetime import datetime, timedelta, timezone

from common import Driver, check, fail

d = Driver("P12", "random sequences of adds, updates (also shrinking and clearing buffers), drops and re-adds on in-memory databases with random small limits and cull "
           "fractions, two databases side by side; a case counts when something was forgotten")
import sim  # noqa: E402,F401

from ipyparallel.controller.dictdb import DictDB  # noqa: E402

T0 = datetime(2021, 1, 1, tzinfo=timezone.utc)


def size(rec):
    return sum(len(b) for k in ("buffers", "result_buffers") for b in rec.get(k) or [])


class M:
    def __init__(self, c):
        self.db = DictDB(record_limit=c["rl"], size_limit=c["sl"], cull_fraction=c["cf"])
        self.c, self.recs, self.gone, self.dropped = c, {}, set(), set()

    def check(self, what, touched=None):
        db, c = self.db, self.c
        h = db.get_history()
        held = {m: db.get_record(m) for m in h}
        n, b = len(h), sum(size(r) for r in held.values())
        check(n <= c["rl"], "record-limit", lambda: f"after {what}: {n} records with a limit of {c['rl']}")
        check(b <= c["sl"], "size-limit", lambda: f"after {what}: {b} bytes with a limit of {c['sl']}")
        acct = db._buffer_bytes if hasattr(db, "_buffer_bytes") else b
        check(acct == b, "size-account", lambda: f"after {what}: account {acct}, held {b}")
        lost = set(self.recs) - set(h)
        if lost:
            keep = [self.recs[m]["submitted"] for m in h]
            newest = max(self.recs[m]["submitted"] for m in lost)
            check(not keep or newest <= min(keep), "not-oldest", lambda: f"after {what}: forgot {sorted(lost)} though older ones were kept")
            # only when a limit was exceeded, and no more than the fraction asks for
            n0, b0 = len(self.recs), sum(size(r) for r in self.recs.values())
            check(n0 > c["rl"] or b0 > c["sl"], "forgot-early", lambda: f"after {what}: forgot {sorted(lost)} with {n0} records, {b0} bytes, limits {c['rl']}, {c['sl']}")
            least = max(size(self.recs[m]) for m in lost if self.recs[m]["submitted"] == newest)
            for m in lost:
                try:
                    db.get_record(m)
                    fail("forgotten-read", f"{m} was forgotten and read")
                except KeyError as e:
                    check("culled" in str(e), "culled-not-said", lambda: f"reading forgotten {m}: {e}")
            # without its last culled record the database would still have been over the point culling aims at
            keepn = n + 1
            keepb = b + least
            check(keepn > c["rl"] * (1 - c["cf"]) - 1e-9 or keepb > c["sl"] * (1 - c["cf"]) - 1e-9, "forgot-too-much",
                  lambda: f"after {what}: {n} records, {b} bytes left; limits {c['rl']}, {c['sl']}, fraction {c['cf']}")
            for m in lost:
                self.recs.pop(m)
                self.gone.add(m)
        for m in h:
            check(m in self.recs, "appeared", lambda: f"{m} is held but was not added")
            check(held[m] == self.recs[m], "record-differs", lambda: f"{m}: {held[m]} instead of {self.recs[m]}")

    def others(self):
        for m in self.dropped - self.gone - set(self.recs):
            try:
                self.db.get_record(m)
            except KeyError as e:
                check("culled" not in str(e), "culled-wrongly", lambda: f"{m} was dropped on request and is said to be culled")
                continue
            fail("dropped-read", f"{m} was dropped and read")


def case(c):
    ms = [M(c), M(dict(c, rl=1000, sl=10**9))]
    for i, op in enumerate(c["ops"]):
        for j, m in enumerate(ms):
            mid = f"{'ab'[j]}{op[1]:02d}" if not c["same"] else f"t{op[1]:02d}"
            if op[0] == "add":
                if mid in m.recs:
                    continue
                rec = dict(msg_id=mid, submitted=T0 + timedelta(seconds=op[2]), buffers=[bytes(x) for x in op[3]], result_buffers=None)
                m.recs[mid] = dict(rec)
                m.gone.discard(mid)
                m.dropped.discard(mid)
                m.db.add_record(mid, dict(rec))
            elif op[0] == "update":
                new = {op[2]: None if op[3] is None else [bytes(x) for x in op[3]]}
                if mid in m.recs:
                    m.recs[mid] = {**m.recs[mid], **new}
                    m.db.update_record(mid, dict(new))
                else:
                    try:
                        m.db.update_record(mid, dict(new))
                        fail("absent-updated", f"updating absent {mid} raised nothing")
                    except KeyError as e:
                        check(("culled" in str(e)) == (mid in m.gone), "culled-not-said", lambda: f"updating {mid} (culled: {mid in m.gone}): {e}")
            elif op[0] == "drop" and mid in m.recs:
                m.db.drop_record(mid)
                del m.recs[mid]
                m.dropped.add(mid)
            elif op[0] == "match" and mid in m.recs:
                m.db.drop_matching_records({"msg_id": mid})
                del m.recs[mid]
                m.dropped.add(mid)
            m.check(op[0])
        for m in ms:
            m.others()
    check(not ms[1].gone, "other-database", "a database without small limits forgot records")
    return bool(ms[0].gone)


def gen(r):
    n = r.choice([10, 30, 60])
    ops, t = [], 0
    for i in range(n):
        k = r.random()
        if k < .6:
            t += r.choice([0, 1, 1, -3])
            ops.append(["add", i if r.random() < .9 else r.randrange(i + 1), t, [r.choice([0, 1, 5, 20]) for _ in range(r.randrange(3))]])
        elif k < .85:
            ops.append(["update", r.randrange(i + 1), r.choice(["buffers", "result_buffers"]), r.choice([None, [], [1], [30], [5, 5]])])
        else:
            ops.append([r.choice(["drop", "match"]), r.randrange(i + 1)])
    return dict(rl=r.choice([1, 2, 3, 5, 10, 20, 1000]), sl=r.choice([0, 10, 50, 100, 10**6]), cf=r.choice([0.0, .1, .2, .5, 1.0]), ops=ops, same=r.random() < .5)


d.add("history", case, gen=gen)
d.main()
