"""P07: broadcasts."""
from common import Driver, check

d = Driver("P07", "concurrent broadcasts of a real client, coalescing or not, to random subsets (in random order) of random engines through trees of real broadcast schedulers of depth 0 to 3, on "
           "random network schedules, some targets failing, values of any size; each target must run each broadcast once, nobody else may, and every handle must show every target's "
           "own reply once all have answered; a case counts when two broadcasts had several targets")
import random  # noqa: E402

import sim  # noqa: E402


def task(tag, bad, kind):
    import sim

    eid = sim._CUR.eid
    sim.BLOG.append((tag, eid))
    if eid in bad:
        raise ValueError(f"{tag}-{eid}")
    if kind == "small":
        return (tag, eid)
    if kind == "bytes":
        return (tag, eid, [bytes([eid]) * 2000] * (eid % 3))
    import numpy

    return (tag, eid, [numpy.full(400, eid, dtype="int32") for _ in range(eid % 4)], b"x" * (eid * 700))


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "tolist"):
        return v.tolist()
    return bytes(v) if isinstance(v, (bytes, bytearray, memoryview)) else v


def expected(tag, eid, kind):
    if kind == "small":
        return [tag, eid]
    if kind == "bytes":
        return [tag, eid, [bytes([eid]) * 2000] * (eid % 3)]
    return [tag, eid, [[eid] * 400] * (eid % 4), b"x" * (eid * 700)]


class B:
    pass


class W:
    def __init__(self, c):
        self.r = random.Random(c["seed"])
        sim.seeded_random(c["seed"])
        sim.BLOG = self.log = []
        self.s = sim.Sim(random.Random(c["seed"] + 1), engines=0, hwm=0)
        self.s.bcast_setup(c["depth"])
        self.cl = self.s.client
        self.cl.block = False
        self.depth = c["depth"]
        for _ in range(c["engines"]):
            e = self.s.add_engine()
            e.kernel.shell.eid = e.eid
        self.s.drain()
        # gaps: some leave before anything is sent
        for _ in range(c["gone"]):
            if len(self.s.engines) > 1:
                self.s.kill(self.r.choice(sorted(self.s.engines)))
                self.s.drain()
        self.ids = sorted(self.s.engines)
        self.bs = []

    def submit(self):
        r = self.r
        b = B()
        b.tag = f"b{len(self.bs)}"
        b.targets = r.sample(self.ids, r.randrange(1, len(self.ids) + 1))
        if r.random() < .3:
            b.targets = list(self.ids)
        b.co = r.random() < .5
        b.bad = [t for t in b.targets if r.random() < .25] if r.random() < .4 else []
        b.kind = r.choice(["small", "small", "bytes", "arrays"])
        v = self.cl.broadcast_view(b.targets, is_coalescing=b.co)
        b.ar = v.apply_async(task, b.tag, b.bad, b.kind)
        b.early = False
        self.bs.append(b)

    def ran(self, b):
        return [e for t, e in self.log if t == b.tag]

    def look(self, b, final=False):
        ran = self.ran(b)
        check(len(ran) == len(set(ran)), "ran-twice", lambda: f"depth {self.depth}: {b.tag} to {b.targets} ran on {ran}")
        check(set(ran) <= set(b.targets), "ran-elsewhere", lambda: f"depth {self.depth}: {b.tag} to {b.targets} ran on {ran}")
        ready = b.ar.ready()
        if ready:
            check(len(ran) == len(b.targets), "answered-early", lambda: f"depth {self.depth}: {b.tag} to {b.targets} is ready, but only {ran} ran")
        if not final:
            return
        check(sorted(ran) == sorted(b.targets), "not-delivered", lambda: f"depth {self.depth}: {b.tag} to {b.targets} ran on {ran}")
        check(ready, "no-answer", lambda: f"depth {self.depth}: {b.tag} to {b.targets}: everything was answered, the result is not ready")
        if b.bad:
            try:
                v = b.ar.get(0)
            except Exception as e:
                got = [x[1] for x in e.elist] if hasattr(e, "elist") else [getattr(e, "evalue", str(e))]
            else:
                check(False, "failure-lost", lambda: f"depth {self.depth}: {b.tag} failed on {b.bad}, the result is {v!r}")
            want = [f"{b.tag}-{t}" for t in b.targets if t in b.bad]
            if b.co:
                check(all(g in want for g in got), "wrong-failure", lambda: f"depth {self.depth}: {b.tag} reports {got}, failed with {want}")
            else:
                check(got == want, "wrong-failures", lambda: f"depth {self.depth}: {b.tag} reports {got}, failed with {want}")
                for t, f in zip(b.targets, b.ar._children):
                    if t not in b.bad:
                        check(plain(f.result()) == expected(b.tag, t, b.kind), "wrong-value", lambda: f"{b.tag}: {t} answered {f.result()!r:.200}")
            return
        vals = [plain(x) for x in b.ar.get(0)]
        md = b.ar.metadata if not b.co else None
        if b.co:
            m = b.ar.metadata
            m = m[0] if isinstance(m, list) else m
            labels = m["engine_id"]
            uuids = m["engine_uuid"]
        else:
            labels = [m["engine_id"] for m in md]
            uuids = [m["engine_uuid"] for m in md]
            check(labels == b.targets, "labels-differ", lambda: f"depth {self.depth}: {b.tag} to {b.targets}: replies labelled {labels}")
            check(len(set(b.ar.msg_ids)) == len(b.targets), "shared-ids", lambda: f"{b.tag}: {b.ar.msg_ids}")
        check(sorted(labels) == sorted(b.targets), "labels-differ", lambda: f"depth {self.depth}: {b.tag} to {b.targets}: replies labelled {labels}")
        check(uuids == [self.s.engines[t].uuid for t in labels], "labels-differ", lambda: f"depth {self.depth}: {b.tag}: engines {labels} named {uuids}")
        want = [expected(b.tag, t, b.kind) for t in labels]
        check(vals == want, "wrong-value", lambda: f"depth {self.depth}: {b.tag} to {b.targets} (labels {labels}) gave {str(vals)[:300]}, expected {str(want)[:300]}")

    def run(self, n):
        for _ in range(n):
            x = self.r.random()
            if x < .3:
                self.submit()
            else:
                self.s.steps(self.r.randrange(1, 25))
            for b in self.bs:
                self.look(b)
        self.s.drain()
        for b in self.bs:
            self.look(b, True)
        return sum(len(b.targets) > 1 for b in self.bs) >= 2


def case_broadcasts(c):
    return W(c).run(c["n"])


def gen(r):
    return dict(seed=r.randrange(1 << 30), engines=r.choice([1, 2, 3, 4, 5, 8, 9, 11]), depth=r.choice([0, 1, 1, 2, 2, 3]), gone=r.choice([0, 0, 1, 3]), n=r.choice([6, 15, 25]))


d.add("broadcasts", case_broadcasts, gen=gen)
if __name__ == "__main__":
    d.main()
