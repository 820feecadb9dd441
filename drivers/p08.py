"""P08: the heart monitor."""
from common import Driver, check

d = Driver("P08", "random sequences of beats of the real heart monitor and of answers (timely, late, missing, repeated, old, foreign, malformed) of up to six hearts under a virtual clock, its announcements and "
           "failures compared beat by beat with a miss-count model; a case counts when a heart was declared dead and another was not")
import random  # noqa: E402

import sim  # noqa: E402

from ipyparallel.controller import heartmonitor as hm_mod  # noqa: E402


class Clock:
    now = 100.0

    def monotonic(self):
        return self.now

    time = monotonic

    def __getattr__(self, n):
        import time

        return getattr(time, n)


class W:
    def __init__(self, c):
        self.r = random.Random(c["seed"])
        self.clock = hm_mod.time = Clock()
        self.pings, self.said, self.late = [], [], []
        self.ping = sim.FStream(lambda fr: self.pings.append(fr[-1]), "ping")
        self.pong = sim.FStream(None, "pong")
        self.mon = sim.FStream(self.heard, "mon")
        self.mon.recv_multipart = lambda *a, **k: [b"\x01"]
        self.pong.flush = self.flush
        self.m = hm_mod.HeartMonitor(ping_stream=self.ping, pong_stream=self.pong, monitor_stream=self.mon, session=sim.mksession("hm"), max_heartmonitor_misses=c["misses"], period=1000)
        self.m.start()
        self.m.caller.stop()
        self.max = c["misses"]
        self.known, self.miss, self.resp = set(), {}, set()
        self.deaths = self.alive_end = 0

    def heard(self, fr):
        _, m = sim.parse(fr)
        self.said.append((m["header"]["msg_type"], list(m["content"]["hearts"])))

    def flush(self, *a, **k):
        for ident, text in self.late:
            self.answer(ident, text)
        self.late = []

    def answer(self, ident, text):
        if self.pings and text in (self.pings[-1], self.pings[-2] if len(self.pings) > 1 else None):
            self.resp.add(ident)
        self.pong.deliver([ident, text])

    def beat(self):
        self.clock.now += self.r.choice([0.001, 0.5, 1, 3, 1000, 0.1])
        self.said.clear()
        n = len(self.pings)
        self.m.beat()
        check(len(self.pings) == n + 1, "no-ping", lambda: f"beat sent {len(self.pings) - n} pings")
        new = self.resp - self.known
        dead = set()
        for h in self.known - self.resp:
            self.miss[h] = self.miss.get(h, 0) + 1
            if self.miss[h] > self.max:
                dead.add(h)
                del self.miss[h]
        for h in self.resp:
            self.miss.pop(h, None)
        self.known = (self.known | new) - dead
        got_new = sorted(h for t, hs in self.said if t == "new_heart" for h in hs)
        got_dead = sorted(h for t, hs in self.said if t == "stopped_heart" for h in hs)
        for kind, got, want in (("dead", got_dead, dead), ("new", got_new, new)):
            want = sorted(h.decode() for h in want)
            extra = [h for h in got if h not in want]
            check(not extra, f"wrongly-{kind}", lambda: f"allowance {self.max}: {extra} declared {kind}; answered {sorted(self.resp)}, misses so far {self.miss}")
            check(len(got) == len(set(got)), f"{kind}-twice", lambda: f"declared {kind}: {got}")
            check(got == want, f"not-{kind}", lambda: f"allowance {self.max}: declared {kind} {got}, expected {want}")
        self.deaths += len(dead)
        self.resp = set()

    def run(self, n):
        r = self.r
        hearts = [f"heart-{i}".encode() for i in range(r.randrange(1, 7))]
        p = {h: r.choice([0, .1, .5, .8, .95, 1]) for h in hearts}
        for k in range(n):
            self.beat()
            for h in hearts:
                if r.random() < .08:
                    p[h] = r.choice([0, .1, .5, .9, 1])
                if r.random() < p[h]:
                    t = r.random()
                    if t < .5:
                        self.answer(h, self.pings[-1])
                    elif t < .7:
                        self.late.append((h, self.pings[-1]))
                    elif t < .85 and len(self.pings) > 1:
                        self.answer(h, self.pings[-2])
                    else:
                        for _ in range(2):
                            self.answer(h, self.pings[-1])
                elif r.random() < .3:
                    t = r.choice([b"junk", b"", b"1e9", self.pings[-1] + b"0", self.pings[-1][:-1], str(float(self.pings[-1]) + 1).encode()] + self.pings[:-2][-2:])
                    if t not in self.pings[-2:]:
                        self.answer(h, t)
                elif r.random() < .05:
                    self.pong.deliver([h])
            r.shuffle(hearts)
        return self.deaths > 0 and len(self.known) > 0


def case_beats(c):
    return W(c).run(c["n"])


def gen(r):
    return dict(seed=r.randrange(1 << 30), misses=r.choice([0, 1, 2, 3, 10]), n=r.choice([10, 30, 60]))


d.add("beats", case_beats, gen=gen)
d.main()
