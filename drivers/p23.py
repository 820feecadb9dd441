"""P23: messages that are not correctly signed have no effect."""
import json
import random

from common import Driver, Fail, check

d = Driver("P23", "the random histories of P04-P06, P07, P09, P10 and P17 with forged messages slipped in before correct ones at every receiver (hub, task scheduler, broadcast schedulers, client, engine nanny): copies with wrong, missing or "
           "foreign signatures, altered headers, contents or metadata, cut frames, and repetitions of earlier messages; nothing may be sent on because of them and the histories' own models must still be met; a case counts when it "
           "slipped in at least five")
import sim  # noqa: E402
import cworld  # noqa: E402
import hworld  # noqa: E402
import p07  # noqa: E402
import p09  # noqa: E402
import p10  # noqa: E402
import world  # noqa: E402
from zmq import Message  # noqa: E402

DELIM = b"<IDS|MSG>"
EVIL = sim.js.Session(key=b"another key", session="evil")


class Forger:
    def __init__(self, seed, rate):
        self.r, self.rate, self.n, self.old, self.busy = random.Random(seed), rate, 0, [], False
        self.watch, self.schedulers, self.replies = None, [], None

    def forge(self, st, fr):
        r = self.r
        fr = list(fr)
        if DELIM not in fr or len(fr) < fr.index(DELIM) + 6:
            return None
        i = fr.index(DELIM)
        k = r.randrange(9)
        if k >= 7:
            # repeated, or altered under the signature of an earlier message; schedulers only look at messages and keep no record of them
            mine = [f for s, f in self.old if s is st]
            if not mine or st in self.schedulers:
                return None
            fr = list(r.choice(mine))
            i = fr.index(DELIM)
            return self.alter(fr, i) if k == 8 else fr
        # (a session remembers the signatures it has seen before it verifies them: spare the correct message's)
        if k < 4:
            s = bytearray(fr[i + 1])
            s[r.randrange(len(s))] ^= 1 + r.randrange(255)
            fr[i + 1] = bytes(s)
        if k == 0:
            fr[i + 1] = b""
        elif k == 2:
            fr = self.alter(fr, i)
        elif k == 3:
            if r.random() < .5:
                del fr[i + r.randrange(1, 6)]
            else:
                fr = fr[:i + r.randrange(0, 6)]
        elif k >= 4:
            # somebody without the key says it
            h, p, m, c = (json.loads(x) for x in fr[i + 2:i + 6])
            if r.random() < .5:
                h["msg_id"] = f"evil-{self.n}"
            parts = [json.dumps(x).encode() for x in (h, p, m, c)]
            fr[i + 1:i + 6] = [EVIL.sign(parts)] + parts
        return fr

    def alter(self, fr, i):
        r = self.r
        j = i + 2 + r.randrange(4)
        x = json.loads(fr[j])
        if j == i + 2:
            x["msg_id"] = "forged-" + x["msg_id"]
        elif j == i + 3 and x:
            x["msg_id"] = "forged"
        elif r.random() < .5 and x:
            x.pop(r.choice(list(x)))
        else:
            x["status"] = "error" if x.get("status") == "ok" else "ok"
        fr[j] = json.dumps(x).encode()
        return fr

    def __call__(self, st, frames):
        if self.busy or st.cb is None:
            return
        frames = [bytes(f) for f in frames]
        try:
            for _ in range(3):
                if self.r.random() > self.rate:
                    break
                fr = self.forge(st, frames)
                if fr is None or (fr == frames):
                    continue
                self.busy = True
                sent, sim.FORGING = [], []
                before = self.watch() if self.watch else None
                try:
                    st.really_deliver(fr)
                    sim.run_ready()
                except Fail:
                    raise
                except Exception:
                    pass     # the event loop logs what a handler raises, and goes on
                finally:
                    sent, sim.FORGING = sim.FORGING, None
                    self.busy = False
                self.n += 1
                if self.replies is not None:
                    self.replies.clear()    # the hub may say that it got nonsense
                sent = [s for s in sent if s not in ("q", "hubquery")]
                check(not sent, "forged-has-effect", lambda: f"a forged message on {st.name or st} made the receiver send on {sent}: {fr[:8]} (correct: {frames[:8]})")
                if self.watch:
                    after = self.watch()
                    check(before == after, "forged-recorded", lambda: f"a forged message on {st.name or st} changed {before} to {after}: {fr[:8]} (correct: {frames[:8]})")
        finally:
            if len(self.old) < 200 and DELIM in frames and len(frames) >= frames.index(DELIM) + 6:
                self.old.append((st, frames))


def under_forgery(c, make, run):
    f = Forger(c["seed"] + 17, c["rate"])
    w = make()
    hub = getattr(w, "hub", None) or getattr(getattr(w, "s", None), "hub", None)
    if hub is not None:
        f.watch = lambda: (list(hub.db.get_history()), dict(hub.by_ident), sorted(hub.ids))
    f.replies = getattr(w, "replies", None)
    s = getattr(w, "s", None)
    if s is not None:
        f.schedulers = [s.s_client, s.s_engine]
        for b, _, _, _ in getattr(s, "bs", {}).values():
            f.schedulers += [b.client_stream] + list(b.outgoing_streams) + ([b.engine_stream] if b.is_leaf else [])
    sim.FORGER = f
    try:
        run(w)
    finally:
        sim.FORGER = sim.FORGING = None
    return f.n >= 5


def case_hub(c):
    return under_forgery(c, lambda: hworld.HWorld(c, {"P09", "P10"}), lambda w: w.run(c["n"], p09.WEIGHTS if c["reg"] else p10.WEIGHTS))


def case_tasks(c):
    return under_forgery(c, lambda: world.World(c["w"], {"P04", "P05", "P06"}), lambda w: w.run())


def case_client(c):
    return under_forgery(c, lambda: cworld.CWorld(c["w"], {"P15", "P17"}), lambda w: w.run())


def case_broadcast(c):
    return under_forgery(c, lambda: p07.W(c["w"]), lambda w: w.run(c["n"]))


def case_nanny(c):
    import logging

    from ipyparallel.engine import nanny

    r = random.Random(c["seed"])
    x = nanny.KernelNanny.__new__(nanny.KernelNanny)
    sigs, relayed, answers = [], [], []
    x.session = sim.mksession("nanny")
    x.log = logging.getLogger("nanny")
    x.pid = 1

    class Proc:
        def send_signal(self, s):
            sigs.append(s)
    x.parent_process = Proc()
    x.control_handlers = {"signal_request": x.signal_request}
    x.parent_stream = sim.FStream(relayed.append, "parent")
    x.control_stream = st = sim.FStream(answers.append, "control")
    st.on_recv_stream(x.dispatch_control)
    cs = sim.mksession("client")
    f = Forger(c["seed"], .7)
    sim.FORGER = f
    try:
        for _ in range(c["n"]):
            out = []
            kind = r.choice(["signal_request", "abort_request", "clear_request"])
            before = len(sigs), len(relayed)
            cs.send(sim.FStream(out.append), kind, content=dict(sig=r.choice([2, 15, "SIGINT"])), ident=[b"client"])
            f.watch = lambda: (len(sigs), len(relayed))
            st.deliver(out[0])
            check((len(sigs), len(relayed)) == (before[0] + (kind == "signal_request"), before[1] + (kind != "signal_request")), "correct-lost", f"a correct {kind} had no effect")
    finally:
        sim.FORGER = sim.FORGING = None
    return f.n >= 5


def gen_hub(r):
    return dict(seed=r.randrange(1 << 30), rate=r.choice([.1, .4]), n=r.choice([30, 80]), reg=r.random() < .5, db="dict")


def gen_tasks(r):
    return dict(seed=r.randrange(1 << 30), rate=r.choice([.1, .3]), w=world.gen(r))


def gen_client(r):
    return dict(seed=r.randrange(1 << 30), rate=r.choice([.1, .3]), w=dict(seed=r.randrange(1 << 30), engines=r.choice([1, 2, 3]), n=r.choice([20, 50]), faults=r.random() < .5, hwm=r.choice([0, 1]), purge=r.random() < .3))


def gen_broadcast(r):
    w = p07.gen(r)
    return dict(seed=r.randrange(1 << 30), rate=.3, w=w, n=w["n"])


def gen_nanny(r):
    return dict(seed=r.randrange(1 << 30), n=20)


d.add("hub", case_hub, gen=gen_hub, weight=3)
d.add("tasks", case_tasks, gen=gen_tasks, weight=3)
d.add("client", case_client, gen=gen_client, weight=3)
d.add("broadcast", case_broadcast, gen=gen_broadcast, weight=2)
d.add("nanny", case_nanny, gen=gen_nanny)
d.main()
