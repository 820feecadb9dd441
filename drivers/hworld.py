"""Random histories of the real Hub, driven over its own channels, with an independent model of its registry and records."""
import json
import os
import random
import tempfile

import sim
from common import Fail

from ipyparallel.controller import dictdb, hub as hub_mod, sqlitedb

TIMEOUT = 5


class Task:
    def __init__(self, mid, kind, frames, header):
        self.mid, self.kind, self.frames, self.header = mid, kind, frames, header
        self.state = "pending"   # pending, completed, purged
        self.eid = self.uuid = None
        self.listed = None       # "queue" | "tasks" | "completed" | None at self.eid
        self.lb = kind == "task"
        self.unassigned = self.lb
        self.reply = None        # (header, metadata, content, buffers)
        self.content, self.buffers = None, []
        self.out = ""
        self.by = None
        self.record = True
        self.newer = None


class HWorld:
    def __init__(self, c, props):
        self.c, self.props = c, props
        self.r = random.Random(c["seed"])
        sim.seeded_random(c["seed"])
        self.dir = tempfile.mkdtemp(prefix="hub-")
        self.state_file = os.path.join(self.dir, "engines.json")
        self.notes, self.replies, self.resub = [], [], []
        self.names = iter(range(10**6))
        self.start()
        self.eng = {}        # id -> uuid
        self.inc = {}        # uuid -> (id, deadline)
        self.timers = []     # (due, what)
        self.tasks = {}
        self.order = []
        self.left = 0
        self.checked = 0
        self.used = []
        self.cs = sim.mksession("client")
        self.es = sim.mksession("engine")
        self.hs = sim.mksession("hm")

    def start(self):
        self.loop = sim.FakeLoop()
        self.query = sim.FStream(lambda fr: self.replies.append(fr), "q")
        self.mon = sim.FStream(None, "m")
        self.notif = sim.FStream(lambda fr: self.notes.append(sim.parse(fr)[1]), "n")
        self.resubmit = sim.FStream(lambda fr: self.resub.append(fr), "r")
        hs = sim.mksession("hub")
        self.db = dictdb.DictDB(session=hs.session)
        if self.c.get("db") == "sqlite":
            self.db = sqlitedb.SQLiteDB(session=hs.session, filename="t.db", location=self.dir)
        self.hub = hub_mod.Hub(
            loop=self.loop, session=hs, query=self.query, monitor=self.mon, notifier=self.notif, resubmit=self.resubmit, heartmonitor=None, db=self.db, engine_info={},
            client_info={"task": ("leastload", "x")}, heartmonitor_period=1000, registration_timeout=TIMEOUT, engine_state_file=self.state_file,
        )

    def check(self, prop, cond, key, what):
        if not cond and prop in self.props:
            raise Fail(key, what() if callable(what) else what)

    # ---------------------------------------------------------------- talking to the hub
    def wire(self, session, kind, content=None, ident=None, parent=None, metadata=None, buffers=None, msg=None):
        out = []
        st = sim.FStream(out.append)
        session.send(st, msg or kind, content=content, ident=ident, parent=parent, metadata=metadata, buffers=buffers)
        return out[0]

    def ask(self, kind, content, who=b"client"):
        self.replies.clear()
        fr = self.wire(self.cs, kind, content)
        self.query.deliver([who] + fr)
        sim.run_ready()
        if not self.replies:
            return None
        return sim.parse(self.replies[-1])[1]

    def monitor(self, frames):
        self.mon.deliver(frames)
        sim.run_ready()

    # ---------------------------------------------------------------- registry
    def announced(self, want, how):
        got = [(m["header"]["msg_type"], int(m["content"]["id"]), m["content"]["uuid"]) for m in self.notes]
        self.notes.clear()
        self.check("P09", got == want, "announcements-differ", lambda: f"{how}: announced {got}, expected {want} (registered {self.eng}, registering {self.inc})")

    def register(self):
        r = self.r
        x = r.random()
        if x < .2 and (self.eng or self.inc):
            uuid = r.choice(list(self.eng.values()) + list(self.inc))
        elif x < .35 and self.used:
            uuid = r.choice(self.used)
        else:
            uuid = f"uuid-{next(self.names)}"
        asked = r.choice([None, None, None, r.randrange(8)] + list(self.eng)[:1])
        self.replies.clear()
        fr = self.wire(self.es, "registration_request", dict(uuid=uuid, id=asked, pid=1))
        self.query.deliver([b"reg-" + uuid.encode()] + fr)
        sim.run_ready()
        how = f"registration of {uuid} (id {asked}) with {self.eng} registered, {self.inc} registering"
        self.check("P09", len(self.replies) == 1, "registration-unanswered", lambda: f"{how}: {len(self.replies)} replies")
        m = sim.parse(self.replies[0])[1]["content"]
        taken = uuid in self.eng.values() or uuid in self.inc
        if taken:
            self.check("P09", m["status"] == "error", "duplicate-accepted", lambda: f"{how}: answered {m}")
            return
        self.check("P09", m["status"] == "ok", "registration-refused", lambda: f"{how}: answered {m}")
        ids = list(self.eng) + [i for i, _ in self.inc.values()]
        self.check("P09", m["id"] not in ids, "id-shared", lambda: f"{how}: given id {m['id']}")
        self.inc[uuid] = (m["id"], self.loop.now + TIMEOUT)
        self.announced([], how)

    def hearts(self):
        known = list(self.inc) * 3 + list(self.eng.values()) + self.used[-2:] + ["foreign"]
        hs = list(dict.fromkeys(self.r.choice(known) for _ in range(self.r.randrange(1, 4))))
        want = []
        for h in hs:
            if h in self.inc:
                eid, _ = self.inc.pop(h)
                self.eng[eid] = h
                self.used.append(h)
                want.append(("registration_notification", eid, h))
        self.monitor(self.wire(self.hs, "new_heart", dict(hearts=hs), ident=[b"heartmonitor", b""]))
        self.announced(want, f"hearts of {hs} seen")

    def gone(self, eid):
        uuid = self.eng.pop(eid)
        self.left += 1
        stranded = [t for t in self.tasks.values() if t.listed == "queue" and t.by == uuid and t.eid == eid]
        for t in self.tasks.values():
            if t.eid == eid and t.listed:
                t.listed = None
        for t in stranded:
            t.listed = "lost"
        self.timers.append((self.loop.now + TIMEOUT, stranded))
        return uuid

    def depart(self):
        r = self.r
        how = r.choice(["heart", "heart", "request", "shutdown", "nobody"])
        if how == "nobody" or not self.eng:
            k = r.choice(["heart", "request", "cancel"])
            if k == "heart":
                h = r.choice(["foreign"] + list(self.inc) + [u for u in self.used if u not in self.eng.values()])
                self.monitor(self.wire(self.hs, "stopped_heart", dict(hearts=[h]), ident=[b"heartmonitor", b""]))
                return self.announced([], f"heart of {h} stopped")
            if k == "cancel" and self.inc:
                u = r.choice(list(self.inc))
                i, _ = self.inc.pop(u)
            else:
                i = 900
            self.query.deliver([b"x"] + self.wire(self.es, "unregistration_request", dict(id=i)))
            sim.run_ready()
            return self.announced([], f"unregistration of id {i}")
        eid = r.choice(list(self.eng))
        if how == "heart":
            n = r.sample(list(self.eng), min(len(self.eng), r.choice([1, 1, 2])))
            hs = [self.eng[i] for i in n]
            want = [("unregistration_notification", i, self.gone(i)) for i in n]
            self.monitor(self.wire(self.hs, "stopped_heart", dict(hearts=hs), ident=[b"heartmonitor", b""]))
        elif how == "request":
            want = [("unregistration_notification", eid, self.gone(eid))]
            self.query.deliver([b"x"] + self.wire(self.es, "unregistration_request", dict(id=eid)))
            sim.run_ready()
        else:
            uuid = self.gone(eid)
            want = [("unregistration_notification", eid, uuid)]
            s = sim.mksession(uuid)
            self.monitor([b"iopub"] + self.wire(s, "shutdown_reply", dict(status="ok"), ident=[uuid.encode()]))
        self.announced(want, f"departure of {[w[1:] for w in want]} by {how}")

    def tick(self):
        end = self.loop.now + self.r.choice([0.5, 2, 4, 6])
        for e in sorted(list(self.loop.timeouts), key=lambda e: e[0]):
            if e[0] <= end and e in self.loop.timeouts:
                self.loop.fire(e)
                sim.run_ready()
        for due, ts in list(self.timers):
            if due <= end:
                self.timers.remove((due, ts))
                for t in ts:
                    if t.state == "pending":
                        t.state, t.reply, t.listed = "completed", "died", None
        for u, (i, due) in list(self.inc.items()):
            if due <= end:
                del self.inc[u]
        self.loop.now = end
        self.announced([], "time passed")

    def look_registry(self):
        m = self.ask("connection_request", {})
        got = {int(k): v for k, v in m["content"]["engines"].items()}
        self.check("P09", got == self.eng, "wrong-engines-told", lambda: f"a connecting client is told {got}, registered are {self.eng}")
        m = self.ask("queue_request", dict(targets=None, verbose=False))["content"]
        if m["status"] == "ok":
            got = sorted(int(k) for k in m if k not in ("status", "unassigned"))
            self.check("P09", got == sorted(self.eng), "absent-listed", lambda: f"queue status of all engines lists {got}, registered are {self.eng}")
        old = [u for u in self.used if u not in self.eng.values()]
        if old:
            u = self.r.choice(old)
            t = self.submit_direct(u, None)
            m = self.ask("result_request", dict(msg_ids=[t], status_only=True))["content"]
            self.check("P09", m["status"] == "error", "absent-addressed", lambda: f"a message to {u}, which has left, was recorded: {m}")
        gone = [i for i in range(12) if i not in self.eng]
        i = self.r.choice(gone)
        m = self.ask("queue_request", dict(targets=[i], verbose=False))["content"]
        self.check("P09", m["status"] == "error", "absent-listed", lambda: f"queue status of {i} gave {m}, registered are {self.eng}")

    def restart(self):
        """a controller started from the saved engine state"""
        if not os.path.exists(self.state_file):
            return
        old = (self.hub, self.loop, self.query, self.mon, self.notif, self.resubmit, self.db)
        if self.c.get("db") == "sqlite":
            return
        self.start()
        self.hub._load_engine_state()
        self.notes.clear()
        m = self.ask("connection_request", {})
        got = {int(k): v for k, v in m["content"]["engines"].items()}
        self.check("P09", got == self.eng, "wrong-engines-resumed", lambda: f"a resumed controller knows {got}, registered were {self.eng}")
        self.replies.clear()
        self.query.deliver([b"reg-z"] + self.wire(self.es, "registration_request", dict(uuid="resumed", id=None, pid=1)))
        sim.run_ready()
        m = sim.parse(self.replies[0])[1]["content"]
        self.check("P09", m["status"] == "ok" and m["id"] not in self.eng, "id-shared", lambda: f"a resumed controller with {self.eng} gave a new engine {m}")
        self.hub, self.loop, self.query, self.mon, self.notif, self.resubmit, self.db = old

    # ---------------------------------------------------------------- records
    def request(self, kind):
        n = self.r.randrange(3)
        bufs = [bytes([self.r.randrange(256)]) * self.r.randrange(1, 2000) for _ in range(n)]
        msg = self.cs.msg("apply_request", content=dict(n=n, x="y"), metadata=dict(label=self.r.choice([None, "L"])))
        out = []
        self.cs.send(sim.FStream(out.append), msg, buffers=bufs)
        t = Task(msg["header"]["msg_id"], kind, out[0], msg["header"])
        t.content, t.buffers = msg["content"], bufs
        return t

    def submit_direct(self, uuid, eid):
        t = self.request("mux")
        if self.r.random() < .15:
            self.iopub(t)
            if eid is None:
                return t.mid if False else self.submit_plain(uuid)
        self.monitor([b"in", uuid.encode(), b"client"] + t.frames)
        if eid is None:
            return t.mid
        t.eid, t.by, t.listed = eid, uuid, "queue"
        self.tasks[t.mid] = t
        self.order.append(t.mid)
        return t.mid

    def submit_plain(self, uuid):
        t = self.request("mux")
        self.monitor([b"in", uuid.encode(), b"client"] + t.frames)
        return t.mid

    def submit_task(self):
        t = self.request("task")
        if self.r.random() < .15:
            self.iopub(t)
        self.monitor([b"intask", b"client"] + t.frames)
        self.tasks[t.mid] = t
        self.order.append(t.mid)

    def iopub(self, t):
        text = f"out-{next(self.names)};"
        t.out += text
        self.monitor([b"iopub"] + self.wire(self.es, "stream", dict(name="stdout", text=text), ident=[b"topic"], parent=t.header))

    def assign(self):
        ts = [t for t in self.tasks.values() if t.lb and t.state == "pending"]
        if not ts or not self.eng:
            return
        t = self.r.choice(ts)
        eid = self.r.choice(list(self.eng))
        self.monitor([b"tracktask", b""] + self.wire(self.hs, "task_destination", dict(msg_id=t.mid, engine_id=self.eng[eid])))
        t.unassigned = False
        t.eid, t.by, t.listed = eid, self.eng[eid], "tasks"

    def answer(self):
        ts = [t for t in self.tasks.values() if t.state == "pending" and not t.newer == "mid" and (t.listed or t.lb)]
        if not ts:
            return
        t = self.r.choice(ts)
        # an engine given up answers all the same: the controller does not know it, unless it has come back
        known = t.lb or t.by in self.eng.values()
        if not known and t.listed != "lost":
            return
        st = self.r.choice(["ok", "ok", "ok", "error", "aborted"])
        content = dict(status=st)
        if st == "error":
            content.update(ename="E", evalue="v", traceback="tb")
        eid = t.eid if t.listed else None
        md = dict(status=st, engine=t.by or "", started="2020-01-01T00:00:00.000000Z")
        if t.lb and not t.by:
            md.pop("engine")
        bufs = [bytes([self.r.randrange(256)]) * self.r.randrange(1, 1500) for _ in range(self.r.randrange(3))] if st == "ok" else []
        msg = self.es.msg("apply_reply", content=content, parent=t.header, metadata=md)
        out = []
        self.es.send(sim.FStream(out.append), msg, buffers=bufs)
        if t.lb:
            self.monitor([b"outtask", b"client"] + out[0])
        else:
            self.monitor([b"out", b"client", t.by.encode()] + out[0])
            if not known:
                return
        t.state, t.unassigned = "completed", False
        t.reply = (msg["header"]["msg_id"], md, content, bufs)
        here = t.by is not None and t.by in self.eng.values()
        if here:
            t.eid = next(i for i, u in self.eng.items() if u == t.by)   # it may have come back under another id
        t.listed = ("completed" if not (t.lb and st == "aborted") else None) if here else None

    def late(self):
        """the same reply once more, or a reply nobody asked for, or one for a task that is over"""
        ts = [t for t in self.tasks.values() if t.state == "completed" and t.lb]
        if not ts:
            return
        t = self.r.choice(ts)
        msg = self.es.msg("apply_reply", content=dict(status="ok", late=1), parent=t.header, metadata=dict(status="ok", engine=t.by or ""))
        out = []
        self.es.send(sim.FStream(out.append), msg, buffers=[b"late"])
        self.monitor([b"outtask", b"client"] + out[0])

    def some_ids(self, k=4, unknown=.15):
        ids = self.r.sample(self.order, min(len(self.order), self.r.randrange(1, k + 1))) if self.order else []
        if self.r.random() < unknown:
            ids.insert(self.r.randrange(len(ids) + 1), f"unknown-{next(self.names)}")
        return ids

    def look_status(self):
        ids = self.some_ids()
        only = self.r.random() < .5
        if not ids:
            return
        if self.r.random() < .1:
            ids = ids + ids[:1]
        m = self.ask("result_request", dict(msg_ids=ids, status_only=only))
        c = m["content"]
        ts = [self.tasks.get(i) for i in ids]
        state = {i: (t.state if t else None) for i, t in zip(ids, ts)}
        what = f"{'status' if only else 'result'} of {state}"
        if None in state.values():
            self.check("P10", c["status"] == "error", "unknown-answered", lambda: f"{what}: {c}")
            return
        if "purged" in state.values():
            if not only:
                self.check("P10", c["status"] == "error", "purged-answered", lambda: f"{what}: {c}")
            return
        self.check("P10", c["status"] == "ok", "refused-valid", lambda: f"{what}: {c}")
        for st in ("pending", "completed"):
            want = sorted({i for i, s in state.items() if s == st})
            self.check("P10", sorted(c[st]) == want, "wrong-status", lambda: f"{what}: says {st}: {c[st]}")
        self.checked += 1
        if only:
            return
        bufs = list(m["buffers"])
        for i in sorted(set(ids)):
            t = self.tasks[i]
            if t.state != "completed":
                self.check("P10", i not in c, "pending-result", lambda: f"{what}: result given for {i}")
                continue
            rec = c[i]
            self.check("P10", rec["header"]["msg_id"] == i, "wrong-record", lambda: f"result of {i} shows header of {rec['header']['msg_id']}")
            self.check("P10", (rec["io"]["stdout"] or "") == t.out, "wrong-output", lambda: f"result of {i}: output {rec['io']['stdout']!r}, recorded {t.out!r}")
            if t.reply == "died":
                rc = rec["result_content"]
                ok = rc and rc["status"] == "error" and rc["ename"] == "EngineError"
                self.check("P09", ok, "stranded-not-error", lambda: f"{i} was on an engine that left: its result is {rc}")
                self.check("P10", ok, "wrong-result", lambda: f"{i} was on an engine that left: its result is {rc}")
                continue
            hid, md, content, b = t.reply
            self.check("P10", rec["result_header"]["msg_id"] == hid and rec["result_content"] == content and rec["result_metadata"]["status"] == md["status"] and rec["result_metadata"].get("engine") == md.get("engine"),
                       "wrong-result", lambda: f"result of {i}: {rec['result_content']} {rec['result_metadata']}, recorded {content} {md}")
            got, bufs = bufs[:len(b)], bufs[len(b):]
            self.check("P10", got == b, "wrong-buffers", lambda: f"result of {i}: buffers of sizes {[len(x) for x in got]}, recorded {[len(x) for x in b]}")
        self.check("P10", not bufs, "extra-buffers", lambda: f"{what}: {len(bufs)} buffers too many")

    def look_queues(self):
        verbose = self.r.random() < .5
        some = self.r.random() < .5 and self.eng
        ids = self.r.sample(list(self.eng), self.r.randrange(1, len(self.eng) + 1)) if some else None
        m = self.ask("queue_request", dict(targets=ids, verbose=verbose))["content"]
        if m["status"] != "ok":
            self.check("P10", not self.eng, "queues-refused", lambda: f"queue status of {ids}: {m}")
            return
        for i in ids if some else self.eng:
            for col, name in (("queue", "queue"), ("tasks", "tasks"), ("completed", "completed")):
                want = sorted(t.mid for t in self.tasks.values() if t.eid == i and t.listed == col)
                got = m.get(str(i), {}).get(name)
                if got is None:
                    self.check("P10", False, "engine-missing", lambda: f"queue status lacks {i}: {m}")
                    return
                self.check("P10", (sorted(got) == want) if verbose else got == len(want), f"wrong-{name}", lambda: f"engine {i}: {name} {got}, actually {want}")
        want = sorted(t.mid for t in self.tasks.values() if t.unassigned and t.state == "pending")
        got = m["unassigned"]
        self.check("P10", (sorted(got) == want) if verbose else got == len(want), "wrong-unassigned", lambda: f"unassigned {got}, actually {want}")
        self.checked += 1

    def purge(self):
        r = self.r
        k = r.random()
        if k < .1:
            m = self.ask("purge_request", dict(msg_ids="all"))["content"]
            self.check("P10", m["status"] == "ok", "purge-refused", lambda: f"purging all: {m}")
            for t in self.tasks.values():
                if t.state == "completed":
                    t.state = "purged"
            return
        if k < .35 and self.eng:
            ids = r.sample(list(self.eng), r.randrange(1, len(self.eng) + 1))
            m = self.ask("purge_request", dict(msg_ids=[], engine_ids=ids))["content"]
            self.check("P10", m["status"] == "ok", "purge-refused", lambda: f"purging engines {ids}: {m}")
            us = [self.eng[i] for i in ids]
            for t in self.tasks.values():
                if t.state == "completed" and t.by in us:
                    t.state = "purged"
            return
        ids = [i for i in self.some_ids(3, .05) if r.random() < .9]
        if r.random() < .7:
            ids = [i for i in ids if i in self.tasks and self.tasks[i].state != "pending"]
        pend = [i for i in ids if i in self.tasks and self.tasks[i].state == "pending"]
        m = self.ask("purge_request", dict(msg_ids=ids, engine_ids=[]))["content"]
        if pend:
            self.check("P10", m["status"] == "error", "purged-pending", lambda: f"purging {ids}, of which {pend} are pending: {m}")
            return
        self.check("P10", m["status"] == "ok", "purge-refused", lambda: f"purging {ids}: {m}")
        for i in ids:
            if i in self.tasks:
                self.tasks[i].state = "purged"

    def resubmission(self):
        ids = self.some_ids(2)
        if not ids:
            return
        known = [i for i in ids if i in self.tasks and self.tasks[i].state != "purged"]
        self.resub.clear()
        m = self.ask("resubmit_request", dict(msg_ids=ids))["content"]
        if len(known) < len(ids):
            self.check("P10", m["status"] == "error" and not self.resub, "resubmitted-unknown", lambda: f"resubmitting {ids}, known {known}: {m}")
            return
        self.check("P10", m["status"] == "ok", "resubmit-refused", lambda: f"resubmitting {ids}: {m}")
        mp = m["resubmitted"]
        self.check("P10", sorted(mp) == sorted(ids) and len(set(mp.values())) == len(ids) and not set(mp.values()) & set(self.tasks), "resubmit-mapping", lambda: f"resubmitting {ids} gave {mp}")
        sent = {}
        for fr in self.resub:
            i, x = sim.parse(fr)
            sent[x["header"]["msg_id"]] = (x, fr)
        self.check("P10", sorted(sent) == sorted(mp.values()), "resubmit-sent", lambda: f"resubmitting {ids} as {mp} sent {sorted(sent)}")
        for old, new in mp.items():
            x, fr = sent[new]
            t = self.tasks[old]
            self.check("P10", x["content"] == t.content and x["buffers"] == t.buffers and x["header"]["msg_type"] == "apply_request", "resubmit-differs",
                       lambda: f"the copy of {old} has content {x['content']} and {len(x['buffers'])} buffers, the original {t.content}, {len(t.buffers)}")
            rec = self.ask("db_request", dict(query=dict(msg_id=old), keys=["resubmitted", "header"]))["content"]
            got = rec["records"][0]
            self.check("P10", got["resubmitted"] == new, "resubmit-link", lambda: f"the record of {old} names {got['resubmitted']} as its copy, it is {new}")
            self.check("P10", got["header"]["msg_id"] == old, "original-altered", lambda: f"the record of {old} now has header {got['header']['msg_id']}")
            n = Task(new, "task", fr, x["header"])
            n.content, n.buffers = t.content, t.buffers
            n.unassigned = False
            self.tasks[new] = n
            self.order.append(new)
            k = fr.index(b"<IDS|MSG>")
            self.monitor([b"intask", b"hub"] + fr[k:])
            n.unassigned = True

    def junk(self):
        """monitor and query traffic that must change nothing"""
        k = self.r.randrange(5)
        if k == 0:
            self.monitor([b"nonsense", b"x", b"y"])
        elif k == 1:
            self.monitor([b"in"])
        elif k == 2:
            self.ask("no_such_request", {})
        elif k == 3:
            fr = self.wire(self.es, "apply_reply", dict(status="ok"), parent=dict(msg_id="never-sent", session="x", msg_type="apply_request", username="", version="5", date="2020-01-01T00:00:00Z"), metadata=dict(engine="", status="ok"))
            self.monitor([self.r.choice([b"outtask"]), b"client"] + fr)
        else:
            self.monitor([b"heartmonitor", b""] + [b"<IDS|MSG>", b"sig"])

    # ----------------------------------------------------------------
    def run(self, n, weights):
        import shutil

        acts = [getattr(self, a) for a, w in weights.items() for _ in range(w)]
        try:
            for _ in range(n):
                a = self.r.choice(acts)
                if a == self.submit_direct:
                    if self.eng:
                        eid = self.r.choice(list(self.eng))
                        self.submit_direct(self.eng[eid], eid)
                elif a == self.iopub:
                    ts = [t for t in self.tasks.values() if t.state != "purged"]
                    if ts:
                        self.iopub(self.r.choice(ts))
                else:
                    a()
            for _ in range(5):
                self.look_status()
        finally:
            if self.c.get("db") == "sqlite":
                self.db.close()
            shutil.rmtree(self.dir)
        return self.left, self.checked
