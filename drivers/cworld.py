"""Random histories of one client on the simulated cluster, with an independent model of its books.

The model sees what crosses the network to and from the client: requests sent, replies, notifications and
output delivered.  From these alone it says which messages are resolved, how, and what every handle must show."""
import contextlib
import io
import random

import sim
from common import Fail

import ipyparallel as ipp
from ipyparallel import error


def body(tag, bad, x=None):
    if bad:
        raise ValueError(tag)
    return (tag, x)


def mbody(p):
    tag, bad = p
    if bad:
        raise KeyError(tag)
    return tag * 2


def refuse(tag):
    raise LookupError(tag)


class Unloadable:
    """a value that an engine can send and no client can load"""

    def __init__(self, tag):
        self.tag = tag

    def __reduce__(self):
        return refuse, (self.tag,)


def give(i, kind):
    if kind == "bad":
        raise ValueError(i)
    return Unloadable(i) if kind == "unloadable" else i


class Rec:
    def __init__(self, ar, kind, ids, single, vals=None, chunks=None):
        self.ar, self.kind, self.ids, self.single = ar, kind, list(ids), single
        self.vals = vals      # value of a covered message, by id
        self.chunks = chunks  # maps: number of elements by id, in order
        self.was_ready = False
        self.purged = False
        self.calls = []


class CWorld:
    def __init__(self, c, props, clients=1):
        self.c, self.props = c, props
        self.r = random.Random(c["seed"])
        sim.seeded_random(c["seed"])
        self.s = sim.Sim(random.Random(c["seed"] + 1), engines=0, hwm=c.get("hwm", 0))
        self.cl = self.s.client
        self.cl.block = False
        self.sent = []       # (msg id, channel, target uuid)
        self.at = {}
        self.outcome = {}    # msg id -> ("ok",) | (error name, text)
        self.lost = set()
        self.cast = set()
        self.late = set()
        self.nooutput = set()
        self.idle = set()
        self.text, self.errs = {}, {}
        self.engine = {}     # msg id -> engine uuid a reply or output named
        self.mixed = set()
        self.eid_at = {}     # msg id -> engine id when its reply came
        self.ids = {}
        self.recs = []
        self.vals = {}
        self.vhist = {}
        self.nontrivial = 0
        self.purged = set()
        self.hook()
        for _ in range(c["engines"]):
            self.s.add_engine()
        self.s.drain()
        if c.get("bcast") is not None:
            self.s.bcast_setup(c["bcast"])
        self.views = []

    # ---------------------------------------------------------------- observation
    def hook(self):
        s, cl = self.s, self.cl
        out = s.client_out

        def client_out(c, ch, fr):
            if c is cl and ch in ("mux", "task"):
                i, m = sim.parse(fr)
                if m["header"]["msg_type"] in ("apply_request", "execute_request"):
                    mid = m["header"]["msg_id"]
                    uuid = i[0].decode() if ch == "mux" else None
                    self.at[mid] = len(self.sent)
                    self.sent.append((mid, ch, uuid))
            elif c is cl and ch == "broadcast":
                i, m = sim.parse(fr)
                # one message that stands for one per target, in the targets' order
                for uuid, _ in m["metadata"]["targets"]:
                    mid = m["header"]["msg_id"] + "_" + uuid
                    self.at[mid] = len(self.sent)
                    self.sent.append((mid, "mux", uuid))
                    self.cast.add(mid)
            return out(c, ch, fr)

        s.client_out = client_out
        for ch in ("mux", "task", "broadcast"):
            st = getattr(cl, f"_{ch}_stream")
            st.deliver = self.wrap_reply(st.deliver)
        note = cl._notification_stream.deliver

        def notification(fr):
            _, m = sim.parse(fr)
            t, c = m["header"]["msg_type"], m["content"]
            if t == "registration_notification":
                self.ids[int(c["id"])] = c["uuid"]
            elif t == "unregistration_notification":
                if self.ids.pop(int(c["id"]), None) is not None:
                    for mid, ch, uuid in self.sent:
                        if ch == "mux" and uuid == c["uuid"] and mid not in self.outcome:
                            self.outcome[mid] = ("EngineError", None)
                            self.lost.add(mid)
                            self.nooutput.add(mid)
            return note(fr)

        cl._notification_stream.deliver = notification
        iop = cl._iopub_stream.deliver

        def iopub(fr):
            _, m = sim.parse(fr)
            mid = m["parent_header"]["msg_id"]
            if self.complete(mid) and m["header"]["msg_type"] == "stream":
                self.late.add(mid)   # said by an engine after it was given up: shown or not
            if not self.complete(mid):
                if m["header"]["msg_type"] == "stream":
                    to = self.errs if m["content"]["name"] == "stderr" else self.text
                    to[mid] = to.get(mid, "") + m["content"]["text"]
                elif m["content"].get("execution_state") == "idle":
                    self.idle.add(mid)
                if self.engine.setdefault(mid, m["metadata"]["engine"]) != m["metadata"]["engine"]:
                    self.mixed.add(mid)
            return iop(fr)

        cl._iopub_stream.deliver = iopub

        orig = s.engine_out

        def engine_out(e, kind, fr):
            i, m = sim.parse(fr)
            if kind != "control" and i[0] == cl.sim_ident:
                self.publish(e, m)
            return orig(e, kind, fr)

        s.engine_out = engine_out

    def publish(self, e, m):
        """what the engine prints while running, then its idle message, on a channel of their own"""
        if m["content"]["status"] == "aborted":
            return
        st = sim.FStream(lambda fr: self.s.push(f"e{e.eid}->iopub", lambda: self.cl._iopub_stream.deliver(fr)))
        ses = e.kernel.session
        parent = dict(header=m["parent_header"])
        for k in range(self.r.randrange(3)):
            ses.send(st, "stream", content=dict(name=self.r.choice(["stdout", "stdout", "stderr"]), text=f"{m['parent_header']['msg_id']}.{k};"), parent=parent["header"], ident=b"topic", metadata=dict(engine=e.uuid))
        ses.send(st, "status", content=dict(execution_state="idle"), parent=parent["header"], ident=b"topic", metadata=dict(engine=e.uuid))

    def wrap_reply(self, deliver):
        def go(fr):
            _, m = sim.parse(fr)
            mid = m["parent_header"]["msg_id"]
            if mid in self.at and mid not in self.outcome:
                c = m["content"]
                st = c["status"]
                self.outcome[mid] = ("ok",) if st == "ok" else ("TaskAborted", None) if st == "aborted" else (c["ename"], c["evalue"])
                if st == "aborted" or (st != "ok" and not c.get("engine_info")):
                    self.nooutput.add(mid)
                u = m["metadata"].get("engine")
                if u:
                    self.engine[mid] = u
                    self.mixed.discard(mid)
                    self.eid_at[mid] = next((k for k, v in self.ids.items() if v == u), None)
            return deliver(fr)

        return go

    def complete(self, mid):
        return mid in self.outcome and (mid in self.idle or mid in self.nooutput)

    # ---------------------------------------------------------------- reporting
    def check(self, prop, cond, key, what):
        if not cond and prop in self.props:
            raise Fail(key, what() if callable(what) else what)

    # ---------------------------------------------------------------- expectations
    def ready(self, rec):
        return all(m in self.outcome for m in rec.ids)

    def failures(self, rec):
        return [self.outcome[m] for m in rec.ids if self.outcome[m][0] != "ok"]

    def value(self, rec):
        vs = [self.vals[m] for m in rec.ids]
        if rec.chunks is not None:
            return [x for v in vs for x in v]
        return vs[0] if rec.single else vs

    def check_error(self, rec, e, how):
        want = self.failures(rec)
        names = [w[0] for w in want]
        if rec.single:
            got = getattr(e, "ename", type(e).__name__)
            self.check("P15", got == names[0], "failure-differs", lambda: f"{how} of {rec.kind}: {e!r}, its message failed with {want}")
            if want[0][1] is not None:
                self.check("P15", getattr(e, "evalue", None) == want[0][1], "failure-differs", lambda: f"{how} of {rec.kind}: {e!r}, its message failed with {want}")
        else:
            got = [x[0] for x in e.elist] if isinstance(e, error.CompositeError) else [getattr(e, "ename", type(e).__name__)]
            self.check("P15", got == names, "failures-differ", lambda: f"{how} of {rec.kind}: reports {got}, the messages failed with {names}")

    def outcome_of(self, f, *a, **k):
        try:
            return ("value", f(*a, **k))
        except Exception as e:
            return ("raised", e)

    # ---------------------------------------------------------------- looking at a handle
    def look(self, rec, how=None):
        r, ar = self.r, rec.ar
        ready = self.ready(rec)
        C = lambda cond, key, what: self.check("P15", cond, key, what)  # noqa
        what = f"{rec.kind} of {len(rec.ids)} messages ({sum(m in self.outcome for m in rec.ids)} answered)"
        how = how or r.choice(["ready", "ready", "get", "get", "wait", "successful", "future", "item", "meta", "progress", "output", "when", "dict", "iter", "rex", "attr", "abort", "display"])
        if ready:
            self.nontrivial += 1
            C(rec.was_ready or True, "", "")
        fails = self.failures(rec) if ready else None
        if how == "ready":
            got = ar.ready()
            C(got is ready, "ready", lambda: f"{what}: ready() is {got}")
            C(not (rec.was_ready and not got), "reverts", lambda: f"{what}: was ready, is not any more")
            rec.was_ready = got
        elif how == "wait":
            got = ar.wait(0)
            C(got is ready, "wait", lambda: f"{what}: wait(0) is {got}")
        elif how in ("get", "r"):
            o = self.outcome_of(ar.get, 0)
            if not ready:
                C(o[0] == "raised" and isinstance(o[1], TimeoutError), "get-early", lambda: f"{what}: get(0) gave {o}")
            elif fails:
                C(o[0] == "raised", "failure-unreported", lambda: f"{what}: get gave {o}, failures {fails}")
                self.check_error(rec, o[1], "get")
                o2 = self.outcome_of(ar.get, 0)
                C(o2[0] == "raised", "failure-not-repeated", lambda: f"{what}: second get gave {o2}")
                self.check_error(rec, o2[1], "second get")
            else:
                want = self.value(rec)
                C(o[0] == "value" and o[1] == want, "value", lambda: f"{what}: get gave {o}, expected {want}")
        elif how == "successful":
            o = self.outcome_of(ar.successful)
            if ready:
                C(o == ("value", not fails), "successful", lambda: f"{what}: successful() gave {o}, failures {fails}")
            else:
                C(o[0] == "raised" and isinstance(o[1], RuntimeError), "successful-early", lambda: f"{what}: successful() gave {o}")
        elif how == "future":
            C(ar.done() is ready, "done", lambda: f"{what}: done() is {ar.done()}")
            o = self.outcome_of(ar.result, 0)
            if not ready:
                C(o[0] == "raised" and isinstance(o[1], TimeoutError), "result-early", lambda: f"{what}: result(0) gave {o}")
            elif fails:
                C(o[0] == "raised", "failure-unreported", lambda: f"{what}: result(0) gave {o}")
                self.check_error(rec, o[1], "result")
                self.check_error(rec, ar.exception(0), "exception")
            else:
                C(o == ("value", self.value(rec)), "value", lambda: f"{what}: result gave {o}")
                C(ar.exception(0) is None, "exception", lambda: f"{what}: exception() is {ar.exception(0)!r}")
            n = len(rec.calls)
            C(n == 0, "callback", lambda: "")
        elif how == "item":
            if rec.single:
                return
            for k in (0, -1, slice(None), slice(1, None), slice(None, None, -1)):
                o = self.outcome_of(ar.__getitem__, k)
                if not ready:
                    C(o[0] == "raised" and isinstance(o[1], TimeoutError), "item-early", lambda: f"{what}: [{k}] gave {o}")
                elif fails:
                    C(o[0] == "raised", "failure-unreported", lambda: f"{what}: [{k}] gave {o}")
                else:
                    v = self.value(rec)
                    if not v:
                        return
                    C(o == ("value", v[k]), "item", lambda: f"{what}: [{k}] gave {o}, values {v}")
        elif how == "meta":
            md = ar.metadata
            mds = [md] if rec.single else md
            C(len(mds) == len(rec.ids), "metadata-count", lambda: f"{what}: {len(mds)} metadata")
            for m, x in zip(rec.ids, mds):
                if m in self.outcome:
                    C(x["msg_id"] == m, "metadata-order", lambda: f"{what}: metadata of {x['msg_id']} in the place of {m}")
                    st = {"ok": "ok", "TaskAborted": "aborted"}.get(self.outcome[m][0], "error")
                    C(x["status"] == st, "metadata-status", lambda: f"{what}: status {x['status']!r}, outcome {self.outcome[m]}")
                    if m not in self.lost and self.eid_at.get(m) is not None:
                        C(x["engine_id"] == self.eid_at[m] and x["engine_uuid"] == self.engine[m], "metadata-engine", lambda: f"{what}: engine {x['engine_id']}/{x['engine_uuid']}, ran on {self.eid_at[m]}/{self.engine[m]}")
                    C(x["submitted"] is not None and x["received"] is not None and x["submitted"] <= x["received"], "metadata-dates", lambda: f"{what}: submitted {x['submitted']} received {x['received']}")
                    if self.outcome[m][0] == "ok":
                        C(x["started"] <= x["completed"] <= x["received"], "metadata-dates", lambda: f"{what}: {x}")
                else:
                    C(x["status"] is None and x["received"] is None, "metadata-early", lambda: f"{what}: an unanswered message shows status {x['status']!r}")
                if not rec.purged and m not in self.late:
                    C(x["stdout"] == self.text.get(m, ""), "output", lambda: f"{what}: stdout {x['stdout']!r}, delivered {self.text.get(m, '')!r}")
                    C(x["stderr"] == self.errs.get(m, ""), "output", lambda: f"{what}: stderr {x['stderr']!r}, delivered {self.errs.get(m, '')!r}")
        elif how == "attr":
            if rec.purged or self.late & set(rec.ids):
                return
            got = ar.stdout
            got = [got] if rec.single else got
            want = [self.text.get(m, "") for m in rec.ids]
            C(got == want, "output", lambda: f"{what}: stdout {got}, delivered {want}")
            got = ar.stderr
            got = [got] if rec.single else got
            want = [self.errs.get(m, "") for m in rec.ids]
            C(got == want, "output", lambda: f"{what}: stderr {got}, delivered {want}")
            got = ar["msg_id"]
            got = [got] if rec.single else got
            want = [m if m in self.outcome else None for m in rec.ids]
            C(got == want, "metadata-order", lambda: f"{what}: ['msg_id'] is {got}, expected {want}")
            o = self.outcome_of(ar.__getitem__, "no such key")
            C(o[0] == "raised" and isinstance(o[1], KeyError), "bad-key", lambda: f"{what}: unknown key gave {o}")
        elif how == "progress":
            n = [1] * len(rec.ids) if rec.chunks is None else rec.chunks
            C(len(ar) == sum(n), "len", lambda: f"{what}: len is {len(ar)}, {sum(n)} calls")
            want = sum(k for m, k in zip(rec.ids, n) if m in self.outcome)
            C(ar.progress == want or (len(set(n)) > 1 and 0 < want < sum(n)), "progress", lambda: f"{what}: progress {ar.progress}, {want} of {sum(n)} calls finished")
            if ready and all(self.outcome[m][0] == "ok" for m in rec.ids):
                C(ar.wall_time >= 0 and ar.serial_time >= 0 and ar.elapsed == ar.wall_time, "times", lambda: f"{what}: {ar.wall_time} {ar.serial_time} {ar.elapsed}")
            o = self.outcome_of(lambda: ar.wall_time)
            if not ready:
                C(o[0] == "raised", "times-early", lambda: f"{what}: wall_time gave {o}")
                C(ar.elapsed >= 0, "times", lambda: f"{what}: elapsed {ar.elapsed}")
        elif how == "output":
            if rec.purged:
                return
            want = all(self.complete(m) for m in rec.ids)
            got = ar.wait_for_output(0)
            C(bool(got) is want, "output-ready", lambda: f"{what}: wait_for_output(0) is {got}, output complete of {[self.complete(m) for m in rec.ids]}")
        elif how == "when":
            if len(rec.ids) == 1:
                return
            for when in ("FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"):
                done, pend = ar.wait(0, return_when=when)
                got = sorted(m for a in done for m in a.msg_ids), sorted(m for a in pend for m in a.msg_ids)
                want = sorted(m for m in rec.ids if m in self.outcome), sorted(m for m in rec.ids if m not in self.outcome)
                C(got == want, "wait-sets", lambda: f"{what}: wait(0, {when}) split {len(got[0])}/{len(got[1])}, expected {len(want[0])}/{len(want[1])}")
            bad = [m for m in rec.ids if m in self.outcome and self.outcome[m][0] != "ok"]
            o = self.outcome_of(ar.get, 0, return_when="FIRST_EXCEPTION")
            if bad:
                C(o[0] == "raised" and not isinstance(o[1], TimeoutError), "first-exception", lambda: f"{what}: a call failed, get(FIRST_EXCEPTION) gave {o}")
            elif not ready:
                C(o[0] == "raised" and isinstance(o[1], TimeoutError), "first-exception", lambda: f"{what}: get(0, FIRST_EXCEPTION) gave {o}")
        elif how == "dict":
            if not ready or rec.chunks is not None or any(self.eid_at.get(m) is None or m in self.lost for m in rec.ids):
                return
            es = [self.eid_at[m] for m in rec.ids]
            o = self.outcome_of(ar.get_dict, 0)
            if fails:
                C(o[0] == "raised", "failure-unreported", lambda: f"{what}: get_dict gave {o}")
            elif len(set(es)) != len(es):
                C(o[0] == "raised" and isinstance(o[1], ValueError), "dict", lambda: f"{what}: engines {es}, get_dict gave {o}")
            else:
                v = self.value(rec)
                want = dict(zip(es, [v] if rec.single else v))
                C(o == ("value", want) and list(o[1]) == es, "dict", lambda: f"{what}: get_dict gave {o}, expected {want}")
        elif how == "iter":
            if rec.single:
                o = self.outcome_of(lambda: list(ar))
                C(o[0] == "raised" and isinstance(o[1], TypeError), "iter-single", lambda: f"{what}: iteration gave {o}")
            elif ready:
                o = self.outcome_of(lambda: [x for x in ar])
                if fails:
                    C(o[0] == "raised", "failure-unreported", lambda: f"{what}: iteration gave {o}")
                    self.check_error(rec, o[1], "iteration")
                else:
                    C(o[0] == "value" and o[1] == list(self.value(rec)), "iter", lambda: f"{what}: iteration gave {o}, expected {self.value(rec)}")
        elif how == "rex":
            o = self.outcome_of(ar.get, 0, return_exceptions=True)
            if rec.chunks is not None and ready:
                C(o[0] == "value", "rex", lambda: f"{what}: get(return_exceptions) raised {o}")
                want = []
                for m in rec.ids:
                    want += list(self.vals[m]) if self.outcome[m][0] == "ok" else [self.outcome[m][0]]
                got = [getattr(g, "ename", type(g).__name__) if isinstance(g, Exception) else g for g in o[1]]
                C(got == want, "rex", lambda: f"{what}: get(return_exceptions) gave {got}, expected {want}")
                return
            if not ready:
                C(o[0] == "raised" and isinstance(o[1], TimeoutError), "get-early", lambda: f"{what}: get(0) gave {o}")
            else:
                C(o[0] == "value", "rex", lambda: f"{what}: get(return_exceptions) raised {o}")
                got = [o[1]] if rec.single else o[1]
                C(len(got) == len(rec.ids), "rex", lambda: f"{what}: {o}")
                for m, g in zip(rec.ids, got):
                    if self.outcome[m][0] == "ok":
                        C(g == self.vals[m], "rex", lambda: f"{what}: {got}, place of {m} should hold {self.vals[m]}")
                    else:
                        C(isinstance(g, Exception) and getattr(g, "ename", type(g).__name__) == self.outcome[m][0], "rex", lambda: f"{what}: {got}: place of {m} should hold {self.outcome[m]}")
        elif how == "abort" and ready:
            n = len(self.sent), sum(len(q) for q in self.s.chan.values())
            o = self.outcome_of(ar.abort)
            C(o[0] == "raised" and isinstance(o[1], RuntimeError), "abort-done", lambda: f"{what}: abort of a finished result gave {o}")
        elif how == "display" and ready and all(self.complete(m) for m in rec.ids) and not rec.purged and not self.late & set(rec.ids):
            f, g = io.StringIO(), io.StringIO()
            by = r.choice(["order", "type", "engine"])
            with contextlib.redirect_stdout(f), contextlib.redirect_stderr(g):
                ar.display_outputs(groupby=by)
            for name, txt, said in (("stdout", f.getvalue(), self.text), ("stderr", g.getvalue(), self.errs)):
                pieces = [said.get(m, "") for m in rec.ids]
                at, pos = 0, []
                for p in filter(None, pieces):  # (a joined handle may cover a message twice)
                    at = txt.find(p, at)
                    pos.append(at)
                    at = at + len(p) if at >= 0 else len(txt)
                C(-1 not in pos, "display-order", lambda: f"{what}: {name} {pieces} displayed by {by} as {txt!r}")

    # ---------------------------------------------------------------- making handles
    def note(self, ar, kind, vals, single=False, chunks=None, view=None, before=None):
        """the messages sent since `before` belong to ar, in order"""
        ids = [m for m, _, _ in self.sent[before:]]
        self.check("P15", list(ar.msg_ids) == ids, "covers", lambda: f"{kind}: handle covers {ar.msg_ids}, sent {ids}")
        if view is not None:
            self.vhist.setdefault(id(view), []).extend(ids)
        if len(ids) != len(vals) and chunks is not None:
            # another division of the work than this model's: nothing to compare values with
            return None
        self.check("P15", len(ids) == len(vals), "sent-count", lambda: f"{kind}: {len(ids)} messages for {len(vals)} calls")
        for m, v in zip(ids, vals):
            self.vals[m] = v
        rec = Rec(ar, kind, ids, single, chunks=chunks)
        self.recs.append(rec)
        return rec

    def view(self, kind):
        r = self.r
        ids = sorted(self.ids)
        vs = [v for k, v in self.views if k == kind]
        if vs and r.random() < .5:
            v = r.choice(vs)
            if kind == "lbv" or all(t in self.ids for t in ([v.targets] if isinstance(v.targets, int) else v.targets)):
                return v
        if kind == "lbv":
            v = self.cl.load_balanced_view()
        elif kind == "bv":
            v = self.cl.broadcast_view(r.choice([ids, r.sample(ids, r.randrange(1, len(ids) + 1))]), is_coalescing=False)
        else:
            v = self.cl.direct_view(r.choice([r.choice(ids), ids, r.sample(ids, r.randrange(1, len(ids) + 1))]))
        v.block = False
        self.views.append((kind, v))
        self.vhist.setdefault(id(v), [])
        return v

    n = 0

    def submit(self):
        r = self.r
        if not self.cl.ids or not self.ids:
            return
        CWorld.n += 1
        tag = f"t{CWorld.n}"
        before = len(self.sent)
        k = r.random()
        bad = r.random() < .3
        if self.c.get("bcast") is not None and r.random() < .25:
            v = self.view("bv")
            n = len(v.targets)
            if r.random() < .8:
                ar = v.apply_async(body, tag, bad, x=n)
                self.note(ar, "broadcast apply", [(tag, n)] * n, view=v, before=before)
            else:
                ar = v.execute("1/0" if bad else "raise_ = 1", silent=True, block=False)
                self.recs.remove(self.note(ar, "broadcast execute", [None] * n, view=v, before=before))
        elif k < .4:
            v = self.view("dv")
            tg = v.targets
            single = isinstance(tg, int)
            n = 1 if single else len(tg)
            ar = v.apply_async(body, tag, bad, x=n)
            self.note(ar, "direct apply", [(tag, n)] * n, single=single, view=v, before=before)
        elif k < .7:
            v = self.view("lbv")
            ar = v.apply_async(body, tag, bad, x=0)
            self.note(ar, "load-balanced apply", [(tag, 0)], single=True, view=v, before=before)
        elif k < .8:
            v = self.view("lbv")
            n = r.randrange(1, 7)
            cs = r.choice([1, 1, 2, 3])
            items = [(f"{tag}.{i};", r.random() < .15) for i in range(n)]
            q = -(-n // cs)
            parts, i = [], 0
            for p in range(q):
                m = n // q + (p < n % q)
                parts.append(items[i:i + m])
                i += m
            ar = v.map_async(mbody, items, chunksize=cs)
            self.note(ar, "load-balanced map", [[t * 2 for t, _ in p] for p in parts], chunks=[len(p) for p in parts], view=v, before=before)
        elif k < .9:
            v = self.view("dv")
            tg = v.targets
            q = 1 if isinstance(tg, int) else len(tg)
            n = r.randrange(q, q + 5)
            items = [(f"{tag}.{i};", r.random() < .15) for i in range(n)]
            parts, i = [], 0
            for p in range(q):
                m = n // q + (p < n % q)
                parts.append(items[i:i + m])
                i += m
            ar = v.map_async(mbody, items)
            self.note(ar, "direct map", [[t * 2 for t, _ in p] for p in parts], chunks=[len(p) for p in parts], view=v, before=before)
        else:
            v = self.view("dv")
            single = isinstance(v.targets, int)
            n = 1 if single else len(v.targets)
            ar = v.execute("raise_ = 1" if not bad else "1/0", silent=True, block=False)
            ids = [m for m, _, _ in self.sent[before:]]
            rec = self.note(ar, "execute", [None] * n, single=single, view=v, before=before)
            rec.kind = "execute"
            self.recs.remove(rec)  # values are reply objects: only the books are followed
        return self.recs[-1] if self.recs else None

    def rejoined(self, rs):
        ms = [m for x in rs for m in x.ids]
        ars = [ipp.AsyncResult(self.s.client, list(x.ar._children), targets=x.ar._targets, return_exceptions=True, owner=False) for x in rs]
        for ar, ids in [(ipp.AsyncResult.join(*ars), ms)] + [(a, x.ids) for a, x in zip(ars, rs)]:
            what = f"handle of {ids} returning failures"
            o = self.outcome_of(ar.get, 0)
            if not all(m in self.outcome for m in ids):
                continue
            self.check("P15", o[0] == "value" and len(o[1]) == len(ids), "returns-failures", lambda: f"{what}: get gave {o}")
            for m, g in zip(ids, o[1]):
                ok = self.outcome[m][0] == "ok"
                self.check("P15", g == self.vals[m] if ok else isinstance(g, Exception), "returns-failures", lambda: f"{what}: {o[1]}: the place of {m} should hold {self.outcome[m]}")

    def derive(self):
        """handles made from handles or ids"""
        r = self.r
        rec = r.choice(self.recs)
        k = r.random()
        if rec.purged:
            return
        if k < .4 and len(rec.ids) > 1:
            parts = rec.ar.split()
            self.check("P15", [list(p.msg_ids) for p in parts] == [[m] for m in rec.ids], "split", lambda: f"split of {rec.ids} covers {[p.msg_ids for p in parts]}")
            if rec.chunks is None:
                for p, m in zip(parts, rec.ids):
                    self.recs.append(Rec(p, "part of " + rec.kind, [m], True))
        elif k < .6:
            rs = [x for x in r.sample(self.recs, min(len(self.recs), 3)) if x.chunks is None and not x.purged and x.ar._targets is not None]
            if len(rs) > 1:
                if r.random() < .3:
                    # handles that return failures instead of raising them: so does what they are joined to
                    ks = [x for x in rs if not x.single]
                    if len(ks) > 1:
                        self.rejoined(ks)
                j = ipp.AsyncResult.join(*[x.ar for x in rs])
                self.recs.append(Rec(j, "join", [m for x in rs for m in x.ids], False))
        else:
            if rec.chunks is not None:
                return
            if any(self.complete(m) for m in rec.ids):
                # some must come from the hub: only when it has heard of everything
                self.s.drain()
                if any(m in self.lost or m not in self.outcome for m in rec.ids):
                    return
            arg = r.choice([rec.ar, list(rec.ids), rec.ids[0]])
            single = rec.single if arg is rec.ar else isinstance(arg, str)
            ids = [arg] if isinstance(arg, str) else rec.ids
            if any(i in self.purged or i in self.lost or i in self.cast for i in ids) or not self.hub_agrees(ids):
                return
            ar = self.cl.get_result(arg, owner=False, block=False)
            self.check("P15", list(ar.msg_ids) == ids, "covers", lambda: f"get_result of {ids} covers {ar.msg_ids}")
            x = Rec(ar, "get_result", ids, single)
            x.purged = True
            hub = isinstance(ar, ipp.AsyncHubResult)
            for how in ("ready", "wait", "get", "successful", "get", "item", "iter", "rex"):
                if hub and not all(m in self.outcome for m in ids):
                    break
                self.look(x, how)

    def hub_agrees(self, ids):
        """the hub keeps no account of direct messages it hears of after it has given their engine up"""
        up = set(self.ids.values())
        return all(self.sent[self.at[m]][2] in up if self.sent[self.at[m]][1] == "mux" else self.engine.get(m) in up for m in ids)

    # ---------------------------------------------------------------- the client's books
    def books(self):
        cl = self.cl
        C = lambda cond, key, what: self.check("P17", cond, key, what)  # noqa
        un = {m for m, _, _ in self.sent if m not in self.outcome}
        C(set(cl.outstanding) == un, "outstanding", lambda: f"outstanding lists {len(cl.outstanding)} messages, {len(un)} unanswered; wrong: {sorted(set(cl.outstanding) ^ un)[:4]}")
        C(list(cl.history) == [m for m, _, _ in self.sent], "history", lambda: f"history {len(cl.history)} entries, {len(self.sent)} messages sent")
        C(cl.ids == sorted(self.ids) and len(cl) == len(self.ids), "ids", lambda: f"ids {cl.ids}, registered {sorted(self.ids)}")
        for k, v in self.views:
            want = self.vhist[id(v)]
            C(list(v.history) == want, "view-history", lambda: f"view history has {len(v.history)} entries, {len(want)} sent through it")
            v.spin()
            C(set(v.outstanding) == {m for m in want if m in un}, "view-outstanding", lambda: f"view outstanding {len(v.outstanding)}, unanswered {len([m for m in want if m in un])}")
        w = self.outcome_of(cl.wait, None, 0)
        C(w == ("value", not un), "wait", lambda: f"wait(timeout=0) gave {w}, {len(un)} unanswered")

    def wait_some(self):
        r, cl = self.r, self.cl
        if not self.sent:
            return
        ids = [m for m, _, _ in self.sent]
        pick, names = [], []
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < .4:
                i = r.randrange(len(ids))
                pick.append(i - len(ids) if r.random() < .5 else i)
                names.append(ids[i])
            elif k < .7 or not self.recs:
                m = r.choice(ids)
                pick.append(m)
                names.append(m)
            else:
                x = r.choice(self.recs)
                pick.append(x.ar)
                names += x.ids
        if len(pick) == 1 and r.random() < .7:
            pick = pick[0]
        want = all(m in self.outcome for m in names)
        got = self.outcome_of(cl.wait, pick, 0)
        self.check("P17", got == ("value", want), "wait", lambda: f"wait on {len(names)} messages gave {got}; unanswered {[m for m in names if m not in self.outcome]}")

    def purge(self):
        r, cl = self.r, self.cl
        if not self.sent:
            return
        ids = [m for m, _, _ in self.sent]
        keep = {n: set(getattr(cl, n)) for n in ("results", "metadata", "_futures", "_output_futures")}
        kind = r.choice(["jobs", "jobs", "targets", "all", "targets", "nothing"])
        kw, sel = {}, set()
        if kind == "nothing":
            o = self.outcome_of(cl.purge_local_results, jobs=[], targets=[])
            self.check("P17", o[0] == "raised" and isinstance(o[1], ValueError), "purge-nothing", lambda: f"purge without arguments gave {o}")
            sel = None
        elif kind == "all":
            kw, sel = dict(jobs="all"), set().union(*keep.values())
            un = [m for m in ids if m not in self.outcome]
        else:
            if kind == "jobs":
                some = r.sample(ids, r.randrange(1, min(4, len(ids)) + 1))
                if r.random() < .3 and self.recs:
                    x = r.choice(self.recs)
                    kw, sel = dict(jobs=x.ar), set(x.ids)
                else:
                    kw, sel = dict(jobs=some[0] if len(some) == 1 else some), set(some)
            else:
                if not self.ids or self.mixed:
                    return
                t = r.choice(sorted(self.ids))
                many = r.random() < .4
                ts = r.sample(sorted(self.ids), r.randrange(1, len(self.ids) + 1)) if many else [t]
                kw = dict(targets=ts if many else t)
                us = {self.ids[i] for i in ts}
                sel = {m for m in keep["metadata"] if self.engine.get(m) in us}
            un = [m for m in sel if m not in self.outcome and m in self.at]
        if sel is not None:
            o = self.outcome_of(cl.purge_local_results, **kw)
            if un:
                self.check("P17", o[0] == "raised" and isinstance(o[1], RuntimeError), "purge-unfinished", lambda: f"purge {list(kw)} of unfinished messages gave {o}")
                sel = set()
            else:
                self.check("P17", o == ("value", None), "purge", lambda: f"purge {kind} gave {o}")
                self.purged |= sel
                for x in self.recs:
                    if set(x.ids) & sel:
                        x.purged = True
                self.nontrivial += 1
        for n, k in keep.items():
            now = set(getattr(cl, n))
            want = k - (sel or set())
            self.check("P17", now == want, "purge-exact", lambda: f"purge {kind} {list(kw.values())[:1]}: {n} lost {len(k - now)} entries, chosen {len(k & (sel or set()))}")

    def bad_calls(self):
        """calls that are refused send nothing"""
        r, cl = self.r, self.cl
        if not self.ids:
            return
        before = len(self.sent)
        gone = [v for k, v in self.views if k == "dv" and any(t not in self.ids for t in ([v.targets] if isinstance(v.targets, int) else v.targets))]
        if gone and r.random() < .7:
            o = self.outcome_of(r.choice(gone).apply_async, body, "x", False)
            self.check("P17", o[0] == "raised" and len(self.sent) == before, "refused", lambda: f"a call on a lost engine gave {o} and sent {len(self.sent) - before} messages")
        else:
            o = self.outcome_of(self.view("lbv").apply_async, 5)
            self.check("P17", o[0] == "raised" and len(self.sent) == before, "refused", lambda: f"a call of 5 gave {o}")

    # ---------------------------------------------------------------- one history
    def run(self):
        r, s = self.r, self.s
        c = self.c
        for _ in range(c["n"]):
            k = r.random()
            if k < .22:
                self.submit()
            elif k < .3 and self.recs:
                self.derive()
            elif k < .6 and self.recs:
                self.look(r.choice(self.recs[-12:]))
            elif k < .64:
                self.books()
            elif k < .68:
                self.wait_some()
            elif k < .70 and c.get("purge"):
                self.purge()
            elif k < .71:
                self.bad_calls()
            elif k < .73 and c["faults"] and s.engines:
                e = r.choice(sorted(s.engines))
                if len(s.engines) > 1 or r.random() < .3:
                    r.choice([s.kill, s.lose_heart])(e)
            elif k < .75 and c["faults"]:
                s.add_engine_async()
            elif k < .77 and self.recs and self.ids:
                x = r.choice(self.recs)
                self.cl.abort(x.ids, targets=None, block=False)
            else:
                s.steps(r.choice([1, 1, 2, 4, 8, 20]))
        s.drain()
        if s.engines:
            s.settle()
        for m, ch, u in self.sent:
            if ch == "mux":
                pass
        for x in self.recs:
            for how in ("ready", "get", "successful", "meta", "progress", "output"):
                self.look(x, how)
            if s.engines and "P15" in self.props:
                self.check("P15", all(m in self.outcome for m in x.ids) or any(self.dropped(m) for m in x.ids), "never", lambda: f"{x.kind}: never resolved though nothing is in flight")
        self.books()
        if "P17" in self.props and not self.cl.outstanding:
            self.cl.purge_results = lambda *a, **k: None
            self.cl.purge_everything()
            self.check("P17", self.cl.history == [], "purge-everything", lambda: f"history {self.cl.history}")
        return self.nontrivial > 2

    def dropped(self, m):
        return m not in self.outcome
