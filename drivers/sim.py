"""In-process cluster: the repository's real Hub, TaskScheduler, BroadcastScheduler tree, kernel request
handlers, Client and views, joined by a simulated network.  Every channel is FIFO;
which channel moves next is chosen by a seeded generator, so a run is one schedule."""
import asyncio
import contextlib
import json
import logging
import os
import sys
import signal
import threading
import time
from collections import deque

import zmq
from tornado import ioloop
from zmq.eventloop.zmqstream import ZMQStream

logging.disable(logging.CRITICAL)
import jupyter_client.session as js  # noqa: E402

import ipyparallel as ipp  # noqa: E402
from ipyparallel import error, serialize, util  # noqa: E402
from ipyparallel.client import client as client_mod  # noqa: E402
from ipyparallel.controller import broadcast_scheduler, dictdb, heartmonitor, hub as hub_mod, task_scheduler  # noqa: E402
from ipyparallel.engine.kernel import IPythonParallelKernel  # noqa: E402

util._disable_session_extract_dates()
KEY = b"sim-key"
client_mod.print = lambda *a, **k: None

_LOOP = asyncio.new_event_loop()
asyncio.set_event_loop(_LOOP)


def run_ready():
    """let pending coroutines (async handlers) finish"""
    for _ in range(50):
        ts = [t for t in asyncio.all_tasks(_LOOP) if not t.done()]
        if not ts:
            return
        _LOOP.run_until_complete(asyncio.sleep(0))


def mksession(name):
    return js.Session(key=KEY, session=name)


def parse(frames):
    """identities and message of a wire message, read without any of the code under test"""
    fr = [bytes(f) for f in frames]
    i = fr.index(b"<IDS|MSG>")
    h, p, m, c = (json.loads(x) for x in fr[i + 2:i + 6])
    return fr[:i], dict(header=h, parent_header=p, metadata=m, content=c, buffers=fr[i + 6:])


FORGER = None    # called before each delivery, to slip in messages that are not correctly signed
FORGING = None   # while it does, what the receivers send


class FStream(ZMQStream):
    """what the code under test believes is a ZMQStream"""

    def __init__(self, sink=None, name=""):
        self.sink, self.name = sink, name
        self.cb, self.cbcopy = None, True
        self.part = []
        self.socket = self
        self._closed = False

    def __getattr__(self, n):
        raise AttributeError(n)

    def on_recv(self, cb, copy=True):
        self.cb, self.cbcopy = cb, copy

    def on_recv_stream(self, cb, copy=True):
        self.cb, self.cbcopy = (lambda m: cb(self, m)), copy

    def stop_on_recv(self):
        self.cb = None

    def send(self, msg, flags=0, copy=True, track=False, **kw):
        if flags & zmq.SNDMORE:
            self.part.append(msg)
        else:
            self.send_multipart([msg])

    def send_multipart(self, parts, flags=0, copy=True, track=False, **kw):
        if FORGING is not None:
            FORGING.append(self.name)
        frames, self.part = self.part + list(parts), []
        frames = [f.bytes if isinstance(f, zmq.Frame) else bytes(f) for f in frames]
        if self.sink is not None:
            self.sink(frames)
        return zmq.MessageTracker() if track else None

    def flush(self, *a, **k):
        pass

    def closed(self):
        return self._closed

    def close(self, *a, **k):
        self._closed = True

    def setsockopt(self, *a, **k):
        pass

    set = setsockopt

    def deliver(self, frames):
        if FORGER is not None:
            FORGER(self, frames)
        return self.really_deliver(frames)

    def really_deliver(self, frames):
        if self.cb is None:
            return False
        if self.cbcopy:
            self.cb(list(frames))
        else:
            self.cb([zmq.Message(f) for f in frames])
        return True


class FakeLoop(ioloop.IOLoop):
    """virtual time; timeouts fire when the simulation says so"""

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self):
        self.now = 1000.0
        self.timeouts = []

    def initialize(self, *a, **k):
        pass

    def time(self):
        return self.now

    def add_timeout(self, when, cb, *a, **k):
        e = [when, cb, a, k]
        self.timeouts.append(e)
        return e

    def call_later(self, delay, cb, *a, **k):
        return self.add_timeout(self.now + delay, cb, *a, **k)

    def call_at(self, when, cb, *a, **k):
        return self.add_timeout(when, cb, *a, **k)

    def remove_timeout(self, e):
        if e in self.timeouts:
            self.timeouts.remove(e)

    def add_callback(self, cb, *a, **k):
        cb(*a, **k)

    def spawn_callback(self, cb, *a, **k):
        cb(*a, **k)

    def asyncio_loop(self):
        return _LOOP

    def fire(self, e):
        self.timeouts.remove(e)
        self.now = max(self.now, e[0]) if e[0] < 1e8 else self.now
        e[1](*e[2], **e[3])


_CUR = None  # the shell whose engine is running right now; None on the client side


def _patch_shell():
    from IPython.core.interactiveshell import InteractiveShell as I

    I.initialized = classmethod(lambda cls: _CUR is not None)
    I.instance = classmethod(lambda cls, *a, **k: _CUR)


_patch_shell()


class Shell:
    def __init__(self):
        self.user_ns = {}
        self.user_global_ns = self.user_ns
        self.user_ns["__builtins__"] = __builtins__
        self._last_traceback = None

    def showtraceback(self):
        import traceback

        self._last_traceback = traceback.format_exc().splitlines()

    def reset(self, new_session=False):
        self.user_ns.clear()


class SimKernel(IPythonParallelKernel):
    """the real request handlers without the interactive shell behind them"""

    def __init__(self, session, ident, eid):
        self.session = session
        self.ident = ident
        self.engine_id = eid
        self._trait_values["shell"] = Shell()
        self.aborted = set()
        self.log = logging.getLogger("sim")
        self.abort_all = False

    def _abort_queues(self, *a):
        """stands in for ipykernel's: what waits now is answered as aborted, what comes later is not"""
        self.abort_all = True


class Engine:
    def __init__(self, sim, uuid, eid):
        self.sim, self.uuid, self.eid = sim, uuid, eid
        self.ident = uuid.encode()
        self.kernel = SimKernel(mksession(uuid), uuid, eid)
        self.alive = True
        self.declared = False  # the hub has been told it is dead
        self.inbox = deque()  # (stream kind, frames)
        self.ran = []  # msg ids actually executed
        self.running = None

    def stream(self, kind):
        return FStream(lambda fr: self.sim.engine_out(self, kind, fr))

    def step(self):
        """take one message from the shell inbox"""
        kind, frames = self.inbox.popleft()
        k = self.kernel
        idents, msg = k.session.feed_identities([zmq.Message(f) for f in frames], copy=False)
        try:
            msg = k.session.deserialize(msg, content=True, copy=False)
        except ValueError:
            # what the kernel's dispatcher does with a message it cannot accept (a replay, for one)
            self.sim.rejected.append((self.eid, frames))
            return
        st = self.stream(kind)
        idents = [i.bytes if isinstance(i, zmq.Frame) else i for i in idents]
        if not k.should_handle(st, msg, idents):
            return
        mid = msg["header"]["msg_id"]
        self.ran.append(mid)
        self.sim.executed.append((self.eid, mid))
        t = msg["header"]["msg_type"]
        global _CUR
        if t == "apply_request":
            _CUR = k.shell
            self.sim.running = self
            try:
                k.apply_request(st, idents, msg)
            finally:
                _CUR = None
                self.sim.running = None
        elif t == "execute_request":
            self.execute(st, idents, msg)
        else:
            raise RuntimeError(t)

    def execute(self, st, idents, msg):
        """stands in for ipykernel's request handler"""
        k = self.kernel
        md = k.init_metadata(msg)
        try:
            exec(msg["content"]["code"], k.shell.user_ns)
            content = dict(status="ok", execution_count=len(self.ran), payload=[], user_expressions={})
        except Exception as e:
            content = dict(status="error", ename=type(e).__name__, evalue=str(e), traceback=["tb"], engine_info=k.get_engine_info(method="execute"))
        md = k.finish_metadata(msg, md, content)
        k.session.send(st, "execute_reply", content, parent=msg, ident=idents, metadata=md)

    def control(self, frames):
        k = self.kernel
        idents, msg = k.session.feed_identities([zmq.Message(f) for f in frames], copy=False)
        msg = k.session.deserialize(msg, content=True, copy=False)
        idents = [i.bytes if isinstance(i, zmq.Frame) else i for i in idents]
        t = msg["header"]["msg_type"]
        k._send_q = None
        getattr(k, t)(self.stream("control"), idents, msg)
        if k.abort_all:
            k.abort_all = False
            while self.inbox:
                kind, fr = self.inbox.popleft()
                idents, msg = k.session.feed_identities([zmq.Message(f) for f in fr], copy=False)
                try:
                    msg = k.session.deserialize(msg, content=True, copy=False)
                except ValueError:
                    self.sim.rejected.append((self.eid, fr))
                    continue
                k._send_abort_reply(self.stream(kind), msg, [i.bytes if isinstance(i, zmq.Frame) else i for i in idents])


class ImmediateLoop:
    """the client's IO loop: runs callbacks at once on the simulation's thread, hands them over from any other"""

    def __init__(self, sim):
        self.sim = sim

    def add_callback(self, f, *a, **k):
        if threading.get_ident() == self.sim.owner:
            f(*a, **k)
        else:
            self.sim.inject.append(lambda: f(*a, **k))

    def stop(self):
        pass


class SimClient(client_mod.Client):
    """the real Client, attached to the simulated network instead of sockets"""

    def __init__(self, sim, name="client"):
        from traitlets.config import Configurable

        self._connected = True
        self._closed = False
        self.log = logging.getLogger("client")
        self.session = mksession(name)
        self.sim = sim
        self._task_scheme = "leastload"
        self._io_loop = ImmediateLoop(sim)
        self._io_thread = None
        self._notification_handlers = {
            "registration_notification": self._register_engine,
            "unregistration_notification": self._unregister_engine,
            "shutdown_notification": lambda msg: self.close(),
        }
        self._queue_handlers = {
            "execute_reply": self._handle_execute_reply,
            "apply_reply": self._handle_apply_reply,
        }
        self.sim_ident = name.encode()
        for ch in ("mux", "task", "broadcast", "control", "query", "iopub", "notification"):
            st = FStream(lambda fr, ch=ch: sim.client_out(self, ch, fr), ch)
            setattr(self, f"_{ch}_stream", st)
            if f"_{ch}_socket" in self.traits():
                self._trait_values[f"_{ch}_socket"] = st
            else:
                setattr(self, f"_{ch}_socket", st)
        for ch in ("mux", "task", "broadcast"):
            getattr(self, f"_{ch}_stream").on_recv(self._dispatch_reply, copy=False)
        for ch in ("control", "query"):
            getattr(self, f"_{ch}_stream").on_recv(self._dispatch_single_reply, copy=False)
        if self._iopub_stream is not None:
            self._iopub_stream.on_recv(self._dispatch_iopub, copy=False)
        self._notification_stream.on_recv(self._dispatch_notification, copy=False)

    def __del__(self):
        pass

    def close(self, linger=None):
        self._closed = True

    def _send(self, socket, msg_type, *a, **k):
        f = super()._send(socket, msg_type, *a, **k)
        if threading.get_ident() == self.sim.owner:
            if socket is self._query_stream:
                self.sim.drain_query()
        return f


class Sim:
    def __init__(self, rng, engines=2, hwm=1, scheme="leastload", bdepth=0, hub=True, client=True):
        self.rng = rng
        self.running = None
        self.reg_reply = None
        self.owner = threading.get_ident()
        self.inject = deque()
        self.chan = {}  # name -> deque of thunks
        self.executed = []
        self.rejected = []
        self.trace = []
        self.loop = FakeLoop()
        self.hloop = FakeLoop()
        self.engines = {}
        self.dead = []
        self.clients = {}
        self.hwm = hwm
        # ---- hub
        self.hub_query = FStream(self.hub_query_out, "hubquery")
        self.hub_mon = FStream(None, "monitor")
        self.hub_notify = FStream(self.notify_out, "notifier")
        self.hub_resubmit = FStream(self.hub_resubmit_out, "resubmit")
        hs = mksession("hub")
        self.db = dictdb.DictDB(session=hs.session)
        self.hub = hub_mod.Hub(
            loop=self.hloop, session=hs, query=self.hub_query, monitor=self.hub_mon, notifier=self.hub_notify,
            resubmit=self.hub_resubmit, heartmonitor=None, db=self.db, engine_info={}, client_info={"task": ("leastload", "x")},
            heartmonitor_period=1000, registration_timeout=5, engine_state_file="",
        )
        # ---- task scheduler
        self.s_client = FStream(lambda fr: self.router_to_client("task", fr), "sched-client")
        self.s_engine = FStream(lambda fr: self.router_to_engine("task", fr), "sched-engine")
        self.s_mon = FStream(self.mon_out("sched"), "sched-mon")
        self.s_notify = FStream(None, "sched-notify")
        self.s_query = FStream(lambda fr: self.push("sched->hubq", lambda: self.hub_query.deliver([b"scheduler"] + fr)), "sched-query")
        self.sched = task_scheduler.TaskScheduler(
            loop=self.loop, session=mksession("sched"), client_stream=self.s_client, engine_stream=self.s_engine,
            mon_stream=self.s_mon, notifier_stream=self.s_notify, query_stream=self.s_query, hwm=hwm, scheme_name=scheme,
        )
        self.sched.start()
        self.nextid = 0
        self.drain()
        if client:
            self.client = self.new_client()
        for _ in range(engines):
            self.add_engine()
        self.drain()
        self.bcast = None
        self.bdepth = bdepth

    # ------------------------------------------------------------- channels
    def push(self, ch, thunk):
        self.chan.setdefault(ch, deque()).append(thunk)

    def pending(self):
        out = [c for c, q in list(self.chan.items()) if q]
        out += [("run", e) for e, x in self.engines.items() if x.alive and x.inbox]
        return out

    @contextlib.contextmanager
    def pump(self):
        """let another thread run the network while this one blocks in client calls"""
        stop = threading.Event()
        me = self.owner

        def run():
            self.owner = threading.get_ident()
            started.set()
            while not stop.is_set():
                try:
                    if not self.step():
                        time.sleep(0.0002)
                except BaseException as e:  # noqa
                    self.pump_error = e
                    signal.pthread_kill(threading.main_thread().ident, signal.SIGINT)   # whoever waits would wait for ever
                    return

        started = threading.Event()
        self.pump_error = None
        signal.signal(signal.SIGINT, signal.default_int_handler)
        t = threading.Thread(target=run, daemon=True)
        t.start()
        started.wait()
        try:
            try:
                yield
            except KeyboardInterrupt:
                if self.pump_error is None:
                    raise
        finally:
            stop.set()
            try:
                t.join()
            except KeyboardInterrupt:
                t.join()
            self.owner = me
            if self.pump_error is not None:
                raise self.pump_error

    def step(self, pick=None):
        while self.inject:
            self.inject.popleft()()
        p = self.pending()
        if not p:
            return False
        c = p[self.rng.randrange(len(p))] if pick is None else pick(p)
        self.trace.append(str(c))
        if isinstance(c, tuple):
            self.engines[c[1]].step()
        else:
            self.chan[c].popleft()()
        run_ready()
        return True

    def drain(self, limit=20000):
        n = 0
        while self.step():
            n += 1
            if n > limit:
                raise RuntimeError("simulation does not settle")
        return n

    def steps(self, n):
        for _ in range(n):
            if not self.step():
                return

    def drain_query(self):
        """deliver only hub request/reply traffic (a client is blocked on it)"""
        for _ in range(500):
            p = [c for c in self.chan if self.chan[c] and isinstance(c, str) and ("hubq" in c)]
            if not p:
                return
            self.chan[p[0]].popleft()()
            run_ready()

    def settle(self, fire=True):
        """drain, firing timeouts, until nothing is left to happen"""
        for _ in range(200):
            self.drain()
            ts = [(l, e) for l in (self.loop, self.hloop) for e in l.timeouts]
            if not ts or not fire:
                return
            l, e = min(ts, key=lambda x: x[1][0])
            l.fire(e)
            run_ready()
        raise RuntimeError("timeouts do not settle")

    # ------------------------------------------------------------- membership
    def new_client(self, name="client"):
        c = SimClient.__new__(SimClient)
        SimClient.__init__(c, self, name)
        self.clients[c.sim_ident] = c
        c._update_engines({str(e.eid): e.uuid for e in self.engines.values()})
        return c

    def add_engine(self, uuid=None, eid=None):
        uuid = uuid or f"engine-uuid-{self.nextid:03d}"
        self.nextid += 1
        es = mksession(uuid)
        reply = {}
        st = FStream(lambda fr: self.push("eng->hubq", lambda: self.hub_query.deliver([uuid.encode() + b"-reg"] + fr)))
        content = dict(uuid=uuid, id=eid, pid=1, hostname="h", kernel_id="k")
        es.send(st, "registration_request", content=content)
        self.drain()
        ec = self.hub.incoming_registrations.get(uuid.encode())
        if ec is None:
            return None
        e = Engine(self, uuid, ec.id)
        self.engines[ec.id] = e
        self.heart("new_heart", uuid)
        return e

    def add_engine_async(self):
        """ask for registration; the hub, the heart and the notifications follow when their messages move"""
        uuid = f"engine-uuid-{self.nextid:03d}"
        self.nextid += 1
        es = mksession(uuid)

        def arrive(fr):
            self.hub_query.deliver([uuid.encode() + b"-reg"] + fr)
            ec = self.hub.incoming_registrations.get(uuid.encode())
            if ec is not None:
                self.engines[ec.id] = Engine(self, uuid, ec.id)
                self.heart("new_heart", uuid)

        st = FStream(lambda fr: self.push("eng->hubq", lambda: arrive(fr)))
        es.send(st, "registration_request", content=dict(uuid=uuid, id=None, pid=1, hostname="h", kernel_id="k"))

    def heart(self, kind, uuid):
        hs = mksession("hm")
        st = FStream(lambda fr: self.push("hm->mon", lambda: self.hub_mon.deliver(fr)))
        hs.send(st, kind, content=dict(hearts=[uuid]), ident=[b"heartmonitor", b""])

    def kill(self, eid, lose=True):
        """the engine process disappears; what it had not answered is gone"""
        e = self.engines.pop(eid)
        e.alive = False
        self.dead.append(e)
        e.inbox.clear()
        self.push(f"hm->mon", lambda: self.heart("stopped_heart", e.uuid))

    def lose_heart(self, eid):
        """declared dead, though the process goes on working and answering"""
        e = self.engines[eid]
        e.declared = True
        self.push(f"hm->mon", lambda: self.heart("stopped_heart", e.uuid))

    # ------------------------------------------------------------- routing
    def mon_out(self, who):
        def out(fr):
            self.push(f"{who}->mon", lambda: self.hub_mon.deliver(fr))

        return out

    def notify_out(self, fr):
        self.push("hub->sched-notify", lambda: self.s_notify.deliver(fr))
        for c in list(self.clients.values()):
            self.push(f"hub->notify-{c.sim_ident}", lambda c=c: c._notification_stream.deliver(fr))

    def hub_query_out(self, fr):
        ident, rest = fr[0], fr[1:]
        if ident == b"scheduler":
            self.push("hubq->sched", lambda: self.s_query.deliver(rest))
        elif ident in self.clients:
            self.push(f"hubq->{ident}", lambda: self.clients[ident]._query_stream.deliver(rest))
        else:
            self.reg_reply = rest

    def hub_resubmit_out(self, fr):
        self.push("resubmit->sched", lambda: self.s_client.deliver([b"hub-resubmit"] + fr))

    def client_out(self, c, ch, fr):
        me = c.sim_ident
        if ch == "query":
            self.push(f"{me}->hubq", lambda: self.hub_query.deliver([me] + fr))
        elif ch == "task":
            self.push(f"{me}->task", lambda: self.s_client.deliver([me] + fr))
        elif ch in ("mux", "control"):
            # monitored ROUTER-ROUTER: [target, ...] from me -> [me, ...] to the target, copied to the monitor
            target, rest = fr[0], fr[1:]

            def go():
                tag = b"in" if ch == "mux" else b"incontrol"
                self.push(f"{ch}->mon", lambda: self.hub_mon.deliver([tag, target, me] + rest))
                self.to_engine(ch, target, [me] + rest)

            self.push(f"{me}->{ch}", go)
        elif ch == "broadcast":
            self.push(f"{me}->bcast", lambda: self.bcast_in([me] + fr))
        else:
            raise RuntimeError(ch)

    def to_engine(self, ch, target, frames):
        e = next((x for x in self.engines.values() if x.ident == target), None)
        if e is None:
            return  # ROUTER drops messages for unknown peers

        def arrive():
            if not e.alive:
                return
            if ch == "control":
                e.control(frames)
            else:
                e.inbox.append((ch, frames))

        self.push(f"{ch}->e{e.eid}", arrive)

    def router_to_engine(self, ch, fr):
        self.to_engine(ch, fr[0], fr[1:])

    def router_to_client(self, ch, fr):
        c = self.clients.get(fr[0])
        if c is None:
            return
        self.push(f"{ch}->{fr[0]}", lambda: getattr(c, f"_{ch}_stream").deliver(fr[1:]))

    def engine_out(self, e, kind, fr):
        if kind == "task":
            self.push(f"e{e.eid}->task", lambda: self.s_engine.deliver([e.ident] + fr))
        elif kind in ("mux", "control"):
            def go():
                tag = b"out" if kind == "mux" else b"outcontrol"
                self.push(f"{kind}->mon", lambda: self.hub_mon.deliver([tag, fr[0], e.ident] + fr[1:]))
                self.router_to_client(kind, [fr[0], e.ident] + fr[1:])

            self.push(f"e{e.eid}->{kind}", go)
        elif kind == "broadcast":
            self.push(f"e{e.eid}->bcast", lambda: self.bcast_from_engine(e, fr))

    # ------------------------------------------------------------- broadcast tree
    def bcast_setup(self, depth):
        """a binary tree of real BroadcastSchedulers; leaves talk to engines"""
        self.bs = {}
        ident = broadcast_scheduler.get_id_with_prefix

        def make(d, n):
            leaf = d == depth
            name = n
            up = FStream(None, f"up{n}")
            args = dict(client_stream=up, mon_stream=FStream(None), notifier_stream=FStream(None), query_stream=FStream(None),
                        loop=self.loop, session=mksession(f"b{n}"), depth=d, max_depth=depth, name=str(n))
            if leaf:
                args.update(engine_stream=FStream(None, f"down{n}"), is_leaf=True)
                kids = []
            else:
                kids = [make(d + 1, 2 * n + 1), make(d + 1, 2 * n + 2)]
                args.update(connected_sub_scheduler_ids=[ident(k) for k in kids],
                            outgoing_streams=[FStream(None, f"out{n}-{k}") for k in kids])
            s = broadcast_scheduler.BroadcastScheduler(**args)
            self.bs[n] = (s, d, kids, leaf)
            s.start()
            return n

        make(0, 0)
        for n, (s, d, kids, leaf) in self.bs.items():
            if n == 0:
                s.client_stream.sink = lambda fr: self.router_to_client("broadcast", fr)
            else:
                par = (n - 1) // 2
                ps, pd, pk, _ = self.bs[par]
                st = ps.outgoing_streams[pk.index(n)]

                # child ROUTER knows its parent as sub_scheduler_<par>; frames start with that identity
                def upsink(fr, st=st, n=n, par=par):
                    if fr[0] != ident(par):
                        return
                    self.push(f"b{n}->b{par}", lambda: st.deliver([ident(n)] + fr[1:]))

                s.client_stream.sink = upsink
            if leaf:
                s.engine_stream.sink = lambda fr: self.router_to_engine("broadcast", fr)
            else:
                for k, st in zip(kids, s.outgoing_streams):
                    cs = self.bs[k][0]

                    def downsink(fr, k=k, n=n, cs=cs):
                        if fr[0] != ident(k):
                            return
                        self.push(f"b{n}->b{k}", lambda: cs.client_stream.deliver([ident(n)] + fr[1:]))

                    st.sink = downsink
        self.bcast = self.bs[0][0]
        self.bdepth = depth

    def bcast_in(self, fr):
        self.bcast.client_stream.deliver(fr)

    def leaf_for(self, eid):
        n = 0
        path = format(eid % (2 ** self.bdepth), f"0{self.bdepth + 1}b") if self.bdepth else "0"
        for d in range(self.bdepth):
            n = self.bs[n][2][int(path[d + 1])]
        return n

    def bcast_from_engine(self, e, fr):
        # the engine is connected to the leaf its id maps to
        s = self.bs[self.leaf_for(e.eid)][0]
        s.engine_stream.deliver([e.ident] + fr)


def seeded_random(seed):
    """the code under test draws from `random`: make it reproducible"""
    import random as _r

    _r.seed(seed)
    try:
        import numpy

        numpy.random.seed(seed & 0xFFFFFFFF)
    except ImportError:
        pass
