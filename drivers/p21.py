"""P21: clusters' records and the states of launchers."""
import asyncio
import json
import os
import random
import shutil
import tempfile

from common import Driver, check, fail

d = Driver("P21", "random histories of the repository's launchers over imaginary processes (starts, exits in any order, repeated notifications, callbacks registered at any time and from callbacks), of sets of engines (exits, reloads), and "
           "of whole clusters in a scratch profile (controller, several sets, exits, stops, reloads from the file, malformed files), compared with a model after every step; every case counts")
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
from ipyparallel.cluster import cluster as C, launcher as L  # noqa: E402
import launch21 as F  # noqa: E402


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="p21-")
        for s in ("log", "security"):
            os.makedirs(os.path.join(self.d, s))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


# ---------------------------------------------------------------- one launcher
def case_launcher(c):
    r = random.Random(c["seed"])
    with Scratch() as dd:
        x = F.Plain(profile_dir=dd, identifier="one")
        state, got, want, data = "before", [], [], None

        def cb(i):
            def f(stop_data):
                got.append((i, stop_data))
                if r.random() < .3 and i < 1000:
                    want.append(i + 1000)
                    x.on_stop(cb(i + 1000))
            return f
        reg = []
        for i in range(c["n"]):
            op = r.choice(["on_stop", "on_stop", "start", "exit", "again"])
            if op == "on_stop":
                if state == "after":
                    want.append(i)
                else:
                    reg.append(i)
                x.on_stop(cb(i))
            elif op == "start" and state == "before":
                x.start()
                state = "running"
            elif op == "exit" and state == "running":
                data = dict(exit_code=r.choice([0, 1, None, "unknown"]), pid=x.pid, identifier="one")
                state = "after"
                want += reg
                check(x.notify_stop(data) == data, "launcher-data", "notify_stop gave other data")
            elif op == "again" and state == "after":
                x.notify_stop(dict(exit_code=99, pid=x.pid, identifier="one"))
            check(x.state == state and x.running == (state == "running"), "launcher-state", lambda: f"after {op}: state {x.state}, running {x.running}, expected {state}")
            check(sorted(k for k, _ in got) == sorted(want), "callbacks", lambda: f"after {op} in state {state}: callbacks run {[k for k, _ in got]}, registered {want}")
            for k, s in got:
                check(s == data, "callback-data", lambda: f"callback {k} got {s}, the process ended with {data}")


# ---------------------------------------------------------------- a set of engines
def expected_exit(codes):
    bad = [c for c in codes if c]
    return bad[0] if bad else (0 if 0 in codes else None)


def case_set(c):
    r = random.Random(c["seed"])
    F.ALIVE.clear()
    with Scratch() as dd:
        s = F.FakeSet(profile_dir=dd, cluster_id="c", engine_set_id="e", environment={"A": "b"})
        stopped = []
        if r.random() < .5:
            s.on_stop(stopped.append)
            reg = True
        else:
            reg = False
        n = r.randrange(1, 6)
        s.start(n)
        if not reg:
            s.on_stop(stopped.append)
        check(s.state == "running" and len(F.ALIVE) == n, "set-not-started", lambda: f"{n} engines asked for: state {s.state}, {len(F.ALIVE)} started")
        for x in s.launchers.values():
            check(x.cluster_id == "c" and x.environment == {"A": "b"} and x.profile_dir == dd, "engine-config", "an engine of the set lacks its configuration")
        pid_of = {k: x.pid for k, x in s.launchers.items()}
        exits = {}
        cur = s
        while len(exits) < n:
            if r.random() < .3:
                # another process takes over from the record, possibly after some more have died meanwhile
                rec = json.loads(json.dumps(cur.to_dict()))
                left = [k for k in pid_of if k not in exits]
                lost = [k for k in left if r.random() < .3]
                for k in lost:
                    F.ALIVE.pop(pid_of[k])
                for ws in F.ALIVE.values():
                    ws.clear()
                left = [k for k in left if k not in lost]
                try:
                    cur = F.FakeSet.from_dict(rec, engine_set_id="e")
                except L.NotRunning:
                    check(not left, "reload-refused", lambda: f"a set with engines {left} running was said not to run")
                    return True
                check(left, "reload-accepted", "a set of which no engine runs was reloaded")
                check(cur.state == "running" and sorted(cur.launchers) == sorted(left) and cur.n == len(left), "reload-differs",
                      lambda: f"reloaded set: {cur.state} {sorted(cur.launchers)} n={cur.n}, running are {left}")
                for k in left:
                    check(cur.launchers[k].pid == pid_of[k], "reload-differs", lambda: f"engine {k} reloaded with pid {cur.launchers[k].pid}, it was {pid_of[k]}")
                stopped = []
                cur.on_stop(stopped.append)
                exits = {}
                pid_of = {k: pid_of[k] for k in left}
                n = len(left)
                continue
            left = [k for k in pid_of if k not in exits]
            k = r.choice(left)
            if r.random() < .1:
                asyncio.run(cur.stop())
                for k in left:
                    exits[k] = -15
            else:
                exits[k] = r.choice([0, 0, 0, 1, 7, None, "unknown"])
                F.die(pid_of[k], exits[k])
            last = len(exits) == n
            check(cur.state == ("after" if last else "running"), "set-state", lambda: f"{len(exits)} of {n} engines ended: state {cur.state}")
            check(len(stopped) == (1 if last else 0), "set-callbacks", lambda: f"{len(exits)} of {n} engines ended: {len(stopped)} calls")
        data = stopped[0]
        check({k: v["exit_code"] for k, v in data["engines"].items()} == exits, "set-exits", lambda: f"engines ended {exits}, reported {data}")
        codes = list(exits.values())
        ok = data["exit_code"] == expected_exit(codes) if len(set(x for x in codes if x)) <= 1 else data["exit_code"] in [x for x in codes if x]
        check(ok, "set-exit-code", lambda: f"engines ended {codes}, the set reports {data['exit_code']}")
        late = []
        cur.on_stop(late.append)
        check(late == [data], "callbacks", "a late callback was not run with the data")


# ---------------------------------------------------------------- clusters
class World:
    def __init__(self, c, dd):
        self.r, self.dd = random.Random(c["seed"]), dd
        self.kw = dict(load_profile=False, shutdown_atexit=False)
        cls = F.OtherCluster if self.r.random() < .3 else C.Cluster
        r = self.r
        opts = {}
        if r.random() < .5:
            opts["cluster_id"] = r.choice(["", "x", "a b", "ü"])
        if r.random() < .3:
            opts["n"] = 3
        if r.random() < .3:
            opts["controller_args"] = ["--x", "y z"]
        if r.random() < .3:
            opts["controller_ip"] = "*"
        if r.random() < .3:
            opts["controller_location"] = "here"
        if r.random() < .3:
            opts["delay"] = 0.5
        self.nofile = r.random() < .1
        if self.nofile:
            opts["cluster_file"] = ""
        self.cl = cls(profile_dir=dd, controller=F.FakeController, engines=F.FakeSet, send_engines_connection_env=False, **self.kw, **opts)
        self.file = self.cl.cluster_file
        self.ctl = None
        self.sets = {}      # id -> {member: pid}
        self.others = []

    def run(self, coro):
        return asyncio.run(coro)

    def own(self, new):
        new.send_engines_connection_env = False
        new.controller_launcher_class = F.FakeController
        new.engine_launcher_class = F.FakeSet
        self.cl = new

    def up(self):
        return bool(self.ctl in F.ALIVE or any(self.live(s) for s in self.sets.values()))

    def live(self, s):
        return {k: p for k, p in s.items() if p in F.ALIVE}

    def describe(self, cl):
        return dict(
            cls=type(cl).__name__, id=cl.cluster_id, dir=cl.profile_dir, args=list(cl.controller_args), ip=cl.controller_ip, loc=cl.controller_location, delay=cl.delay, n=cl.n,
            cc=cl.controller is not None and cl.controller.state == "running" and cl.controller_launcher_class.__name__, ec=cl.engine_launcher_class.__name__,
            controller=cl.controller.pid if cl.controller is not None and cl.controller.state == "running" else None,
            sets={i: {k: x.pid for k, x in s.launchers.items()} for i, s in cl.engines.items() if s.state == "running"},
        )

    def look(self, after):
        if self.nofile:
            check(not os.listdir(os.path.join(self.dd, "security")), "file-unwanted", "a cluster without file wrote one")
            return
        check(os.path.exists(self.file) == self.up(), "file-exists", lambda: f"after {after}: cluster file exists: {os.path.exists(self.file)}; running: {self.up()} (controller {self.ctl in F.ALIVE}, sets {[self.live(s) for s in self.sets.values()]})")

    def model(self, d0):
        return dict(d0, controller=self.ctl if self.ctl in F.ALIVE else None, cc=self.ctl in F.ALIVE and d0["cc"], sets={i: self.live(s) for i, s in self.sets.items() if self.live(s)})

    def reload(self):
        if not os.path.exists(self.file):
            return
        d0 = self.describe(self.cl)
        watchers = {p: list(w) for p, w in F.ALIVE.items()}
        how = self.r.choice(["file", "cls", "manager"])
        if how == "manager":
            m = C.ClusterManager()
            cs = m.load_clusters(profile_dir=self.dd)
            check(len(cs) == 1, "manager-lost", lambda: f"{len(cs)} clusters loaded")
            new = next(iter(cs.values()))
        else:
            new = C.Cluster.from_file(self.file, **self.kw)
        want = self.model(d0)
        got = self.describe(new)
        check(got == want, "reload-differs", lambda: f"reloaded ({how}) {got}, saved {want}")
        check(new.cluster_file == self.file, "reload-differs", lambda: f"reloaded cluster's file {new.cluster_file}, loaded from {self.file}")
        for i, s in new.engines.items():
            check(s.engine_set_id == i and s.n == len(s.launchers), "reload-differs", lambda: f"set {i} reloaded with id {s.engine_set_id}, n {s.n} of {len(s.launchers)}")
        self.look(f"reload ({how})")
        if self.r.random() < .5:
            # carry on with the reloaded one; the former owner sees nothing any more
            for p, ws in F.ALIVE.items():
                ws[:] = [w for w in ws if w not in watchers.get(p, [])]
            self.own(new)
            self.sets = {i: self.live(s) for i, s in self.sets.items() if self.live(s)}
            if self.ctl not in F.ALIVE:
                self.ctl = None
        else:
            for p, ws in watchers.items():
                F.ALIVE[p][:] = ws
            self.others.append(new)

    def crash(self):
        """everybody watching goes away, some processes die, then the record is loaded again"""
        if not os.path.exists(self.file):
            return
        d0 = self.describe(self.cl)
        text = json.load(open(self.file))
        for p in list(F.ALIVE):
            if self.r.random() < .4:
                del F.ALIVE[p]
            else:
                F.ALIVE[p].clear()
        new = C.Cluster.from_file(self.file, **self.kw)
        want, got = self.model(d0), self.describe(new)
        check(got == want, "reload-differs", lambda: f"reloaded {got}, running {want}; the file said {text}")
        self.own(new)
        self.sets = {i: self.live(s) for i, s in self.sets.items() if self.live(s)}
        if self.ctl not in F.ALIVE:
            self.ctl = None
        self.look("reload after crash")

    def malformed(self):
        r = self.r
        good = json.loads(json.dumps(self.cl.to_dict()))
        k = r.randrange(6)
        bad = json.loads(json.dumps(good))
        if k == 0:
            del bad["cluster"]
        elif k == 1:
            bad["cluster"]["class"] = "no_such_module_.Cluster"
        elif k == 2:
            bad["engines"]["class"] = "no_such_launcher"
        elif k == 3:
            bad["cluster"]["controller_args"] = 5
        elif k == 4:
            bad["cluster"]["cluster_id"] = dict(x=1)
        else:
            bad["controller"] = dict(state=dict())
        watchers = {p: list(w) for p, w in F.ALIVE.items()}
        text = json.dumps(bad)
        if r.random() < .3:
            text = json.dumps(good)[: r.randrange(1, 20)]
        p = os.path.join(self.dd, "security", "cluster-bad.json")
        with open(p, "w") as f:
            f.write(text)
        try:
            if r.random() < .5:
                try:
                    C.Cluster.from_file(p, **self.kw)
                except Exception:
                    pass
                else:
                    fail("malformed-accepted", f"loaded {text}")
            else:
                m = C.ClusterManager()
                cs = m.load_clusters(profile_dir=self.dd)
                check(all(x.cluster_file != p for x in cs.values()), "malformed-accepted", lambda: f"loaded {text}")
        finally:
            for q, ws in watchers.items():   # one owner at a time
                F.ALIVE[q][:] = ws
            if os.path.exists(p):
                os.remove(p)

    def step(self):
        r, cl = self.r, self.cl
        op = r.choice(["controller", "engines", "engines", "die", "die", "diec", "stop_engines", "stop_controller", "stop_cluster", "reload", "reload", "crash", "malformed"])
        if self.nofile and op in ("reload", "crash", "malformed"):
            return
        if op == "controller":
            if cl.controller is not None:
                try:
                    self.run(cl.start_controller())
                except RuntimeError:
                    pass
                else:
                    fail("second-controller", "a second controller was started")
            else:
                self.run(cl.start_controller())
                self.ctl = cl.controller.pid
                check(cl.controller.state == "running" and self.ctl in F.ALIVE, "controller-state", "the controller started does not run")
        elif op == "engines":
            n = r.choice([1, 2, 3])
            i = self.run(cl.start_engines(n))
            check(i not in self.sets or not self.live(self.sets[i]), "set-id-reused", lambda: f"a new set was given the id {i} of another")
            self.sets[i] = {k: x.pid for k, x in cl.engines[i].launchers.items()}
            check(len(self.sets[i]) == n, "set-size", lambda: f"{n} engines asked for, {len(self.sets[i])} started")
        elif op == "die":
            ps = [p for s in self.sets.values() for p in self.live(s).values()]
            if ps:
                F.die(r.choice(ps), r.choice([0, 1]))
        elif op == "diec":
            if self.ctl in F.ALIVE:
                F.die(self.ctl, r.choice([0, 1]))
        elif op == "stop_engines":
            if cl.engines:
                i = r.choice(list(cl.engines) + [None])
                self.run(cl.stop_engines(i))
                for j in list(self.sets) if i is None else [i]:
                    check(not self.live(self.sets.get(j, {})), "set-not-stopped", lambda: f"set {j} runs after it was stopped")
                    self.sets.pop(j, None)
        elif op == "stop_controller":
            self.run(cl.stop_controller())
            check(self.ctl not in F.ALIVE, "controller-not-stopped", "the controller runs after it was stopped")
            check(cl.controller is None, "controller-not-stopped", "stopped controller still there")
            self.ctl = None
        elif op == "stop_cluster":
            self.run(cl.stop_cluster())
            check(not self.up(), "cluster-not-stopped", "something runs after the cluster was stopped")
            self.ctl, self.sets = None, {}
        else:
            getattr(self, op)()
        self.look(op)


def case_cluster(c):
    F.ALIVE.clear()
    with Scratch() as dd:
        w = World(c, dd)
        try:
            for _ in range(c["n"]):
                w.step()
        finally:
            F.ALIVE.clear()


# ---------------------------------------------------------------- real processes
def case_process(c):
    r = random.Random(c["seed"])
    with Scratch() as dd:
        async def go():
            s = L.LocalEngineSetLauncher(profile_dir=dd, cluster_id="c", engine_set_id="e", engine_cmd=["/bin/sh", "-c", c["script"]], delay=0)
            got = []
            s.on_stop(got.append)
            s.start(c["n"])
            rec = json.loads(json.dumps(s.to_dict()))
            check(sorted(e["pid"] for e in rec["engines"].values()) == sorted(x.pid for x in s.launchers.values()), "record-pids", lambda: f"recorded {rec}")
            if c["stop"]:
                await s.stop()
            for _ in range(200):
                if got:
                    break
                await asyncio.sleep(.02)
            check(got, "set-callbacks", "the engines ended, nobody was told")
            await asyncio.sleep(.05)
            check(len(got) == 1 and s.state == "after", "set-state", lambda: f"{len(got)} notifications, state {s.state}")
            codes = [e["exit_code"] for e in got[0]["engines"].values()]
            want = -15 if c["stop"] else c["code"]
            check(codes == [want] * c["n"] and got[0]["exit_code"] == want, "set-exits", lambda: f"engines ended with {want}, reported {got[0]}")
            try:
                L.LocalEngineSetLauncher.from_dict(rec, engine_set_id="e")
            except L.NotRunning:
                pass
            else:
                fail("reload-accepted", "a set of which no engine runs was reloaded")
        asyncio.run(go())


def gen(r):
    return dict(seed=r.randrange(1 << 30), n=r.choice([6, 15, 30]))


d.add("launcher", case_launcher, gen=gen)
d.add("set", case_set, gen=gen)
d.add("cluster", case_cluster, gen=gen, weight=9)
d.add("process", case_process, cases=[dict(seed=1, script="exit 0", code=0, n=2, stop=False), dict(seed=2, script="exit 3", code=3, n=3, stop=False), dict(seed=3, script="exec sleep 20", code=None, n=2, stop=True)])
d.main()
