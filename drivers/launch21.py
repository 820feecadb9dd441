"""Launchers of imaginary processes: everything but the process itself is the repository's code."""
import itertools

from ipyparallel.cluster import launcher as L

PIDS = itertools.count(1000)
ALIVE = {}     # pid -> launcher objects watching it


class Imaginary:
    """what LocalProcessLauncher does with a process, without the process"""

    def start(self, *a):
        self.pid = next(PIDS)
        ALIVE[self.pid] = [self]
        self.notify_start(self.pid)

    def _reconstruct_process(self, d):
        if d.get("pid", -1) > 0:
            if d["pid"] not in ALIVE:
                raise L.NotRunning(d["pid"])
            ALIVE[d["pid"]].append(self)

    async def stop(self):
        die(self.pid, -15)

    def signal(self, sig):
        pass

    async def join(self, timeout=None):
        pass

    def poll(self):
        return None if self.pid in ALIVE else "unknown"

    def get_output(self, remove=False):
        return f"output of {self.pid}"


def die(pid, code, seen=None):
    for x in list(ALIVE.pop(pid, ())):
        if seen is None or x in seen:
            x.notify_stop(dict(exit_code=code, pid=pid, identifier=x.identifier))


class Plain(Imaginary, L.LocalProcessLauncher):
    def find_args(self):
        return ["plain"]


class FakeController(Imaginary, L.LocalControllerLauncher):
    pass


class FakeEngine(Imaginary, L.LocalEngineLauncher):
    pass


class FakeSet(L.LocalEngineSetLauncher):
    launcher_class = FakeEngine
    delay = 0


from ipyparallel.cluster import cluster as C  # noqa: E402


class OtherCluster(C.Cluster):
    pass
