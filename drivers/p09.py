"""P09: the controller's registry of engines."""
from common import Driver

d = Driver("P09", "random histories of a real Hub: registrations (fresh, duplicate, with ids asked for), hearts seen and stopped, cancellations, departures by request, heart and shutdown, timeouts in virtual time, tasks queued on "
           "engines that leave, state saved and resumed, its answers and announcements compared with a model; a case counts when two engines left")
import hworld  # noqa: E402

WEIGHTS = dict(register=6, hearts=6, depart=3, tick=3, look_registry=4, restart=1, submit_direct=4, submit_task=1, assign=1, answer=2, look_status=3, junk=1)


def case_registry(c):
    return hworld.HWorld(c, {"P09"}).run(c["n"], WEIGHTS)[0] >= 2


def gen(r):
    return dict(seed=r.randrange(1 << 30), n=r.choice([20, 60, 120]))


d.add("registry", case_registry, gen=gen)
if __name__ == "__main__":
    d.main()
