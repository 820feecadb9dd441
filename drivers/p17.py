"""P17: outstanding, history, results, deaths and purges."""
from common import Driver

d = Driver("P17", "random histories of direct, load-balanced and mapped calls of a real client on the simulated cluster, with engines lost (truly or not) and joining, aborts, waits, purges "
           "of jobs, engines or everything and refused calls, the client's and its views' books compared at random points with a model of what was sent and delivered; a case "
           "counts when at least three finished handles or purges were involved")
import sim  # noqa: E402,F401
import cworld  # noqa: E402


def case_history(c):
    return cworld.CWorld(c, {"P17"}).run()


def gen(r):
    return dict(seed=r.randrange(1 << 30), engines=r.choice([1, 2, 2, 3, 4]), n=r.choice([20, 60, 120]), faults=r.random() < .5, hwm=r.choice([0, 1]), bcast=r.choice([None, None, 0, 1, 2]), purge=r.random() < .6)


d.add("history", case_history, gen=gen)
d.main()
