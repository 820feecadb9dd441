"""P05: see properties.jsonl; random histories checked by drivers/world.py."""
from common import Driver

d = Driver("P05", "random histories (tasks with targets, dependencies, retries, timeouts; engines joining and dying; "
           "seeded message orders) of the real scheduler, hub, client and kernel handlers against an independent model; "
           "a case counts when at least two tasks were submitted and one finished")
import world  # noqa: E402


def case_history(c):
    return world.World(c, {"P05"}).run()


d.add("history", case_history, gen=world.gen, weight=6)
d.main()
