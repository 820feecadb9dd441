"""P10: the controller's records."""
from common import Driver

d = Driver("P10", "random histories of a real Hub over the in-memory and the sqlite database: direct and load-balanced submissions, destinations (also changing), output, replies of every status, repeated and late replies, engines "
           "leaving with work, purges, resubmissions and queries, every answer compared with a model of what was recorded; a case counts when ten answers were compared")
import hworld  # noqa: E402

WEIGHTS = dict(register=2, hearts=3, depart=1, tick=1, submit_direct=6, submit_task=6, assign=6, answer=9, late=1, iopub=2, look_status=8, look_queues=5, purge=2, resubmission=3, junk=1)


def case_records(c):
    return hworld.HWorld(c, {"P10"}).run(c["n"], WEIGHTS)[1] >= 10


def gen(r):
    return dict(seed=r.randrange(1 << 30), n=r.choice([30, 100, 160]), db=r.choice(["dict", "dict", "sqlite"]))


d.add("records", case_records, gen=gen)
if __name__ == "__main__":
    d.main()
