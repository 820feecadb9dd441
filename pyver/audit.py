"""python3-vt -m pyver.audit [substring]: can False be proved from what the contracts assume?

For every contract, the hypotheses of its postconditions (axioms, preconditions, invariants, callee contracts on that path) are given to the solver with
the goal False.  A path that no input takes may be refutable; a contract all of whose paths are is vacuous.  Run when contracts change, not by the checks.
"""
import sys
import time

import z3

from . import verify as v
from .src import Source


def main():
    import contracts

    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    reg, src = contracts.load(), Source()
    kept = {}

    def keep(eng, axioms, tmo, want_models, jobs):
        for o in eng.obls:
            kept.setdefault(tuple(h.get_id() for h in o.hyps), (o, axioms))
        return [("proved", None, 0.0, "-", None)] * len(eng.obls)

    real, v.discharge_all = v.discharge, keep
    bad = 0
    for c in reg.all:
        if pat not in c.name + " " + c.qual:
            continue
        kept.clear()
        t0 = time.time()
        try:
            r = v.verify(src, reg, c, jobs=1, tmo=2)
        except Exception as e:
            print("error", c.name, e)
            continue
        posts = [(o, ax) for o, ax in kept.values() if "post" in o.name or "inv" in o.name]
        n = dead = 0
        which = []
        step = max(1, len(posts) // 16)
        for o, ax in posts[::step]:
            g, o.goal = o.goal, z3.BoolVal(False)
            st = real(o, ax, 3, False)[0]
            o.goal = g
            n += 1
            if st == "proved":
                dead += 1
                which.append(o.name)
        flag = "VACUOUS" if n and dead == n else "dead-paths" if dead else "ok"
        bad += flag == "VACUOUS"
        print(f"{flag:10} {c.name:60} {dead}/{n} {time.time() - t0:.1f}s {which[:3] if dead else ''}", flush=True)
    print("vacuous:", bad)


main()
