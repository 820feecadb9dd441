#!/usr/bin/env python3-vt
"""Decide one property on /repo's current working tree.

  python3-vt check.py P01            tier from VERIF_TIER (quick|thorough)
  python3-vt check.py --replay FILE  re-run the failing input of a replay file

1. every contract tagged with the property is re-verified against the AST parsed
   from /repo now (pyver: symbolic execution, obligations discharged by z3);
2. the lemmas that compose those contracts into the property are re-proved;
3. the property's driver runs the real code on a bounded set of inputs: it
   stands in (labelled bounded) for what no contract covers, and is the search
   that turns a failed obligation into a concrete failing input.
"""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("PYVER_REPO", "/repo")
VENV = "/opt/venv/bin/python"

import contracts  # noqa: E402
from pyver import types as ty  # noqa: E402
from pyver.src import Source  # noqa: E402
from pyver import verify as verify_mod  # noqa: E402
from pyver.verify import verify, prove_lemma, smt2_second  # noqa: E402

_reg = None
_src = None


def ctx():
    global _reg, _src
    if _reg is None:
        _reg = contracts.load()
        _src = Source(REPO)
    return _reg, _src


def verify_one(args):
    try:
        return _verify_one(args)
    except Exception as e:  # the verifier itself broke: never decides anything
        c = ctx()[0].all[args[0]]
        return dict(name=c.name, qual=c.qual, status="unsupported", detail=f"verifier: {type(e).__name__}: {e}",
                    obls=0, proved=0, failed=[], paths=0, solver_s=0, wall_s=0, backends={},
                    assumed=[], inlined=[], called=[], crosschecked=0)


def _verify_one(args):
    i, tier, slow, verify_mod.DEADLINE = args
    reg, src = ctx()
    c = reg.all[i]
    t0 = time.time()
    try:
        r = verify(src, reg, c, tmo=(10.0 if not slow else 40.0), budget=(240 if tier == "quick" else 600), jobs=6)
    except Exception as e:  # the verifier itself broke: never decides anything
        return dict(name=c.name, qual=c.qual, status="unsupported", detail=f"verifier: {type(e).__name__}: {e}",
                    obls=0, proved=0, failed=[], paths=0, solver_s=0, wall_s=time.time() - t0, backends={},
                    assumed=[], inlined=[], called=[], crosschecked=0)
    failed = []
    for o in r.failed:
        failed.append(dict(label=o.label, status=o.status, model=o.model, inputs=o.model_in))
    cc = 0
    if tier == "thorough" and r.status == "proved":
        ax = r.axioms
        for o in [o for o in r.obls if o.hyps is not None][:60]:
            if smt2_second(o, ax, 5, ["cvc5", "--tlimit=5000"]) == "unsat":
                cc += 1
    return dict(name=c.name, qual=c.qual, status=r.status, detail=r.detail, obls=len(r.obls),
                proved=sum(1 for o in r.obls if o.status == "proved"), failed=failed, paths=r.paths,
                solver_s=round(r.solver_s, 2), wall_s=round(r.wall_s, 2), backends=r.backends,
                assumed=sorted(r.assumed), inlined=sorted(r.inlined), called=sorted(r.called), crosschecked=cc,
                labels=[o.label for o in r.obls][:400])


def lemma_one(args):
    name, tier = args
    reg, src = ctx()
    t0 = time.time()
    st = prove_lemma(reg.lemmas[name])
    return dict(name="lemma:" + name, status=st, wall_s=round(time.time() - t0, 2))


def run_driver(prop, tier, seed, budget, hints=None, replay=None):
    """the real code, in the repository's own interpreter"""
    path = os.path.join(HERE, "drivers", f"{prop.lower()}.py")
    if not os.path.exists(path):
        return None
    with tempfile.TemporaryDirectory(prefix="vdrv-") as tmp:
        out = os.path.join(tmp, "out.json")
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", IPP_DISABLE_JS="1", PYTHONHASHSEED="0",
                   IPYTHONDIR=os.path.join(tmp, "ipy"), HOME=os.path.join(tmp, "home"),
                   JUPYTER_RUNTIME_DIR=os.path.join(tmp, "jrt"), TMPDIR=tmp,
                   PYTHONPATH=REPO + os.pathsep + os.path.join(HERE, "drivers"))
        for d in ("ipy", "home", "jrt"):
            os.makedirs(os.path.join(tmp, d))
        cmd = [VENV, path, "--tier", tier, "--seed", str(seed), "--out", out, "--budget", str(budget)]
        if hints:
            h = os.path.join(tmp, "hints.json")
            json.dump(hints, open(h, "w"))
            cmd += ["--hints", h]
        if replay:
            cmd += ["--replay", replay]
        try:
            p = subprocess.run(cmd, cwd=tmp, env=env, capture_output=True, text=True, timeout=budget * 3 + 120,
                               start_new_session=True)
            err = p.stderr[-4000:]
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            err, rc = "timeout " + str(e.stderr or "")[-2000:], -1
        try:
            r = json.load(open(out))
        except Exception:
            r = dict(evaluations=0, distinct=0, samples=[], failures=[], notes=[], rule="")
            r["broken"] = f"driver gave no result (rc={rc}): {err}"
        r["stderr"] = err
        return r


def known():
    """known-findings.txt: `finding: property=<id> key=<key> <text>` lines suppress exactly that key"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        if "case" not in d:
            print(json.dumps(d, indent=1))
            return 0
        r = run_driver(d["property"], "quick", d.get("seed", 1), 60, replay=os.path.abspath(sys.argv[2]))
        print(json.dumps(r, indent=1))
        return 1 if r.get("failures") else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    reg, src = ctx()
    P = contracts.PROPS[prop]
    idx = [i for i, c in enumerate(reg.all) if prop in c.props]
    # callee contracts this property's proofs lean on are re-verified here too
    todo, seen, results = list(idx), set(idx), {}
    lem = [n for n, l in reg.lemmas.items() if prop in l["props"]]
    quals = {}
    for i, c in enumerate(reg.all):
        quals.setdefault(c.qual, []).append(i)
    lemres = []
    budget = P.get("budget", 25) if tier == "quick" else P.get("thorough_budget", 240)
    quick = tier == "quick"
    first, second = t0 + (330 if quick else 3000), t0 + (520 if quick else 5400)
    nproc = min(8, os.cpu_count() or 1)
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=4) as pool:
        # driver in parallel with the proofs
        from concurrent.futures import ThreadPoolExecutor

        ex = ThreadPoolExecutor(1)
        dfut = ex.submit(run_driver, prop, tier, seed, budget)
        lfut = pool.map_async(lemma_one, [(n, tier) for n in lem], chunksize=1)
        while todo:
            rs = pool.map(verify_one, [(i, tier, False, first) for i in todo], chunksize=1)
            nxt = []
            for i, r in zip(todo, rs):
                results[i] = r
                for q in r["called"]:
                    for j in quals.get(q, []):
                        if j not in seen:
                            seen.add(j)
                            nxt.append(j)
            todo = nxt
        slow = [i for i, r in results.items() if r["status"] == "unknown"]
        if slow:
            for i, r in zip(slow, pool.map(verify_one, [(i, tier, True, second) for i in slow], chunksize=1)):
                results[i] = r
        lemres = lfut.get()
        more = sorted({n for i in results for n in reg.all[i].uses} - set(lem))
        while more:  # lemmas the proofs lean on, and what those lean on
            lemres += pool.map(lemma_one, [(n, tier) for n in more], chunksize=1)
            lem += more
            more = []
        drv = dfut.result()
    res = [results[i] for i in sorted(results)]
    bad = [r for r in res if r["status"] in ("refuted", "unknown")]
    outside = [r for r in res if r["status"] in ("unsupported", "missing")]
    badlem = [r for r in lemres if r["status"] != "proved"]
    kf = known()
    viol = []
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    nrep = [0]

    def write_replay(d):
        nrep[0] += 1
        p = os.path.join(HERE, "replay", f"{prop}-{nrep[0]}.json")
        json.dump(dict(property=prop, seed=seed, **d), open(p, "w"), indent=1, default=str)
        return p

    printed = set()

    def take(drv):
        new = 0
        for f in (drv or {}).get("failures", []):
            key = (prop, f["key"])
            if key in kf:
                if key not in printed:
                    printed.add(key)
                    print(f"KNOWN-FINDING: property={prop} {f['key']}: {kf[key]}")
                continue
            if f["key"] in printed:
                continue
            printed.add(f["key"])
            new += 1
            p = write_replay(dict(key=f["key"], what=f["what"], case=f.get("case"), trace=f.get("trace"),
                                  failed_obligations=[o["label"] for r in bad for o in r["failed"]]))
            print(f"# {prop} {f['key']}: {str(f['what'])[:600]}")
            print(f"VIOLATION property={prop} replay={p}")
            viol.append(f["key"])
        return new

    take(drv)
    if (bad or badlem) and not viol:
        # replay search: counterexample values as hints, larger budget
        hints = [dict(contract=r["qual"], obligation=o["label"], inputs=o["inputs"]) for r in bad for o in r["failed"]]
        drv2 = run_driver(prop, "quick", seed + 1, budget * 2, hints=hints)
        take(drv2)
        if not viol:
            labels = [o["label"] + " (" + o["status"] + ")" for r in bad for o in r["failed"]] + [r["name"] for r in badlem]
            p = write_replay(dict(obligations=labels, verifier=[dict(contract=r["name"], status=r["status"], failed=r["failed"]) for r in bad] + badlem,
                                  note="no concrete failing input was found on the real code"))
            for l in labels[:8]:
                print(f"# obligation not accepted: {l}")
            print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
            viol.append("proof:" + ";".join(labels[:5]))
    for r in outside:
        print(f"# outside the verifier's reach on this tree (bounded stand-in only): {r['name']}: {r['status']}: {r['detail']}")
    if drv and drv.get("broken"):
        print("# driver:", drv["broken"][:2000])
    obl = sum(r["obls"] for r in res) + len(lemres)
    dis = sum(r["proved"] for r in res if r["status"] not in ("unsupported", "missing")) + sum(1 for r in lemres if r["status"] == "proved")
    trusted = sorted({a for r in res for a in r["assumed"]})
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd=f"python3-vt check.py {prop}",
        trusted_base=["pyver's translation of Python to verification conditions (/verif/pyver)",
                      "z3 5.3.2, cvc5 1.1.2, z3 4.8.12: whichever accepts an obligation first",
                      "integers are mathematical (exact in Python); floats are treated as reals",
                      "str/bytes/opaque values are uninterpreted with equality"] + trusted,
        functions_under_contract=[dict(function=r["qual"], contract=r["name"], status=r["status"], obligations=r["obls"],
                                       discharged=r["proved"], paths=r["paths"], solver_s=r["solver_s"],
                                       detail=r.get("detail"), inlined=r["inlined"], crosschecked_cvc5=r["crosschecked"]) for r in res],
        lemmas=lemres,
        backends={k: sum(r["backends"].get(k, 0) for r in res) for k in sorted({b for r in res for b in r["backends"]})},
        solver_s=round(sum(r["solver_s"] for r in res), 2),
        not_decided_by_proof=P.get("bounded", []) + [f"{r['name']} ({r['status']}: {r['detail']})" for r in outside],
    )
    if drv is not None:
        cov.update(evaluations=int(drv["evaluations"]), distinct_nontrivial=int(drv["distinct"]),
                   rule="bounded stand-in on the real code, not counted as proved: " + drv.get("rule", ""),
                   samples=drv["samples"][:6], driver_notes=drv.get("notes", []), driver_counts=drv.get("counts", {}))
        if drv.get("broken"):
            cov["driver_broken"] = drv["broken"][:1000]
    ev = dict(property=prop, tier=tier, seed=seed, level="proof" if res else "exploration", coverage=cov,
              assumptions=trusted + P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"# {prop} {tier}: {dis}/{obl} obligations over {len(res)} functions, {len(lemres)} lemmas; "
          f"driver {drv['evaluations'] if drv else 0} cases; {time.time()-t0:.1f} s")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
