"""Generate obligations for one contract and discharge them."""
import ast
import os
import re
import subprocess
import sys
import tempfile
import textwrap
import time
import traceback

import z3

from . import types as ty
from .core import (CDict, Cell, CList, CObj, COpen, Engine, ExcV, Fn, Frame, It, Mut, NoneV, Obj, Obligation, Oracle, PathEnd,
                   RaiseSig, ReturnSig, State, TupV, Unsupported, V, ZC, BreakSig, ContinueSig)
from .spec import Ctx
from .src import FuncInfo
from .types import Dict, List, Opt, Ref, Set, Tup, res, sort

sys.setrecursionlimit(20000)


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.status = None  # proved | refuted | unknown | unsupported | missing
        self.obls, self.failed, self.detail = [], [], ""
        self.solver_s = self.wall_s = 0.0
        self.paths = 0
        self.assumed, self.inlined, self.called = set(), set(), set()
        self.models = {}
        self.backends = {}


def trace_():
    """development aid: where the translator stumbled"""
    if os.environ.get("PYVER_TRACE"):
        import traceback
        traceback.print_exc()


def param_type(self, ctx, p):
    c = self.contract if ctx.__dict__.get("_own") else None
    return None


def make(source, reg, contract, feas_ms=30):
    eng = Engine(source, reg, feas_ms)
    eng.contract = contract
    eng.fname = contract.name
    eng.param_type = lambda ctx, p: None
    eng.cur_contract_returns = lambda ctx: contract.returns if isinstance(contract.returns, ty.T) and getattr(ctx, "own", False) else None
    return eng


def new_value(eng, name, t):
    """initial symbolic value for a declared type (T or builder callable)"""
    if callable(t) and not isinstance(t, ty.T):
        return t(eng, name)
    if t is None:
        return NoneV
    v = eng.freshv(name, t)
    if isinstance(v, Mut):
        eng.rootcells.add(v.loc.id)
    elif isinstance(res(t), Tup):
        v = eng.wrap(t, v.e)
    return v


def setup_run(eng, prefix):
    eng.st = State()
    eng.counter = 0
    eng.facts = []
    eng.solver = z3.Solver()
    eng.solver.set("timeout", eng.feas_ms)
    eng.solver.set("smt.mbqi", False)  # only refutations matter here: unknown counts as feasible
    eng.solver.set("smt.auto_config", False)
    eng.oracle = Oracle(prefix)
    eng.trail = []
    eng.serial = 0
    eng.writes = None
    eng.depth = 0
    eng.loopdepth = 0
    eng.gcache = {}
    eng.divmemo = {}
    eng.heap0 = {}
    eng.rootcells = set()
    eng.objtypes = {}
    eng.newrefs = []
    eng.handling = []
    eng.inputs = {}
    eng.quiet = 0


DEADLINE = None  # when set: obligations still open at that time count as undecided


def verify(source, reg, contract, tmo=10.0, cross=None, want_models=True, max_paths=1500, budget=None, jobs=1):
    """prove one function against its contract"""
    r = Result(contract)
    t0 = time.time()
    if contract.harness:
        mod = source.module(contract.qual.split(":")[0])
        fi = None if mod is None else FuncInfo(ast.parse(textwrap.dedent(contract.harness)).body[0], mod, None, contract.qual)
    else:
        fi = source.func(contract.qual)
    if fi is None:
        r.status, r.detail = "missing", f"{contract.qual} not found in the source"
        return r
    eng = make(source, reg, contract)
    node = fi.node
    for d in fi.decorators:
        if d not in ("property", "staticmethod", "classmethod"):
            eng.assumed.add(f"decorator dropped: @{d} on {fi.qual}")
    if isinstance(node, ast.AsyncFunctionDef):
        eng.assumed.add("await treated as an ordinary call (no interleaving at the suspension point)")
    for what, _ in contract.axioms:
        eng.assumed.add("taken as given: " + what)
    cnt = [0]

    def run(pre):
        eng.paths += 1
        setup_run(eng, pre)
        try:
            # ---- entry state
            env = {}
            gcell = eng.cell(CObj("ghost", {}))
            eng.ghost, eng.gtypes = gcell, dict(contract.ghosts)
            gf = {}
            for g, t in contract.ghosts.items():
                gf[g] = new_value(eng, "g_" + g, t)
            eng.st.cells[gcell.id] = CObj("ghost", gf)
            selfv = None
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if fi.cls is not None and not fi.is_static():
                if fi.is_classmethod():
                    from .core import ClsV

                    selfv = ClsV(fi.cls)
                elif isinstance(contract.self_fields, ty.T):
                    selfv = new_value(eng, "self", contract.self_fields)
                else:
                    cls = fi.cls
                    if contract.selfcls:
                        m, c = contract.selfcls.split(":")
                        cls = source.module(m).classes[c]
                    cid = eng.cell(CObj(cls, {}))
                    selfv = Obj(cid, cls)
                    flds = {}
                    for f, t in (contract.self_fields or {}).items():
                        flds[f] = new_value(eng, "self." + f, t)
                        if isinstance(t, ty.T):
                            eng.objtypes[(cid.id, f)] = t
                    eng.st.cells[cid.id] = CObj(cls, flds)
                env[names[0]] = selfv
                names = names[1:]
            eng.selfv = selfv
            defaults = dict(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1]))
            allnames = names + [x.arg for x in a.kwonlyargs]
            for p in allnames:
                if p in contract.params:
                    env[p] = new_value(eng, p, contract.params[p])
                else:
                    dn = next((d for x, d in defaults.items() if x.arg == p), None)
                    if dn is None:
                        dn = next((d for x, d in zip(a.kwonlyargs, a.kw_defaults) if x.arg == p), None)
                    if dn is None:
                        raise Unsupported(f"parameter {p} has no declared type")
                    env[p] = eng.ev(Frame(eng.new_frame(), None, None, fi.module), dn)
            if a.vararg is not None:
                env[a.vararg.arg] = new_value(eng, a.vararg.arg, contract.params[a.vararg.arg]) if a.vararg.arg in contract.params else TupV([])
            if a.kwarg is not None:
                env[a.kwarg.arg] = new_value(eng, a.kwarg.arg, contract.params[a.kwarg.arg]) if a.kwarg.arg in contract.params else Mut(eng.cell(CDict()))
            eng.env0 = dict(env)
            eng.st0 = None
            ctx = Ctx(eng, env, eng.st, selfv=selfv)
            ctx.own = True
            eng.own_ctx = ctx
            for nm, g in contract.requires(ctx).items():
                eng.assume(g if not isinstance(g, bool) else z3.BoolVal(g))
            eng.inputs = {"env": env, "self": selfv, "st": eng.st.copy()}
            eng.st0 = eng.st.copy()
            ctx.old._st = eng.st0
            if eng.paths == 1:
                # vacuity guard: the precondition must be satisfiable
                eng.solver.push()
                for ax in eng.axioms():
                    eng.solver.add(ax)
                eng.solver.set("timeout", 5000)
                vac = eng.solver.check()
                eng.solver.set("timeout", eng.feas_ms)
                eng.solver.pop()
                r.pre_sat = str(vac)
                if vac == z3.unsat:
                    raise Vacuous()
            fr = Frame(eng.new_frame(env), None, fi, fi.module)
            try:
                eng.block(fr, node.body)
                result = NoneV
            except ReturnSig as s:
                result = s.v
            cnt[0] += 1
            ctx.result = result
            if isinstance(contract.returns, ty.T) and not isinstance(res(contract.returns), (List, Set, Dict, Tup)):
                if not isinstance(result, V) or res(result.t) != res(contract.returns):
                    ctx.result = V(contract.returns, eng.z(result, contract.returns))
            if contract.value is not None:
                eng.emit("post:result", ctx.res == contract.value(ctx))
            for nm, g in contract.ensures(ctx).items():
                eng.emit("post:" + nm, g)
            frame_check(eng, contract, selfv)
        except RaiseSig as s:
            allowed = None
            for en, cond in contract.raises.items():
                if source.exc_is(s.exc.name, en, fi.module) or s.exc.name == en:
                    allowed = cond
                    break
            else:
                en = None
            if en is None:
                eng.emit(f"no-raise:{s.exc.name}", z3.BoolVal(False),
                         type("N", (), {"lineno": s.exc.attrs.get("line")}))
            elif callable(allowed):
                ctx.exc = s.exc
                g = allowed(ctx)
                for nm, x in (g.items() if isinstance(g, dict) else [("when", g)]):
                    eng.emit(f"raise:{en}:{nm}", x)
        except PathEnd:
            pass
        except (BreakSig, ContinueSig):
            pass
        return eng.oracle.alts

    def one_more(pre):
        if eng.paths > max_paths:
            raise Unsupported("too many paths")
        if budget and time.time() - t0 > budget:
            raise Unsupported("path exploration budget exceeded")
        return run(pre)

    def explore(work, stop=None):
        while work and not (stop and len(work) >= stop):
            work.extend(one_more(work.pop(0 if stop else -1)))
        return work

    remote = []
    try:
        left = explore([[]], stop=8 if jobs > 1 else None)
        if left:
            remote = explore_forked(eng, r, cnt, left, one_more, contract, reg, tmo, want_models, jobs, budget)
    except Vacuous:
        r.status, r.detail = "unknown", "precondition is unsatisfiable (vacuous contract)"
        return r
    except Unsupported as u:
        r.status, r.detail = "unsupported", str(u)
    except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, ValueError, AssertionError, RecursionError, NotImplementedError) as u:
        r.status = "unsupported"
        r.detail = f"translator: {type(u).__name__}: {u}"
        trace_()
        r.trace = traceback.format_exc()
    r.paths = eng.paths
    r.assumed, r.inlined, r.called = eng.assumed, eng.inlined, eng.called
    r.obls = eng.obls
    returns = r.returns = cnt[0]
    r.eng = eng
    if r.status == "unsupported":
        r.wall_s = time.time() - t0
        return r
    if not eng.obls and not remote:
        r.status, r.detail = "unknown", "no obligations generated"
        return r
    if returns == 0 and not contract.expect_raise:
        r.status, r.detail = "unknown", "no path returns normally"
    axioms = eng.axioms() + proof_axioms(reg, contract)
    r.axioms = axioms
    for o, (st, model, secs, be, inputs) in zip(eng.obls, discharge_all(eng, axioms, max(contract.timeout or 0, tmo), want_models, jobs)):
        r.solver_s += secs
        r.backends[be] = r.backends.get(be, 0) + 1
        o.status = st
        if st != "proved":
            o.model, o.model_in = model, inputs
            r.failed.append(o)
    r.obls = list(eng.obls)
    for o, be, secs in remote:
        r.obls.append(o)
        r.solver_s += secs
        r.backends[be] = r.backends.get(be, 0) + 1
        if o.status != "proved":
            r.failed.append(o)
    if r.status is None:
        if not r.failed:
            r.status = "proved"
        elif any(o.status == "refuted" for o in r.failed):
            r.status = "refuted"
        elif any(o.status == "unknown" for o in r.failed):
            r.status = "unknown"
        else:
            r.status, r.detail = "unsupported", "not every obligation was attempted in the time given"
    r.wall_s = time.time() - t0
    return r


class Vacuous(Exception):
    pass


def explore_forked(eng, r, cnt, left, run, contract, reg, tmo, want_models, jobs, budget):
    """the paths below each prefix in `left` are explored, and their obligations discharged, by forked workers"""
    import multiprocessing as mp
    import pickle
    import signal

    cx = mp.get_context("fork")
    q, pending = cx.SimpleQueue(), cx.Value("i", len(left))
    n = jobs
    for pre in left:
        q.put(pre)
    kids = []
    base = len(eng.obls)
    for k in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                if budget:
                    signal.alarm(int(budget) + 30)  # ends a worker stuck in the solver
                out = dict(err=None, obls=[])
                cnt[0], eng.paths = 0, 0
                try:
                    try:
                        while True:
                            pre = q.get()
                            if pre is None:
                                break
                            alts = run(pre)
                            for x in alts:
                                q.put(x)
                            with pending.get_lock():
                                pending.value += len(alts) - 1
                                last = pending.value == 0
                            if last:
                                break
                    finally:
                        q.put(None)  # one token, passed on: everybody stops
                        signal.alarm(0)
                    mine = eng.obls[base:]
                    ax = eng.axioms() + proof_axioms(reg, contract)
                    def one(o):
                        st, model, secs, be = discharge(o, ax, max(contract.timeout or 0, tmo), want_models)
                        o.model = model
                        return (o.func, o.name, o.where, st, str(model)[:6000] if model is not None else None,
                                model_inputs(eng, o) if model is not None else None, be, secs)

                    done = guarded(mine, one, 1, 3 * (max(contract.timeout or 0, tmo)) + 5)
                    for i, o in enumerate(mine):
                        d = done.get(i)
                        out["obls"].append(d if d is not None and len(d) == 8 else (o.func, o.name, o.where, "unknown" if d is not None else "open", None, None, "no answer", 0.0))
                except Unsupported as u:
                    out["err"] = str(u)
                except Exception as u:
                    out["err"] = f"translator: {type(u).__name__}: {u}"
                    trace_()
                out.update(paths=eng.paths, returns=cnt[0], assumed=eng.assumed, inlined=eng.inlined, called=eng.called)
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    res_, err = [], None
    for pid, rd in kids:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            err = err or "a verification worker died"
            continue
        out = pickle.loads(data)
        err = err or out["err"]
        cnt[0] += out["returns"]
        eng.paths += out["paths"]
        eng.assumed |= out["assumed"]
        eng.inlined |= out["inlined"]
        eng.called |= out["called"]
        for fn, name, line, st, model, inputs, be, secs in out["obls"]:
            o = Obligation(fn, name, None, None, line, None)
            o.status, o.model, o.model_in = st, model, inputs
            res_.append((o, be, secs))
    if err:
        raise Unsupported(err)
    return res_


def discharge_all(eng, axioms, tmo, want_models, jobs):
    obls = eng.obls

    def one(o):
        st, model, secs, be = discharge(o, axioms, tmo, want_models)
        o.model = model
        return st, (str(model)[:6000] if model is not None else None), secs, be, (model_inputs(eng, o) if model is not None else None)

    got = guarded(obls, one, jobs if len(obls) >= 40 else 1, 3 * tmo + 5)
    return [got.get(i, ("open", None, 0.0, "out of time", None)) for i in range(len(obls))]


def guarded(items, one, jobs, limit):
    """{index: one(item)}, computed in forked workers; a worker which does not answer for one item within `limit`
    seconds is ended (z3 does not always keep to its own time limit) and that item counts as undecided"""
    import pickle
    import select
    import signal
    import struct

    got = {}

    def spawn(idx):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                for i in idx:
                    data = pickle.dumps((i, one(items[i])))
                    data = struct.pack("<I", len(data)) + data
                    while data:
                        data = data[os.write(wr, data):]
            except BaseException:
                if os.environ.get("PYVER_DEBUG"):
                    traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        return dict(pid=pid, rd=rd, idx=list(idx), since=time.time(), buf=b"")

    kids = [spawn(range(len(items))[k::jobs]) for k in range(jobs) if len(range(len(items))[k::jobs])]

    def end(k, hard):
        if hard:
            os.kill(k["pid"], signal.SIGKILL)
        os.waitpid(k["pid"], 0)
        os.close(k["rd"])
        kids.remove(k)
        if k["idx"]:  # it stopped at this one
            got[k["idx"].pop(0)] = ("unknown", None, time.time() - k["since"], "no answer", None)
            if k["idx"]:
                kids.append(spawn(k["idx"]))

    try:
        while kids and not (DEADLINE and time.time() > DEADLINE):
            ready = select.select([k["rd"] for k in kids], [], [], 0.5)[0]
            for k in list(kids):
                if k["rd"] in ready:
                    data = os.read(k["rd"], 1 << 16)
                    if not data:
                        end(k, False)
                        continue
                    k["buf"] += data
                    while len(k["buf"]) >= 4:
                        n = struct.unpack("<I", k["buf"][:4])[0]
                        if len(k["buf"]) < 4 + n:
                            break
                        i, r = pickle.loads(k["buf"][4:4 + n])
                        k["buf"] = k["buf"][4 + n:]
                        got[i] = r
                        k["idx"].remove(i)
                        k["since"] = time.time()
                elif time.time() - k["since"] > limit:
                    end(k, True)
    finally:
        for k in kids:
            os.kill(k["pid"], signal.SIGKILL)
            os.waitpid(k["pid"], 0)
    return got


def frame_check(eng, contract, selfv):
    if contract.skip_frame:
        return
    mods = set(contract.modifies)
    if isinstance(selfv, Obj):
        c0 = eng.st0.cells[selfv.cid.id]
        c1 = eng.st.cells[selfv.cid.id]
        for f, v0 in c0.fields.items():
            if f in mods:
                continue
            v1 = c1.fields[f]
            g = same_value(eng, v0, v1, eng.objtypes.get((selfv.cid.id, f)))
            if g is not None:
                eng.emit(f"frame:self.{f}", g)
    for key, a1 in eng.st.heap.items():
        a0 = eng.heap0.get(key)
        if a0 is not None and key not in mods and not a1.eq(a0):
            # objects created by this call are outside the frame
            x = z3.Const("x!fr", ty.RefSort)
            new = z3.Or(*[x == n for n in eng.newrefs]) if eng.newrefs else z3.BoolVal(False)
            eng.emit(f"frame:{key[0]}.{key[1]}", z3.ForAll([x], z3.Or(new, ty.sel(a1, x) == ty.sel(a0, x))))
    for p, v in eng.env0.items():
        if isinstance(v, Mut) and "arg:" + p not in mods:
            g = same_value(eng, v, v, contract.params.get(p) if isinstance(contract.params.get(p), ty.T) else None)
            if g is not None:
                eng.emit(f"frame:arg {p}", g)
    g0 = eng.st0.cells[eng.ghost.id].fields
    g1 = eng.st.cells[eng.ghost.id].fields
    for f in g0:
        if "ghost:" + f not in mods:
            g = same_value(eng, g0[f], g1[f], eng.gtypes.get(f))
            if g is not None:
                eng.emit(f"frame:ghost.{f}", g)


def same_value(eng, v0, v1, t):
    """z3 formula: v1 now equals v0 at entry (None if trivially so)"""
    def zof(v, st):
        keep, eng.st = eng.st, st
        try:
            return eng.z(v, t) if t is not None else eng.z(v)
        finally:
            eng.st = keep

    if isinstance(v0, Mut):
        c0 = None
        keep, eng.st = eng.st, eng.st0
        c0 = eng.content(v0.loc)
        eng.st = keep
        if not isinstance(v1, Mut):
            return z3.BoolVal(False)
        c1 = eng.content(v1.loc)
        if c0 is c1:
            return None
        if not isinstance(c0, ZC):
            if isinstance(c0, CDict) and isinstance(c1, CDict) and list(c0.d) == list(c1.d):
                gs = []
                for k in c0.d:
                    g = same_value(eng, c0.d[k][1], c1.d[k][1], None)
                    if g is not None:
                        gs.append(g)
                return z3.And(*gs) if gs else None
            if isinstance(c0, CList) and isinstance(c1, CList) and len(c0.items) == len(c1.items):
                gs = [same_value(eng, x, y, None) for x, y in zip(c0.items, c1.items)]
                gs = [g for g in gs if g is not None]
                return z3.And(*gs) if gs else None
            if isinstance(c0, COpen) and isinstance(c1, COpen):
                return None
            return z3.BoolVal(False)
        if isinstance(c1, ZC) and c0.e.eq(c1.e):
            return None
        e0, e1 = c0.e, eng.to_zc(c1, c0.t).e
        return ext_eq(c0.t, e0, e1)
    if v0 is v1:
        return None
    if isinstance(v0, V) and isinstance(v1, V):
        if v0.e.eq(v1.e):
            return None
        if res(v0.t) != res(v1.t):
            return z3.BoolVal(False)
        return v0.e == v1.e
    if v0 is NoneV and isinstance(v1, V):
        return eng.eq(v0, v1)
    if isinstance(v0, V) and v1 is NoneV:
        return eng.eq(v0, v1)
    if isinstance(v0, (Obj,)) and isinstance(v1, Obj) and v0.cid == v1.cid:
        return None
    if isinstance(v0, TupV) and isinstance(v1, TupV) and len(v0.vs) == len(v1.vs):
        gs = [same_value(eng, a, b, None) for a, b in zip(v0.vs, v1.vs)]
        gs = [g for g in gs if g is not None]
        return z3.And(*gs) if gs else None
    if type(v0) is type(v1) and getattr(v0, "dotted", 0) == getattr(v1, "dotted", 1):
        return None
    return z3.BoolVal(False)


def ext_eq(t, a, b):
    t = res(t)
    if isinstance(t, Set):
        x = z3.Const("x!xe", sort(t.e))
        return z3.ForAll([x], ty.sel(a, x) == ty.sel(b, x))
    if isinstance(t, List):
        i = z3.Int("i!xe")
        return z3.And(ty.llen(t, a) == ty.llen(t, b),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.llen(t, a)), ty.lat(t, a, i) == ty.lat(t, b, i))))
    if isinstance(t, Dict):
        x = z3.Const("x!xe", sort(t.k))
        return z3.ForAll([x], z3.And(ty.sel(ty.ddom(t, a), x) == ty.sel(ty.ddom(t, b), x),
                                     z3.Implies(ty.sel(ty.ddom(t, a), x), ty.sel(ty.dval(t, a), x) == ty.sel(ty.dval(t, b), x))))
    return a == b


def proof_axioms(reg, contract):
    """definitions revealed to, and lemmas used by, this proof (each lemma is proved on its own)"""
    out = [o.axiom() for o in contract.reveal] + [ax() for _, ax in contract.axioms]
    for n in contract.uses:
        l = reg.lemmas[n]
        out.append(l["goal"]())
    return out


def conjuncts(fs):
    out, stack = [], list(fs)
    while stack:
        f = stack.pop()
        if z3.is_and(f):
            stack.extend(f.children())
        else:
            out.append(f)
    return out


def bounded_check(s):
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown


def discharge(o, axioms, tmo, want_model=True):
    """-> (proved|refuted|unknown, model, seconds, backend)"""
    t0 = time.time()
    goal = z3.simplify(o.goal)
    if z3.is_true(goal):
        return "proved", None, 0.0, "simplifier"
    ids = {h.get_id() for h in conjuncts(o.hyps)}
    if all(c.get_id() in ids for c in conjuncts([o.goal])):
        return "proved", None, 0.0, "syntactic"
    last = None
    if nonlinear([o.goal] + o.hyps):
        # products and symbolic division as uninterpreted functions: a sound weakening
        ab = Abstractor()
        s = z3.Solver()
        s.set("timeout", int(tmo * 1000 * 0.5))
        fs = [ab.go(z3.simplify(h, som=True)) for h in list(o.hyps) + list(axioms) + [z3.Not(o.goal)]]
        s.add(*fs, *ab.facts)
        if bounded_check(s) == z3.unsat:
            return "proved", None, time.time() - t0, "z3-5.3 (nonlinear terms abstracted)"
    # quick attempt, then alternative settings
    for i, (opts, frac) in enumerate([({}, 0.15), ({"smt.mbqi": False, "auto_config": False}, 0.3), ({"smt.random_seed": 7, "smt.arith.solver": 2}, 0.5)]):
        s = z3.Solver()
        s.set("timeout", int(tmo * 1000 * frac))
        for k, v in opts.items():
            s.set(k, v)
        for h in o.hyps:
            s.add(h)
        for a in axioms:
            s.add(a)
        s.add(z3.Not(o.goal))
        res_ = bounded_check(s)
        if res_ == z3.unsat:
            return "proved", None, time.time() - t0, "z3-5.3"
        if res_ == z3.sat and i != 1:
            m = s.model() if want_model else None
            return "refuted", m, time.time() - t0, "z3-5.3"
        last = res_
        if i == 0:  # the other solvers, on the SMT-LIB text
            for name, cmd in (("cvc5-1.1", ["cvc5", f"--tlimit={int(tmo * 300)}"]), ("z3-4.8", None)):
                st = smt2_second(o, axioms, tmo * 0.5, cmd)
                if st == "unsat":
                    return "proved", None, time.time() - t0, name
                if st == "sat":
                    return "refuted", None, time.time() - t0, name
    return "unknown", None, time.time() - t0, "none"


def is_nl(e):
    if not z3.is_app(e):
        return False
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL:
        return sum(1 for c in e.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))) >= 2
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV):
        return not (z3.is_int_value(e.arg(1)) or z3.is_rational_value(e.arg(1)))
    return False


def nonlinear(fs):
    seen, stack = set(), list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if is_nl(e):
            return True
        stack.extend([e.body()] if z3.is_quantifier(e) else e.children())
    return False


class Abstractor:
    def __init__(self):
        self.memo, self.facts = {}, []
        I = z3.IntSort()
        self.mul = z3.Function("nl_mul", I, I, I)
        self.div = z3.Function("nl_div", I, I, I)
        self.mod = z3.Function("nl_mod", I, I, I)

    def go(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._go(e)
        self.memo[k] = (e, r)
        return r

    def _go(self, e):
        if z3.is_quantifier(e):
            vs = [z3.Const(f"{e.var_name(i)}!ab{e.get_id()}", e.var_sort(i)) for i in range(e.num_vars())]
            body = self.go(z3.substitute_vars(e.body(), *reversed(vs)))
            if e.is_lambda():
                return z3.Lambda(vs, body)
            return z3.ForAll(vs, body) if e.is_forall() else z3.Exists(vs, body)
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        ch = [self.go(c) for c in e.children()]
        if is_nl(e) and e.sort() == z3.IntSort():
            kd = e.decl().kind()
            if kd == z3.Z3_OP_MUL:
                num = [c for c in ch if z3.is_int_value(c)]
                fac = sorted([c for c in ch if not z3.is_int_value(c)], key=lambda c: c.get_id())
                r = fac[0]
                for c in fac[1:]:
                    if not ("!ab" in str(r) or "!ab" in str(c)):
                        pr = self.mul(r, c)
                        self.facts.append(z3.Implies(z3.And(r >= 0, c >= 0), pr >= 0))
                        self.facts.append(z3.Implies(z3.And(r >= 1, c >= 1), z3.And(pr >= r, pr >= c)))
                        self.facts.append(z3.Implies(z3.Or(r == 0, c == 0), pr == 0))
                    r = self.mul(r, c)
                for c in num:
                    r = c * r
                return r
            a, b = ch
            d, m = self.div(a, b), self.mod(a, b)
            if not any("!ab" in str(x) for x in (a, b)):
                x, y = sorted([b, d], key=lambda c: c.get_id())
                self.facts.append(z3.Implies(b > 0, z3.And(a == self.mul(x, y) + m, m >= 0, m < b)))
                self.facts.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(d >= 0, d <= a)))
            return d if kd == z3.Z3_OP_IDIV else m
        return e.decl()(*ch)


def to_smt2(o, axioms):
    s = z3.Solver()
    for h in o.hyps:
        s.add(h)
    for a in axioms:
        s.add(a)
    s.add(z3.Not(o.goal))
    # sort and datatype declarations must come before their uses (the printer interleaves them)
    txt = s.to_smt2().replace("'", "_q_")  # a quote is not part of a plain symbol
    ds = re.findall(r"^\(declare-sort [^\n]*\)$", txt, re.M)
    txt = re.sub(r"^\(declare-sort [^\n]*\)\n", "", txt, flags=re.M)
    return "(set-logic ALL)\n" + "\n".join(ds) + "\n" + order_datatypes(txt)


def order_datatypes(txt):
    blocks, rest, i = [], [], 0
    while True:
        j = txt.find("(declare-datatypes", i)
        if j < 0:
            rest.append(txt[i:])
            break
        rest.append(txt[i:j])
        d, k, q = 0, j, False
        while True:
            ch = txt[k]
            if ch == "|":
                q = not q
            elif not q and ch == "(":
                d += 1
            elif not q and ch == ")":
                d -= 1
                if d == 0:
                    break
            k += 1
        blocks.append(txt[j:k + 1])
        i = k + 1
    names = [re.match(r"\(declare-datatypes \(\((\S+) 0\)\)", b).group(1) for b in blocks]
    out, done = [], set()
    while blocks:
        for b, n in list(zip(blocks, names)):
            if not any(m in re.split(r"[\s()]+", b) for m in names if m != n and m not in done):
                out.append(b)
                done.add(n)
                blocks.remove(b)
                names.remove(n)
                break
        else:
            out += blocks
            break
    return "\n".join(out) + "\n" + "".join(rest)


def smt2_second(o, axioms, tmo, cmd=None):
    try:
        txt = to_smt2(o, axioms)
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            c = cmd or ["z3", f"-T:{max(1, int(tmo))}"]
            out = subprocess.run(c + [f.name], capture_output=True, text=True, timeout=tmo + 5).stdout
        finally:
            os.unlink(f.name)
        first = out.strip().splitlines()[0].strip() if out.strip() else ""
        return first if first in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"


def prove_lemma(l, tmo=20.0):
    hyps = []
    for h in l["hyps"]:
        h = h() if callable(h) else h
        hyps.append(h)
    o = Obligation("lemma", l["name"], hyps, l["goal"](), None, None)
    return discharge(o, [], tmo)[0]


def model_inputs(eng, o):
    """parameter values of the counterexample, where they are simple enough to print"""
    out = {}
    m = o.model
    inp = o.inputs or {}

    def val(t, e, depth=0):
        t = res(t)
        try:
            if t in (ty.Int, ty.Bool, ty.Real):
                return str(m.eval(e, model_completion=True))
            if isinstance(t, List):
                n = m.eval(ty.llen(t, e), model_completion=True).as_long()
                return [val(t.e, ty.lat(t, e, z3.IntVal(i)), depth + 1) for i in range(min(n, 12))] + (["..."] if n > 12 else [])
            if isinstance(t, ty.Opt):
                if z3.is_true(m.eval(ty.ois_none(t, e), model_completion=True)):
                    return None
                return val(t.t, ty.oval(t, e), depth + 1)
            return str(m.eval(e, model_completion=True))[:200]
        except Exception:
            return "?"

    try:
        keep, eng.st = eng.st, inp["st"]
        for p, v in inp.get("env", {}).items():
            if isinstance(v, V):
                out[p] = val(v.t, v.e)
            elif isinstance(v, Mut):
                c = eng.content(v.loc)
                if isinstance(c, ZC):
                    out[p] = val(c.t, c.e)
        eng.st = keep
    except Exception:
        pass
    return out
