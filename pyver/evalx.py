"""Statements and expressions of the supported Python subset."""
import ast

import z3

from . import types as ty
from .types import (Any, Bool, Bytes, Dict, Int, List, Opt, Real, Ref, Set, Str, Tup, TVar,
                    res, sort)


def loops_of(fnode):
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While, ast.AsyncFor)):
                out.append(c)
            go(c)

    go(fnode)
    return out


def plain(e):
    return z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_SELECT) and all(plain(x) for x in e.children())


def trig(e):
    """e as an extra trigger, when it is a plain array read"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and z3.is_app(e.arg(0)) and plain(e.arg(0)):
        return [e]
    return []


def install(E):
    from .core import (And, Bi, BreakSig, BUILTINS, Cell, CDict, CList, ClsV, CObj, COpen, ContinueSig, ELoc,
                       EXC_BUILTINS, ExcV, Ext, Fn, Frame, HLoc, It, Meth, ModV, Mut, NoneV, Obj, PathEnd,
                       RaiseSig, ReturnSig, SliceV, SuperV, TupV, Unsupported, V, Val, ZC, lit, simp, uf)

    def method(f):
        setattr(E, f.__name__, f)
        return f

    # ---------------------------------------------------------------- names
    @method
    def lookup(self, fr, name, node=None):
        f = fr
        while f is not None:
            env = self.st.frames[f.fid]
            if name in env:
                v = env[name]
                if v is None:
                    raise Unsupported(f"possibly unbound local {name}", node)
                return v
            f = f.parent
        return self.global_(fr.globs, name, node)

    @method
    def global_(self, module, name, node=None):
        ov = self.reg.globals.get((module.name if module else None, name))
        if ov is None and self.contract is not None:
            ov = self.contract.globals.get(name)
        if ov is not None:
            return ov(self) if callable(ov) else ov
        key = ("glob", module.name if module else None, name)
        r = self.source.resolve(module, name) if module is not None else None
        if r is None:
            if name in EXC_BUILTINS:
                return ClsV(name)
            if name in BUILTINS or name in ("NotImplemented", "Ellipsis"):
                return Bi(name)
            if self.find_ext(name) is not None:
                return Ext(name)
            raise Unsupported(f"unknown name {name}", node)
        return self.resolved(r, name, node)

    @method
    def resolved(self, r, name, node=None):
        if r[0] == "func":
            return Fn(r[1])
        if r[0] == "class":
            return ClsV(r[1])
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "ext":
            if r[1] in EXC_BUILTINS:
                return ClsV(r[1])
            return Ext(r[1])
        if r[0] == "const":
            mod = r[2]
            nm = (mod.name, name)
            if nm in self.gcache:
                return self.gcache[nm]
            fr = Frame(self.new_frame(), None, None, mod)
            if not isinstance(r[1], (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.Set, ast.Name, ast.UnaryOp,
                                     ast.BinOp, ast.Attribute, ast.Call)):
                raise Unsupported(f"module constant {name}", node)
            v = self.ev(fr, r[1])
            self.gcache[nm] = v
            return v
        raise Unsupported(f"name {name}", node)

    @method
    def new_frame(self, env=None):
        self.counter += 1
        self.st.frames[self.counter] = dict(env or {})
        return self.counter

    @method
    def setvar(self, fr, name, v):
        f = fr
        if name in getattr(fr, "nonlocals", ()):
            f = fr.parent
            while name not in self.st.frames[f.fid]:
                f = f.parent
        self.st.frames[f.fid][name] = v
        self.note(("var", f.fid, name))

    # ---------------------------------------------------------------- statements
    @method
    def block(self, fr, body):
        for s in body:
            self.stmt(fr, s)

    @method
    def stmt(self, fr, s):
        k = type(s).__name__
        h = getattr(self, "s_" + k, None)
        if h is None:
            raise Unsupported(f"statement {k}", s)
        h(fr, s)

    @method
    def s_Pass(self, fr, s):
        pass

    @method
    def s_Import(self, fr, s):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            r = self.source.dotted(a.name if a.asname else a.name.split(".")[0])
            self.setvar(fr, nm, self.resolved(r, nm, s))

    @method
    def s_ImportFrom(self, fr, s):
        base = s.module or ""
        if s.level:
            pkg = fr.globs.name.split(".")
            pkg = pkg[: len(pkg) - s.level]
            base = ".".join(pkg + ([base] if base else []))
        for a in s.names:
            r = self.source.dotted(f"{base}.{a.name}")
            self.setvar(fr, a.asname or a.name, self.resolved(r, a.name, s))

    @method
    def s_Global(self, fr, s):
        raise Unsupported("global statement", s)

    @method
    def s_Nonlocal(self, fr, s):
        fr.nonlocals = getattr(fr, "nonlocals", set()) | set(s.names)

    @method
    def s_Expr(self, fr, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(fr, s.value)

    @method
    def s_Return(self, fr, s):
        raise ReturnSig(self.ev(fr, s.value) if s.value is not None else NoneV)

    @method
    def s_Break(self, fr, s):
        raise BreakSig()

    @method
    def s_Continue(self, fr, s):
        raise ContinueSig()

    @method
    def s_If(self, fr, s):
        if self.cond(fr, s.test):
            self.block(fr, s.body)
        else:
            self.block(fr, s.orelse)

    @method
    def cond(self, fr, e):
        """decide the truth of an expression: as one formula where its evaluation is pure, else splitting and/or/not"""
        if isinstance(e, ast.BoolOp):
            p = self.pure_cond(fr, e)
            if p is not None:
                return self.decide(p)
            if isinstance(e.op, ast.And):
                return all(self.cond(fr, x) for x in e.values)
            return any(self.cond(fr, x) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(fr, e.operand)
        return self.test(self.ev(fr, e), e)

    @method
    def pure_cond(self, fr, e):
        def single(outs, nfacts):
            if len(outs) != 1:
                return None
            facts, st, (k, v) = outs[0]
            if k != "ok" or v is None or len(facts) > nfacts:
                return None
            st0 = self.st
            if any(st.cells.get(i) is not c for i, c in st0.cells.items()) or any(st.frames.get(i) != f for i, f in st0.frames.items()) \
                    or any(k_ not in st.heap or not st.heap[k_].eq(h) for k_, h in st0.heap.items()) or st.fwd != st0.fwd:
                return None
            return v

        def pt(x):
            if isinstance(x, ast.BoolOp):
                isand = isinstance(x.op, ast.And)
                parts = []
                for y in x.values:
                    if not parts:
                        p = pt(y)
                    else:
                        guard = And(*parts) if isand else z3.Not(z3.Or(*parts))

                        def run():
                            if not self.feasible(guard):
                                raise PathEnd()
                            self.assume(guard)
                            return pt(y)

                        outs = self.explore(run, quiet=False)
                        if not outs:
                            break  # never evaluated
                        p = single(outs, 1)
                    if p is None:
                        return None
                    parts.append(p)
                return And(*parts) if isand else z3.Or(*parts)
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                p = pt(x.operand)
                return None if p is None else z3.Not(p)
            return self.truth(self.ev(fr, x), x)

        if self.quiet and self.depth > 6:
            return None
        c0 = self.counter
        nw = None if self.writes is None else set(self.writes)
        try:
            p = single(self.explore(lambda: pt(e), quiet=True), 0)
        except Unsupported:
            p = None
        if p is None:
            self.counter = c0
            if nw is not None:
                self.writes = nw
            return None
        self.counter = c0
        return single(self.explore(lambda: pt(e), quiet=False), 0)

    @method
    def s_Assert(self, fr, s):
        if not self.cond(fr, s.test):
            self.throw("AssertionError", s)

    @method
    def s_Raise(self, fr, s):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                raise RaiseSig(cur[-1])
            raise Unsupported("bare raise", s)
        v = self.ev(fr, s.exc)
        if isinstance(v, ClsV):
            v = ExcV(self.clsname(v))
        if isinstance(v, Obj) and not isinstance(v.cls, str):
            v = ExcV(v.cls.name, (), {"obj": v})
        if isinstance(v, V) and v.t == Any and self.find_ext("any.raise") is not None:
            v = self.find_ext("any.raise")(self, [v], {})
        if not isinstance(v, ExcV):
            raise Unsupported(f"raise of {v!r}", s)
        v.attrs.setdefault("line", s.lineno)
        raise RaiseSig(v)

    @method
    def exc_matches(self, fr, exc, h):
        if h is None:
            return True
        if isinstance(h, ast.Tuple):
            return any(self.exc_matches(fr, exc, x) for x in h.elts)
        nm = ast.unparse(h).split(".")[-1]
        if exc.name == "?":  # an arbitrary Exception from an external call
            if nm in ("Exception", "BaseException"):
                return True
            return self.choose([None, None]) == 0
        return self.source.exc_is(exc.name, nm, fr.globs)

    @method
    def s_Try(self, fr, s):
        try:
            try:
                self.block(fr, s.body)
            except RaiseSig as r:
                for h in s.handlers:
                    if self.exc_matches(fr, r.exc, h.type):
                        if h.name:
                            self.setvar(fr, h.name, r.exc)
                        self.handling = getattr(self, "handling", []) + [r.exc]
                        try:
                            self.block(fr, h.body)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.block(fr, s.orelse)
        except (RaiseSig, ReturnSig, BreakSig, ContinueSig):
            self.block(fr, s.finalbody)
            raise
        else:
            self.block(fr, s.finalbody)

    @method
    def s_With(self, fr, s):
        exits = []
        for it in s.items:
            cm = self.ev(fr, it.context_expr)
            h = None
            if isinstance(cm, Ext):
                h = self.find_ext(cm.dotted + ".__enter__")
            elif isinstance(cm, Obj):
                m = self.source.method(cm.cls, "__enter__") if not isinstance(cm.cls, str) else None
                if m is None:
                    raise Unsupported("with on object", s)
            else:
                raise Unsupported(f"with {cm!r}", s)
            v = h(self, [], {}) if callable(h) else NoneV
            if it.optional_vars is not None:
                self.assign(fr, it.optional_vars, v)
            exits.append(cm)
        self.block(fr, s.body)

    s_AsyncWith = s_With

    @method
    def s_FunctionDef(self, fr, s):
        from .src import FuncInfo

        fi = FuncInfo(s, fr.globs, None, f"{fr.fi.qual if fr.fi else ''}.<locals>.{s.name}")
        f = Fn(fi, fr)
        self.setvar(fr, s.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    @method
    def s_Delete(self, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fr.fid].pop(t.id, None)
                self.note(("var", fr.fid, t.id))
            elif isinstance(t, ast.Subscript):
                o = self.ev(fr, t.value)
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported("del slice", s)
                k = self.ev(fr, t.slice)
                self.delitem(o, k, s)
            else:
                raise Unsupported("del", s)

    @method
    def s_Assign(self, fr, s):
        v = self.ev(fr, s.value)
        for t in s.targets:
            self.assign(fr, t, v)

    @method
    def s_AnnAssign(self, fr, s):
        if s.value is not None:
            self.assign(fr, s.target, self.ev(fr, s.value))

    @method
    def s_AugAssign(self, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id, s)
            getter, setter = (lambda: cur), (lambda v: self.setvar(fr, t.id, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value)
            cur = self.getattr_(o, t.attr, s)
            setter = lambda v: self.setattr_(o, t.attr, v, s)
        else:
            o = self.ev(fr, t.value)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("augmented slice", s)
            k = self.ev(fr, t.slice)
            cur = self.getitem(o, k, s)
            setter = lambda v: self.setitem(o, k, v, s)
        rhs = self.ev(fr, s.value)
        if isinstance(cur, Mut) and not (isinstance(self.content(cur.loc), CList)
                                         and self.content(cur.loc).kind == "tuple"):
            op = type(s.op).__name__
            if op == "Add":
                self.callmeth(cur, "extend", [rhs], {}, s)
            elif op == "BitOr":
                self.callmeth(cur, "update", [rhs], {}, s)
            elif op == "Sub":
                self.callmeth(cur, "difference_update", [rhs], {}, s)
            elif op == "BitAnd":
                self.callmeth(cur, "intersection_update", [rhs], {}, s)
            else:
                raise Unsupported("augmented assignment", s)
            return
        setter(self.binop(type(s.op).__name__, cur, rhs, s))

    @method
    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            lt = self.contract.locals.get(t.id) if self.contract is not None else None
            if lt is not None and isinstance(v, Mut) and isinstance(v.loc, Cell) and isinstance(self.st.cells.get(v.loc.id), (COpen, CList)):
                self.symbolic(v, lt)
            self.setvar(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(fr, t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            if isinstance(t.slice, ast.Slice):
                self.setslice(fr, o, t.slice, v, t)
            else:
                self.setitem(o, self.ev(fr, t.slice), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                items = self.unpack(v, None, t)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw("ValueError", t)
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(fr, x, y)
                mid = items[i: len(items) - after]
                self.assign(fr, t.elts[i].value, Mut(self.cell(CList(mid))))
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(fr, x, y)
                return
            items = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, items):
                self.assign(fr, x, y)
        else:
            raise Unsupported("assignment target", t)

    @method
    def unpack(self, v, n, node):
        it = self.iterate(v, node)
        if it.kind == "conc":
            if n is not None and len(it.items) != n:
                self.throw("ValueError", node)
            return list(it.items)
        if it.kind == "seq":
            if n is None:
                raise Unsupported("starred unpacking of symbolic sequence", node)
            self.need(it.n == n, "ValueError", node)
            return [it.at(z3.IntVal(i)) for i in range(n)]
        raise Unsupported("unpacking a set", node)

    # ---------------------------------------------------------------- loops
    @method
    def loop_spec(self, fr, node):
        """invariant for this loop: (a) by ordinal in its own function, (b) for helpers without
        specs, any spec of the function under proof whose names resolve"""
        cands = []
        fi = fr.fi
        own = None
        if fi is not None:
            c = self.reg.contracts.get(fi.qual)
            c = self.contract if (c is None or (self.contract and self.contract.qual == fi.qual)) else c
            if c is not None and c.qual == fi.qual:
                ls = loops_of(fi.node)
                if node in ls:
                    own = c.loops.get(ls.index(node))
                    cands = [own] if own else []
                    if own is None and c.loops:
                        cands = []
            else:
                cands = list(self.contract.loops.values()) if self.contract else []
        return cands

    @method
    def s_For(self, fr, s):
        v = self.ev(fr, s.iter)
        it = self.iterate(v, s)
        if it.kind == "seq":
            n = simp(it.n)
            if z3.is_int_value(n) and n.as_long() <= 8:
                it = It("conc", items=[it.at(z3.IntVal(i)) for i in range(n.as_long())])
        if it.kind == "conc":
            for x in list(it.items):
                try:
                    self.assign(fr, s.target, x)
                    self.block(fr, s.body)
                except ContinueSig:
                    pass
                except BreakSig:
                    return
            self.block(fr, s.orelse)
            return
        self.cut_loop(fr, s, it)

    s_AsyncFor = s_For

    @method
    def s_While(self, fr, s):
        # concrete unrolling when the condition is decided syntactically would need a bound;
        # always cut at an invariant
        self.cut_loop(fr, s, None)

    @method
    def cut_loop(self, fr, s, it):
        from .spec import LoopCtx

        specs = self.loop_spec(fr, s)
        done_t = None
        snap = self.snap_iter(it)

        def elem_of(L):
            """choose the element of this iteration and extend L; returns value"""
            if it.kind == "seq":
                return it.at(L.k)
            x = L.elem
            return it.mapf(self.wrap(it.t, x))

        def pre_loop():
            L = LoopCtx(self, fr, it)
            if it is not None and it.kind == "seq":
                L.k = z3.IntVal(0)
            elif it is not None:
                L.done_e = ty.empty(Set(it.t))
            return L

        def body_once(L):
            if it is not None:
                self.assign(fr, s.target, elem_of(L))
            self.block(fr, s.body)

        # --- which locations does the body write?  (fixpoint over dry runs)
        def dry():
            L = LoopCtx(self, fr, it)
            if it is not None and it.kind == "seq":
                L.k = self.fresh("k", Int)
                self.assume(z3.And(L.k >= 0, L.k < it.n))
            elif it is not None:
                L.elem = self.fresh("el", it.t)
                self.assume(it.has(L.elem))
            else:
                if not self.cond(fr, s.test):
                    raise PathEnd()
            body_once(L)

        modified = set()
        saved_writes = self.writes
        types = {}
        memo = (id(s), tuple(self.trail), self.counter, tuple(self.modstack))  # replays of one prefix are deterministic
        hit = self.dirty.get(memo)
        for _round in range(6):
            live0 = (set(self.st.cells), set(self.st.frames), self.st)
            if hit is not None:
                modified, types, self.counter = set(hit[0]), dict(hit[1]), hit[2]
                break
            again = set()  # written by an iteration after which the loop goes on

            def attempt():
                self.havoc(modified, types, live0)
                self.writes = set()
                try:
                    dry()
                except ContinueSig:
                    again.update(self.writes)
                    raise
                again.update(self.writes)

            self.modstack.append((id(s), frozenset(modified)))
            try:
                outs = self.explore(attempt)
            finally:
                self.modstack.pop()
            w = {x for x in again if self.preexists(x, live0)}
            for facts, st, out in outs:
                self.collect_types(w | modified, st, types)
            if w <= modified:
                break
            modified |= w
        else:
            raise Unsupported("loop writes do not stabilise", s)
        if hit is None:
            self.dirty[memo] = (set(modified), dict(types), self.counter)
        self.writes = saved_writes
        for x in modified:
            self.note(x)
        # pick spec
        spec = None
        for cand in specs:
            try:
                st = self.st.copy()
                L = pre_loop()
                L.entry = st
                cand(L)
                spec = cand
                break
            except KeyError:
                continue
        ordinal = getattr(s, "lineno", 0)
        entry = self.st.copy()
        # ---- init
        if spec is not None:
            # force open containers to symbolic before evaluating
            self.force_types(modified, types)
            L = pre_loop()
            L.entry = entry
            for nm, g in spec(L).items():
                self.emit(f"inv-init:{nm}", g, s)
        # ---- cut
        c = self.choose([None, None])
        self.havoc(modified, types, live0)
        L = LoopCtx(self, fr, it)
        L.entry = entry
        if c == 0:  # arbitrary iteration
            if it is not None and it.kind == "seq":
                L.k = self.fresh("k", Int)
                self.assume(z3.And(L.k >= 0, L.k < it.n))
            elif it is not None:
                L.done_e = self.fresh("done", Set(it.t))
                x = z3.Const("x!d", sort(it.t))
                self.assume(z3.ForAll([x], z3.Implies(ty.sel(L.done_e, x), it.has(x))))
                L.elem = self.fresh("el", it.t)
                self.assume(z3.And(it.has(L.elem), z3.Not(ty.sel(L.done_e, L.elem))))
            if spec is not None:
                for nm, g in spec(L).items():
                    self.assume(g)
            if it is None and not self.cond(fr, s.test):
                raise PathEnd()
            try:
                self.loopdepth += 1
                try:
                    body_once(L)
                finally:
                    self.loopdepth -= 1
            except ContinueSig:
                pass
            except BreakSig:
                return
            if it is not None:
                self.check_iter_stable(it, snap, s)
            if spec is not None:
                L2 = LoopCtx(self, fr, it)
                L2.entry = entry
                if it is not None and it.kind == "seq":
                    L2.k = L.k + 1
                elif it is not None:
                    L2.done_e = z3.Store(L.done_e, L.elem, z3.BoolVal(True))
                for nm, g in spec(L2).items():
                    self.emit(f"inv-step:{nm}", g, s)
            raise PathEnd()
        # ---- after the loop
        if it is not None and it.kind == "seq":
            L.k = it.n
        elif it is not None:
            L.done_e = self.fresh("done", Set(it.t))
            x = z3.Const("x!d", sort(it.t))
            self.assume(z3.ForAll([x], ty.sel(L.done_e, x) == it.has(x)))
        if spec is not None:
            for nm, g in spec(L).items():
                self.assume(g)
        if it is None:
            if self.cond(fr, s.test):
                raise PathEnd()
        self.block(fr, s.orelse)

    @method
    def snap_iter(self, it):
        if it is None or it.src is None:
            return None
        c = self.content(it.src)
        return c.e if isinstance(c, ZC) else None

    @method
    def check_iter_stable(self, it, snap, node):
        """Python forbids (dict/set) or makes meaningless (list) mutating what is iterated"""
        if snap is None:
            return
        c = self.content(it.src)
        if isinstance(c, ZC) and not c.e.eq(snap):
            t = res(c.t)
            if isinstance(t, Dict):
                self.emit("iterated-container-unchanged", ty.ddom(t, c.e) == ty.ddom(t, snap), node)
            elif isinstance(t, List):
                self.emit("iterated-container-unchanged", ty.llen(t, c.e) == ty.llen(t, snap), node)
            else:
                self.emit("iterated-container-unchanged", c.e == snap, node)

    @method
    def preexists(self, w, live0):
        cells, frames, st0 = live0
        if w[0] == "cell":
            return w[1] in cells
        if w[0] == "var":
            return w[1] in frames
        if w[0] == "obj":
            return w[1] in cells
        return True

    @method
    def cur_value(self, w, st=None):
        st = st or self.st
        if w[0] == "var":
            return st.frames.get(w[1], {}).get(w[2])
        if w[0] == "obj":
            c = st.cells.get(w[1])
            return c.fields.get(w[2]) if c is not None else None

    @method
    def collect_types(self, ws, st, types):
        keep = self.st
        self.st = st
        try:
            for w in ws:
                if w[0] == "cell":
                    c = st.cells.get(w[1])
                    if c is None:
                        continue
                    if w[1] in st.fwd:
                        continue
                    if isinstance(c, ZC):
                        types[w] = res(c.t)
                    elif isinstance(c, CList) and c.items:
                        try:
                            types.setdefault(w, self.typeof(Mut(Cell(w[1]))))
                        except Unsupported:
                            types.setdefault(w, None)
                    elif isinstance(c, COpen):
                        if not ty.is_open(c.t):
                            types[w] = c.t
                    elif isinstance(c, CDict):
                        types[w] = self.join_rec(types.get(w), c)
                else:
                    v = self.cur_value(w, st)
                    if v is None:
                        continue
                    try:
                        t = self.typeof(v)
                    except Unsupported:
                        types.setdefault(w, ("same", v))
                        continue
                    o = types.get(w)
                    if o is None or isinstance(o, tuple):
                        types[w] = t
                    else:
                        j = self.join_t(res(o), res(t))
                        types[w] = j if j is not None else ("clash", o, t)
        finally:
            self.st = keep

    @method
    def join_rec(self, old, c):
        """what the fields of a record hold after some iteration: ("rec", {field: (always present, type or the value itself)})"""
        now = {}
        for k, (p, v) in c.d.items():
            try:
                now[k] = (z3.is_true(p), self.typeof(v) if isinstance(v, V) else ("same", v))
            except Unsupported:
                now[k] = (z3.is_true(p), ("same", v))
        if not (isinstance(old, tuple) and old[0] == "rec"):
            return ("rec", now)
        was, out = old[1], {}
        for k in set(was) | set(now):
            if k not in was or k not in now:
                out[k] = (False, (was.get(k) or now.get(k))[1])
                continue
            (p, a), (q, b) = was[k], now[k]
            if "clash" in (a[0] if isinstance(a, tuple) else 0, b[0] if isinstance(b, tuple) else 0):
                r = ("clash",)
            elif isinstance(a, tuple) and isinstance(b, tuple) and (
                    a[1] is b[1] or (isinstance(a[1], Mut) and isinstance(b[1], Mut) and a[1].loc == b[1].loc)):
                r = a
            else:
                try:
                    held = any(isinstance(x, tuple) for x in (a, b))
                    a, b = (self.typeof(x[1]) if isinstance(x, tuple) else x for x in (a, b))
                    r = self.join_t(res(a), res(b)) or ("clash",)
                    if held and not self.contract.copies:
                        r = ("clash",)
                except Unsupported:
                    r = ("clash",)
            out[k] = (p and q, r)
        return ("rec", out)

    @method
    def havoc_rec(self, w, t):
        c = self.st.cells[w[1]]
        _, spec = self.join_rec(t, c)
        d = {}
        for k, (always, x) in spec.items():
            p = z3.BoolVal(True) if always else self.fz(z3.BoolSort(), "has")
            if isinstance(x, tuple):
                if x[0] == "clash":
                    raise Unsupported(f"record field {k} abstracted over a loop")
                d[k] = (p, x[1])
            else:
                d[k] = (p, self.freshv("h_" + str(k), x))
        self.st.cells[w[1]] = CDict(d)

    @method
    def force_types(self, ws, types):
        for w in ws:
            if w[0] == "cell":
                c = self.st.cells.get(w[1])
                if c is not None and not isinstance(c, (ZC, CObj, CDict)) and types.get(w) is not None:
                    self.st.cells[w[1]] = self.to_zc(c, types[w])

    @method
    def havoc(self, ws, types, live0):
        keep = self.writes
        self.writes = None
        try:
            for w in sorted(ws, key=str):
                if w[0] == "cell":
                    if w[1] in self.st.fwd:
                        raise Unsupported("container moved inside a loop")
                    c = self.st.cells[w[1]]
                    if isinstance(c, CObj):
                        continue
                    t = types.get(w)
                    if isinstance(c, CDict) and (t is None or isinstance(t, tuple)):
                        self.havoc_rec(w, t)
                        continue
                    if t is None:
                        t = res(c.t) if isinstance(c, (ZC, COpen)) else self.typeof(Mut(Cell(w[1])))
                    if ty.is_open(t):
                        continue
                    e = self.fresh("h", t)
                    self.wf(t, e)
                    self.st.cells[w[1]] = ZC(t, e)
                elif w[0] == "heap":
                    key = (w[1], w[2])
                    old = self.harr(*key)
                    self.counter += 1
                    self.st.heap[key] = z3.Const(f"H_{w[1]}_{w[2]}#{self.counter}", old.sort())
                elif w[0] in ("var", "obj"):
                    cur = self.cur_value(w)
                    t = types.get(w)
                    if isinstance(t, tuple):
                        if t[0] == "same" and t[1] is cur:
                            continue
                        new = None
                    elif cur is None:
                        new = None  # unbound before the loop
                    else:
                        if t is None:
                            try:
                                t = self.typeof(cur)
                            except Unsupported:
                                t = None
                        else:
                            try:
                                j = self.join_t(res(t), self.typeof(cur))
                                t = j
                            except Unsupported:
                                t = None
                        if t is None:
                            new = None
                        elif ty.is_open(t):
                            new = cur
                        else:
                            new = self.freshv("h_" + str(w[2]), t)
                    if w[0] == "var":
                        if new is None:
                            self.st.frames[w[1]].pop(w[2], None)
                        else:
                            self.st.frames[w[1]][w[2]] = new
                    else:
                        if new is None:
                            raise Unsupported(f"cannot abstract field {w[2]} over a loop")
                        c = self.st.cells[w[1]]
                        f = dict(c.fields)
                        f[w[2]] = new
                        self.st.cells[w[1]] = CObj(c.cls, f)
        finally:
            self.writes = keep

    # ---------------------------------------------------------------- iteration
    @method
    def iterate(self, v, node=None):
        v = self.unopt(v, node)
        if isinstance(v, It):
            return v
        if isinstance(v, TupV):
            return It("conc", items=v.vs)
        if isinstance(v, V) and isinstance(res(v.t), Ref):
            s = self.as_set(v)
            if s is not None:
                v = s
        if isinstance(v, Obj):
            s = self.as_set(v)
            if s is not None:
                v = s
        if isinstance(v, V) and isinstance(res(v.t), List):
            t = res(v.t)
            return It("seq", n=ty.llen(t, v.e), at=lambda i: self.wrap(t.e, ty.lat(t, v.e, i)))
        if isinstance(v, Mut):
            c = self.content(v.loc)
            if isinstance(c, COpen):
                return It("conc", items=[])
            if isinstance(c, CList):
                return It("conc", items=list(c.items))
            if isinstance(c, CDict):
                items = []
                for k, (p, x) in c.d.items():
                    if self.decide(p):
                        items.append(self.const(k))
                return It("conc", items=items)
            t = res(c.t)
            if isinstance(t, List):
                loc = v.loc
                e = c.e
                nested = isinstance(res(t.e), (List, Set, Dict))

                def at(i):
                    if nested:
                        return Mut(ELoc(loc, i), t.e)
                    return self.wrap(t.e, ty.lat(t, e, i))

                return It("seq", n=ty.llen(t, c.e), at=at, src=v.loc)
            if isinstance(t, Set):
                e = c.e
                return It("set", has=lambda x: ty.sel(e, x), t=t.e, src=v.loc)
            if isinstance(t, Dict):
                e = c.e
                return It("set", has=lambda x: ty.sel(ty.ddom(t, e), x), t=t.k, src=v.loc)
        if isinstance(v, V) and res(v.t) == Str and isinstance(v.lit, str):
            return It("conc", items=[self.const(ch) for ch in v.lit])
        if isinstance(v, V) and res(v.t) == Any:
            h = self.find_ext("any.__iter__")
            if h is not None:
                return self.iterate(h(self, [v], {}), node)
        raise Unsupported(f"iteration over {v!r}", node)

    # ---------------------------------------------------------------- expressions
    @method
    def ev(self, fr, e):
        h = getattr(self, "e_" + type(e).__name__, None)
        if h is None:
            raise Unsupported(f"expression {type(e).__name__}", e)
        return h(fr, e)

    @method
    def e_Constant(self, fr, e):
        return self.const(e.value)

    @method
    def e_Name(self, fr, e):
        return self.lookup(fr, e.id, e)

    @method
    def e_Await(self, fr, e):
        self.assumed.add("await treated as an ordinary call (no interleaving at the suspension point)")
        return self.ev(fr, e.value)

    @method
    def e_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v)
        return v

    @method
    def e_Attribute(self, fr, e):
        return self.getattr_(self.ev(fr, e.value), e.attr, e)

    @method
    def e_Tuple(self, fr, e):
        return TupV(self.elts(fr, e.elts))

    @method
    def elts(self, fr, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(fr, x.value), x)
                if it.kind != "conc":
                    n = simp(it.n) if it.kind == "seq" else None
                    if n is not None and z3.is_int_value(n):
                        out.extend(it.at(z3.IntVal(i)) for i in range(n.as_long()))
                        continue
                    raise Unsupported("starred symbolic sequence", x)
                out.extend(it.items)
            else:
                out.append(self.ev(fr, x))
        return out

    @method
    def e_List(self, fr, e):
        if not e.elts:
            return Mut(self.cell(COpen(List(TVar()))))
        if any(isinstance(x, ast.Starred) for x in e.elts):
            try:
                return Mut(self.cell(CList(self.elts(fr, e.elts))))
            except Unsupported:
                acc = None
                for x in e.elts:
                    if isinstance(x, ast.Starred):
                        p = self.call_builtin("list", [self.ev(fr, x.value)], {}, e)
                    else:
                        p = Mut(self.cell(CList([self.ev(fr, x)])))
                    acc = p if acc is None else self.binop("Add", acc, p, e)
                return acc
        return Mut(self.cell(CList(self.elts(fr, e.elts))))

    @method
    def e_Set(self, fr, e):
        vs = self.elts(fr, e.elts)
        m = Mut(self.cell(COpen(Set(TVar()))))
        for v in vs:
            self.callmeth(m, "add", [v], {}, e)
        return m

    @method
    def e_Dict(self, fr, e):
        if not e.keys:
            return Mut(self.cell(CDict()))
        d = {}
        cur = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(fr, v)
                if cur is None:
                    cur = Mut(self.cell(CDict(d)))
                self.callmeth(cur, "update", [src], {}, e)
                continue
            kv = self.ev(fr, k)
            vv = self.ev(fr, v)
            l = self.lit_of(kv)
            if cur is None and l is not None:
                d[l] = (z3.BoolVal(True), vv)
            else:
                if cur is None:
                    cur = Mut(self.cell(CDict(d) if d else COpen(Dict(TVar(), TVar()))))
                self.setitem(cur, kv, vv, e)
        return cur if cur is not None else Mut(self.cell(CDict(d)))

    @method
    def e_JoinedStr(self, fr, e):
        parts, tmpl, lits = [], [], []
        for p in e.values:
            if isinstance(p, ast.Constant):
                tmpl.append(str(p.value))
                if lits is not None:
                    lits.append(str(p.value))
            else:
                try:
                    v = self.ev(fr, p.value)
                except Unsupported:
                    v = None
                if v is not None and isinstance(v, V) and p.format_spec is None and p.conversion == -1:
                    tmpl.append("{}")
                    if lits is not None and isinstance(v.lit, (str, int)) and not isinstance(v.lit, bool):
                        lits.append(str(v.lit))
                    else:
                        lits = None
                    parts.append(v)
                else:
                    lits = None
                    tmpl.append("{?" + ast.unparse(p) + "}")
                    if v is not None and isinstance(v, V):
                        parts.append(v)
                    else:
                        self.counter += 1
                        parts.append(V(Any, z3.Const(f"fmt#{self.counter}", ty.AnySort)))
        if lits is not None:
            return self.const("".join(lits))
        f = uf("fstr_" + "".join(tmpl), *[sort(p.t) for p in parts], ty.StrSort)
        return V(Str, f(*[p.e for p in parts]))

    @method
    def e_IfExp(self, fr, e):
        plain = lambda x: isinstance(x, (ast.Name, ast.Constant)) or isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
        if plain(e.body) and plain(e.orelse) and isinstance(e.test, ast.Compare) and plain(e.test.left) and isinstance(e.test.ops[0], (ast.Is, ast.IsNot)):
            # no effects on either side: one opaque value instead of two paths
            x, y = (self.peek_any(fr, b) for b in (e.body, e.orelse))
            if x is not None and y is not None:
                return V(Any, z3.If(self.truth(self.ev(fr, e.test), e), x.e, y.e))
        return self.ev(fr, e.body if self.cond(fr, e.test) else e.orelse)

    @method
    def peek_any(self, fr, e):
        """the value of a name or of a declared attribute of self when it is opaque (reading it has no effect)"""
        if isinstance(e, ast.Name):
            v = self.st.frames.get(fr.fid, {}).get(e.id)
        elif isinstance(e, ast.Attribute):
            o = self.ev(fr, e.value)
            if not isinstance(o, Obj):
                return None
            v = self.ev(fr, e) if e.attr in self.st.cells[o.cid.id].fields else None
        else:
            return None
        return v if isinstance(v, V) and res(v.t) == Any else None

    @method
    def e_BoolOp(self, fr, e):
        # value-returning and/or
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(fr, x)
            if i == len(e.values) - 1:
                return v
            t = self.test(v, x)
            if isand != t:
                v = self.split_opt(v) if not isand else v
                return v
        return v

    @method
    def e_UnaryOp(self, fr, e):
        if isinstance(e.op, ast.Not):
            v = self.ev(fr, e.operand)
            return V(Bool, z3.Not(self.truth(v, e)))
        v = self.unopt(self.ev(fr, e.operand), e)
        if isinstance(e.op, ast.USub):
            if v.lit is not None:
                return self.const(-v.lit)
            return V(v.t, -self.z(v, Int if res(v.t) == Bool else v.t))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator", e)

    @method
    def e_Lambda(self, fr, e):
        from .src import FuncInfo

        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno)],
                               decorator_list=[], lineno=e.lineno)
        return Fn(FuncInfo(node, fr.globs, None, "<lambda>"), fr)

    @method
    def e_Compare(self, fr, e):
        left = self.ev(fr, e.left)
        acc = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(fr, r)
            c = self.compare(type(op).__name__, left, right, e)
            acc.append(c)
            if len(e.ops) > 1 and i < len(e.ops) - 1:
                if not self.decide(c):
                    return V(Bool, z3.BoolVal(False))
            left = right
        return V(Bool, acc[-1])

    @method
    def compare(self, op, a, b, node):
        if op == "Eq":
            return self.eq(a, b, node)
        if op == "NotEq":
            return z3.Not(self.eq(a, b, node))
        if op == "Is":
            return self.is_(a, b, node)
        if op == "IsNot":
            return z3.Not(self.is_(a, b, node))
        if op == "In":
            return self.contains(b, a, node)
        if op == "NotIn":
            return z3.Not(self.contains(b, a, node))
        a, b = self.unopt(a, node), self.unopt(b, node)
        sa, sb = self.as_set(a), self.as_set(b)
        if sa is not None and sb is not None and op in ("LtE", "GtE", "Lt", "Gt"):
            sub = self.callmeth(sa, "issubset" if op in ("LtE", "Lt") else "issuperset", [sb], {}, node).e
            if op in ("Lt", "Gt"):
                return z3.And(sub, z3.Not(self.eq(sa, sb)))
            return sub
        if a is NoneV or b is NoneV:
            self.throw("TypeError", node)
        if isinstance(a, TupV) and isinstance(b, TupV):
            raise Unsupported("tuple ordering", node)
        if not (isinstance(a, V) and isinstance(b, V)):
            raise Unsupported(f"ordering of {a!r} and {b!r}", node)
        ta, tb = res(a.t), res(b.t)
        if ta in (Int, Real, Bool) and tb in (Int, Real, Bool):
            t = Real if Real in (ta, tb) else Int
            x, y = self.z(a, t), self.z(b, t)
        elif ta == tb and isinstance(ta, Ref):
            key = self.reg.order_key(ta.cls)
            if key is None:
                raise Unsupported("ordering of objects", node)
            x, y = key(self, a.e), key(self, b.e)
        elif ta == tb and ta in (Str, Bytes):
            lt = uf("lt_" + ta.name, sort(ta), sort(ta), z3.BoolSort())
            self.assumed.add("string ordering is uninterpreted")
            return {"Lt": lambda: lt(a.e, b.e), "Gt": lambda: lt(b.e, a.e),
                    "LtE": lambda: z3.Or(a.e == b.e, lt(a.e, b.e)),
                    "GtE": lambda: z3.Or(a.e == b.e, lt(b.e, a.e))}[op]()
        elif Any in (ta, tb):
            h = self.find_ext("any.compare")
            if h is not None:
                return h(self, op, self.z(a, Any), self.z(b, Any))
            raise Unsupported("ordering of opaque values", node)
        else:
            self.throw("TypeError", node)
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]

    @method
    def contains(self, c, x, node):
        c = self.unopt(c, node)
        s = self.as_set(c)
        if s is not None:
            c = s
        if isinstance(c, TupV):
            return z3.Or(*[self.eq(x, y, node) for y in c.vs]) if c.vs else z3.BoolVal(False)
        if isinstance(c, It):
            if c.kind == "conc":
                return z3.Or(*[self.eq(x, y, node) for y in c.items]) if c.items else z3.BoolVal(False)
            if c.kind == "set":
                return c.has(self.z(x, c.t, node))
            i = self.fz(z3.IntSort(), "i!in")
            return z3.Exists([i], z3.And(0 <= i, i < c.n, self.eq(c.at(i), x)))
        if isinstance(c, Mut):
            k = self.content(c.loc)
            if isinstance(k, COpen):
                return z3.BoolVal(False)
            if isinstance(k, CList):
                return z3.Or(*[self.eq(x, y, node) for y in k.items]) if k.items else z3.BoolVal(False)
            if isinstance(k, CDict):
                l = self.lit_of(x)
                if l is not None:
                    return k.d[l][0] if l in k.d else z3.BoolVal(False)
                return z3.Or(*[z3.And(p, self.eq(x, self.const(kk))) for kk, (p, _) in k.d.items()]) if k.d else z3.BoolVal(False)
            t = res(k.t)
            e = k.e
        elif isinstance(c, V) and isinstance(res(c.t), (List, Set, Dict)):
            t, e = res(c.t), c.e
        elif isinstance(c, V) and res(c.t) in (Str, Bytes):
            if isinstance(c.lit, (str, bytes)) and isinstance(getattr(x, "lit", None), type(c.lit)):
                return z3.BoolVal(x.lit in c.lit)
            return uf("str_in", sort(res(c.t)), sort(res(x.t)), z3.BoolSort())(c.e, x.e)
        else:
            h = self.find_ext("any.__contains__") if isinstance(c, V) and res(c.t) == Any else None
            if h is not None:
                return h(self, [c, x], {})
            raise Unsupported(f"`in` {c!r}", node)
        kt = t.k if isinstance(t, Dict) else t.e
        if x is NoneV and not isinstance(res(kt), Opt):
            return z3.BoolVal(False)
        if isinstance(x, V) and isinstance(res(x.t), Opt) and not isinstance(res(kt), Opt):
            xt = res(x.t)
            inner = self.contains(c, self.wrap(xt.t, ty.oval(xt, x.e)), node)
            return z3.And(z3.Not(ty.ois_none(xt, x.e)), inner)
        if isinstance(x, V) and res(x.t) != res(kt) and not isinstance(res(x.t), (TVar,)) \
                and isinstance(res(x.t), ty.Prim) and isinstance(res(kt), ty.Prim) \
                and Any not in (res(x.t), res(kt)) and not {res(x.t), res(kt)} <= {Int, Real, Bool}:
            return z3.BoolVal(False)
        xe = self.z(x, kt, node)
        if isinstance(t, Set):
            return ty.sel(e, xe)
        if isinstance(t, Dict):
            return ty.sel(ty.ddom(t, e), xe)
        i = self.fz(z3.IntSort(), "i!in")
        return z3.Exists([i], z3.And(0 <= i, i < ty.llen(t, e), ty.lat(t, e, i) == xe))

    @method
    def e_BinOp(self, fr, e):
        return self.binop(type(e.op).__name__, self.ev(fr, e.left), self.ev(fr, e.right), e)

    @method
    def binop(self, op, a, b, node):
        a, b = self.unopt(a, node), self.unopt(b, node)
        la, lb = getattr(a, "lit", None), getattr(b, "lit", None)
        if la is not None and lb is not None and isinstance(a, V) and isinstance(b, V):
            try:
                import operator as o

                f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "FloorDiv": o.floordiv, "Mod": o.mod,
                     "Pow": o.pow, "Div": o.truediv}.get(op)
                if f is not None:
                    return self.const(f(la, lb))
            except ZeroDivisionError:
                self.throw("ZeroDivisionError", node)
            except TypeError:
                self.throw("TypeError", node)
        sa, sb = self.as_set(a), self.as_set(b)
        if op in ("BitOr", "BitAnd", "Sub", "BitXor") and sa is not None and sb is not None:
            m = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference",
                 "BitXor": "symmetric_difference"}[op]
            return self.callmeth(sa, m, [sb], {}, node)
        seqlike = lambda v: isinstance(v, (Mut, TupV)) or (isinstance(v, V) and isinstance(res(v.t), List))
        if op == "Add" and seqlike(a) and seqlike(b):
            return self.concat(a, b, node)
        if op == "Mult" and (seqlike(a) or seqlike(b)):
            s, n = (a, b) if seqlike(a) else (b, a)
            return self.repeat(s, n, node)
        if isinstance(a, V) and isinstance(b, V):
            ta, tb = res(a.t), res(b.t)
            num = (Int, Real, Bool)
            if ta in num and tb in num:
                return self.arith(op, a, b, node)
            if ta in (Str, Bytes) and ta == tb and op == "Add":
                f = uf("concat_" + ta.name, sort(ta), sort(ta), sort(ta))
                return V(ta, f(a.e, b.e))
            if ta == Str and op == "Mod":
                f = uf("strmod", ty.StrSort, sort(tb), ty.StrSort)
                return V(Str, f(a.e, b.e))
            if ta in (Str, Bytes) and tb in num and op == "Mult":
                f = uf("strmul_" + ta.name, sort(ta), z3.IntSort(), sort(ta))
                return V(ta, f(a.e, self.z(b, Int)))
            if Any in (ta, tb):
                h = self.reg.any_binop
                if h:
                    r = h(self, op, a, b, node)
                    if r is not None:
                        return r
                raise Unsupported(f"operator {op} on opaque values", node)
        if isinstance(a, V) and res(a.t) == Str and op == "Mod":
            self.counter += 1
            return V(Str, z3.Const(f"fmt#{self.counter}", ty.StrSort))
        if a is NoneV or b is NoneV:
            self.throw("TypeError", node)
        raise Unsupported(f"operator {op} on {a!r}, {b!r}", node)

    @method
    def arith(self, op, a, b, node):
        ta, tb = res(a.t), res(b.t)
        t = Real if Real in (ta, tb) else Int
        x, y = self.z(a, t), self.z(b, t)
        if op == "Add":
            return V(t, x + y)
        if op == "Sub":
            return V(t, x - y)
        if op == "Mult":
            return V(t, x * y)
        if op in ("FloorDiv", "Mod"):
            self.need(y != 0, "ZeroDivisionError", node)
            if t == Int:
                if z3.is_int_value(simp(y)):
                    yv = simp(y).as_long()
                    if yv > 0:
                        return V(Int, x / y if op == "FloorDiv" else x % y)
                # SMT-LIB div/mod floor for a positive divisor; floor(x/y) == floor(-x/-y)
                if self.decide(y > 0):
                    return V(Int, x / y if op == "FloorDiv" else x % y)
                return V(Int, (-x) / (-y) if op == "FloorDiv" else -((-x) % (-y)))
            raise Unsupported("float // or %", node)
        if op == "Div":
            x, y = self.z(a, Real), self.z(b, Real)
            self.need(y != 0, "ZeroDivisionError", node)
            return V(Real, x / y)
        if op == "Pow":
            la = a.lit if a.lit is not None else self.lit_of(a)
            if la == 2 and t == Int:
                f = uf("pow2", z3.IntSort(), z3.IntSort())
                if not self.decide(y >= 0):
                    raise Unsupported("negative exponent", node)
                r = f(y)
                self.assume(r >= 1)
                self.assume(f(z3.IntVal(0)) == 1)
                self.assume(z3.Implies(y >= 1, r == 2 * f(y - 1)))
                self.assume(f(y + 1) == 2 * r)
                return V(Int, r)
            raise Unsupported("**", node)
        if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            if op == "LShift" and self.lit_of(a) == 1:
                return self.arith("Pow", V(Int, z3.IntVal(2), 2), b, node)
            raise Unsupported(f"bit operator {op}", node)
        raise Unsupported(f"operator {op}", node)

    @method
    def concat(self, a, b, node=None):
        ia, ib = self.conc_items(a), self.conc_items(b)
        if ia is not None and ib is not None:
            if isinstance(a, TupV) and isinstance(b, TupV):
                return TupV(ia + ib)
            return Mut(self.cell(CList(ia + ib)))
        ta, ea, tb, eb = self.seq_pair(a, b, node)
        na = ty.llen(ta, ea)
        i = self.fz(z3.IntSort(), "i!cat")
        arr = z3.Lambda([i], z3.If(i < na, ty.lat(ta, ea, i), ty.lat(tb, eb, i - na)))
        return Mut(self.cell(ZC(ta, ty.mk(ta, na + ty.llen(tb, eb), arr))))

    @method
    def conc_items(self, v):
        if isinstance(v, TupV):
            return list(v.vs)
        if isinstance(v, Mut):
            c = self.content(v.loc)
            if isinstance(c, CList):
                return list(c.items)
            if isinstance(c, COpen) and isinstance(c.t, List):
                return []
        return None

    @method
    def seq_pair(self, a, b, node):
        def sym(v):
            if isinstance(v, V):
                return res(v.t), v.e
            c = self.content(v.loc) if isinstance(v, Mut) else None
            if isinstance(c, ZC):
                return res(c.t), c.e
            return None

        sa, sb = sym(a), sym(b)
        if sa is None:
            t = sb[0]
            sa = (t, self.z(a, t))
        if sb is None:
            t = sa[0]
            sb = (t, self.z(b, t))
        if sort(sa[0]) != sort(sb[0]):
            raise Unsupported("concatenation of different element types", node)
        return sa + sb

    @method
    def repeat(self, s, n, node):
        ln = self.lit_of(n)
        items = self.conc_items(s)
        if items is None:
            raise Unsupported("repetition", node)
        if isinstance(ln, int):
            r = items * ln
            return TupV(r) if isinstance(s, TupV) else Mut(self.cell(CList(r)))
        if len(items) != 1:
            raise Unsupported("repetition", node)
        x = items[0]
        t0 = self.typeof(x)
        if ty.is_open(t0):
            t0 = Opt(Int)
        t = List(t0)
        ne = self.z(n, Int)
        m = z3.If(ne > 0, ne, z3.IntVal(0))
        return Mut(self.cell(ZC(t, ty.mk(t, m, z3.K(z3.IntSort(), self.z(x, t0))))))

    # ---------------------------------------------------------------- subscripts
    @method
    def e_Subscript(self, fr, e):
        o = self.ev(fr, e.value)
        if isinstance(e.slice, ast.Slice):
            return self.getslice(fr, o, e.slice, e)
        return self.getitem(o, self.ev(fr, e.slice), e)

    @method
    def norm_index(self, i, n, node, exc="IndexError"):
        """Python index -> 0-based z3 index, raising IndexError outside"""
        idx = z3.If(i < 0, i + n, i) if not z3.is_int_value(simp(i)) else (
            i if simp(i).as_long() >= 0 else n + i)
        self.need(z3.And(idx >= 0, idx < n), exc, node)
        return simp(idx) if z3.is_int_value(simp(idx)) else idx

    @method
    def getitem(self, o, k, node):
        o = self.unopt(o, node)
        if isinstance(k, SliceV):
            return self.getslice(None, o, k, node)
        if o is NoneV:
            self.throw("TypeError", node)
        if isinstance(o, TupV):
            l = self.lit_of(k)
            if isinstance(l, int):
                if -len(o.vs) <= l < len(o.vs):
                    return o.vs[l]
                self.throw("IndexError", node)
            raise Unsupported("symbolic tuple index", node)
        if isinstance(o, V) and isinstance(res(o.t), List):
            t = res(o.t)
            i = self.norm_index(self.z(k, Int), ty.llen(t, o.e), node)
            return self.wrap(t.e, ty.lat(t, o.e, i))
        if isinstance(o, It) and o.kind == "conc":
            l = self.lit_of(k)
            if isinstance(l, int) and -len(o.items) <= l < len(o.items):
                return o.items[l]
        if isinstance(o, Mut):
            c = self.content(o.loc)
            if isinstance(c, CList):
                l = self.lit_of(k)
                if isinstance(l, int):
                    if -len(c.items) <= l < len(c.items):
                        return c.items[l]
                    self.throw("IndexError", node)
                ke = self.z(k, Int, node)
                n = len(c.items)
                for i in range(n):
                    if self.decide(z3.Or(ke == i, ke == i - n)):
                        return c.items[i]
                self.throw("IndexError", node)
            if isinstance(c, CDict):
                return self.cdict_get(c, k, node)
            if isinstance(c, COpen):
                if isinstance(res(c.t), Dict) and c.t.default is not None:
                    self.unify(c.t.k, self.typeof(k))
                    self.put(o.loc, ZC(c.t, ty.empty(c.t)))
                    return self.getitem(o, k, node)
                self.throw("KeyError" if isinstance(res(c.t), Dict) else "IndexError", node)
            t = res(c.t)
            if isinstance(t, List):
                i = self.norm_index(self.z(k, Int, node), ty.llen(t, c.e), node)
                return self.wrap(t.e, ty.lat(t, c.e, i), ELoc(o.loc, i))
            if isinstance(t, Dict):
                k = self.key_unopt(t, k, node)
                if k is None:
                    self.throw("KeyError", node)
                ke = self.z(k, t.k, node)
                if t.default is not None:
                    dom, val = ty.ddom(t, c.e), ty.dval(t, c.e)
                    dv = ty.empty(t.v) if isinstance(t.default, str) else t.default
                    e = ty.mk(t, z3.Store(dom, ke, z3.BoolVal(True)),
                              z3.Store(val, ke, z3.If(ty.sel(dom, ke), ty.sel(val, ke), dv)))
                    self.put(o.loc, ZC(t, e))
                    return self.wrap(t.v, ty.sel(ty.dval(t, e), ke), ELoc(o.loc, ke))
                self.need(ty.sel(ty.ddom(t, c.e), ke), "KeyError", node)
                return self.wrap(t.v, ty.sel(ty.dval(t, c.e), ke), ELoc(o.loc, ke))
        if isinstance(o, Obj) and not isinstance(o.cls, str):
            m = self.source.method(o.cls, "__getitem__")
            if m is not None:
                return self.callfn(Fn(m, None, None, o), [k], {}, node)
            c = self.st.cells[o.cid.id]
            if "@base" in c.fields:
                return self.getitem(c.fields["@base"], k, node)
        if isinstance(o, V) and res(o.t) == Str and self.lit_of(o) is not None and self.lit_of(k) is not None:
            try:
                return self.const(self.lit_of(o)[self.lit_of(k)])
            except IndexError:
                self.throw("IndexError", node)
        if isinstance(o, V) and isinstance(res(o.t), Ref):
            s = self.as_set(o)
            if s is not None:
                return self.getitem(s, k, node)
            l = self.lit_of(k)
            if isinstance(l, str) and self.reg.has_field(res(o.t).cls, "[" + l + "]"):
                return self.heap_get(o, "[" + l + "]")
        h = self.find_ext((o.dotted if isinstance(o, Ext) else "any") + ".__getitem__")
        if h is not None:
            return h(self, [o, k], {})
        raise Unsupported(f"subscript of {o!r}", node)

    @method
    def key_unopt(self, t, k, node):
        """a key that may be None / optional against a dict whose keys are not optional"""
        if isinstance(res(t.k), Opt):
            return k
        k = self.split_opt(k)
        if k is NoneV:
            return None
        kt = res(t.k)
        if isinstance(k, V) and isinstance(res(k.t), ty.Prim) and isinstance(kt, ty.Prim) and res(k.t) != kt \
                and Any not in (res(k.t), kt) and not {res(k.t), kt} <= {Int, Bool, Real}:
            return None
        return k

    @method
    def cdict_get(self, c, k, node, default=None):
        l = self.lit_of(k)
        if l is None:
            if isinstance(k, V):
                for kk, (p, x) in c.d.items():
                    if self.decide(z3.And(p, self.eq(k, self.const(kk)))):
                        return x
                if default is not None:
                    return default
                self.throw("KeyError", node)
            raise Unsupported("symbolic key in record", node)
        if l in c.d:
            p, x = c.d[l]
            if self.decide(p):
                return x
        if default is not None:
            return default
        self.throw("KeyError", node)

    @method
    def setitem(self, o, k, v, node):
        o = self.unopt(o, node)
        if isinstance(o, Obj):
            m = self.source.method(o.cls, "__setitem__") if not isinstance(o.cls, str) else None
            if m is not None:
                return self.callfn(Fn(m, None, None, o), [k, v], {}, node)
            o = self.st.cells[o.cid.id].fields.get("@base", o)
        if isinstance(o, V) and isinstance(res(o.t), Ref):
            l = self.lit_of(k)
            if isinstance(l, str) and self.reg.has_field(res(o.t).cls, "[" + l + "]"):
                return self.heap_set(o, "[" + l + "]", v, node)
            s = self.as_set(o)
            if s is not None:
                o = s
        if not isinstance(o, Mut):
            h = self.find_ext((o.dotted if isinstance(o, Ext) else "any") + ".__setitem__")
            if h is not None:
                return h(self, [o, k, v], {})
            raise Unsupported(f"item assignment on {o!r}", node)
        c = self.content(o.loc)
        if isinstance(c, CDict):
            l = self.lit_of(k)
            if l is not None:
                d = dict(c.d)
                d[l] = (z3.BoolVal(True), v)
                self.put(o.loc, CDict(d))
                return
            if c.d:
                c = self.to_zc(c)
            else:
                t = Dict(self.typeof(k), self.typeof(v))
                if ty.is_open(t.v):
                    h = self.hint_for(o)
                    if h is None:
                        raise Unsupported("dict of unknown value type", node)
                    t = h
                c = ZC(t, ty.empty(t))
        if isinstance(c, COpen):
            if isinstance(res(c.t), Dict):
                self.unify(c.t.k, self.typeof(k))
                self.unify(c.t.v, self.typeof(v))
            else:
                self.throw("IndexError", node)
            c = self.to_zc(c, c.t)
        if isinstance(c, CList):
            l = self.lit_of(k)
            if isinstance(l, int):
                if not -len(c.items) <= l < len(c.items):
                    self.throw("IndexError", node)
                items = list(c.items)
                items[l] = v
                self.put(o.loc, CList(items, c.kind))
                return
            c = self.to_zc(c)
        t = res(c.t)
        if isinstance(t, Dict):
            ke = self.z(k, t.k, node)
            ve = self.z(v, t.v, node)
            self.detach(o.loc, ke)
            nd = z3.Store(ty.ddom(t, c.e), ke, z3.BoolVal(True))
            self.card_step(Set(t.k), ty.ddom(t, c.e), ke, nd, True)
            e = ty.mk(t, nd, z3.Store(ty.dval(t, c.e), ke, ve))
            self.put(o.loc, ZC(t, e))
            self.moved(v, ELoc(o.loc, ke), node)
            return
        if isinstance(t, List):
            i = self.norm_index(self.z(k, Int, node), ty.llen(t, c.e), node)
            e = ty.mk(t, ty.llen(t, c.e), z3.Store(ty.larr(t, c.e), i, self.z(v, t.e, node)))
            self.put(o.loc, ZC(t, e))
            self.moved(v, ELoc(o.loc, i), node)
            return
        raise Unsupported("item assignment", node)

    @method
    def hint_for(self, o):
        h = self.contract.locals.get("{}") if self.contract is not None else None
        return Dict(*h.ts) if isinstance(h, Tup) else None

    @method
    def moved(self, v, loc, node):
        """v (a container value) has been stored at loc: later use of its old cell goes through loc"""
        if not isinstance(v, Mut):
            return
        l = v.loc
        while isinstance(l, Cell) and l.id in self.st.fwd:
            l = self.st.fwd[l.id]
        if isinstance(l, Cell):
            if l.id in self.rootcells:
                # an argument/field container is now reachable twice
                self.assumed.add("ownership: a container argument stored into a field is not used elsewhere afterwards")
            self.st.fwd[l.id] = loc
        else:
            same = isinstance(l, HLoc) and isinstance(loc, HLoc) and l.same(loc)
            if not same:
                if self.contract is not None and self.contract.copies:
                    self.assumed.add("a list or table stored in two places is not changed through either of them afterwards")
                    return
                raise Unsupported("aliasing of nested containers", node)

    @method
    def detach(self, ploc, ke):
        """the element at ke of ploc is about to be replaced/removed: values that were forwarded
        there become independent"""
        pl = self.chase(ploc)

        def samep(a):
            a = self.chase(a)
            if isinstance(a, Cell) and isinstance(pl, Cell):
                return a == pl
            if isinstance(a, HLoc) and isinstance(pl, HLoc):
                return (a.cls, a.field) == (pl.cls, pl.field) and a.ref.eq(pl.ref)
            return False

        for cid, loc in list(self.st.fwd.items()):
            if isinstance(loc, ELoc) and samep(loc.parent):
                if loc.key.eq(ke) or self.feasible(loc.key == ke):
                    c = self.content(loc)
                    if not loc.key.eq(ke) and not self.decide(loc.key == ke):
                        continue
                    self.st.cells[cid] = c
                    del self.st.fwd[cid]
        # variables holding a direct view
        for fid, env in self.st.frames.items():
            for nm, v in list(env.items()):
                if isinstance(v, Mut) and isinstance(v.loc, ELoc) and samep(v.loc.parent):
                    if v.loc.key.eq(ke) or self.feasible(v.loc.key == ke):
                        if not v.loc.key.eq(ke) and not self.decide(v.loc.key == ke):
                            continue
                        env[nm] = Mut(self.cell(self.content(v.loc)), v.t)

    @method
    def delitem(self, o, k, node):
        self.callmeth(o, "pop", [k], {}, node, isdel=True)

    @method
    def part(self, fr, x):
        """a part of a slice: an expression, or a value already"""
        return self.ev(fr, x) if isinstance(x, ast.AST) else x

    @method
    def slice_bounds(self, fr, sl, n, node):
        """(lo, hi) clipped per Python, step 1"""
        def clip(x):
            x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            return x

        if isinstance(sl, (ast.Slice, SliceV)):
            lo = self.part(fr, sl.lower) if sl.lower is not None else NoneV
            hi = self.part(fr, sl.upper) if sl.upper is not None else NoneV
        else:
            lo, hi = sl
        lo, hi = self.split_opt(lo), self.split_opt(hi)
        lo = z3.IntVal(0) if lo is NoneV else clip(self.z(lo, Int, node))
        hi = n if hi is NoneV else clip(self.z(hi, Int, node))
        return lo, hi

    @method
    def getslice(self, fr, o, sl, node):
        o = self.unopt(o, node)
        step = self.split_opt(self.part(fr, sl.step)) if sl.step is not None else NoneV
        if isinstance(o, It) and o.kind == "seq":
            o = self.build(o, lambda x: x, False, "list", node)
        items = self.conc_items(o)
        if items is not None:
            def cv(x):
                if x is None:
                    return None, True
                v = self.split_opt(self.part(fr, x))
                if v is NoneV:
                    return None, True
                l = self.lit_of(v)
                return l, isinstance(l, int)

            (lo, a), (hi, b) = cv(sl.lower), cv(sl.upper)
            st, c = (None, True) if step is NoneV else (self.lit_of(step), isinstance(self.lit_of(step), int))
            if a and b and c:
                r = items[lo:hi:st]
                return TupV(r) if isinstance(o, TupV) else Mut(self.cell(CList(r)))
        if isinstance(o, V) and res(o.t) in (Str, Bytes):
            if isinstance(o.lit, (str, bytes)):
                lo = self.lit_of(self.part(fr, sl.lower)) if sl.lower is not None else None
                hi = self.lit_of(self.part(fr, sl.upper)) if sl.upper is not None else None
                return self.const(o.lit[lo:hi])
            lo = self.part(fr, sl.lower) if sl.lower is not None else self.const(0)
            hi = self.part(fr, sl.upper) if sl.upper is not None else self.const(-999999)
            f = uf("slice_" + res(o.t).name, sort(o.t), z3.IntSort(), z3.IntSort(), sort(o.t))
            return V(o.t, f(o.e, self.z(lo, Int), self.z(hi, Int)))
        if isinstance(o, V) and isinstance(res(o.t), List):
            t, e = res(o.t), o.e
        elif isinstance(o, Mut):
            if isinstance(self.content(o.loc), COpen):
                return Mut(self.cell(COpen(List(TVar()))))
            t, e = self.symbolic(o)
        else:
            h = self.find_ext("any.__getslice__")
            if h is not None:
                lo = self.part(fr, sl.lower) if sl.lower is not None else NoneV
                hi = self.part(fr, sl.upper) if sl.upper is not None else NoneV
                return h(self, [o, lo, hi, step], {})
            raise Unsupported(f"slice of {o!r}", node)
        if not isinstance(t, List):
            self.throw("TypeError", node)
        n = ty.llen(t, e)
        if step is not NoneV and self.lit_of(step) == -1 and sl.lower is None and sl.upper is None:
            i = self.fz(z3.IntSort(), "i!rev")
            return Mut(self.cell(ZC(t, ty.mk(t, n, z3.Lambda([i], ty.lat(t, e, n - 1 - i))))))
        if step is not NoneV:
            se = self.z(step, Int, node)
            self.need(se != 0, "ValueError", node)
            if not self.decide(se > 0):
                # from lo down to (and without) hi
                down = lambda x: z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(-1), x + n), z3.If(x >= n, n - 1, x))
                lo, hi = (self.split_opt(self.part(fr, x)) if x is not None else NoneV for x in (sl.lower, sl.upper))
                lo = n - 1 if lo is NoneV else down(self.z(lo, Int, node))
                hi = z3.IntVal(-1) if hi is NoneV else down(self.z(hi, Int, node))
                m = self.fresh("m", Int)
                self.assume(z3.And(m >= 0, z3.If(lo > hi, z3.And(lo + (m - 1) * se > hi, lo + m * se <= hi), m == 0)))
                i = self.fz(z3.IntSort(), "i!st")
                return Mut(self.cell(ZC(t, ty.mk(t, m, z3.Lambda([i], ty.lat(t, e, lo + i * se))))))
        lo, hi = self.slice_bounds(fr, sl, n, node)
        if step is not NoneV:
            se = self.z(step, Int, node)
            # number of elements: least m with lo + m*step >= hi
            m = self.fresh("m", Int)
            self.assume(z3.And(m >= 0, z3.If(hi > lo, z3.And(lo + (m - 1) * se < hi, lo + m * se >= hi), m == 0)))
            i = self.fz(z3.IntSort(), "i!st")
            return Mut(self.cell(ZC(t, ty.mk(t, m, z3.Lambda([i], ty.lat(t, e, lo + i * se))))))
        i = self.fz(z3.IntSort(), "i!sl")
        m = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        return Mut(self.cell(ZC(t, ty.mk(t, m, z3.Lambda([i], ty.lat(t, e, i + lo))))))

    @method
    def setslice(self, fr, o, sl, v, node):
        o = self.unopt(o, node)
        items = self.conc_items(o)
        vi = self.conc_items(v)
        if sl.step is not None:
            raise Unsupported("slice step assignment", node)
        lo = self.ev(fr, sl.lower) if sl.lower is not None else NoneV
        hi = self.ev(fr, sl.upper) if sl.upper is not None else NoneV
        if items is not None and vi is not None:
            l = None if lo is NoneV else self.lit_of(lo)
            h = None if hi is NoneV else self.lit_of(hi)
            r = list(items)
            r[l:h] = vi
            self.put(o.loc, CList(r))
            return
        if items is not None:
            t, e = self.seq_pair(o, v, node)[:2]
        else:
            t, e = self.symbolic(o)
        n = ty.llen(t, e)
        lo, hi = self.slice_bounds(fr, (lo, hi), n, node)
        hi = z3.If(hi < lo, lo, hi)
        ve = self.z(v, t)
        m = ty.llen(t, ve)
        i = self.fz(z3.IntSort(), "i!ss")
        arr = z3.Lambda([i], z3.If(i < lo, ty.lat(t, e, i),
                                   z3.If(i < lo + m, ty.lat(t, ve, i - lo), ty.lat(t, e, i - lo - m + hi))))
        self.put(o.loc, ZC(t, ty.mk(t, lo + m + n - hi, arr)))

    # ---------------------------------------------------------------- attributes
    @method
    def heap_get(self, o, name):
        t = res(o.t)
        ft = self.reg.field_type(t.cls, name)
        e = ty.sel(self.harr(t.cls, name), o.e)
        return self.wrap(ft, e, HLoc(t.cls, name, o.e))

    @method
    def heap_set(self, o, name, v, node):
        t = res(o.t)
        ft = self.reg.field_type(t.cls, name)
        self.hset(t.cls, name, o.e, self.z(v, ft, node))
        self.moved(v, HLoc(t.cls, name, o.e), node)

    @method
    def getattr_(self, o, name, node=None):
        o = self.unopt(o, node, "AttributeError")
        if o is NoneV:
            self.throw("AttributeError", node)
        if isinstance(o, Obj):
            c = self.st.cells[o.cid.id]
            if name in c.fields:
                return c.fields[name]
            if not isinstance(o.cls, str):
                m = self.source.method(o.cls, name)
                if m is not None:
                    if m.is_property():
                        return self.callfn(Fn(m, None, None, o), [], {}, node)
                    if m.is_static():
                        return Fn(m)
                    return Fn(m, None, None, o if not m.is_classmethod() else ClsV(o.cls))
                if name == "__class__":
                    return ClsV(o.cls)
                cc = self.source.class_const(o.cls, name)
                if cc is not None and isinstance(cc[0], (ast.Constant, ast.Tuple)):
                    return self.ev(Frame(self.new_frame(), None, None, cc[1]), cc[0])
            if "@base" in c.fields:
                return Meth(c.fields["@base"], name)
            if name == "log":
                return Ext("log")
            x = self.find_ext("self." + name)
            if x is not None or any(k.startswith(f"self.{name}.") for k in self.contract.externals):
                return Ext("self." + name, o)
            raise Unsupported(f"undeclared attribute {name}", node)
        if isinstance(o, SuperV):
            m = self.source.method(o.ci, name, skip_first=True)
            if m is not None:
                return Fn(m, None, None, o.obj)
            so = self.as_set(o.obj)
            if so is not None and not name.startswith("__"):
                return Meth(so, name)
            return Ext("super." + name, o.obj)
        if isinstance(o, V):
            t = res(o.t)
            if isinstance(t, Ref):
                if self.reg.has_field(t.cls, name):
                    return self.heap_get(o, name)
                ci = self.reg.class_info(self.source, t.cls)
                if ci is not None:
                    m = self.source.method(ci, name)
                    if m is not None:
                        if m.is_property():
                            return self.callfn(Fn(m, None, None, o), [], {}, node)
                        return Fn(m, None, None, o)
                s = self.as_set(o)
                if s is not None:
                    return Meth(s, name)
                return Meth(o, name)
            h = self.find_ext("any.attr:" + name) if t == Any else None
            if h is not None:
                return V(h, uf("attr_" + name, ty.AnySort, sort(h))(o.e)) if isinstance(h, ty.T) else h(self, [o], {})
            return Meth(o, name)
        if isinstance(o, (Mut, TupV, It)):
            if name == "__class__":
                raise Unsupported("__class__", node)
            return Meth(o, name)
        if isinstance(o, ModV):
            m = self.source.module(o.name)
            r = self.source.resolve(m, name)
            if r is None and self.source.module(o.name + "." + name) is not None:
                return ModV(o.name + "." + name)
            if r is None:
                raise Unsupported(f"{o.name}.{name}", node)
            return self.resolved(r, name, node)
        if isinstance(o, Ext):
            full = o.dotted + "." + name
            h = self.find_ext(full)
            if h is not None and not callable(h) and h != "noop":
                # typed attribute
                return self.ext_value(full, h)
            return Ext(full, o.recv)
        if isinstance(o, ClsV):
            if name == "__name__":
                return self.const(self.clsname(o))
            if not isinstance(o.ci, str):
                m = self.source.method(o.ci, name)
                if m is not None:
                    if m.is_classmethod():
                        return Fn(m, None, None, o)
                    return Fn(m)
                cc = self.source.class_const(o.ci, name)
                if cc is not None:
                    return self.ev(Frame(self.new_frame(), None, None, cc[1]), cc[0])
                if name == "__module__":
                    return self.const(o.ci.module.name)
            return Ext(self.clsname(o) + "." + name)
        if isinstance(o, ExcV):
            if name in o.attrs:
                return o.attrs[name]
            if name == "args":
                return TupV(o.args)
            if "obj" in o.attrs:
                return self.getattr_(o.attrs["obj"], name, node)
            return V(Any, z3.Const(f"exc_{o.name}_{name}", ty.AnySort))
        if isinstance(o, Bi):
            return Ext(o.name + "." + name)
        if isinstance(o, Fn):
            if name == "__name__":
                return self.const(o.node.name)
            return Ext("function." + name)
        raise Unsupported(f"attribute {name} of {o!r}", node)

    @method
    def setattr_(self, o, name, v, node):
        o = self.unopt(o, node, "AttributeError")
        if isinstance(o, Obj):
            c = self.st.cells[o.cid.id]
            if not isinstance(o.cls, str):
                m = self.source.method(o.cls, "@set_" + name)
                if m is not None:
                    self.callfn(Fn(m, None, None, o), [v], {}, node)
                    return
            f = dict(c.fields)
            ft = self.objtypes.get((o.cid.id, name))
            if ft is not None and not isinstance(res(ft), (List, Set, Dict)) and isinstance(v, (V,)) or (v is NoneV and ft is not None):
                v = V(ft, self.z(v, ft, node))
            f[name] = v
            self.st.cells[o.cid.id] = CObj(c.cls, f)
            self.note(("obj", o.cid.id, name))
            return
        if isinstance(o, V) and isinstance(res(o.t), Ref):
            if self.reg.has_field(res(o.t).cls, name):
                self.heap_set(o, name, v, node)
                return
        if isinstance(o, Ext):
            h = self.find_ext(o.dotted + "." + name + "=")
            if h is not None:
                h(self, [v], {})
                return
        if isinstance(o, ExcV):
            o.attrs[name] = v
            return
        raise Unsupported(f"attribute assignment {name} on {o!r}", node)

    # ---------------------------------------------------------------- comprehensions
    @method
    def e_ListComp(self, fr, e):
        return self.comp(fr, e.generators, lambda f: self.ev(f, e.elt), "list", e)

    e_GeneratorExp = e_ListComp
    E.e_GeneratorExp = E.e_ListComp

    @method
    def e_SetComp(self, fr, e):
        return self.comp(fr, e.generators, lambda f: self.ev(f, e.elt), "set", e)

    @method
    def e_Yield(self, fr, e):
        h = self.find_ext("yield")
        if h is None or self.depth:
            raise Unsupported("yield", e)
        return h(self, [self.ev(fr, e.value)] if e.value is not None else [], {})

    @method
    def e_DictComp(self, fr, e):
        return self.comp(fr, e.generators, lambda f: TupV([self.ev(f, e.key), self.ev(f, e.value)]), "dict", e)

    @method
    def comp(self, fr, gens, elt, kind, node):
        fid = self.new_frame()
        f = Frame(fid, fr, fr.fi, fr.globs)
        if len(gens) > 1:
            # nested generators: only concrete outer ones
            g = gens[0]
            it = self.iterate(self.ev(f, g.iter), node)
            if it.kind != "conc":
                raise Unsupported("nested symbolic comprehension", node)
            acc = []
            for x in it.items:
                self.assign(f, g.target, x)
                if not all(self.cond(f, c) for c in g.ifs):
                    continue
                m = self.comp(f, gens[1:], elt, kind, node)
                ci = self.conc_items(m)
                if ci is None:
                    raise Unsupported("nested symbolic comprehension", node)
                acc += ci
            return Mut(self.cell(CList(acc)))
        g = gens[0]
        it = self.iterate(self.ev(f, g.iter), node)

        def body(x):
            self.assign(f, g.target, x)
            for c in g.ifs:
                if not self.cond(f, c):
                    return None
            return elt(f)

        return self.build(it, body, bool(g.ifs), kind, node)

    @method
    def build(self, it, body, filtered, kind, node):
        """the container {body(x) for x in it}, where body(x) is None for rejected elements"""
        if it.kind == "seq":
            n = simp(it.n)
            if z3.is_int_value(n) and n.as_long() <= 4:
                it = It("conc", items=[it.at(z3.IntVal(i)) for i in range(n.as_long())])
        if it.kind == "conc":
            out = []
            for x in it.items:
                y = body(x)
                if y is not None:
                    out.append(y)
            if kind == "list":
                return Mut(self.cell(CList(out) if out else COpen(List(TVar()))))
            if kind == "set":
                m = Mut(self.cell(COpen(Set(TVar()))))
                for y in out:
                    self.callmeth(m, "add", [y], {}, node)
                return m
            m = Mut(self.cell(CDict()))
            for y in out:
                self.setitem(m, y.vs[0], y.vs[1], node)
            return m
        # symbolic: evaluate the body once at a generic element
        c0 = self.counter
        if it.kind == "seq":
            g = self.fresh("ci", Int)
            dom = z3.And(0 <= g, g < it.n)
            bv = self.fz(z3.IntSort(), "j")
        else:
            g = self.fresh("ce", it.t)
            dom = it.has(g)
            bv = self.fz(sort(it.t), "y")
        cg = self.counter
        self.assume(dom) if False else None

        def run():
            self.assume(dom)
            x = it.at(g) if it.kind == "seq" else it.mapf(self.wrap(it.t, g))
            return body(x)

        saved_w, self.writes = self.writes, set()
        live = set(self.st.cells)
        lf = set(self.st.frames)
        outs = self.explore(run, quiet=False)
        w = [x for x in self.writes if (x[0] in ("cell", "obj") and x[1] in live) or x[0] == "heap"]
        self.writes = saved_w
        if w:
            raise Unsupported("comprehension with side effects", node)
        oks = [o for o in outs if o[2][0] == "ok"]
        if not filtered and kind == "list" and len(oks) == 1 and oks[0][2][1] is not None and all(o[2][0] in ("ok", "raise") for o in outs) \
                and any(self.has_fresh(x, cg) for o in outs for x in o[0]):
            return self.build_opaque(it, g, dom, cg, oks[0], [o for o in outs if o[2][0] == "raise"])
        accept, cases, raises = [], [], []
        for facts, st, (k, v) in outs:
            facts = [x for x in facts if not x.eq(dom)]
            for x in facts:
                if self.has_fresh(x, cg):
                    raise Unsupported("comprehension body introduces unknowns", node)
            pc = And(*facts)
            if k == "raise":
                raises.append((pc, v))
                continue
            if k != "ok":
                raise Unsupported("control flow in comprehension", node)
            if v is None:
                continue
            keep, self.st = self.st, st
            try:
                vt = self.typeof(v)
                cases.append((pc, vt, v, st))
            finally:
                self.st = keep
        sub = lambda e, x: z3.substitute(e, (g, x))
        # exceptional outcomes: either some element raises, or none does
        for pc, exc in raises:
            b = self.fz(g.sort(), "rx")
            none = z3.ForAll([b], z3.Implies(sub(dom, b), z3.Not(sub(pc, b))))
            w_ = self.fresh("rw", Int if it.kind == "seq" else it.t)
            if self.choose([none, z3.And(sub(dom, w_), sub(pc, w_))]) == 1:
                raise RaiseSig(exc)
        if not cases:
            if kind == "list":
                return Mut(self.cell(COpen(List(TVar()))))
            return Mut(self.cell(COpen(Set(TVar()) if kind == "set" else Dict(TVar(), TVar()))))
        t = cases[0][1]
        for c in cases[1:]:
            j = self.join_t(res(t), res(c[1]))
            if j is None:
                raise Unsupported("comprehension element type", node)
            t = j
        br = "[]" if kind == "list" else "{}"
        if self.contract is not None and br in self.contract.locals and ty.is_open(t):
            t = self.contract.locals[br]  # e.g. {k: None for ...}: the values' type
        exprs = []
        for pc, vt, v, st in cases:
            keep, self.st = self.st, st
            try:
                e = self.z(v, t)
            finally:
                self.st = keep
            if self.has_fresh(e, cg):
                raise Unsupported("comprehension element introduces unknowns", node)
            exprs.append((pc, e))
        val = exprs[-1][1]
        for pc, e in reversed(exprs[:-1]):
            val = z3.If(pc, e, val)
        cond = simp(z3.Or(*[pc for pc, _ in exprs])) if (filtered or raises) else z3.BoolVal(True)
        if filtered:
            cond = simp(z3.Or(*[pc for pc, _ in exprs]))
        else:
            cond = z3.BoolVal(True)
        if kind == "list":
            lt = List(t)
            if it.kind == "seq" and not filtered:
                return Mut(self.cell(ZC(lt, ty.mk(lt, it.n, z3.Lambda([bv], sub(val, bv))))))
            r = self.fresh("flt", lt)
            m = ty.llen(lt, r)
            self.counter += 1
            gi = z3.Function(f"pick#{self.counter}", z3.IntSort(), g.sort())
            hi = z3.Function(f"rank#{self.counter}", g.sort(), z3.IntSort())
            j, j2 = z3.Ints("j!f j2!f")
            x = self.fz(g.sort(), "x")
            self.assume(m >= 0)
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m),
                        z3.And(sub(dom, gi(j)), sub(cond, gi(j)), ty.lat(lt, r, j) == sub(val, gi(j)), hi(gi(j)) == j)),
                        patterns=[gi(j)]))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m),
                        z3.And(sub(dom, gi(j)), sub(cond, gi(j)), ty.lat(lt, r, j) == sub(val, gi(j)))),
                        patterns=[ty.lat(lt, r, j)]))
            self.assume(z3.ForAll([x], z3.Implies(z3.And(sub(dom, x), sub(cond, x)),
                        z3.And(0 <= hi(x), hi(x) < m, gi(hi(x)) == x)), patterns=[hi(x)] + trig(sub(dom, x) if it.kind == "set" else sub(val, x))))
            if it.kind == "set" and z3.is_app(sub(dom, x)) and sub(dom, x).decl().kind() == z3.Z3_OP_SELECT and sub(dom, x).arg(1).eq(x):
                # one entry for each accepted member
                whole = sub(dom, x).arg(0)
                n_all = self.card(Set(it.t), whole)
                self.assume(m <= n_all)
                self.assume(z3.Implies(z3.ForAll([x], z3.Implies(sub(dom, x), sub(cond, x))), m == n_all))
            if it.kind == "seq":
                self.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), gi(j) < gi(j2))))
                self.assume(m <= it.n)
            return Mut(self.cell(ZC(lt, r)))
        if kind == "set":
            stt = Set(t)
            if it.kind == "set" and val.eq(g):
                return Mut(self.cell(ZC(stt, z3.Lambda([bv], z3.And(sub(dom, bv), sub(cond, bv))))))
            y = self.fz(sort(t), "y")
            lam = z3.Lambda([y], z3.Exists([bv], z3.And(sub(dom, bv), sub(cond, bv), sub(val, bv) == y)))
            return Mut(self.cell(ZC(stt, lam)))
        # dict
        kt, vt = t.ts
        dt = Dict(kt, vt)
        ke, ve = ty.acc(t, val, 0), ty.acc(t, val, 1)
        if it.kind == "set" and simp(ke).eq(g):
            d = ty.mk(dt, z3.Lambda([bv], z3.And(sub(dom, bv), sub(cond, bv))), z3.Lambda([bv], sub(ve, bv)))
            return Mut(self.cell(ZC(dt, d)))
        r = self.fresh("dc", dt)
        x = self.fz(g.sort(), "x")
        y = self.fz(sort(kt), "k")
        self.counter += 1
        wit = z3.Function(f"wit#{self.counter}", sort(kt), g.sort())
        self.assume(z3.ForAll([x], z3.Implies(z3.And(sub(dom, x), sub(cond, x)), ty.sel(ty.ddom(dt, r), sub(ke, x)))))
        last = z3.BoolVal(True)
        if it.kind == "seq":
            last = z3.ForAll([x], z3.Implies(z3.And(sub(dom, x), sub(cond, x), sub(ke, x) == y), x <= wit(y)))
        self.assume(z3.ForAll([y], z3.Implies(ty.sel(ty.ddom(dt, r), y),
                    z3.And(sub(dom, wit(y)), sub(cond, wit(y)), sub(ke, wit(y)) == y,
                           ty.sel(ty.dval(dt, r), y) == sub(ve, wit(y)), last))))
        return Mut(self.cell(ZC(dt, r)))

    @method
    def build_opaque(self, it, g, dom, cg, ok, raises):
        """[body(x) for x in it] where the body's value is only known through assumed facts (a callee's contract):
        its unknowns become functions of the element"""
        n = it.n if it.kind == "seq" else None
        if n is None:
            raise Unsupported("comprehension body introduces unknowns")
        pick = self.choose([None] * (1 + len(raises)))
        if pick > 0:
            facts, st, (_, exc) = raises[pick - 1]
            self.assume(dom)  # g is the first element that raises
            for x in facts:
                self.assume(x)
            raise RaiseSig(exc)
        facts, st, (_, v) = ok
        keep, self.st = self.st, st
        try:
            t = self.typeof(v)
            e = self.z(v, t)
        finally:
            self.st = keep
        facts = [x for x in facts if not x.eq(dom)]
        skol = []
        for c in self.fresh_consts(list(facts) + [e], cg):
            self.counter += 1
            f = z3.Function(f"of_elem#{self.counter}", g.sort(), c.sort())
            skol.append((c, f(g)))
        j = self.fz(z3.IntSort(), "j")
        at = lambda x: z3.substitute(z3.substitute(x, *skol) if skol else x, (g, j))
        lt = List(t)
        r = self.fresh("opq", lt)
        self.assume(ty.llen(lt, r) == n)
        body = z3.And(*[at(x) for x in facts], ty.lat(lt, r, j) == at(e))
        self.assume(z3.ForAll([j], z3.Implies(at(dom), body), patterns=[ty.lat(lt, r, j)] + trig(self.z(it.at(j)) if not isinstance(it.at(j), TupV) else it.n)))
        return Mut(self.cell(ZC(lt, r)))

    @method
    def fresh_consts(self, es, c0):
        out, seen, stack = {}, set(), list(es)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                nm = x.decl().name()
                if "#" in nm and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    try:
                        new = int(nm.rsplit("#", 1)[1]) > c0
                    except ValueError:
                        new = False
                    if new and x.num_args() == 0:
                        out[nm] = x
                    elif new:
                        raise Unsupported("comprehension element introduces unknown functions")
                stack.extend(x.children())
        return list(out.values())

    @method
    def has_fresh(self, e, c0):
        """does e mention constants created after counter value c0?"""
        seen, stack = set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_app(x):
                nm = x.decl().name()
                if "#" in nm and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    try:
                        if int(nm.rsplit("#", 1)[1]) > c0:
                            return True
                    except ValueError:
                        pass
                stack.extend(x.children())
        return False

    from .calls import install_calls

    install_calls(E)
