"""Calls: contracts at call sites, inlining, builtins, container methods, externals."""
import ast

import z3

from . import types as ty
from .types import (Any, Bool, Bytes, Dict, Int, List, Opt, Real, Ref, Set, Str, Tup, TVar,
                    res, sort)

# calls that never change program state the contracts talk about
NOOP_EXT = {"log.debug", "log.info", "log.warning", "log.error", "log.critical", "log.warn", "log.exception",
            "warnings.warn", "print", "logging.getLogger"}


def install_calls(E):
    from .evalx import plain, trig
    from .core import (And, Bi, BreakSig, Cell, CDict, CList, ClsV, CObj, COpen, ContinueSig, ELoc,
                       EXC_BUILTINS, ExcV, Ext, Fn, Frame, HLoc, It, Meth, ModV, Mut, NoneV, Obj, PathEnd,
                       RaiseSig, ReturnSig, SliceV, SuperV, TupV, Unsupported, V, Val, ZC, lit, simp, uf)

    def method(f):
        setattr(E, f.__name__, f)
        return f

    @method
    def e_Call(self, fr, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f.fi is None or f.fi.cls is None:
                f = f.parent
                if f is None:
                    raise Unsupported("super()", e)
            first = f.fi.node.args.args[0].arg
            return SuperV(self.st.frames[f.fid][first], f.fi.cls)
        # logging: arguments are not evaluated for effects
        fn = self.ev(fr, e.func)
        if isinstance(fn, Ext) and (fn.dotted in NOOP_EXT or fn.dotted.startswith("log.") or fn.dotted.endswith(".log.debug")):
            self.assumed.add("logging and warnings have no effect on the specified state")
            return NoneV
        kw = {}
        if isinstance(fn, Ext) and e.args and isinstance(e.args[-1], ast.Starred) and callable(self.find_ext(fn.dotted)):
            # an assumed callee may take the last starred sequence whole
            args, last = self.elts(fr, e.args[:-1]), self.ev(fr, e.args[-1].value)
            it = self.iterate(last, e)
            if it.kind == "conc":
                args = args + list(it.items)
            else:
                kw["*"] = last
        else:
            args = self.elts(fr, e.args)
        for k in e.keywords:
            if k.arg is None:
                m = self.ev(fr, k.value)
                if isinstance(m, Mut) and isinstance(self.content(m.loc), CDict):
                    for kk, (p, x) in self.content(m.loc).d.items():
                        if self.decide(p):
                            kw[kk] = x
                elif isinstance(m, Mut) and isinstance(self.content(m.loc), COpen):
                    pass
                elif isinstance(fn, Ext) or (isinstance(fn, Fn) and fn.node.args.kwarg is not None and isinstance(m, Mut)):
                    kw["**"] = m
                else:
                    raise Unsupported("** of symbolic mapping", e)
            else:
                kw[k.arg] = self.ev(fr, k.value)
        return self.call(fn, args, kw, e, fr)

    @method
    def find_ext(self, name):
        if self.contract is not None and name in self.contract.externals:
            return self.contract.externals[name]
        return self.reg.externals.get(name)

    @method
    def ext_value(self, name, h):
        self.assumed.add(f"external: {name} returns an arbitrary value of type {h}")
        return self.freshv(name.replace(".", "_"), h)

    @method
    def call(self, fn, args, kw, node, fr=None):
        if isinstance(fn, Fn):
            return self.callfn(fn, args, kw, node)
        if isinstance(fn, ClsV):
            return self.construct(fn, args, kw, node)
        if isinstance(fn, Bi):
            return self.call_builtin(fn.name, args, kw, node)
        if isinstance(fn, Meth):
            return self.callmeth(fn.recv, fn.name, args, kw, node)
        if isinstance(fn, Ext):
            h = self.find_ext(fn.dotted)
            if fn.dotted == "collections.deque" and h is None and not kw:
                return self.b_list(args, kw, node, kind="deque")
            if h is None:
                short = fn.dotted.split(".")[-1]
                h = self.find_ext("*." + short)
            if h is None:
                if fn.dotted.startswith("super.") and fn.dotted.endswith("__init__"):
                    return NoneV
                kind, _, meth = fn.dotted.rpartition(".")
                if kind in ("dict", "list", "set") and args:
                    # the builtin's own method, on the container an instance is
                    o = args[0]
                    if isinstance(o, Obj):
                        o = self.st.cells[o.cid.id].fields.get("@base", o)
                    elif self.as_set(o) is not None:
                        o = self.as_set(o)
                    if isinstance(o, Mut):
                        if meth == "__getitem__":
                            return self.getitem(o, args[1], node)
                        if meth == "__setitem__":
                            self.setitem(o, args[1], args[2], node)
                            return NoneV
                        if not meth.startswith("__"):
                            return self.callmeth(o, meth, args[1:], kw, node)
                raise Unsupported(f"call of external {fn.dotted}", node)
            if isinstance(h, ty.T):
                return self.ext_value(fn.dotted, h)
            if h is None or h == "noop":
                self.assumed.add(f"external: {fn.dotted} has no effect on the specified state")
                return NoneV
            self.assumed.add(f"external: {fn.dotted} follows its assumed contract")
            if fn.recv is not None and getattr(h, "wants_recv", False):
                return h(self, [fn.recv] + args, kw)
            return h(self, args, kw)
        if isinstance(fn, V) and res(fn.t) == Any:
            h = self.find_ext("any.__call__")
            if h is not None:
                return h(self, [fn] + args, kw)
        if isinstance(fn, V) and isinstance(res(fn.t), Ref):
            h = self.find_ext(res(fn.t).cls + ".__call__")
            if h is not None:
                return h(self, [fn] + args, kw)
        if isinstance(fn, Obj) and not isinstance(fn.cls, str):
            m = self.source.method(fn.cls, "__call__")
            if m is not None:
                return self.callfn(Fn(m, None, None, fn), args, kw, node)
        raise Unsupported(f"call of {fn!r}", node)

    @method
    def bind(self, fi, node_fn, selfv, args, kw, node, deffr):
        a = node_fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = ([selfv] if selfv is not None else []) + list(args)
        if len(pos) > len(names) and a.vararg is None:
            self.throw("TypeError", node)
        for n, v in zip(names, pos):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = TupV(pos[len(names):])
        kw = dict(kw)
        for n in names[len(pos):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        for k in list(kw):
            if k in names:
                self.throw("TypeError", node)  # multiple values
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n not in defaults:
                    self.throw("TypeError", node)
                env[n] = self.ev(deffr, defaults[n])
        if a.kwarg is not None and "**" in kw:
            if len(kw) > 1 or any(n not in env for n in names + [x.arg for x in a.kwonlyargs]):
                raise Unsupported("** of symbolic mapping next to keywords", node)
            self.assumed.add("no keyword of a symbolic ** mapping has the name of a positional parameter")
            t, e = self.symbolic(kw["**"])
            env[a.kwarg.arg] = Mut(self.cell(ZC(t, e)))
            return env
        if a.kwarg is not None:
            env[a.kwarg.arg] = Mut(self.cell(CDict({k: (z3.BoolVal(True), v) for k, v in kw.items()})))
        elif kw:
            self.throw("TypeError", node)
        return env

    @method
    def callfn(self, fn, args, kw, node):
        fi = fn.fi
        ext = self.find_ext(fi.qual) if fi.qual else None
        if ext is not None:
            if isinstance(ext, ty.T):
                return self.ext_value(fi.qual, ext)
            if ext == "noop":
                self.assumed.add(f"assumed contract: {fi.qual} has no effect on the specified state")
                return NoneV
            self.assumed.add(f"assumed contract: {fi.qual}")
            return ext(self, ([fn.selfv] if fn.selfv is not None else []) + args, kw)
        c = self.reg.contracts.get(fi.qual)
        if c is not None and not c.inline and self.reg.use_contract(self, c, fn):
            return self.call_contract(c, fn, args, kw, node)
        if self.depth > self.MAXDEPTH:
            raise Unsupported(f"inlining too deep at {fi.qual}", node)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
            raise Unsupported(f"generator {fi.qual}", node)
        for d in fi.decorators:
            if d in ("property", "staticmethod", "classmethod"):
                continue
            self.assumed.add(f"decorator dropped: @{d} on {fi.qual}")
        self.inlined.add(fi.qual)
        deffr = fn.fid if isinstance(fn.fid, Frame) else Frame(self.new_frame(), None, None, fi.module)
        env = self.bind(fi, fn.node, fn.selfv, args, kw, node, deffr)
        fr = Frame(self.new_frame(env), fn.fid if isinstance(fn.fid, Frame) else None, fi, fi.module)
        self.depth += 1
        try:
            self.block(fr, fn.node.body)
            return NoneV
        except ReturnSig as r:
            return r.v
        except RecursionError:
            raise Unsupported("recursion", node)
        finally:
            self.depth -= 1

    @method
    def call_contract(self, c, fn, args, kw, node):
        from .spec import Ctx

        self.called.add(c.qual)
        deffr = Frame(self.new_frame(), None, None, fn.fi.module)
        env = self.bind(fn.fi, fn.node, fn.selfv, args, kw, node, deffr)
        # coerce arguments to the contract's parameter types
        for p, t in c.params.items():
            if p in env and isinstance(t, ty.T) and not isinstance(res(t), (List, Set, Dict)):
                env[p] = V(t, self.z(env[p], t, node)) if not isinstance(res(t), Tup) else env[p]
            elif p in env and isinstance(t, ty.T) and isinstance(env[p], Mut):
                self.symbolic(env[p], t)
            elif p in env and isinstance(t, ty.T) and not isinstance(env[p], Mut):
                env[p] = self.wrap(t, self.z(env[p], t, node))
        old = self.st.copy()
        ctx = Ctx(self, env, old, selfv=fn.selfv)
        if c.assigns_pre:
            c.assigns_pre(ctx)
        for nm, g in c.requires(ctx).items():
            self.emit(f"pre:{c.name}:{nm}", g, node)
        # frame: havoc what the callee may modify
        for m in c.modifies:
            self.havoc_named(m, env, fn.selfv)
        # exceptional outcome
        outs = [None] + list(c.raises)
        i = self.choose([None] * len(outs)) if len(outs) > 1 else 0
        if i > 0:
            exc = outs[i]
            cond = c.raises[exc]
            if callable(cond):
                octx = Ctx(self, env, old, selfv=fn.selfv)
                r = cond(octx)
                for g in (r.values() if isinstance(r, dict) else [r]):
                    self.assume(g if not isinstance(g, bool) else z3.BoolVal(g))
            raise RaiseSig(ExcV(exc))
        if c.value is not None:
            ctx.result = V(c.returns, c.value(ctx))
        elif c.returns is None:
            ctx.result = NoneV
        elif callable(c.returns) and not isinstance(c.returns, ty.T):
            ctx.result = c.returns(self, ctx)
        else:
            ctx.result = self.freshv("ret_" + c.name, c.returns) if not isinstance(res(c.returns), Tup) else \
                self.wrap(c.returns, self.fresh("ret_" + c.name, c.returns))
        for nm, g in c.ensures(ctx).items():
            self.assume(g if not isinstance(g, bool) else z3.BoolVal(g))
        return ctx.result

    @method
    def spoil(self, v):
        """a record a callee may have changed: nothing is known of it (or of what it holds) afterwards"""
        if not isinstance(v, Mut):
            return
        c = self.content(v.loc)
        if isinstance(c, CDict):
            self.put(v.loc, ZC(Any, self.fresh("spoilt", Any)))
            for _, x in c.d.values():
                self.spoil(x)
        else:
            t, e = self.symbolic(v)
            self.put(v.loc, ZC(t, self.fresh("spoilt", t)))

    @method
    def havoc_named(self, m, env, selfv):
        if isinstance(m, tuple):  # heap field
            old = self.harr(*m)
            self.counter += 1
            self.st.heap[m] = z3.Const(f"H_{m[0]}_{m[1]}#{self.counter}", old.sort())
            self.note(("heap",) + m)
            return
        if m.startswith("ghost:"):
            self.gset(m[6:], self.freshv("g_" + m[6:], self.gtypes[m[6:]]))
            return
        if m.startswith("arg:"):
            v = env.get(m[4:])
            if isinstance(v, Mut) and isinstance(self.content(v.loc), CDict):
                self.spoil(v)
                return
            if isinstance(v, Mut):
                t, e = self.symbolic(v)
                x = self.fresh("a_" + m[4:], t)
                self.wf(t, x)
                self.put(v.loc, ZC(t, x))
            return
        if not isinstance(selfv, Obj):
            raise Unsupported(f"frame {m}")
        c = self.st.cells[selfv.cid.id]
        v = c.fields[m]
        if isinstance(v, Mut):
            t, e = self.symbolic(v, self.objtypes.get((selfv.cid.id, m)))
            x = self.fresh("f_" + m, t)
            self.wf(t, x)
            self.put(v.loc, ZC(t, x))
        else:
            f = dict(c.fields)
            f[m] = self.freshv("f_" + m, self.objtypes[(selfv.cid.id, m)])
            self.st.cells[selfv.cid.id] = CObj(c.cls, f)
            self.note(("obj", selfv.cid.id, m))

    # ------------------------------------------------------------ ghosts
    @method
    def gget(self, name):
        return self.st.cells[self.ghost.id].fields[name]

    @method
    def gset(self, name, v):
        c = self.st.cells[self.ghost.id]
        f = dict(c.fields)
        f[name] = v
        self.st.cells[self.ghost.id] = CObj(c.cls, f)
        self.note(("obj", self.ghost.id, name))

    # ------------------------------------------------------------ construction
    @method
    def construct(self, cv, args, kw, node):
        name = self.clsname(cv)
        if isinstance(cv.ci, str):
            if cv.ci in EXC_BUILTINS:
                return ExcV(cv.ci, args, {"line": node.lineno})
            raise Unsupported(f"construct {cv.ci}", node)
        h = self.find_ext("new:" + name)
        if h is not None:
            self.assumed.add(f"assumed contract: construction of {name}")
            return h(self, args, kw)
        if self.source.exc_is(name, "Exception", cv.ci.module):
            return ExcV(name, args, {"line": node.lineno, "args": TupV(args)})
        if self.reg.is_heap_class(name):
            ref = V(Ref(name), self.fresh("new_" + name, Ref(name)))
            for r in self.newrefs:
                self.assume(ref.e != r)
            for r in self.oldrefs(name):
                self.assume(r(ref.e))
            self.newrefs.append(ref.e)
            init = self.source.method(cv.ci, "__init__")
            if init is not None:
                bt = self.reg.base_container(name)
                if bt is not None:
                    self.hset(name, "@base", ref.e, ty.empty(bt))
                self.callfn(Fn(init, None, None, ref), args, kw, node)
            return ref
        # meta-level object
        fields = {}
        for c in self.source.mro(cv.ci):
            if isinstance(c, str) and c in ("set", "list", "dict"):
                fields["@base"] = Mut(self.cell(COpen(Set(TVar()) if c == "set" else List(TVar()) if c == "list" else Dict(TVar(), TVar()))))
        o = Obj(self.cell(CObj(cv.ci, fields)), cv.ci)
        init = self.source.method(cv.ci, "__init__")
        if init is not None:
            self.callfn(Fn(init, None, None, o), args, kw, node)
        elif "@base" in fields and args:
            self.callmeth(fields["@base"], "update" if res(self.content(fields["@base"].loc).t).__class__ is Set else "extend", args, kw, node)
        return o

    @method
    def oldrefs(self, name):
        return self.reg.alloc_facts(self, name)

    # ------------------------------------------------------------ builtins
    @method
    def call_builtin(self, name, args, kw, node):
        h = getattr(self, "b_" + name, None)
        ext = self.find_ext(name)
        if ext is not None and not isinstance(ext, ty.T) and ext != "noop":
            r = ext(self, args, kw)
            if r is not None:
                return r
        elif ext == "noop":
            return NoneV
        if h is None:
            raise Unsupported(f"builtin {name}", node)
        return h(args, kw, node)

    @method
    def b_len(self, args, kw, node):
        v = self.unopt(args[0], node)
        if v is NoneV:
            self.throw("TypeError", node)
        if isinstance(v, TupV):
            return self.const(len(v.vs))
        if isinstance(v, It):
            if v.kind == "conc":
                return self.const(len(v.items))
            if v.kind == "seq":
                return V(Int, v.n)
        s = self.as_set(v)
        if isinstance(v, Obj) and not isinstance(v.cls, str):
            m = self.source.method(v.cls, "__len__")
            if m is not None:
                return self.callfn(Fn(m, None, None, v), [], {}, node)
        if s is not None:
            v = s
        if isinstance(v, Mut):
            c = self.content(v.loc)
            if isinstance(c, COpen):
                return self.const(0)
            if isinstance(c, CList):
                return self.const(len(c.items))
            if isinstance(c, CDict):
                e = z3.IntVal(0)
                for p, _ in c.d.values():
                    e = e + z3.If(p, 1, 0)
                return V(Int, simp(e))
            t, e = res(c.t), c.e
        elif isinstance(v, V) and isinstance(res(v.t), (List, Set, Dict)):
            t, e = res(v.t), v.e
        elif isinstance(v, V) and res(v.t) in (Str, Bytes):
            if v.lit is not None:
                return self.const(len(v.lit))
            n = uf("len_" + res(v.t).name, sort(v.t), z3.IntSort())(v.e)
            self.assume(n >= 0)
            self.assume((n == 0) == (v.e == lit(res(v.t), "" if res(v.t) == Str else b"")))
            return V(Int, n)
        else:
            h = self.find_ext("any.__len__")
            if h is not None and isinstance(v, V):
                return h(self, [v], {})
            if isinstance(v, V) and res(v.t) in (Int, Real, Bool):
                self.throw("TypeError", node)
            raise Unsupported(f"len of {v!r}", node)
        if isinstance(t, List):
            return V(Int, ty.llen(t, e))
        if isinstance(t, Set):
            return V(Int, self.card(t, e))
        return V(Int, self.card(Set(t.k), ty.ddom(t, e)))

    @method
    def b_range(self, args, kw, node):
        es = [self.z(self.unopt(a, node), Int, node) for a in args]
        if len(es) == 1:
            lo, hi, st = z3.IntVal(0), es[0], z3.IntVal(1)
        elif len(es) == 2:
            lo, hi, st = es[0], es[1], z3.IntVal(1)
        else:
            lo, hi, st = es
        s = simp(st)
        if z3.is_int_value(s) and s.as_long() == 1:
            n = simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            return It("seq", n=n, at=lambda i: V(Int, simp(lo + i)))
        if z3.is_int_value(s) and s.as_long() == -1:
            n = simp(z3.If(lo > hi, lo - hi, z3.IntVal(0)))
            return It("seq", n=n, at=lambda i: V(Int, simp(lo - i)))
        self.need(st != 0, "ValueError", node)
        if not self.decide(st > 0):
            raise Unsupported("range with negative step", node)
        m = self.fresh("m", Int)
        self.assume(z3.And(m >= 0, z3.If(hi > lo, z3.And(lo + (m - 1) * st < hi, lo + m * st >= hi), m == 0)))
        return It("seq", n=m, at=lambda i: V(Int, lo + i * st))

    @method
    def b_enumerate(self, args, kw, node):
        it = self.iterate(args[0], node)
        start = args[1] if len(args) > 1 else kw.get("start")
        s = self.z(start, Int) if start is not None else z3.IntVal(0)
        if it.kind == "conc":
            return It("conc", items=[TupV([V(Int, simp(s + i)), x]) for i, x in enumerate(it.items)])
        if it.kind == "seq":
            return It("seq", n=it.n, at=lambda i: TupV([V(Int, simp(s + i)), it.at(i)]), src=it.src)
        raise Unsupported("enumerate of a set", node)

    @method
    def b_zip(self, args, kw, node):
        its = [self.iterate(a, node) for a in args]
        if all(i.kind == "conc" for i in its):
            return It("conc", items=[TupV(x) for x in zip(*[i.items for i in its])])
        its2 = []
        for i in its:
            if i.kind == "conc":
                m = Mut(self.cell(CList(i.items)))
                self.symbolic(m)
                i = self.iterate(m, node)
            if i.kind != "seq":
                raise Unsupported("zip of a set", node)
            its2.append(i)
        n = its2[0].n
        for i in its2[1:]:
            n = z3.If(i.n < n, i.n, n)
        return It("seq", n=n, at=lambda k: TupV([i.at(k) for i in its2]))

    @method
    def b_list(self, args, kw, node, kind="list"):
        if not args:
            return Mut(self.cell(COpen(List(TVar(), kind))))
        it = self.iterate(args[0], node)
        if it.kind == "conc":
            return Mut(self.cell(CList(it.items, kind) if it.items else COpen(List(TVar(), kind))))
        return self.build(it, lambda x: x, it.kind == "set", "list", node)

    @method
    def b_iter(self, args, kw, node):
        return self.iterate(args[0], node)

    @method
    def b_tuple(self, args, kw, node):
        if not args:
            return TupV([])
        it = self.iterate(args[0], node)
        if it.kind == "conc":
            return TupV(it.items)
        return self.b_list(args, kw, node)

    @method
    def b_set(self, args, kw, node):
        m = Mut(self.cell(COpen(Set(TVar()))))
        if args:
            self.callmeth(m, "update", args, {}, node)
        return m

    b_frozenset = b_set
    E.b_frozenset = b_set

    @method
    def b_dict(self, args, kw, node):
        m = Mut(self.cell(CDict()))
        if args:
            src = args[0]
            if isinstance(src, Mut) and (isinstance(self.content(src.loc), (CDict, ZC, COpen))) and not isinstance(
                    getattr(self.content(src.loc), "t", None), List):
                self.callmeth(m, "update", [src], {}, node)
            else:
                it = self.iterate(src, node)
                if it.kind == "conc":
                    for x in it.items:
                        k, v = self.unpack(x, 2, node)
                        self.setitem(m, k, v, node)
                else:
                    m = self.build(it, lambda x: TupV(self.unpack(x, 2, node)), False, "dict", node)
        for k, v in kw.items():
            self.setitem(m, self.const(k), v, node)
        return m

    @method
    def minmax(self, args, kw, node, ismin):
        if "key" in kw:
            raise Unsupported("min/max with key", node)
        if len(args) > 1:
            vs = list(args)
        else:
            it = self.iterate(args[0], node)
            if it.kind == "conc":
                vs = it.items
                if not vs:
                    if "default" in kw:
                        return kw["default"]
                    self.throw("ValueError", node)
            else:
                if it.kind == "seq":
                    if not self.decide(it.n > 0):
                        if "default" in kw:
                            return kw["default"]
                        self.throw("ValueError", node)
                    w = self.fresh("mi", Int)
                    x = it.at(w)
                    self.assume(z3.And(0 <= w, w < it.n))
                    j = self.fz(z3.IntSort(), "j!mm")
                    y = it.at(j)
                    t = res(x.t)
                    if t not in (Int, Real):
                        raise Unsupported("min/max element type", node)
                    self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.n),
                                                          x.e <= y.e if ismin else x.e >= y.e)))
                    return x
                t = res(it.t)
                if t not in (Int, Real):
                    raise Unsupported("min/max over set", node)
                y = self.fz(sort(t), "y!mm")
                if not self.decide(z3.Exists([y], it.has(y))):
                    if "default" in kw:
                        return kw["default"]
                    self.throw("ValueError", node)
                x = self.fresh("mm", t)
                self.assume(it.has(x))
                self.assume(z3.ForAll([y], z3.Implies(it.has(y), x <= y if ismin else x >= y)))
                return V(t, x)
        t = Int
        for v in vs:
            v2 = self.unopt(v, node)
            if not isinstance(v2, V) or res(v2.t) not in (Int, Real, Bool):
                raise Unsupported("min/max element type", node)
            if res(v2.t) == Real:
                t = Real
        acc = self.z(vs[0], t)
        for v in vs[1:]:
            e = self.z(v, t)
            acc = z3.If(e < acc, e, acc) if ismin else z3.If(e > acc, e, acc)
        return V(t, simp(acc))

    @method
    def b_min(self, args, kw, node):
        return self.minmax(args, kw, node, True)

    @method
    def b_max(self, args, kw, node):
        return self.minmax(args, kw, node, False)

    @method
    def b_sum(self, args, kw, node):
        it = self.iterate(args[0], node)
        if it.kind == "conc":
            acc = args[1] if len(args) > 1 else self.const(0)
            for x in it.items:
                acc = self.binop("Add", acc, x, node)
            return acc
        if it.kind == "seq":
            i = self.fz(z3.IntSort(), "i!sum")
            x = it.at(i)
            if not isinstance(x, V) or res(x.t) not in (Int, Real, Bool):
                raise Unsupported("sum element", node)
            t = Real if res(x.t) == Real else Int
            arr = z3.Lambda([i], self.z(x, t))
            s = uf("sum_" + t.name, z3.ArraySort(z3.IntSort(), sort(t)), z3.IntSort(), sort(t))
            r = s(arr, it.n)
            self.assume(s(arr, z3.IntVal(0)) == 0)
            # sums of non-negative terms: non-negative, and zero iff all terms are zero
            j = self.fz(z3.IntSort(), "j!sum")
            xj = z3.substitute(self.z(x, t), (i, j))
            nonneg = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.n), xj >= 0))
            allzero = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < it.n), xj == 0))
            self.assume(z3.Implies(nonneg, r >= 0))
            self.assume(z3.Implies(nonneg, (r == 0) == allzero))
            return V(t, r)
        raise Unsupported("sum over a set", node)

    @method
    def quant(self, v, node, isany):
        it = self.iterate(v, node)
        if it.kind == "conc":
            es = [self.truth(x, node) for x in it.items]
            if isany:
                return V(Bool, z3.Or(*es) if es else z3.BoolVal(False))
            return V(Bool, z3.And(*es) if es else z3.BoolVal(True))
        if it.kind == "seq":
            i = self.fz(z3.IntSort(), "i!q")
            b = self.truth(it.at(i), node)
            rng = z3.And(0 <= i, i < it.n)
        else:
            i = self.fz(sort(it.t), "x!q")
            b = self.truth(it.mapf(self.wrap(it.t, i)), node)
            rng = it.has(i)
        if isany:
            return V(Bool, z3.Exists([i], z3.And(rng, b)))
        return V(Bool, z3.ForAll([i], z3.Implies(rng, b)))

    @method
    def b_any(self, args, kw, node):
        return self.quant(args[0], node, True)

    @method
    def b_all(self, args, kw, node):
        return self.quant(args[0], node, False)

    @method
    def b_filter(self, args, kw, node):
        f, xs = args
        it = self.iterate(xs, node)
        body = lambda x: x if (self.test(x) if f is NoneV else self.test(self.call(f, [x], {}, node), node)) else None
        return self.iterate(self.build(it, body, True, "list", node), node)

    @method
    def b_map(self, args, kw, node):
        f = args[0]
        it = self.iterate(args[1], node) if len(args) == 2 else self.b_zip(args[1:], {}, node)
        body = (lambda x: self.call(f, [x], {}, node)) if len(args) == 2 else (
            lambda x: self.call(f, list(x.vs), {}, node))
        return self.iterate(self.build(it, body, it.kind == "set", "list", node), node)

    @method
    def b_reversed(self, args, kw, node):
        it = self.iterate(args[0], node)
        if it.kind == "conc":
            return It("conc", items=list(reversed(it.items)))
        if it.kind == "seq":
            return It("seq", n=it.n, at=lambda i: it.at(it.n - 1 - i))
        raise Unsupported("reversed", node)

    @method
    def b_sorted(self, args, kw, node):
        it = self.iterate(args[0], node)
        if it.kind == "conc" and len(it.items) <= 1:
            return Mut(self.cell(CList(it.items)))
        if it.kind == "conc" and all(self.lit_of(x) is not None for x in it.items) and not kw:
            return Mut(self.cell(CList([self.const(x) for x in sorted(self.lit_of(x) for x in it.items)])))
        if it.kind == "conc":
            m = Mut(self.cell(CList(it.items)))
            self.symbolic(m)
            it = self.iterate(m)
        if it.kind == "set":
            it = self.iterate(self.build(it, lambda x: x, True, "list", node), node)
        # a permutation of the input, non-decreasing under the key when it is numeric
        i, j = z3.Ints("i!so j!so")
        x = it.at(i)
        t = self.typeof(x)
        lt = List(t)
        r = self.fresh("sorted", lt)
        self.counter += 1
        p = z3.Function(f"perm#{self.counter}", z3.IntSort(), z3.IntSort())
        q = z3.Function(f"perminv#{self.counter}", z3.IntSort(), z3.IntSort())
        n = it.n
        self.assume(ty.llen(lt, r) == n)
        xe = self.z(x, t)
        rng = z3.And(0 <= i, i < n)
        at = lambda k: z3.substitute(xe, (i, k))
        self.assume(z3.ForAll([i], z3.Implies(rng, z3.And(0 <= p(i), p(i) < n, q(p(i)) == i,
                                                          ty.lat(lt, r, i) == at(p(i)))),
                              patterns=[p(i)]))
        self.assume(z3.ForAll([i], z3.Implies(rng, ty.lat(lt, r, i) == at(p(i))), patterns=[ty.lat(lt, r, i)]))
        self.assume(z3.ForAll([i], z3.Implies(rng, z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)] + trig(xe)))
        kf = kw.get("key")
        if kf is not None and kf is not NoneV and not (kw.get("reverse") is not None and self.test(kw["reverse"])):
            keys = self.build(it, lambda x: self.call(kf, [x], {}, node), False, "list", node)
            kl = self.symbolic(keys)
            ke = res(kl[0]).e
            order = (lambda v: v) if res(ke) in (Int, Real) else self.find_ext("order:" + res(ke).name)
            if order is not None:
                ck = lambda k: order(ty.lat(kl[0], kl[1], p(k)))
                self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), ck(i) <= ck(j))))
        elif not kw:
            k1 = k2 = None
            if res(t) in (Int, Real):
                k1, k2 = ty.lat(lt, r, i), ty.lat(lt, r, j)
            elif isinstance(res(t), Ref) and self.reg.order_key(res(t).cls) is not None:
                kf = self.reg.order_key(res(t).cls)
                k1, k2 = kf(self, ty.lat(lt, r, i)), kf(self, ty.lat(lt, r, j))
            if k1 is not None:
                self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), k1 <= k2)))
        return Mut(self.cell(ZC(lt, r)))

    @method
    def b_slice(self, args, kw, node):
        if len(args) == 1:
            return SliceV(NoneV, args[0], NoneV)
        return SliceV(args[0], args[1], args[2] if len(args) > 2 else NoneV)

    @method
    def b_isinstance(self, args, kw, node):
        v, c = args
        return V(Bool, self.isinst(v, c, node))

    @method
    def isinst(self, v, c, node):
        if isinstance(c, TupV):
            return z3.Or(*[self.isinst(v, x, node) for x in c.vs]) if c.vs else z3.BoolVal(False)
        if isinstance(c, Bi):
            cn = c.name
        elif isinstance(c, ClsV):
            cn = self.clsname(c)
        elif isinstance(c, Ext):
            cn = c.dotted.split(".")[-1]
        elif isinstance(c, Mut):
            return z3.Or(*[self.isinst(v, x, node) for x in self.iterate(c).items])
        elif isinstance(c, Fn):
            raise Unsupported("isinstance", node)
        else:
            raise Unsupported("isinstance class", node)
        if v is NoneV:
            return z3.BoolVal(cn in ("NoneType", "object"))
        if isinstance(v, SliceV):
            return z3.BoolVal(cn in ("slice", "object"))
        if isinstance(v, V):
            t = res(v.t)
            if isinstance(t, Opt):
                inner = self.isinst(self.wrap(t.t, ty.oval(t, v.e)), c, node)
                return z3.And(z3.Not(ty.ois_none(t, v.e)), inner)
            if t == Any:
                h = self.find_ext("any.isinstance")
                if h is not None:
                    r = h(self, v, cn)
                    if r is not None:
                        return r
                r = uf("isinst_" + cn, ty.AnySort, z3.BoolSort())(v.e)
                return r if cn in ("NoneType", "object") else z3.And(v.e != z3.Const("any!None", ty.AnySort), r)
            if t == Int:
                return z3.BoolVal(cn in ("int", "Integral", "Number", "object"))
            if t == Bool:
                return z3.BoolVal(cn in ("bool", "int", "Integral", "object"))
            if t == Real:
                return z3.BoolVal(cn in ("float", "Number", "object", "Real"))
            if t == Str:
                return z3.BoolVal(cn in ("str", "object"))
            if t == Bytes:
                return z3.BoolVal(cn in ("bytes", "object"))
            if isinstance(t, List):
                return z3.BoolVal(cn in (t.kind, "object", "Iterable", "Sequence"))
            if isinstance(t, Ref):
                ci = self.reg.class_info(self.source, t.cls)
                h = self.find_ext("ref.isinstance")
                if h is not None:
                    r = h(self, v, cn)
                    if r is not None:
                        return r
                if t.cls == cn or cn == "object":
                    return z3.BoolVal(True)
                if ci is not None:
                    names = [x if isinstance(x, str) else x.name for x in self.source.mro(ci)]
                    return z3.BoolVal(cn in [n.split(".")[-1] for n in names])
                return z3.BoolVal(False)
        if isinstance(v, TupV):
            return z3.BoolVal(cn in ("tuple", "object", "Iterable", "Sequence"))
        if isinstance(v, Mut):
            k = self.content(v.loc)
            if isinstance(k, CDict):
                return z3.BoolVal(cn in ("dict", "object", "Iterable", "Mapping"))
            if isinstance(k, CList):
                return z3.BoolVal(cn in (k.kind, "object", "Iterable", "Sequence"))
            t = res(k.t)
            if isinstance(t, List):
                return z3.BoolVal(cn in (t.kind, "object", "Iterable", "Sequence"))
            if isinstance(t, Set):
                return z3.BoolVal(cn in ("set", "object", "Iterable"))
            return z3.BoolVal(cn in ("dict", "object", "Iterable", "Mapping"))
        if isinstance(v, Obj):
            if isinstance(v.cls, str):
                return z3.BoolVal(v.cls == cn)
            names = [x if isinstance(x, str) else x.name for x in self.source.mro(v.cls)]
            return z3.BoolVal(cn in [n.split(".")[-1] for n in names] or cn == "object")
        if isinstance(v, ExcV):
            return z3.BoolVal(self.source.exc_is(v.name, cn, None))
        if isinstance(v, (Fn, ClsV)):
            return z3.BoolVal(cn in ("FunctionType", "object", "Callable") if isinstance(v, Fn) else cn in ("type", "object"))
        raise Unsupported(f"isinstance of {v!r}", node)

    @method
    def b_int(self, args, kw, node):
        if not args:
            return self.const(0)
        v = self.unopt(args[0], node)
        if v is NoneV:
            self.throw("TypeError", node)
        if isinstance(v, V):
            t = res(v.t)
            if t in (Int, Bool):
                return V(Int, self.z(v, Int), int(v.lit) if v.lit is not None else None)
            if t == Real:
                return V(Int, z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
            if t == Str:
                if isinstance(v.lit, str):
                    try:
                        return self.const(int(v.lit))
                    except ValueError:
                        self.throw("ValueError", node)
                ok = uf("is_int_str", ty.StrSort, z3.BoolSort())(v.e)
                self.need(ok, "ValueError", node)
                return V(Int, uf("int_of_str", ty.StrSort, z3.IntSort())(v.e))
        raise Unsupported("int()", node)

    @method
    def b_float(self, args, kw, node):
        v = self.unopt(args[0], node)
        if isinstance(v, V) and res(v.t) in (Int, Real, Bool):
            return V(Real, self.z(v, Real))
        raise Unsupported("float()", node)

    @method
    def b_bool(self, args, kw, node):
        if not args:
            return self.const(False)
        return V(Bool, self.truth(args[0], node))

    @method
    def b_str(self, args, kw, node):
        if not args:
            return self.const("")
        v = args[0]
        if isinstance(v, V) and res(v.t) == Str:
            return v
        if isinstance(v, V) and res(v.t) == Int:
            f = uf("str_of_int", z3.IntSort(), ty.StrSort)
            g = uf("int_of_str", ty.StrSort, z3.IntSort())
            self.assume(z3.And(g(f(v.e)) == v.e, uf("is_int_str", ty.StrSort, z3.BoolSort())(f(v.e))))
            return V(Str, f(v.e))
        self.counter += 1
        return V(Str, z3.Const(f"str#{self.counter}", ty.StrSort))

    @method
    def b_repr(self, args, kw, node):
        self.counter += 1
        return V(Str, z3.Const(f"repr#{self.counter}", ty.StrSort))

    @method
    def b_bytes(self, args, kw, node):
        v = args[0] if args else self.const(b"")
        if isinstance(v, V) and res(v.t) == Bytes:
            return v
        raise Unsupported("bytes()", node)

    @method
    def b_abs(self, args, kw, node):
        v = args[0]
        return V(v.t, z3.If(v.e >= 0, v.e, -v.e))

    @method
    def b_type(self, args, kw, node):
        v = args[0]
        if isinstance(v, Obj) and not isinstance(v.cls, str):
            return ClsV(v.cls)
        if isinstance(v, V) and isinstance(res(v.t), Ref):
            ci = self.reg.class_info(self.source, res(v.t).cls)
            if ci is not None:
                return ClsV(ci)
        if isinstance(v, TupV):
            return Bi("tuple")
        if v is NoneV:
            return Bi("NoneType")
        if isinstance(v, V) and res(v.t) == Any:
            return V(Any, uf("type_of", ty.AnySort, ty.AnySort)(v.e))
        raise Unsupported("type()", node)

    @method
    def b_getattr(self, args, kw, node):
        l = self.lit_of(args[1])
        if not isinstance(l, str):
            h = self.find_ext("getattr")
            if h is not None:
                return h(self, args, kw)
            raise Unsupported("dynamic getattr", node)
        try:
            return self.getattr_(args[0], l, node)
        except Unsupported:
            if len(args) > 2 and isinstance(args[0], Obj):
                self.assumed.add(f"getattr({l}) default taken: attribute not declared")
                return args[2]
            raise
        except RaiseSig as r:
            if r.exc.name == "AttributeError" and len(args) > 2:
                return args[2]
            raise

    @method
    def b_setattr(self, args, kw, node):
        l = self.lit_of(args[1])
        if not isinstance(l, str):
            h = self.find_ext("setattr")
            if h is not None:
                return h(self, args, kw)
            raise Unsupported("dynamic setattr", node)
        self.setattr_(args[0], l, args[2], node)
        return NoneV

    @method
    def b_hasattr(self, args, kw, node):
        l = self.lit_of(args[1])
        v = args[0]
        if isinstance(v, V) and res(v.t) == Any:
            return V(Bool, uf("hasattr_" + str(l), ty.AnySort, z3.BoolSort())(v.e))
        if isinstance(v, Obj) and isinstance(l, str):
            c = self.st.cells[v.cid.id]
            if l in c.fields:
                return self.const(True)
            if not isinstance(v.cls, str) and self.source.method(v.cls, l) is not None:
                return self.const(True)
            return self.const(False)
        raise Unsupported("hasattr", node)

    @method
    def b_callable(self, args, kw, node):
        if isinstance(args[0], (Fn, ClsV, Bi)):
            return self.const(True)
        if isinstance(args[0], V) and res(args[0].t) == Any:
            return V(Bool, uf("callable_Any", ty.AnySort, z3.BoolSort())(args[0].e))
        return self.const(False)

    @method
    def b_next(self, args, kw, node):
        it = self.iterate(args[0], node)
        if it.kind == "conc":
            if it.items:
                return it.items[0]
            if len(args) > 1:
                return args[1]
            self.throw("StopIteration", node)
        raise Unsupported("next", node)

    @method
    def b_divmod(self, args, kw, node):
        return TupV([self.binop("FloorDiv", args[0], args[1], node), self.binop("Mod", args[0], args[1], node)])

    # ------------------------------------------------------------ container methods
    @method
    def setarg(self, v, t, node):
        """z3 set (Array elem Bool) of an iterable argument, at element type t"""
        v = self.unopt(v, node)
        st = Set(t)
        s = self.as_set(v)
        if s is not None:
            v = s
        if isinstance(v, Mut):
            c = self.content(v.loc)
            if isinstance(c, COpen):
                return ty.empty(st)
            if isinstance(c, ZC):
                ct = res(c.t)
                if isinstance(ct, Set):
                    return c.e
                if isinstance(ct, Dict):
                    return ty.ddom(ct, c.e)
        it = self.iterate(v, node)
        if it.kind == "conc":
            e = ty.empty(st)
            for x in it.items:
                e = z3.Store(e, self.z(x, t, node), z3.BoolVal(True))
            return e
        if it.kind == "set":
            b = self.fz(sort(it.t), "b")
            x = self.z(it.mapf(self.wrap(it.t, b)), t, node)
            if x.eq(b):
                return z3.Lambda([b], it.has(b))
            y = self.fz(sort(t), "y")
            return z3.Lambda([y], z3.Exists([b], z3.And(it.has(b), x == y)))
        i = self.fz(z3.IntSort(), "i!set")
        y = self.fz(sort(t), "y")
        x = self.z(it.at(i), t, node)
        return z3.Lambda([y], z3.Exists([i], z3.And(0 <= i, i < it.n, x == y)))

    @method
    def elem_type(self, v, node):
        v = self.unopt(v, node)
        s = self.as_set(v)
        if s is not None:
            v = s
        if isinstance(v, Mut):
            c = self.content(v.loc)
            if isinstance(c, COpen):
                return c.t.k if isinstance(c.t, Dict) else c.t.e
            if isinstance(c, ZC):
                return res(c.t).k if isinstance(res(c.t), Dict) else res(c.t).e
        it = self.iterate(v, node)
        if it.kind == "conc":
            return self.typeof(it.items[0]) if it.items else TVar()
        if it.kind == "set":
            b = self.fz(sort(it.t), "b")
            return self.typeof(it.mapf(self.wrap(it.t, b)))
        return self.typeof(it.at(self.fz(z3.IntSort(), "i")))

    @method
    def callmeth(self, o, name, args, kw, node, isdel=False):
        o = self.unopt(o, node, "AttributeError")
        if o is NoneV:
            self.throw("AttributeError", node)
        if isinstance(o, Ext):
            return self.call(Ext(o.dotted + "." + name, o.recv), args, kw, node)
        if isinstance(o, (Obj,)) or (isinstance(o, V) and isinstance(res(o.t), Ref)):
            s = self.as_set(o)
            if s is not None:
                o = s
            else:
                h = self.find_ext(res(o.t).cls + "." + name) if isinstance(o, V) else None
                if h is not None:
                    if isinstance(h, ty.T):
                        return self.ext_value(res(o.t).cls + "." + name, h)
                    if h == "noop":
                        self.assumed.add(f"external: {res(o.t).cls}.{name} has no effect on the specified state")
                        return NoneV
                    self.assumed.add(f"external: {res(o.t).cls}.{name} follows its assumed contract")
                    return h(self, [o] + args, kw)
                return self.call(self.getattr_(o, name, node), args, kw, node) if not isinstance(o, V) else self.unsup(f"method {name} on {o!r}", node)
        if isinstance(o, It):
            o = self.b_list([o], {}, node)
        if isinstance(o, TupV):
            o2 = Mut(self.cell(CList(o.vs, "tuple")))
            if name in ("index", "count"):
                return self.list_meth(o2, name, args, kw, node)
            raise Unsupported(f"tuple method {name}", node)
        if isinstance(o, V):
            t = res(o.t)
            if t in (Str, Bytes):
                return self.str_meth(o, name, args, kw, node)
            if isinstance(t, (List, Set, Dict)):
                o = Mut(self.cell(ZC(t, o.e)))
            else:
                h = self.find_ext(f"{t.name}.{name}") or self.find_ext("any." + name)
                if h is not None:
                    if isinstance(h, ty.T):
                        return self.ext_value(f"{t.name}.{name}", h)
                    if h == "noop":
                        return NoneV
                    self.assumed.add(f"external: {t.name}.{name} follows its assumed contract")
                    return h(self, [o] + args, kw)
                raise Unsupported(f"method {name} of {t}", node)
        if isinstance(o, Mut):
            c = self.content(o.loc)
            if isinstance(c, ZC) and isinstance(res(c.t), ty.Prim):
                return self.callmeth(V(c.t, c.e), name, args, kw, node)
            if isinstance(c, CList) or isinstance(res(getattr(c, "t", None)), List):
                return self.list_meth(o, name, args, kw, node)
            if isinstance(c, CDict) or isinstance(res(getattr(c, "t", None)), Dict):
                return self.dict_meth(o, name, args, kw, node, isdel)
            return self.set_meth(o, name, args, kw, node)
        raise Unsupported(f"method {name} on {o!r}", node)

    @method
    def unsup(self, msg, node):
        raise Unsupported(msg, node)

    @method
    def set_meth(self, o, name, args, kw, node):
        c = self.content(o.loc)
        if isinstance(c, COpen):
            # open empty set
            if name in ("union", "update", "add", "symmetric_difference"):
                for a in args:
                    if name == "add":
                        ta = self.typeof(a)
                        self.unify(c.t.e, ta)
                    else:
                        self.unify(c.t.e, self.elem_type(a, node))
                if ty.is_open(c.t):
                    return Mut(self.cell(COpen(c.t))) if name == "union" else NoneV
                c = ZC(c.t, ty.empty(c.t))
                if name != "union":
                    self.put(o.loc, c)
            elif name in ("copy", "intersection", "difference"):
                return Mut(self.cell(COpen(c.t)))
            elif name in ("discard", "difference_update", "intersection_update", "clear"):
                return NoneV
            elif name in ("remove", "pop"):
                self.throw("KeyError", node)
            elif name in ("issubset", "isdisjoint"):
                return self.const(True)
            elif name == "issuperset":
                return V(Bool, z3.Not(self.truth(args[0])))
            else:
                raise Unsupported(f"set.{name}", node)
        t, e = res(c.t), c.e
        et = t.e
        new = lambda x: Mut(self.cell(ZC(t, x)))
        if name == "add":
            x = self.z(args[0], et, node)
            n = z3.Store(e, x, z3.BoolVal(True))
            self.card_step(t, e, x, n, True)
            self.put(o.loc, ZC(t, n))
            return NoneV
        if name in ("remove", "discard"):
            x0 = args[0]
            x = self.z(x0, et, node)
            if name == "remove":
                self.need(ty.sel(e, x), "KeyError", node)
            n = z3.Store(e, x, z3.BoolVal(False))
            self.card_step(t, e, x, n, False)
            self.put(o.loc, ZC(t, n))
            return NoneV
        if name == "pop":
            self.need(z3.Not(e == ty.empty(t)), "KeyError", node)
            x = self.fresh("popped", et)
            self.assume(ty.sel(e, x))
            n = z3.Store(e, x, z3.BoolVal(False))
            self.card_step(t, e, x, n, False)
            self.put(o.loc, ZC(t, n))
            return self.wrap(et, x)
        if name == "clear":
            self.put(o.loc, ZC(t, ty.empty(t)))
            return NoneV
        if name == "copy":
            return new(e)
        if name in ("union", "update"):
            for a in args:
                e = self.zunion(e, self.setarg(a, et, node))
        elif name in ("difference", "difference_update"):
            for a in args:
                e = self.zdiff(e, self.setarg(a, et, node))
        elif name in ("intersection", "intersection_update"):
            for a in args:
                e = self.zinter(e, self.setarg(a, et, node))
        elif name in ("symmetric_difference", "symmetric_difference_update"):
            b = self.setarg(args[0], et, node)
            e = self.zunion(self.zdiff(e, b), self.zdiff(b, e))
        elif name == "issubset":
            x = self.fz(sort(et), "x!sub")
            b = self.setarg(args[0], et, node)
            return V(Bool, z3.ForAll([x], z3.Implies(ty.sel(e, x), ty.sel(b, x))))
        elif name == "issuperset":
            x = self.fz(sort(et), "x!sub")
            b = self.setarg(args[0], et, node)
            return V(Bool, z3.ForAll([x], z3.Implies(ty.sel(b, x), ty.sel(e, x))))
        elif name == "isdisjoint":
            x = self.fz(sort(et), "x!dis")
            b = self.setarg(args[0], et, node)
            return V(Bool, z3.ForAll([x], z3.Not(z3.And(ty.sel(e, x), ty.sel(b, x)))))
        elif name == "__contains__":
            return V(Bool, ty.sel(e, self.z(args[0], et, node)))
        else:
            raise Unsupported(f"set.{name}", node)
        if name.endswith("update"):
            self.put(o.loc, ZC(t, e))
            return NoneV
        return new(e)

    @method
    def zunion(self, a, b):
        x = self.fz(a.sort().domain(), "x!u")
        return z3.Lambda([x], z3.Or(ty.sel(a, x), ty.sel(b, x)))

    @method
    def zdiff(self, a, b):
        x = self.fz(a.sort().domain(), "x!u")
        return z3.Lambda([x], z3.And(ty.sel(a, x), z3.Not(ty.sel(b, x))))

    @method
    def zinter(self, a, b):
        x = self.fz(a.sort().domain(), "x!u")
        return z3.Lambda([x], z3.And(ty.sel(a, x), ty.sel(b, x)))

    @method
    def list_meth(self, o, name, args, kw, node):
        c = self.content(o.loc)
        if isinstance(c, COpen):
            c = CList([], c.t.kind)
            if self.loopdepth and name in ("append", "extend", "insert", "appendleft") and name != "extend":
                pass
        if isinstance(c, CList):
            items = list(c.items)
            put = lambda: self.put(o.loc, CList(items, c.kind))
            if name == "append":
                items.append(args[0])
                return put() or NoneV
            if name == "appendleft":
                items.insert(0, args[0])
                return put() or NoneV
            if name in ("extend", "extendleft"):
                it = self.iterate(args[0], node)
                if it.kind == "conc":
                    items = items + it.items if name == "extend" else list(reversed(it.items)) + items
                    return put() or NoneV
                if not items:
                    t = List(self.elem_type(args[0], node), c.kind)
                    if isinstance(self.content(o.loc), COpen):
                        self.unify(self.content(o.loc).t, t)
                    self.put(o.loc, ZC(t, ty.empty(t)))
                else:
                    self.symbolic(o)
                c = self.content(o.loc)
            elif name == "insert":
                l = self.lit_of(args[0])
                if isinstance(l, int):
                    items.insert(l, args[1])
                    return put() or NoneV
            elif name in ("pop", "popleft"):
                if not items:
                    self.throw("IndexError", node)
                l = 0 if name == "popleft" else (self.lit_of(args[0]) if args else -1)
                if isinstance(l, int):
                    if not -len(items) <= l < len(items):
                        self.throw("IndexError", node)
                    x = items.pop(l)
                    put()
                    return x
            elif name == "copy":
                return Mut(self.cell(CList(items, c.kind)))
            elif name == "clear":
                items = []
                return put() or NoneV
            elif name == "reverse":
                items.reverse()
                return put() or NoneV
            elif name == "index":
                for i, x in enumerate(items):
                    if self.decide(self.eq(args[0], x)):
                        return self.const(i)
                self.throw("ValueError", node)
            elif name == "remove":
                for i, x in enumerate(items):
                    if self.decide(self.eq(args[0], x)):
                        items.pop(i)
                        return put() or NoneV
                self.throw("ValueError", node)
            elif name == "count":
                e = z3.IntVal(0)
                for x in items:
                    e = e + z3.If(self.eq(args[0], x), 1, 0)
                return V(Int, simp(e))
            if not isinstance(c, ZC):
                if not items:
                    raise Unsupported(f"list.{name} on empty list", node)
                self.symbolic(o)
                c = self.content(o.loc)
        t, e = res(c.t), c.e
        n = ty.llen(t, e)
        at = lambda i: ty.lat(t, e, i)
        i = self.fz(z3.IntSort(), "i!l")

        def put(n2, body):
            self.put(o.loc, ZC(t, ty.mk(t, n2, body)))
            return NoneV

        if name == "append" and isinstance(o.loc, ELoc):
            # a list inside a table: the new contents get a name, so that facts about the old ones carry over
            x = self.z(args[0], t.e, node)
            new = self.fz(ty.larr(t, e).sort(), "more")
            k = self.fz(z3.IntSort(), "k!ap")
            for tr in (ty.sel(new, k), at(k)):
                b = ty.sel(new, k) == z3.If(k == n, x, at(k))
                self.assume(z3.ForAll([k], b, patterns=[tr]) if plain(tr) else z3.ForAll([k], b))
            self.assume(ty.sel(new, n) == x)
            r = put(n + 1, new)
            self.moved(args[0], ELoc(o.loc, n), node)
            return r
        if name == "append":
            r = put(n + 1, z3.Store(ty.larr(t, e), n, self.z(args[0], t.e, node)))
            self.moved(args[0], ELoc(o.loc, n), node)
            return r
        if name in ("insert", "appendleft"):
            x = self.z(args[-1], t.e, node)
            if name == "appendleft":
                k = z3.IntVal(0)
            else:
                k = self.z(args[0], Int)
                k = z3.If(k < 0, z3.If(k + n < 0, z3.IntVal(0), k + n), z3.If(k > n, n, k))
                k = simp(k)
            return put(n + 1, z3.Lambda([i], z3.If(i < k, at(i), z3.If(i == k, x, at(i - 1)))))
        if name in ("pop", "popleft"):
            self.need(n > 0, "IndexError", node)
            if name == "popleft":
                k = z3.IntVal(0)
            elif not args:
                k = n - 1
            else:
                k = self.norm_index(self.z(args[0], Int), n, node)
            x = at(k)
            r = self.wrap(t.e, x)
            if name == "pop" and not args:
                put(n - 1, ty.larr(t, e))
            else:
                put(n - 1, z3.Lambda([i], z3.If(i < k, at(i), at(i + 1))))
            return r
        if name == "extend":
            it = self.iterate(args[0], node)
            if it.kind == "set":
                it = self.iterate(self.build(it, lambda x: x, True, "list", node))
            if it.kind == "conc":
                arr, m = ty.larr(t, e), n
                for x in it.items:
                    arr = z3.Store(arr, m, self.z(x, t.e, node))
                    m = m + 1
                return put(m, arr)
            x = self.z(it.at(i - n), t.e, node)
            return put(n + it.n, z3.Lambda([i], z3.If(i < n, at(i), x)))
        if name == "extendleft":
            it = self.iterate(args[0], node)
            if it.kind == "conc":
                m = Mut(self.cell(CList(it.items)))
                if not it.items:
                    return NoneV
                self.symbolic(m, List(t.e))
                it = self.iterate(m)
            x = self.z(it.at(it.n - 1 - i), t.e, node)
            return put(n + it.n, z3.Lambda([i], z3.If(i < it.n, x, at(i - it.n))))
        if name == "index":
            x = self.z(args[0], t.e, node)
            j = self.fz(z3.IntSort(), "j!ix")
            w = self.fresh("ix", Int)
            found = z3.And(0 <= w, w < n, at(w) == x,
                           z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w), at(j) != x)))
            none = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), at(j) != x))
            if self.choose([found, none]) == 1:
                self.throw("ValueError", node)
            return V(Int, w)
        if name == "remove":
            x = self.z(args[0], t.e, node)
            j = self.fz(z3.IntSort(), "j!ix")
            w = self.fresh("ix", Int)
            found = z3.And(0 <= w, w < n, at(w) == x,
                           z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w), at(j) != x)))
            none = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), at(j) != x))
            if self.choose([found, none]) == 1:
                self.throw("ValueError", node)
            new = self.fz(ty.larr(t, e).sort(), "rest")
            k = self.fz(z3.IntSort(), "k!rm")
            for body, tr in ((ty.sel(new, k) == z3.If(k < w, at(k), at(k + 1)), ty.sel(new, k)),
                             (z3.Implies(k != w, at(k) == z3.If(k < w, ty.sel(new, k), ty.sel(new, k - 1))), at(k))):
                self.assume(z3.ForAll([k], body, patterns=[tr]) if plain(tr) else z3.ForAll([k], body))
            return put(n - 1, new)
        if name == "clear":
            self.put(o.loc, ZC(t, ty.empty(t)))
            return NoneV
        if name == "copy":
            return Mut(self.cell(ZC(t, e)))
        if name == "reverse":
            return put(n, z3.Lambda([i], at(n - 1 - i)))
        if name == "sort":
            r = self.b_sorted([Mut(self.cell(ZC(t, e)))], kw, node)
            self.put(o.loc, ZC(t, self.content(r.loc).e))
            return NoneV
        raise Unsupported(f"list.{name}", node)

    @method
    def dict_meth(self, o, name, args, kw, node, isdel=False):
        c = self.content(o.loc)
        if isinstance(c, COpen) and name not in ("update", "setdefault"):
            c = CDict()
        if isinstance(c, CDict):
            if name in ("get", "pop", "setdefault") and args:
                l = self.lit_of(args[0])
                if l is None and not c.d and name in ("get", "pop"):
                    if len(args) > 1:
                        return args[1]
                    if name == "get":
                        return NoneV
                    self.throw("KeyError", node)
                if l is not None or c.d:
                    if name == "get":
                        return self.cdict_get(c, args[0], node, args[1] if len(args) > 1 else NoneV)
                    if l is not None and name == "setdefault":
                        dflt = args[1] if len(args) > 1 else NoneV
                        v = self.cdict_get(c, args[0], node, dflt)
                        d = dict(c.d)
                        d[l] = (z3.BoolVal(True), v)
                        self.put(o.loc, CDict(d))
                        return v
                    if l is not None:
                        v = self.cdict_get(c, args[0], node, args[1] if len(args) > 1 else None)
                        d = dict(c.d)
                        d.pop(l, None)
                        self.put(o.loc, CDict(d))
                        return v
            if name in ("keys", "values", "items"):
                out = []
                for k, (p, x) in c.d.items():
                    if self.decide(p):
                        out.append({"keys": self.const(k), "values": x}.get(name) or TupV([self.const(k), x]))
                return It("conc", items=out)
            if name == "copy":
                return Mut(self.cell(CDict(c.d)))
            if name == "clear":
                self.put(o.loc, CDict())
                return NoneV
            if name == "update":
                src = args[0] if args else None
                if src is not None:
                    src = self.unopt(src, node)
                    if isinstance(src, Obj) and self.as_set(src) is not None:
                        src = self.as_set(src)
                    sc = self.content(src.loc) if isinstance(src, Mut) else None
                    if isinstance(sc, CDict):
                        d = dict(c.d)
                        for k, (p, x) in sc.d.items():
                            if z3.is_true(simp(p)) or k not in d:
                                d[k] = (p, x)
                            else:
                                if self.decide(p):
                                    d[k] = (z3.BoolVal(True), x)
                        self.put(o.loc, CDict(d))
                    elif isinstance(sc, ZC) and not c.d:
                        self.put(o.loc, ZC(sc.t, sc.e))
                    elif isinstance(sc, COpen):
                        pass
                    else:
                        raise Unsupported("dict.update", node)
                for k, v in kw.items():
                    self.setitem(o, self.const(k), v, node)
                return NoneV
            if not c.d and name == "setdefault":
                self.setitem(o, args[0], args[1], node)
                return self.getitem(o, args[0], node)
            if not c.d:
                raise Unsupported(f"dict.{name} on empty dict", node)
            self.symbolic(o)
            c = self.content(o.loc)
        if isinstance(c, COpen):
            if name == "setdefault":
                self.setitem(o, args[0], args[1] if len(args) > 1 else NoneV, node)
                return self.getitem(o, args[0], node)
            # update of an open dict
            src = args[0] if args else None
            if src is not None and isinstance(src, Mut) and isinstance(self.content(src.loc), ZC):
                sc = self.content(src.loc)
                self.unify(c.t, sc.t)
                self.put(o.loc, ZC(sc.t, sc.e))
                return NoneV
            self.put(o.loc, CDict())
            return self.dict_meth(o, name, args, kw, node)
        t, e = res(c.t), c.e
        dom, val = ty.ddom(t, e), ty.dval(t, e)
        if name == "keys":
            return It("set", has=lambda x: ty.sel(dom, x), t=t.k, src=o.loc)
        if name == "values":
            loc = o.loc
            return It("set", has=lambda x: ty.sel(dom, x), t=t.k,
                      mapf=lambda k: self.wrap(t.v, ty.sel(val, k.e), ELoc(loc, k.e)), src=o.loc)
        if name == "items":
            loc = o.loc
            return It("set", has=lambda x: ty.sel(dom, x), t=t.k,
                      mapf=lambda k: TupV([k, self.wrap(t.v, ty.sel(val, self.z(k, t.k)), ELoc(loc, self.z(k, t.k)))]), src=o.loc)
        if name == "copy":
            return Mut(self.cell(ZC(t, e)))
        if name == "clear":
            self.put(o.loc, ZC(t, ty.empty(t)))
            return NoneV
        if name in ("get", "pop", "setdefault", "__contains__", "has_key"):
            k = self.key_unopt(t, args[0], node)
            if k is None:
                if name == "get":
                    return args[1] if len(args) > 1 else NoneV
                if name == "pop":
                    if len(args) > 1:
                        return args[1]
                    self.throw("KeyError", node)
                raise Unsupported("optional key", node)
            ke = self.z(k, t.k, node)
            has = ty.sel(dom, ke)
            if name == "__contains__":
                return V(Bool, has)
            if name == "get":
                if self.decide(has):
                    return self.wrap(t.v, ty.sel(val, ke), ELoc(o.loc, ke))
                return args[1] if len(args) > 1 else NoneV
            if name == "setdefault":
                if not self.decide(has):
                    self.setitem(o, args[0], args[1] if len(args) > 1 else NoneV, node)
                return self.getitem(o, args[0], node)
            if not self.decide(has):
                if len(args) > 1:
                    return args[1]
                self.throw("KeyError", node)
            self.detach(o.loc, ke)
            c = self.content(o.loc)
            e = c.e
            r = self.wrap(t.v, ty.sel(ty.dval(t, e), ke)) if not isdel else NoneV
            nd = z3.Store(ty.ddom(t, e), ke, z3.BoolVal(False))
            self.card_step(Set(t.k), ty.ddom(t, e), ke, nd, False)
            self.put(o.loc, ZC(t, ty.mk(t, nd, ty.dval(t, e))))
            return r
        if name == "popitem":
            self.need(z3.Not(dom == ty.ddom(t, ty.empty(t))), "KeyError", node)
            k = self.fresh("pk", t.k)
            self.assume(ty.sel(dom, k))
            r = TupV([self.wrap(t.k, k), self.wrap(t.v, ty.sel(val, k))])
            self.card_step(Set(t.k), dom, k, z3.Store(dom, k, z3.BoolVal(False)), False)
            self.put(o.loc, ZC(t, ty.mk(t, z3.Store(dom, k, z3.BoolVal(False)), val)))
            return r
        if name == "update":
            for src in args:
                src = self.unopt(src, node)
                s2 = self.as_set(src)
                src = s2 if s2 is not None else src
                sc = self.content(src.loc) if isinstance(src, Mut) else None
                if sc is None:
                    raise Unsupported("dict.update", node)
                if isinstance(sc, COpen) or (isinstance(sc, CDict) and not sc.d):
                    continue
                sc = self.to_zc(sc, t)
                sd, sv = ty.ddom(t, sc.e), ty.dval(t, sc.e)
                cur = self.content(o.loc).e
                d0, v0 = ty.ddom(t, cur), ty.dval(t, cur)
                x = self.fz(sort(t.k), "x!up")
                self.put(o.loc, ZC(t, ty.mk(t, self.zunion(d0, sd),
                                            z3.Lambda([x], z3.If(ty.sel(sd, x), ty.sel(sv, x), ty.sel(v0, x))))))
            for k, v in kw.items():
                self.setitem(o, self.const(k), v, node)
            return NoneV
        raise Unsupported(f"dict.{name}", node)

    # ------------------------------------------------------------ strings
    @method
    def str_meth(self, o, name, args, kw, node):
        t = res(o.t)
        l = self.lit_of(o)
        ls = [self.lit_of(a) if isinstance(a, V) else None for a in args]
        if l is not None and all(x is not None for x in ls) and not kw and name not in ("join", "format"):
            try:
                r = getattr(l, name)(*ls)
            except ValueError:
                self.throw("ValueError", node)
            except Exception:
                raise Unsupported(f"str.{name}", node)
            if isinstance(r, list):
                return Mut(self.cell(CList([self.const(x) for x in r])))
            return self.const(r)
        enc = uf("encode", ty.StrSort, ty.BytesSort)
        dec = uf("decode", ty.BytesSort, ty.StrSort)
        if name == "encode":
            self.assumed.add("str.encode/bytes.decode are mutually inverse (valid text identities)")
            r = enc(o.e)
            self.assume(dec(r) == o.e)
            if l is not None:
                self.assume(r == lit(Bytes, l.encode()))
            return V(Bytes, r)
        if name == "decode":
            self.assumed.add("str.encode/bytes.decode are mutually inverse (valid text identities)")
            r = dec(o.e)
            self.assume(enc(r) == o.e)
            if l is not None:
                self.assume(r == lit(Str, l.decode()))
            return V(Str, r)
        if name in ("startswith", "endswith"):
            if isinstance(args[0], TupV):
                return V(Bool, z3.Or(*[self.str_meth(o, name, [a], kw, node).e for a in args[0].vs]))
            return V(Bool, uf(name, sort(t), sort(t), z3.BoolSort())(o.e, args[0].e))
        if name in ("isdigit", "isalpha", "isidentifier"):
            return V(Bool, uf("str_" + name, sort(t), z3.BoolSort())(o.e))
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "title", "format", "expandtabs", "hex", "zfill"):
            es = [a for a in args if isinstance(a, V)]
            if len(es) == len(args) and not kw:
                f = uf(f"str_{name}_{len(es)}", sort(t), *[sort(a.t) for a in es], ty.StrSort if name in ("format", "hex") else sort(t))
                return V(Str if name in ("format", "hex") else t, f(o.e, *[a.e for a in es]))
            self.counter += 1
            return V(t, z3.Const(f"str_{name}#{self.counter}", sort(t)))
        if name == "join":
            if len(args) == 1 and isinstance(args[0], V) and args[0].t in (Any, List(t)):
                # the text is a function of the separator and the parts
                return V(t, uf("str_join_" + args[0].t.name, sort(t), sort(args[0].t), sort(t))(o.e, args[0].e))
            self.counter += 1
            return V(t, z3.Const(f"joined#{self.counter}", sort(t)))
        if name in ("split", "rsplit", "splitlines"):
            r = self.freshv("split", List(t))
            tt, e = self.symbolic(r)
            if name != "splitlines":
                self.assume(ty.llen(tt, e) >= 1)
            else:
                self.assume(ty.llen(tt, e) >= 0)
            if all(isinstance(x, V) and x.t in (Str, Bytes, Int) for x in args) and not kw:
                # the parts are a function of the text and the separator
                f = uf(f"str_{name}{len(args)}_{t.name}", sort(t), *[sort(x.t) for x in args], sort(tt))
                self.assume(e == f(o.e, *[x.e for x in args]))
            return r
        if name in ("find", "rfind", "count", "index"):
            return V(Int, uf("str_" + name, sort(t), sort(t), z3.IntSort())(o.e, args[0].e))
        raise Unsupported(f"str.{name}", node)
