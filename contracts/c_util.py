"""util.py: reverse dictionaries, addresses (P22)."""
import z3

from pyver import types as ty
from pyver.core import V, uf
from pyver.spec import Contract, S_, forall, imp
from pyver.types import Any, Bool, Dict, List, Opt, Str, Tup, sort

M = "ipyparallel.util:"
DA = Dict(Any, Any)
F = {"@base": DA, "_reverse": DA}


def register(reg):
    # ---------------------------------------------------------------- the reverse view is the exact inverse
    def inverse(c):
        d, r = c.f("@base"), c.f("_reverse")
        return {
            "every-entry-reversed": forall(Any, lambda k: imp(d.has(k), z3.And(r.has(d.raw(k)), r.raw(d.raw(k)) == k))),
            "nothing-else-reversed": forall(Any, lambda v: imp(r.has(v), z3.And(d.has(r.raw(v)), d.raw(r.raw(v)) == v))),
        }

    D = lambda c: c.f("@base")
    K = dict(self_fields=F)
    reg.add(Contract(M + "ReverseDict.__setitem__", "P22", params=dict(key=Any, value=Any), modifies=["@base", "_reverse"],
                     requires=lambda c: {**inverse(c), "values-distinct": forall(Any, lambda k: imp(z3.And(D(c).has(k), k != c["key"]), D(c).raw(k) != c["value"]))},
                     raises={"KeyError": lambda c: {"on-both-sides": c.old.f("_reverse").has(c["key"]), "unchanged": D(c).same(D(c.old))}},
                     ensures=lambda c: {**inverse(c), "set": z3.And(D(c).has(c["key"]), D(c).raw(c["key"]) == c["value"]),
                                        "others-kept": D(c).same_except(D(c.old), c["key"])}, **K))
    reg.add(Contract(M + "ReverseDict.pop", "P22", params=dict(key=Any), modifies=["@base", "_reverse"], requires=inverse, returns=Any,
                     raises={"KeyError": lambda c: {"absent": z3.Not(D(c.old).has(c["key"])), "unchanged": z3.And(D(c).same(D(c.old)), c.f("_reverse").same(c.old.f("_reverse")))}},
                     ensures=lambda c: {**inverse(c), "its-value": z3.And(D(c.old).has(c["key"]), c.res == D(c.old).raw(c["key"])),
                                        "gone": D(c).domain_is(lambda k: z3.And(D(c.old).has(k), k != c["key"])), "others-kept": D(c).same_except(D(c.old), c["key"])}, **K))
    found = lambda c: z3.Or(D(c).has(c["key"]), c.f("_reverse").has(c["key"]))
    value = lambda c: z3.If(D(c).has(c["key"]), D(c).raw(c["key"]), c.f("_reverse").raw(c["key"]))
    reg.add(Contract(M + "ReverseDict.__getitem__", "P22", params=dict(key=Any), requires=inverse, returns=Any,
                     raises={"KeyError": lambda c: {"on-neither-side": z3.Not(found(c))}},
                     ensures=lambda c: {"forward-first": z3.And(found(c), c.res == value(c)),
                                        "there-and-back": imp(z3.Not(D(c).has(c["key"])), D(c).raw(c.res) == c["key"])}, **K))
    reg.add(Contract(M + "ReverseDict.get", "P22", params=dict(key=Any, default=Any), requires=inverse, returns=Any,
                     ensures=lambda c: {"value-or-default": c.res == z3.If(found(c), value(c), c["default"])}, **K))
    # ---------------------------------------------------------------- addresses
    LS = List(Str)
    SS = sort(Str)
    split = uf("str_split1_Str", SS, SS, sort(LS))
    at = lambda l, i: ty.lat(LS, l, z3.IntVal(i))
    halves = lambda u: split(u, S_("://"))
    hostport = lambda u: split(at(halves(u), 1), S_(":"))
    wellformed = lambda u: z3.And(ty.llen(LS, halves(u)) == 2, ty.llen(LS, hostport(u)) == 2)
    reg.add(Contract(M + "split_url", "P22", params=dict(url=Str), returns=Tup(Str, Str, Str),
                     raises={"AssertionError": lambda c: {"malformed": z3.Not(wellformed(c["url"]))}},
                     ensures=lambda c: {"well-formed": wellformed(c["url"]), "protocol": c.res[0] == at(halves(c["url"]), 0),
                                        "host": c.res[1] == at(hostport(c["url"]), 0), "port": c.res[2] == at(hostport(c["url"]), 1)}))
    local, hostname = z3.Const("localhost", SS), z3.Const("this_hostname", SS)
    isip, mine, resolved = z3.Function("looks_like_ip", SS, z3.BoolSort()), z3.Function("is_an_ip_of_this_machine", SS, z3.BoolSort()), z3.Function("ip_for", SS, SS)
    EXT = {"localhost": lambda eng, a, k: V(Str, local), "ipyparallel.util:is_ip": lambda eng, a, k: V(Bool, isip(eng.z(eng.unopt(a[0], None), Str))), "socket.gethostname": lambda eng, a, k: V(Str, hostname),
           "ipyparallel.util:ip_for_host": lambda eng, a, k: V(Str, resolved(eng.z(eng.unopt(a[0], None), Str))), "is_public_ip": lambda eng, a, k: V(Bool, mine(eng.z(eng.unopt(a[0], None), Str))), "public_ips": LS, "warnings.warn": "noop"}
    EXT.update({"jupyter_client.localinterfaces." + k: EXT[k] for k in ("localhost", "is_public_ip", "public_ips")})
    wild = lambda ip: z3.Or(ip == S_("0.0.0.0"), ip == S_("*"))
    nowhere = lambda loc: z3.Or(loc.none, loc.v == S_(""))

    def reachable(ip, loc):
        """the address to use for `ip` on the machine `loc`"""
        l = loc.v
        there = z3.If(isip(l), l, resolved(l))
        here = z3.If(z3.Or(z3.And(z3.Not(isip(l)), l == hostname), mine(there)), local, there)
        return z3.If(wild(ip), z3.If(nowhere(loc), local, here), ip)

    K = dict(externals=EXT)
    reg.add(Contract(M + "disambiguate_ip_address", "P22", params=dict(ip=Str, location=Opt(Str)), returns=Str,
                     ensures=lambda c: {"explicit-kept": imp(z3.Not(wild(c["ip"])), c.res == c["ip"]), "wildcard-made-reachable": c.res == reachable(c["ip"], c["location"])}, **K))
    url3 = uf("fstr_{}://{}:{}", SS, SS, SS, SS)
    u = lambda c: c["url"]
    reg.add(Contract(M + "disambiguate_url", "P22", params=dict(url=Str, location=Opt(Str)), returns=Str,
                     ensures=lambda c: {"others-unchanged": imp(z3.Not(wellformed(u(c))), c.res == u(c)),
                                        "protocol-and-port-kept": imp(wellformed(u(c)), c.res == url3(at(halves(u(c)), 0), reachable(at(hostport(u(c)), 0), c["location"]), at(hostport(u(c)), 1)))}, **K))
    return reg
