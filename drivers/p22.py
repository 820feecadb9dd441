"""P22: urls, dates, dictionaries."""
import random
import socket
from datetime import datetime, timedelta, timezone

from common import Driver, check, fail

d = Driver("P22", "random urls (protocols, host names, addresses, wildcards, ports, malformed variants) with every kind of location, random dates with and without zone through "
           "text, random operation sequences on the two dictionary classes against plain dictionaries; a case counts always except for empty operation lists")
import sim  # noqa: E402,F401
from ipyparallel import util  # noqa: E402
from jupyter_client.localinterfaces import localhost, public_ips  # noqa: E402

LOCAL = localhost()
HERE = socket.gethostname()


def case_url(c):
    url = f"{c['proto']}://{c['host']}:{c['port']}"
    p, h, s = util.split_url(url)
    check((p, h, s) == (c["proto"], c["host"], str(c["port"])), "split", lambda: f"{url} split into {(p, h, s)}")
    if c["proto"] == "tcp":
        check(util.validate_url(url) is True and util.is_url(url), "valid-refused", lambda: f"{url} refused")
        check(util.validate_url_container([url, {"a": url, "b": [url]}]) in (None, True), "valid-refused", "container refused")
    loc = {"none": None, "here": HERE, "local": LOCAL, "far": "203.0.113.77", "mine": (public_ips() or [LOCAL])[0]}[c["loc"]]
    got = util.disambiguate_url(url, loc)
    if c["host"] in ("*", "0.0.0.0"):
        want = {"none": LOCAL, "here": LOCAL, "far": "203.0.113.77", "mine": LOCAL, "local": LOCAL}[c["loc"]]
        if c["loc"] == "local" and LOCAL not in public_ips():
            want = LOCAL
    else:
        want = c["host"]
    check(got == f"{c['proto']}://{want}:{c['port']}", "disambiguate", lambda: f"{url} seen from {loc!r} became {got}, expected host {want}")
    check(util.disambiguate_url(got, loc) == got, "disambiguate-again", lambda: f"{got} changed again")
    check(util.disambiguate_ip_address(c["host"], loc) == want, "disambiguate-ip", "address and url disagree")
    return True


def case_other(c):
    u = c["u"]
    check(util.disambiguate_url(u) == u, "ipc-changed", lambda: f"{u} became {util.disambiguate_url(u)}")
    return True


def case_bad(c):
    for what, f in (("validate_url", util.validate_url), ("validate_url_container", lambda x: util.validate_url_container(["tcp://a:1", x]) if isinstance(x, str) else util.validate_url(x)), ("split_url", util.split_url)):
        if what == "split_url" and not c["split"]:
            continue
        try:
            f(c["u"])
        except (AssertionError, TypeError):
            continue
        except Exception as e:
            fail("bad-url-error", f"{what}({c['u']!r}) raised {type(e).__name__}: {e}")
        fail("bad-url-accepted", f"{what}({c['u']!r}) accepted")
    return True


def case_ip(c):
    check(util.is_ip(c["s"]) == c["ip"], "is-ip", lambda: f"is_ip({c['s']!r}) is not {c['ip']}")
    return True


def case_date(c):
    z = None if c["z"] is None else timezone(timedelta(minutes=c["z"]))
    t = datetime(2020, 1, 1, tzinfo=z) + timedelta(days=c["d"], seconds=c["s"], microseconds=c["u"])
    a = util.ensure_timezone(t)
    check(a.tzinfo is not None and (z is None or a == t), "timezone", lambda: f"{t!r} became {a!r}")
    if z is None:
        check(a == t.astimezone(), "timezone-local", lambda: f"naive {t!r} became {a!r}")
    text = a.isoformat()
    if c["zulu"] and a.utcoffset() == timedelta(0):
        text = text.replace("+00:00", "Z")
    obj = {"k": [text, {"n": text, "x": "plain " + text, "i": 5}], "none": None, "t": (text,)}
    import copy

    given = copy.deepcopy(obj)
    got = util.extract_dates(obj)
    check(obj == given, "dates-altered", "extracting dates altered the object")
    for x in (got["k"][0], got["k"][1]["n"], got["t"][0]):
        check(isinstance(x, datetime) and x == a and x.tzinfo is not None, "date-lost", lambda: f"{text} became {x!r}")
    check(got["k"][1]["x"] == "plain " + text and got["none"] is None and got["k"][1]["i"] == 5, "non-date-changed", lambda: f"{got!r}")
    b = datetime(2020, 1, 1, tzinfo=timezone.utc)
    check(util.compare_datetimes(a, b) == a - b and util.compare_datetimes(t, b) == a - b and util.compare_datetimes(b, t) == b - a, "date-compare", lambda: f"comparing {t!r}")
    check(util.utcnow().utcoffset() == timedelta(0), "utcnow", "utcnow is not utc")
    return True


def case_reverse(c):
    r = random.Random(c["seed"])
    start = {i: f"v{i}" for i in range(r.randrange(4))}
    rd, m = util.ReverseDict(start), dict(start)
    for _ in range(c["n"]):
        k = r.choice(list(range(5)) + [f"v{i}" for i in range(3)])
        op = r.choice(["set", "set", "pop", "get", "item"])
        inv = {v: kk for kk, v in m.items()}
        if op == "set":
            v = r.choice([x for x in [f"v{i}" for i in range(8)] if x not in m.values()] or ["w"])
            if v in m.values():
                continue
            try:
                rd[k] = v
                check(k not in inv, "both-sides", lambda: f"{k!r} accepted as key while it is a value")
                m[k] = v
            except KeyError:
                check(k in inv, "set-refused", lambda: f"setting {k!r} refused")
        elif op == "pop":
            try:
                v = rd.pop(k)
                check(k in m and v == m[k], "pop", lambda: f"pop({k!r}) gave {v!r}")
                del m[k]
            except KeyError:
                check(k not in m, "pop", lambda: f"pop({k!r}) refused")
        inv = {v: kk for kk, v in m.items()}
        check(dict(rd) == m, "forward", lambda: f"{dict(rd)} instead of {m}")
        for x in list(range(6)) + [f"v{i}" for i in range(9)]:
            want = m.get(x, inv.get(x, "no"))
            check(rd.get(x, "no") == want, "lookup", lambda: f"{x!r} looks up {rd.get(x, 'no')!r}, expected {want!r} in {m}")
            try:
                got = rd[x]
            except KeyError:
                got = "no"
            check(got == want, "lookup", lambda: f"{x!r} looks up {got!r}, expected {want!r}")
    return c["n"] > 0


def case_ns(c):
    n = util.Namespace(a=1)
    n.b = 2
    n["c"] = 3
    check(n.a == 1 and n.b == 2 and n.c == 3 and n == {"a": 1, "b": 2, "c": 3}, "namespace", lambda: f"{n}")
    for bad in ("keys", "pop", "items"):
        try:
            setattr(n, bad, 1)
        except KeyError:
            continue
        fail("namespace-dict-key", f"{bad} overridden")
    try:
        n.zz
    except (NameError, AttributeError):
        return True
    fail("namespace-absent", "absent attribute found")


def case_int_keys(c):
    r = random.Random(c["seed"])
    src = {}
    for _ in range(r.randrange(6)):
        src[r.choice([r.randrange(-5, 20), r.choice(["a", "x1", "é"]), 2.5])] = r.random()
    import json

    wire = json.loads(json.dumps(src))
    got = util.int_keys(wire)
    check(got == src and all(type(a) is type(b) for a, b in zip(sorted(map(repr, got)), sorted(map(repr, src)))), "int-keys", lambda: f"{src} came back as {got}")
    return True


HOSTS = ["*", "0.0.0.0", "127.0.0.1", "10.1.2.3", "localhost", "host", "a-b.example.org", "h1", "192.168.0.255"]
d.add("other", case_other, cases=[dict(u=u) for u in ("ipc:///tmp/x-1", "ipc://rel", "inproc://name", "ipc:///tmp/a:b:c")])
d.add("bad", case_bad, cases=[dict(u=u, split=s) for u, s in (("tcp://host", 1), ("tcp:host:1", 1), ("host:1", 1), ("tcp://a:b:c", 1), ("tcp://a://b:1", 1), ("tcp://host:port", 0), ("tcp://-bad:1", 0), ("tcp://:1", 0),
                                                             ("ftp://host:1", 0), ("tcp://ho st:1", 0), ("", 1), (5, 0), (None, 0), ("tcp://host:", 0), ("tcp://host:1x", 0))])
d.add("ip", case_ip, cases=[dict(s=s, ip=i) for s, i in (("10.0.0.1", True), ("127.0.0.1", True), ("host", False), ("1.2.3", False), ("a.b.c.d", False), ("", False))])
d.add("ns", case_ns, cases=[{}])
d.add("url", case_url, gen=lambda r: dict(proto=r.choice(["tcp", "tcp", "pgm", "epgm"]), host=r.choice(HOSTS), port=r.choice([1, 80, 10101, 65535]), loc=r.choice(["none", "here", "far", "mine", "local"])))
d.add("date", case_date, gen=lambda r: dict(z=r.choice([None, 0, 0, 330, -480, 765]), d=r.randrange(-9000, 9000), s=r.randrange(86400), u=r.choice([0, 1, 500000, 999999, 120]), zulu=r.random() < .5))
d.add("reverse", case_reverse, gen=lambda r: dict(seed=r.randrange(1 << 30), n=r.randrange(0, 25)))
d.add("intkeys", case_int_keys, gen=lambda r: dict(seed=r.randrange(1 << 30)))
d.main()
