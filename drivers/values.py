"""Random values described by small JSON specs, and deep comparison."""
import functools

import numpy as np

DT = ["i4", "u1", "f8", "f2", "?", "c16", ">i4", "<i2", "S3", "U2", "M8[D]", "m8[s]", "O", "V3"]
REC = [[("a", "i4"), ("b", "f8")], [("a", "S2"), ("n", [("x", "i2"), ("y", "f4")])], [("a", "i4"), ("b", "O")],
       [("n", [("x", "O")])], [("s", "f8", (2,))], [("d", "M8[s]"), ("i", "u1")]]


def gen(r, depth=2, keys="str", arrays=True, leaves=True):
    """a JSON-able spec of a value"""
    k = r.random()
    if depth > 0 and k < .45:
        t = r.choice(["list", "tuple", "dict", "dict", "set"])
        n = r.choice([0, 1, 2, 3, 5])
        if t == "dict":
            return ["dict", [[genkey(r), gen(r, depth - 1, arrays=arrays)] for _ in range(n)]]
        if t == "set":
            return ["set", [genkey(r) for _ in range(n)]]
        return [t, [gen(r, depth - 1, arrays=arrays) for _ in range(n)]]
    if k < .55:
        return ["bytes", r.choice([0, 1, 7, 8, 9, 40]), r.randrange(256)]
    if k < .62 and arrays:
        return ["arr", r.choice(DT), r.choice([[], [0], [1], [3], [2, 3], [0, 3], [2, 0], [2, 2, 2], [1, 1]]), r.choice(["C", "C", "F", "step", "ro"]), r.randrange(100)]
    if k < .66 and arrays:
        return ["rec", r.randrange(len(REC)), r.choice([[1], [3], [0], [2, 2]]), r.random() < .5]
    return genkey(r)


def genkey(r):
    return r.choice([["int", r.randrange(-3, 4)], ["int", 10**30], ["str", r.choice(["", "a", "bb", "é☃"])], ["none"], ["bool", r.random() < .5],
                     ["float", r.choice([0.5, -1.25, 1e300])], ["bytes", r.randrange(3), 65], ["tup", [["int", 1], ["str", "x"]]]])


def top(r, arrays=True):
    """containers around the item threshold too"""
    k = r.random()
    if k < .12:
        n = r.choice([62, 63, 64, 65, 100])
        e = r.choice([["bytes", 9, 1], ["int", 5], ["arr", "i4", [2], "C", 1], ["dict", [[["str", "k"], ["bytes", 9, 2]]]]])
        return [r.choice(["list", "tuple"]), [e] * n]
    if k < .16:
        n = r.choice([63, 64, 65])
        return ["dict", [[["int", i], ["bytes", 9, i % 200]] for i in range(n)]]
    if k < .22:
        return ["mv", r.choice([0, 1, 8, 9, 40])]
    return gen(r, 3, arrays=arrays)


def build(s):
    t = s[0]
    if t == "list":
        return [build(x) for x in s[1]]
    if t == "tuple" or t == "tup":
        return tuple(build(x) for x in s[1])
    if t == "set":
        return {build(x) for x in s[1]}
    if t == "dict":
        return {build(k): build(v) for k, v in s[1]}
    if t == "bytes":
        return bytes((s[2] + i) % 256 for i in range(s[1]))
    if t in ("int", "str", "float"):
        return s[1]
    if t == "bool":
        return bool(s[1])
    if t == "none":
        return None
    if t == "mv":
        return memoryview(bytes(range(s[1])))
    if t == "arr":
        dt, shape = np.dtype(s[1]), tuple(s[2])
        n = int(np.prod(shape)) if shape else 1
        base = np.arange(s[4], s[4] + n)
        if dt.kind == "O":
            a = np.array([("obj", int(i)) for i in base] + [None], dtype=object)[:n] if n else np.zeros(0, object)
            b = np.empty(n, dtype=object)
            for i in range(n):
                b[i] = ("obj", int(base[i]))
            a = b
        elif dt.kind == "V":
            a = np.array([bytes([int(i) % 250 + 1] * dt.itemsize) for i in base], dtype=dt) if n else np.zeros(0, dt)
        elif dt.kind in "SU":
            a = np.array([str(i) for i in base], dtype=dt)
        else:
            a = base.astype(dt)
        a = a.reshape(shape)
        if s[3] == "F":
            a = np.asfortranarray(a) if a.ndim else a
        elif s[3] == "step" and a.ndim:
            a = np.repeat(a, 2, axis=-1)[..., ::2]
        elif s[3] == "ro":
            a.setflags(write=False)
        return a
    if t == "rec":
        a = np.zeros(tuple(s[2]), dtype=np.dtype([tuple(tuple(y) if isinstance(y, list) and len(y) and not isinstance(y[0], (list, tuple)) else y for y in f) for f in REC[s[1]]], align=bool(s[3])))
        flat = a.reshape(-1)
        for i in range(flat.size):
            fill(flat, i, i + 1)
        return a
    raise ValueError(t)


def fill(a, i, v):
    for name in a.dtype.names:
        d = a.dtype[name]
        if d.names:
            sub = a[name]
            fill(sub, i, v)
        elif d.kind == "O":
            a[name][i] = ["o", v]
        elif d.kind == "M":
            a[name][i] = np.datetime64(v, "s")
        elif d.kind == "S":
            a[name][i] = str(v)
        else:
            a[name][i] = v


def same(a, b, path="value"):
    """None, or where they differ"""
    if isinstance(a, memoryview) and isinstance(b, memoryview):
        return None if a.tobytes() == b.tobytes() else f"{path}: memory view bytes differ"
    if type(a) is not type(b):
        return f"{path}: type {type(a).__name__} became {type(b).__name__}"
    if isinstance(a, np.ndarray):
        # byte order: numpy's own pickling of nested arrays normalises it
        if a.dtype.newbyteorder("=") != b.dtype.newbyteorder("=") or (path in ("value", "args[0]") and a.dtype.isnative and not b.dtype.isnative):
            return f"{path}: dtype {a.dtype} became {b.dtype}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} became {b.shape}"
        return None if repr(a.tolist()) == repr(b.tolist()) else f"{path}: array contents differ: {a.tolist()!r} / {b.tolist()!r}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, dict):
        if [repr(k) for k in a] != [repr(k) for k in b]:
            return f"{path}: keys {list(a)!r} became {list(b)!r}"
        for (k, x), (k2, y) in zip(a.items(), b.items()):
            d = same(k, k2, f"{path} key {k!r}") or same(x, y, f"{path}[{k!r}]")
            if d:
                return d
        return None
    if isinstance(a, functools.partial):
        return same(a.args, b.args, path + ".args") or same(a.keywords, b.keywords, path + ".keywords")
    if type(a).__name__ == "function":
        return None if a.__code__ == b.__code__ else f"{path}: function {a!r} became {b!r}"
    return None if a == b else f"{path}: {a!r} became {b!r}"
