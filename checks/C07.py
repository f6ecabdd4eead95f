"""C07  Values stored in a result file read back as last written, whatever the location held before."""
from pathlib import Path, PurePosixPath

import pandas

from symx.run import harness

IMPORTS = ["mcsas3.mc_hdf"]
OUTSIDE = "larger arrays/tables, deeper nesting and longer histories than stated; text with NUL characters; None inside lists"
ASSUMPTIONS = ["h5py as modelled by symx/h5fake.py (validated by replaying witnesses on the real h5py)"]
STUBS = ["h5py (in-memory model of its documented behaviour)"]
INF, NAN = float("inf"), float("nan")
LOC = PurePosixPath("/analyses/MCResult1/mcdata/item")
KINDS = [
    "float", "special", "int", "bool", "text", "path", "floats", "floats3", "ints", "texts", "tuple", "empty",
    "array2", "table", "texttable", "dict", "nested", "deep", "emptydict", "mixed", "nones",
]


def make(env, kind, k):
    """-> (value, datatype to read it with, expected value)"""
    r = lambda j=0: env.real(f"v{k}_{j}")
    if kind == "float":
        v = r()
        return v, None, v
    if kind == "special":
        v = env.choice(f"sp{k}", [INF, -INF, NAN, 0.0, 1e-300, -1.5e300])
        return v, None, v
    if kind == "int":
        v = env.integer(f"i{k}", -5, 1000000)
        return v, None, v
    if kind == "bool":
        v = env.choice(f"b{k}", [True, False])
        return v, None, v
    if kind == "text":
        v = env.choice(f"t{k}", ["", "abc", "µ é / \\s+ \n end", "12", "x" * 300])
        return v, "str", v
    if kind == "path":
        v = env.choice(f"p{k}", [Path("a/b.h5"), Path("/tmp/x y.csv")])
        return v, Path, v
    if kind == "floats":
        v = [r(0), r(1)]
        return v, env.choice(f"as{k}", [list, None]), v
    if kind == "floats3":
        v = [r(0), r(1), INF]
        return env.arr(v), None, v
    if kind == "ints":
        v = [env.integer(f"i{k}_{j}", -3, 9) for j in range(2)]
        return v, list, v
    if kind == "texts":
        v = env.choice(f"t{k}", [["Q", "I", "ISigma"], ["a"], ["", "långer"]])
        return list(v), env.choice(f"as{k}", [list, None]), v
    if kind == "tuple":
        v = (r(0), r(1), r(2))
        return v, tuple, v
    if kind == "empty":
        return [], list, []
    if kind == "array2":
        v = [[r(0), r(1)], [r(2), r(3)]]
        return env.arr(v[0] + v[1]).reshape((2, 2)), None, v
    if kind == "table":
        c = dict(I=[r(0), r(1)], Q=[r(2), r(3)])
        return env.df(c), "dict", c
    if kind == "texttable":
        d = env.df(dict(Q=[r(0), r(1)]))
        d["name"] = ["first", "zweite"]
        return d, "dict", dict(Q=list(d["Q"]), name=["first", "zweite"])
    if kind == "dict":
        v = dict(a=r(0), sep="\\s+", n=3)
        return v, "dict", v
    if kind == "nested":
        v = dict(radius=[r(0), r(1)], sub=dict(a=r(2), t="text", names=["x", "y"]))
        return v, "dict", v
    if kind == "deep":
        v = dict(x=dict(y=dict(z=r(0), l=["p"]), w=[r(1)]))
        return v, "dict", v
    if kind == "emptydict":
        return {}, "dict", {}
    if kind == "mixed":
        v = dict(a=[], b={}, c="", d=r(0))
        return v, "dict", v
    if kind == "nones":
        v = dict(header=None, a=r(0), sub=dict(x=None))
        return v, "dict", v
    raise KeyError(kind)


def others(env, fn, storeKV):
    v = dict(item2=env.real("o0"), ite="keep", zz=[env.real("o1"), env.real("o2")])
    for k, x in v.items():
        storeKV(fn, LOC.parent / k, x)
    storeKV(fn, PurePosixPath("/analyses/MCResult2/mcdata/item"), v["item2"])
    return v


def check_others(env, fn, loadKV, v):
    for k, x in v.items():
        env.eq(loadKV(fn, LOC.parent / k, datatype="str" if k == "ite" else None), x, "other locations of the file are unaffected")
    env.eq(loadKV(fn, PurePosixPath("/analyses/MCResult2/mcdata/item")), v["item2"], "other entries of the file are unaffected")


@harness(quick=dict(kinds=KINDS), thorough=dict(kinds=KINDS), witnesses=40, bounds="any kind of value overwritten by any kind of value (21 x 21 kinds), symbolic numbers")
def overwrite(env):
    from mcsas3.mc_hdf import loadKV, storeKV

    fn = env.tmp / "r.h5"
    k1 = env.choice("first", env.p["kinds"])
    k2 = env.choice("second", env.p["kinds"])
    o = others(env, fn, storeKV)
    v1, t1, w1 = make(env, k1, 1)
    v2, t2, w2 = make(env, k2, 2)
    storeKV(fn, LOC, v1)
    env.eq(loadKV(fn, LOC, datatype=t1), w1, "a stored value reads back equal")
    storeKV(fn, LOC, v2)
    got = loadKV(fn, LOC, datatype=t2)
    env.eq(got, w2, "a location reads back as last written, whatever it held before")
    if t2 in (list, tuple, Path):
        env.check(isinstance(got, t2), "the value has the requested type", str(type(got)))
    check_others(env, fn, loadKV, o)
    env.observe("got", got if not isinstance(got, Path) else str(got))


@harness(quick=dict(n=1), thorough=dict(n=2), bounds="tables, lists and mappings that shrink or grow in length, columns or keys (0..3)")
def resized(env):
    from mcsas3.mc_hdf import loadKV, storeKV

    fn = env.tmp / "r.h5"
    what = env.choice("what", ["list", "table", "dict", "rows"])
    prev = None
    for k in range(env.p["n"] + 1):
        n = env.count(f"n{k}", 0 if what in ("list", "dict") else 1, 3)
        xs = [env.real(f"x{k}_{j}") for j in range(n)]
        if what == "list":
            v, t, w = xs, list, xs
        elif what == "rows":
            v, t, w = env.df(dict(Q=xs, I=xs)), "dict", dict(Q=xs, I=xs)
        else:
            w = {f"c{j}": x for j, x in enumerate(xs)}
            if what == "table":
                w = {c: [x] for c, x in w.items()}
                v = env.df(w)
            else:
                v = w
            t = "dict"
        storeKV(fn, LOC, v)
        env.eq(loadKV(fn, LOC, datatype=t), w, "a location reads back as last written, whatever its size before")


@harness(quick=dict(), thorough=dict(), bounds="a value, then nothing (None), then a value again; locations never written")
def absent(env):
    from mcsas3.mc_hdf import loadKV, storeKV, storeKVPairs

    fn = env.tmp / "r.h5"
    o = others(env, fn, storeKV)
    d = env.real("default")
    env.eq(loadKV(fn, LOC, default=d), d, "a location never written reads as the default")
    env.check(loadKV(fn, LOC) is None, "a location never written reads as nothing without a default")
    env.eq(loadKV(fn, LOC.parent / "no" / "such", datatype="dict", default=d), d, "a location never written reads as the default")
    k1 = env.choice("first", KINDS)
    v1, t1, w1 = make(env, k1, 1)
    storeKV(fn, LOC, v1)
    storeKVPairs(fn, LOC.parent, [("item", None)])
    env.eq(loadKV(fn, LOC, datatype=t1, default=d), d, "nothing written last reads as the default")
    storeKV(fn, LOC, v1)
    env.eq(loadKV(fn, LOC, datatype=t1, default=d), w1, "a value written after nothing reads back")
    check_others(env, fn, loadKV, o)


@harness(quick=dict(n=3), thorough=dict(n=4), bounds="n operations (store one of 5 kinds at one of 3 locations, nested ones included), then every location is read")
def history(env):
    from mcsas3.mc_hdf import loadKV, loadKVPairs, storeKVPairs

    fn = env.tmp / "r.h5"
    base = PurePosixPath("/analyses/MCResult1/optimization/repetition0")
    last = {}
    for k in range(env.p["n"]):
        loc = env.choice(f"loc{k}", ["x0", "gof", "sub/gof"]) if k else "x0"
        kind = env.choice(f"kind{k}", ["float", "int", "floats", "text", "dict"])
        v, t, w = make(env, kind, k)
        storeKVPairs(fn, base, [(loc, v)])
        last[loc] = (t, w)
    for loc in ("x0", "gof", "sub/gof"):
        if loc in last:
            t, w = last[loc]
            env.eq(loadKV(fn, base / loc, datatype=t), w, "every location reads as last written to it")
            (k, got), = list(loadKVPairs(fn, base, [loc]))
            env.check(k == loc, "pairs are read under their own key")
            env.eq(got, w, "pairs read back as last written")
        else:
            env.check(loadKV(fn, base / loc) is None, "a location never written stays empty")


@harness(quick=dict(n=2), thorough=dict(n=3), bounds="contribution tables of n rows and one or two named columns, in any row-label order")
def contributions(env):
    from mcsas3.mc_hdf import loadKV, storeKV

    fn = env.tmp / "r.h5"
    n = env.p["n"]
    first = env.choice("before", [None, "larger", "other"])
    if first is not None:
        m = n + 1 if first == "larger" else n
        d0 = env.df({c: [env.real(f"b{c}{j}") for j in range(m)] for c in (["radius"] if first == "larger" else ["a", "zz"])})
        storeKV(fn, LOC, d0.to_dict(orient="split"))
    cols = env.choice("cols", [["radius"], ["radius", "length"], ["z", "a"]])
    idx = env.choice("index", [list(range(n)), list(range(n))[::-1]])
    vals = {c: [env.real(f"{c}{j}") for j in range(n)] for c in cols}
    df = env.df(vals, index=idx)
    storeKV(fn, LOC, df.to_dict(orient="split"))
    got = loadKV(fn, LOC, datatype="dictToPandas")
    env.check(isinstance(got, pandas.DataFrame), "a contribution table reads back as a table")
    env.check(list(got.columns) == cols, "columns in their order", str(list(got.columns)))
    env.check([int(i) for i in got.index] == idx, "row labels in their order")
    env.eq([[got[c].iloc[j] for c in cols] for j in range(n)], [[vals[c][j] for c in cols] for j in range(n)], "contribution values read back")


@harness(
    quick=dict(n=40), thorough=dict(n=300),
    bounds="lists, tables, mappings and contribution tables of 40 (thorough 300) rows or keys of which four hold any number, over longer or shorter ones; a mapping nested 12 deep",
)
def many(env):
    from mcsas3.mc_hdf import loadKV, storeKV

    n = env.p["n"]
    fn = env.tmp / "r.h5"
    what = env.choice("what", ["list", "rows", "contributions", "dict", "nested"])
    old = env.choice("before", [None, "shorter", "longer"])
    free = (0, 9, n // 2, n - 1)

    def value(m, tag):
        xs = [env.real(f"{tag}{i}") if i in free else env.const(3.0 + 0.5 * ((7 * i) % m)) for i in range(m)]
        if what == "list":
            return xs, list, xs
        if what == "rows":
            return env.df(dict(Q=xs, I=xs[::-1])), "dict", dict(Q=xs, I=xs[::-1])
        if what == "contributions":
            return env.df(dict(radius=xs, length=xs[::-1])).to_dict(orient="split"), "dictToPandas", None
        if what == "dict":
            w = {f"c{j}": x for j, x in enumerate(xs)}
            return w, "dict", w
        w = {"leaf": xs[-1]}
        for k in range(12):
            w = {f"l{k}": w, "x": xs[k]}
        return w, "dict", w

    o = others(env, fn, storeKV)
    if old is not None:
        storeKV(fn, LOC, value(n - 13 if old == "shorter" else n + 13, "a")[0])
    v, t, w = value(n, "b")
    storeKV(fn, LOC, v)
    got = loadKV(fn, LOC, datatype=t)
    if w is None:
        env.check([int(i) for i in got.index] == list(range(n)), "row labels in their order")
        env.check(list(got.columns) == ["radius", "length"], "columns in their order", str(list(got.columns)))
        env.eq([list(got["radius"]), list(got["length"])], [[r[k] for r in v["data"]] for k in range(2)], "contribution values read back")
    else:
        env.eq(got, w, "a location reads back as last written, whatever its size before")
    check_others(env, fn, loadKV, o)
