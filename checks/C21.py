"""C21  Population modes are the moments over the contributions inside the range."""
from symx.run import harness

from .common import LIMITS
from .C20 import prepared, ranges, row

IMPORTS = ["mcsas3.mc_model_histogrammer", "mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb", "mcsas3.mc_hdf"]
OUTSIDE = "more contributions and ranges than stated; rounding (a variance of exactly zero is undefined skew, one from rounding is not)"
ASSUMPTIONS = ["the labels of the histogram ranges are unique"]
STUBS = [
    "sasmodels, scipy minimize, numpy random generator (arbitrary results)",
    "numpy histogram, linspace on symbolic values (documented semantics)",
]
KEYS = ["totalValue", "mean", "variance", "skew", "kurtosis"]


def modes_only(env):
    """histogramming (decided under C20) is left out"""
    from mcsas3.mc_model_histogrammer import McModelHistogrammer as H

    if hasattr(H, "histogram"):
        env.patch(H, "histogram", lambda self, histRange, histIndex: None)


def judge(env, m, vals, sc, lo, hi):
    """m: mapping of the five modes"""
    import math

    inside = [v for v in vals if bool(env.And(v >= lo, v <= hi))]
    n = len(inside)
    env.eq(sorted(m), sorted(KEYS), "the five modes are reported")
    if n == 0:
        env.eq([m[k] for k in KEYS], [float("nan")] * 5, "no contribution in range: all modes undefined")
        return
    env.eq(m["totalValue"], n * sc * 1e-5, "total: number of contributions times scaling and unit correction")
    mean = sum(inside) / n
    env.eq(m["mean"], mean, "mean of the contributions in range")
    d = [v - mean for v in inside]
    var = sum(x**2 for x in d) / n
    env.eq(m["variance"], var, "population variance of the contributions in range")
    if bool(var == 0):
        env.eq([m["skew"], m["kurtosis"]], [float("nan")] * 2, "identical values: skew and kurtosis undefined")
        return
    # standardised: divided by the third and fourth power of the standard deviation
    sigma = env.np.sqrt(var)
    env.eq(m["skew"], sum(x**3 for x in d) / (n * sigma**3), "skew: standardised third central moment")
    env.eq(m["kurtosis"], sum(x**4 for x in d) / (n * sigma**4), "kurtosis: standardised fourth central moment")


@harness(
    quick=dict(n=[1, 2, 3]),
    thorough=dict(n=[1, 2, 3, 4]),
    witnesses=8,
    bounds="1 to 3 (thorough 4) contributions of any value, volume and scaling, preset or automatic range of any limits",
)
def one_range(env):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    modes_only(env)
    n = env.choice("n", env.p["n"])
    auto = env.choice("auto", [False, True]) if n < 3 else False
    lo, hi = env.real("lo"), env.real("hi")
    env.assume(lo < hi)
    c, vals, sc = prepared(env, n, lim={"radius": [lo, hi]} if auto else None)
    mh = McModelHistogrammer(c, ranges(env, [row("radius", 2, "linear", auto, *((env.const(1.0), env.const(2.0)) if auto else (lo, hi)))]))
    judge(env, mh._modes.loc[0].to_dict(), vals["radius"], sc, lo, hi)
    env.observe("total", mh._modes.loc[0]["totalValue"])


@harness(
    quick=dict(n=2),
    thorough=dict(n=3),
    witnesses=8,
    bounds="two ranges out of four (two parameters, automatic and preset) in one table with labels 0 and 1, 5 and 2, or text; one range empty",
)
def several(env):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    modes_only(env)
    c_ = env.const
    lim = {k: [c_(v[0]), c_(v[1])] for k, v in LIMITS.items()}
    kinds = [
        (("radius", 2, "linear", False, c_(2.0), c_(6.0)), (c_(2.0), c_(6.0))),
        (("radius", 3, "linear", True, c_(3.0), c_(4.0)), lim["radius"]),
        (("length", 1, "linear", True, c_(0.0), c_(1.0)), lim["length"]),
        (("length", 2, "linear", False, c_(25.0), c_(30.0)), (c_(25.0), c_(30.0))),
    ]
    a = env.choice("first", list(range(4)))
    b = env.choice("second", list(range(4)))
    labels = env.choice("labels", [(0, 1), (5, 2), ("s", "t")])
    c, vals, sc = prepared(env, env.p["n"], ("radius", "length"), lim)
    mh = McModelHistogrammer(c, ranges(env, [row(*kinds[a][0]), row(*kinds[b][0])], list(labels)))
    for l, k in zip(labels, (a, b)):
        r, (x, y) = kinds[k]
        judge(env, mh._modes.loc[l].to_dict(), vals[r[0]], sc, x, y)


@harness(quick=dict(n=12), thorough=dict(n=40), witnesses=6, bounds="12 (thorough 40) contributions, one of any value, the others given; a given range with contributions on both ends and outside; any scaling and volumes")
def many(env):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    n = env.p["n"]
    modes_only(env)
    c, vals, sc = prepared(env, n, given={i: 0.5 * (i * 7 % 50) for i in range(n) if i != 3})
    mh = McModelHistogrammer(c, ranges(env, [row("radius", 2, "linear", False, 3.5, 17.5)]))
    judge(env, mh._modes.loc[0].to_dict(), vals["radius"], sc, 3.5, 17.5)
