"""C20  Histograms count the contributions in the right bins."""
import math

from symx.run import harness

from .common import LIMITS, core

IMPORTS = ["mcsas3.mc_model_histogrammer", "mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb", "mcsas3.mc_hdf"]
OUTSIDE = "more contributions, bins and ranges than stated; rounding of computed edges; the automatic number of bins ('auto'); number weighting (rejected)"
ASSUMPTIONS = ["the labels of the histogram ranges are unique", "10 raised to the logarithm of a number is that number"]
STUBS = [
    "sasmodels, scipy minimize, numpy random generator (arbitrary results)",
    "numpy histogram, linspace, logspace on symbolic values (documented semantics)",
]


def ranges(env, rows, index=None):
    import pandas

    return pandas.DataFrame(rows, index=index)


def row(par, nbin, scale, auto, lo=None, hi=None):
    return dict(parameter=par, nBin=nbin, binScale=scale, presetRangeMin=lo, presetRangeMax=hi, binWeighting="vol", autoRange=auto)


def prepared(env, n, names=("radius",), lim=None, given={}):
    """a core whose contributions, scaling and volumes have arbitrary values"""
    import pandas

    c, w = core(env, 1, n, names)
    vals = {k: [env.const(given[i]) if i in given else env.real(f"{k}{i}") for i in range(n)] for k in names}
    # as the model holds them: a table of objects
    c._model.parameterSet = pandas.DataFrame({k: env.arr(v) for k, v in vals.items()})
    c._model.volumes = env.arr([env.real(f"V{i}", lo=0, lo_open=True) for i in range(n)])
    for k in lim or {}:
        c._model.fitParameterLimits[k] = lim[k]
    sc = env.real("scaling", lo=0)
    c._opt.x0 = env.arr([sc, env.real("background")])
    return c, vals, sc


def counting_only(env):
    """the population modes (decided under C21) are left out"""
    from mcsas3.mc_model_histogrammer import McModelHistogrammer as H

    if hasattr(H, "modes"):
        env.patch(H, "modes", lambda self, histRange, histIndex: None)


def judge(env, mh, label, vals, sc, lo, hi, nbin, scale):
    edges = list(mh._binEdges[label])
    env.eq(len(edges), nbin + 1, "number of bins as requested")
    if scale == "linear":
        for k, e in enumerate(edges):
            env.eq(e, lo + (hi - lo) * k / nbin, "edges divide the range into equal bins")
    else:
        l = [env.np.log10(e) for e in edges]
        a, b = env.np.log10(lo), env.np.log10(hi)
        for k, e in enumerate(l):
            env.eq(e, a + (b - a) * k / nbin, "edges divide the logarithmic range into equal bins")
        env.eq([edges[0], edges[-1]], [lo, hi], "edges span the range")
    h = list(mh._histDict[label])
    env.eq(len(h), nbin, "one bar per bin")
    for k in range(nbin):
        e0, e1 = edges[k], edges[k + 1]
        cnt = sum(env.ite(env.And(v >= e0, v <= e1 if k == nbin - 1 else v < e1), 1.0, 0.0) for v in vals)
        env.eq(h[k], cnt * sc * 1e-5, "bar height: contributions in the bin times scaling and unit correction")


@harness(
    quick=dict(n=[1, 2, 3], bins=[1, 2, 3]),
    thorough=dict(n=[1, 2, 3, 4, 5, 6, 7, 8], bins=[1, 2, 3, 5, 8, 13]),
    witnesses=8,
    bounds="1..3 (thorough 8) contributions of any value, 1, 2 or 3 (thorough to 13) linear bins over any preset or automatic range",
)
def linear(env):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    p = env.p
    n, nbin = env.choice("n", p["n"]), env.choice("bins", p["bins"])
    if n > 1:
        counting_only(env)
    auto = env.choice("auto", [False, True])
    lo = env.real("lo")
    hi = env.real("hi")
    env.assume(lo < hi)
    c, vals, sc = prepared(env, n, lim={"radius": [lo, hi]} if auto else None)
    mh = McModelHistogrammer(c, ranges(env, [row("radius", nbin, "linear", auto, *((env.const(1.0), env.const(2.0)) if auto else (lo, hi)))]))
    judge(env, mh, 0, vals["radius"], sc, lo, hi, nbin, "linear")
    env.observe("hist", list(mh._histDict[0]))


@harness(
    quick=dict(n=[1, 2], bins=[1, 2, 3]),
    thorough=dict(n=[1, 2, 3, 4, 5], bins=[1, 2, 3, 4, 6]),
    witnesses=8,
    bounds="1 or 2 (thorough 5) contributions of any value, 1 to 3 (thorough 6) logarithmic bins over any positive preset or automatic range",
)
def logarithmic(env):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    p = env.p
    n, nbin = env.choice("n", p["n"]), env.choice("bins", p["bins"])
    if n > 1:
        counting_only(env)
    auto = env.choice("auto", [False, True])
    lo = env.real("lo", lo=0, lo_open=True)
    hi = env.real("hi")
    env.assume(lo < hi)
    c, vals, sc = prepared(env, n, lim={"radius": [lo, hi]} if auto else None)
    mh = McModelHistogrammer(c, ranges(env, [row("radius", nbin, "log", auto, *((env.const(1.0), env.const(2.0)) if auto else (lo, hi)))]))
    judge(env, mh, 0, vals["radius"], sc, lo, hi, nbin, "log")


@harness(
    quick=dict(n=2),
    thorough=dict(n=3),
    witnesses=8,
    bounds="two ranges out of five (two parameters, automatic and preset limits, linear bins, numbers of bins 1..3) in one table with labels 0 and 1, 5 and 2, or text; values on an edge included",
)
def several(env):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    counting_only(env)
    lo, hi = env.real("lo"), env.real("hi")
    env.assume(lo < hi)
    c_ = env.const
    lim = {k: [c_(v[0]), c_(v[1])] for k, v in LIMITS.items()}
    kinds = [
        (("radius", 2, "linear", False, lo, hi), (lo, hi)),
        (("radius", 3, "linear", True, c_(3.0), c_(4.0)), lim["radius"]),
        (("length", 1, "linear", True, c_(0.0), c_(1.0)), lim["length"]),
        (("length", 2, "linear", False, c_(25.0), c_(30.0)), (c_(25.0), c_(30.0))),
        (("radius", 2, "linear", False, c_(2.0), c_(6.0)), (c_(2.0), c_(6.0))),
    ]
    a = env.choice("first", list(range(5)))
    b = env.choice("second", list(range(5)))
    labels = env.choice("labels", [(0, 1), (5, 2), ("s", "t")])
    c, vals, sc = prepared(env, env.p["n"], ("radius", "length"), lim)
    mh = McModelHistogrammer(c, ranges(env, [row(*kinds[a][0]), row(*kinds[b][0])], list(labels)))
    for l, k in zip(labels, (a, b)):
        r, (x, y) = kinds[k]
        judge(env, mh, l, vals[r[0]], sc, x, y, r[1], r[2])
        env.eq([mh._histRanges.loc[l, "rangeMin"], mh._histRanges.loc[l, "rangeMax"]], [x, y], "the range used is recorded")


@harness(
    quick=dict(n=12, bins=[5, 12]), thorough=dict(n=40, bins=[5, 12, 50]), witnesses=6,
    bounds="12 (thorough 40) contributions, one of any value, the others given (some of them on an edge); 5 or 12 (thorough 50) linear bins over a given range; any scaling",
)
def many(env):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    n, nbin = env.p["n"], env.choice("bins", env.p["bins"])
    counting_only(env)
    c, vals, sc = prepared(env, n, given={i: 0.25 * (i * 7 % 50) for i in range(n) if i != 3})
    mh = McModelHistogrammer(c, ranges(env, [row("radius", nbin, "linear", False, 1.0, 1.0 + 0.25 * nbin)]))
    judge(env, mh, 0, vals["radius"], sc, 1.0, 1.0 + 0.25 * nbin, nbin, "linear")
