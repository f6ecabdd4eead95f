"""C22  Averages over the repetitions are plain means, with the documented spreads."""
import math
import types

from symx.run import harness

from .C20 import ranges, row
from .common import LIMITS, data1, fixed_guess, rngs, sas, snapshot

IMPORTS = [
    "mcsas3.mc_analysis",
    "mcsas3.mc_model_histogrammer",
    "mcsas3.mc_core",
    "mcsas3.mc_model",
    "mcsas3.mc_opt",
    "mcsas3.osb",
    "mcsas3.mc_hdf",
]
OUTSIDE = "more repetitions, contributions and ranges than stated; bins set automatically ('auto'), which differ between repetitions; rounding of the means; plotting and text reports"
ASSUMPTIONS = [
    "a model is any function of the parameter values (uninterpreted), with positive volume",
    "the scaling/background search started at the optimum it found earlier for the same intensity stays there",
    "the repetitions have different scalings (told apart by them)",
]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (stays at the starting point; objective value of the stored repetition)",
    "numpy random generator (any value inside the requested interval)",
    "h5py (in-memory model of its documented behaviour)",
    "numpy histogram, linspace on symbolic values (documented semantics)",
]
OPT = ["scaling", "background", "gof", "accepted", "step"]
MODES = ["totalValue", "mean", "variance", "skew", "kurtosis"]


def mean(v):
    return sum(v) / len(v)


def var(v, ddof):
    m = mean(v)
    return sum((x - m) * (x - m) for x in v) / (len(v) - ddof)


def stay(env, w):
    """scipy.minimize: remains at the starting point, where the objective has the value it had before"""
    from symx.stubs import Result

    def f(fn, x0, args=(), method=None, bounds=None, **k):
        for r in w.reps.values():
            if env.same(x0[0], r.sc):
                return Result(x=x0, fun=r.gof)
        return Result(x=x0, fun=1.0)

    env.stub("minimize", f)


def world(env, npts=2, names=("radius",)):
    w = types.SimpleNamespace(reps={}, writes=0, names=names, npts=npts)
    w.sas = sas(env, names)
    rngs(env)
    fixed_guess(env)
    stay(env, w)
    w.data = data1(env, npts)
    return w


def write(env, w, fn, rep, vals, index=1, last=None, **opt):
    """stores a repetition with the given contributions (name -> values) and any scaling, background, gof, counters"""
    import pandas

    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    n = len(vals[w.names[0]])
    m = McModel(
        fitParameterLimits={k: list(LIMITS[k]) for k in w.names},
        staticParameters={"background": 0},
        nContrib=n,
        modelName="sphere",
        resultIndex=index,
    )
    c = McCore(w.data, model=m, opt=McOpt(resultIndex=index), resultIndex=index)
    m.parameterSet = pandas.DataFrame({k: env.arr(v) for k, v in vals.items()})
    w.writes += 1
    pre = f"r{w.writes}_"
    r = types.SimpleNamespace(vals=vals)
    if last is None:
        r.sc = opt.get("sc", env.real(pre + "sc", lo=0, hi=1000))
    else:  # repetitions are told apart by their scalings
        r.sc = last.sc + env.real(pre + "dsc", lo=0.125, hi=1000)
    r.bg = env.real(pre + "bg")
    r.gof = env.real(pre + "gof", lo=0)
    r.accepted = env.integer(pre + "acc", 0, 1000)
    r.step = r.accepted + env.integer(pre + "rej", 0, 1000)
    r.I = [0.0] * w.npts
    vol = []
    for i in range(n):
        p = {k: vals[k][i] for k in w.names}
        r.I = [a + b for a, b in zip(r.I, w.sas.inten(p, w.npts))]
        vol.append(w.sas.vol(p))
    m.volumes = env.arr(vol)
    o = c._opt
    o.repetition = rep
    o.modelI = env.arr(r.I)
    o.x0 = env.arr([r.sc, r.bg])
    o.gof, o.accepted, o.step = r.gof, r.accepted, r.step
    o.acceptedSteps, o.acceptedGofs = [0], env.arr([r.gof])
    w.reps[rep] = r
    c.store(fn)
    return r


def spread(env, got, v, ddof, label, f=1.0):
    """got is the standard deviation of v (compared in units of 1/f)"""
    if len(v) - ddof <= 0:
        env.eq(got, float("nan"), label)
        return
    env.check(got >= 0, label + " (not negative)")
    env.eq(got * got * f**2, var(v, ddof) * f**2, label)


def modes(r, k, lo, hi):
    """of contributions with concrete values"""
    v = [x for x in r.vals[k] if lo <= x <= hi]
    nan = float("nan")
    if not v:
        return [nan] * 5
    s = math.sqrt(var(v, 0))
    m = mean(v)
    hm = [mean([(x - m) ** q for x in v]) / s**q if s else nan for q in (3, 4)]
    return [len(v) * r.sc * 1e-5, m, var(v, 0)] + hm


def judge_opts(env, an, reps):
    t = an.optParAvg
    env.eq(sorted(str(i) for i in t.index), sorted(OPT), "the optimization parameters are averaged")
    for k in OPT:
        v = [dict(scaling=r.sc, background=r.bg, gof=r.gof, accepted=r.accepted * 1.0, step=r.step * 1.0)[k] for r in reps]
        env.eq(t["valMean"][k], mean(v), f"mean {k} over the repetitions")
        spread(env, t["valStd"][k], v, 1, f"sample standard deviation of {k} over the repetitions")


def judge_I(env, an, w, reps):
    t = an.modelIAvg
    env.eq(len(t), w.npts, "one averaged intensity per data point")
    for j in range(w.npts):
        v = [r.I[j] * r.sc + r.bg for r in reps]
        env.eq(t["modelIMean"].iloc[j], mean(v), "mean of the intensities, each with its own scaling and background")
        spread(env, t["modelIStd"].iloc[j], v, 0, "population standard deviation of the intensity")


def stored(env, fn, an, labels, index=1):
    """what is stored are the averages judged before, in the place of the range they belong to"""
    h = snapshot(env, fn, f"/analyses/MCResult{index}/histograms")
    for l in labels:
        p = f"histRange{l}/average/"
        t = an._averagedHistograms[l]
        for c in ("xMean", "xWidth", "yMean", "yStd"):
            env.eq(h.get(p + c), list(t[c]), f"stored with its range: {c}")
        for m in MODES:
            for c in ("valMean", "valStd"):
                env.eq(h.get(f"{p}{m}/{c}"), an._averagedModes[(m, c)][l], f"stored with its range: {c} of {m}")
    o = snapshot(env, fn, f"/analyses/MCResult{index}/optimization/average")
    for k in OPT:
        for c in ("valMean", "valStd"):
            env.eq(o.get(f"{k}/{c}"), an.optParAvg[c][k], f"stored: {c} of {k}")
    for c in ("modelIMean", "modelIStd"):
        env.eq(o.get(c), list(an.modelIAvg[c]), f"stored: {c}")


REPS = [(0,), (0, 1), (3,), (10, 2), (0, 1, 2), (9, 10, 11), (0, 25), (100, 1023), tuple(range(12))]


@harness(
    quick=dict(npts=2, reps=REPS),
    thorough=dict(npts=3, reps=REPS + [(0, 1, 2, 3), (1, 5, 10, 100)]),
    witnesses=8,
    bounds="1 to 3 (thorough 4) and 12 repetitions numbered from 0, with gaps (also far apart) or more than one digit, one contribution each, 2 (3) data points, any scaling, background, goodness of fit, counters and intensity",
)
def intensity_and_options(env):
    from mcsas3.mc_analysis import McAnalysis

    w = world(env, env.p["npts"])
    reps = env.choice("repetitions", env.p["reps"])
    fn = env.tmp / "r.h5"
    last = None
    for k, rep in enumerate(reps):
        last = write(env, w, fn, rep, dict(radius=[env.const(2.0 + 0.5 * k)]), last=last)
    an = McAnalysis(fn, w.data, ranges(env, [row("radius", 1, "linear", False, 1.0, 5.0)]), store=True)
    rs = [w.reps[r] for r in reps]
    judge_opts(env, an, rs)
    judge_I(env, an, w, rs)
    stored(env, fn, an, [0])
    env.observe("opts", [an.optParAvg["valMean"][k] for k in OPT])


SETS = [[1.5, 2.0, 4.5], [2.5, 2.5, 2.5], [6.0, 7.0, 9.0], [1.0, 3.0, 8.0]]


@harness(
    quick=dict(sets=[(0,), (0, 3), (1, 0), (0, 2), (0, 1, 3), (2, 2)]),
    thorough=dict(sets=[(0,), (0, 3), (1, 0), (0, 2), (0, 1, 3), (2, 2), (0, 1, 2, 3), (3, 3, 1, 0)]),
    witnesses=8,
    bounds="1 to 3 (thorough 4) repetitions of three contributions of given values (spread, identical, some or all outside the range), any scaling; two ranges with labels 0 and 1 or 7 and 2, linear and logarithmic bins",
)
def histograms_and_modes(env):
    from mcsas3.mc_analysis import McAnalysis

    w = world(env, 1)
    sel = env.choice("sets", env.p["sets"])
    labels = env.choice("labels", [[0, 1], [7, 2]])
    fn = env.tmp / "r.h5"
    last = None
    for rep, k in enumerate(sel):
        last = write(env, w, fn, rep, dict(radius=list(SETS[k])), last=last)
    rs = [w.reps[r] for r in range(len(sel))]
    # bars, bin edges, range
    R = [
        (row("radius", 2, "linear", False, 1.0, 5.0), [1.0, 3.0, 5.0], (1.0, 5.0)),
        (row("radius", 2, "log", True, 3.0, 4.0), [1.0, math.sqrt(10.0), 10.0], (1.0, 10.0)),
    ]
    an = McAnalysis(fn, w.data, ranges(env, [r[0] for r in R], labels), store=True)
    env.eq(sorted(an._averagedHistograms), sorted(labels), "one averaged histogram per range")
    for l, (_, edges, (lo, hi)) in zip(labels, R):
        t = an._averagedHistograms[l]
        env.eq(len(t), 2, "one row per bin")
        for b in range(2):
            a, e = edges[b], edges[b + 1]
            v = [sum(a <= x and (x <= e if b == 1 else x < e) for x in r.vals["radius"]) * r.sc * 1e-5 for r in rs]
            env.eq(t["yMean"].iloc[b] * 1e5, mean(v) * 1e5, "mean bar height over the repetitions")
            spread(env, t["yStd"].iloc[b], v, 1 if len(v) > 1 else 0, "sample standard deviation of the bar height", 1e5)
            env.eq(t["xWidth"].iloc[b], e - a, "bin width")
            env.eq(t["xMean"].iloc[b], (a + e) / 2, "bin centre")
        for i, k in enumerate(MODES):
            v = [m[i] for m in (modes(r, "radius", lo, hi) for r in rs)]
            v = [x for x in v if not (isinstance(x, float) and math.isnan(x))]
            f = 1e5 if i == 0 else 1.0
            c = an._averagedModes
            got, std = c[(k, "valMean")][l], c[(k, "valStd")][l]
            env.eq(got * f, mean(v) * f if v else float("nan"), f"mean {k} over the repetitions in which it is defined")
            spread(env, std, v, 1, f"sample standard deviation of {k}", f)
    stored(env, fn, an, labels)
    env.observe("bars", list(an._averagedHistograms[labels[0]]["yMean"]))


@harness(
    quick=dict(reps=[1, 2]),
    thorough=dict(reps=[1, 2, 3]),
    witnesses=8,
    bounds="1 or 2 (thorough 3) repetitions of one contribution of any value, any preset range with two linear bins, any scaling",
)
def any_range(env):
    from mcsas3.mc_analysis import McAnalysis

    w = world(env, 1)
    n = env.choice("reps", env.p["reps"])
    lo, wd = env.real("lo"), env.real("width", lo=0, lo_open=True)
    fn = env.tmp / "r.h5"
    last = None
    for rep in range(n):
        last = write(env, w, fn, rep, dict(radius=[env.real(f"radius{rep}")]), last=last)
    rs = [w.reps[r] for r in range(n)]
    an = McAnalysis(fn, w.data, ranges(env, [row("radius", 2, "linear", False, lo, lo + wd)]))
    t = an._averagedHistograms[0]
    ed = [lo, lo + wd / 2, lo + wd]
    for b in range(2):
        env.eq([t["xWidth"].iloc[b], t["xMean"].iloc[b]], [wd / 2, (ed[b] + ed[b + 1]) / 2], "bin width and centre")
        v = []
        for r in rs:
            x = r.vals["radius"][0]
            inside = env.And(x >= ed[b], x <= ed[b + 1] if b else x < ed[b + 1])
            v.append(env.ite(inside, 1.0, 0.0) * r.sc * 1e-5)
        env.eq(t["yMean"].iloc[b] * 1e5, mean(v) * 1e5, "mean bar height over the repetitions")
        spread(env, t["yStd"].iloc[b], v, 1 if n > 1 else 0, "sample standard deviation of the bar height", 1e5)
    x = [r.vals["radius"][0] for r in rs]
    x = [v for v in x if bool(env.And(v >= ed[0], v <= ed[2]))]
    m = an._averagedModes
    env.eq(m[("mean", "valMean")][0], mean(x) if x else float("nan"), "mean over the repetitions in which it is defined")
    spread(env, m[("mean", "valStd")][0], x, 1, "sample standard deviation of the mean")
    env.eq(m[("variance", "valMean")][0], 0.0 if x else float("nan"), "mean variance over the repetitions in which it is defined")
