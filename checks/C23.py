"""C23  Analysing a result file again replaces everything an earlier analysis has stored."""
import math

from symx.run import harness

from .C22 import MODES, OPT, world, write
from .C20 import ranges, row
from .common import snapshot, unchanged

IMPORTS = [
    "mcsas3.mc_analysis",
    "mcsas3.mc_model_histogrammer",
    "mcsas3.mc_core",
    "mcsas3.mc_model",
    "mcsas3.mc_opt",
    "mcsas3.osb",
    "mcsas3.mc_hdf",
]
OUTSIDE = "more repetitions, ranges and successive analyses than stated; an analysis that fails half-way; bins set automatically ('auto')"
ASSUMPTIONS = [
    "a model is any function of the parameter values (uninterpreted), with positive volume",
    "the scaling/background search started at the optimum it found earlier for the same intensity stays there",
    "the repetitions have different scalings (told apart by them)",
    "the labels of the histogram ranges are unique",
]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (stays at the starting point; objective value of the stored repetition)",
    "numpy random generator (any value inside the requested interval)",
    "h5py (in-memory model of its documented behaviour)",
    "numpy histogram, linspace, logspace on symbolic values (documented semantics)",
]


def num(v):
    return [float(x) if isinstance(x, int) else x for x in v]


def judge(env, an, fn, labels, rows, reps, index=1):
    """the stored histograms are those of this analysis, and nothing else"""
    got = snapshot(env, fn, f"/analyses/MCResult{index}/histograms")
    want = {}
    for l, r in zip(labels, rows):
        p = f"histRange{l}"
        want[p] = None
        for k, v in r.items():
            if v is not None and not (isinstance(v, float) and math.isnan(v)):
                want[f"{p}/{k}"] = v
        want[f"{p}/average"] = None
        for rep in reps:
            q = f"{p}/repetition{rep}"
            want[q] = None
            want[f"{q}/binEdges"] = list(an._concatBinEdges[l][rep])
            want[f"{q}/hist"] = list(an._concatHistograms[l][rep])
            for m in MODES:
                want[f"{q}/{m}"] = an._concatModes[l].loc[rep][m]
        t = an._averagedHistograms[l]
        for c in t.columns:
            want[f"{p}/average/{c}"] = list(t[c])
        for m in MODES:
            want[f"{p}/average/{m}"] = None
            for c in ("valMean", "valStd"):
                want[f"{p}/average/{m}/{c}"] = an._averagedModes[(m, c)][l]
    # settings without a value may be left out or stored as not-a-number; the limits used are stored in addition
    free = {f"histRange{l}/{k}" for l, r in zip(labels, rows) for k in list(r) + ["rangeMin", "rangeMax"]}
    env.eq(sorted(set(got) - free), sorted(set(want) - free), "the stored ranges, repetitions and averages are those of the last analysis")
    for k in want:
        if k in got or k not in free:
            env.eq(got.get(k), want[k], f"as just computed: {k.split('/')[-1]}")
    for l, r in zip(labels, rows):
        for k, v in r.items():
            p = f"histRange{l}/{k}"
            if v is None or (isinstance(v, float) and math.isnan(v)):
                env.check(p not in got or (isinstance(got[p], float) and math.isnan(got[p])), "settings of the last analysis", p)
            else:
                env.check(p in got, "settings of the last analysis", p)


def judge_average(env, an, w, fn, index=1):
    got = snapshot(env, fn, f"/analyses/MCResult{index}/optimization/average")
    for k in OPT:
        for c in ("valMean", "valStd"):
            env.eq(got.get(f"{k}/{c}"), an.optParAvg[c][k], f"averaged optimization parameter: {k}")
    for c in ("modelIMean", "modelIStd"):
        env.eq(got.get(c), list(an.modelIAvg[c]), f"averaged intensity: {c}")


def settings(env, tag):
    """a table of histogram ranges -> labels, rows"""
    # which contributions are in the range is the same for all of these limits
    lo = env.real(tag + "lo", lo=0.25, hi=1.5)
    hi = env.real(tag + "hi", lo=5.5, hi=8.5)
    return {
        "one": ([0], [row("radius", 2, "linear", False, lo, hi)]),
        "two": ([0, 1], [row("radius", 1, "linear", False, lo, hi), row("radius", 3, "log", True, 1.0, 2.0)]),
        "two more": ([3, 1], [row("radius", 2, "linear", True, None, None), row("radius", 1, "linear", False, lo, hi)]),
        "named": (["small"], [row("radius", 1, "log", False, 1.0, 5.0)]),
    }


@harness(
    quick=dict(a=["one", "two", "named"], b=["one", "two", "two more"]),
    thorough=dict(a=["one", "two", "two more", "named"], b=["one", "two", "two more", "named"]),
    witnesses=8,
    bounds="two successive analyses of two repetitions (numbered 0 and 1 or 2 and 10) with two of four sets of ranges (any limits on either side of the same contributions), one changed scaling, or a repetition more or less in between (down to a single one)",
)
def again(env):
    from mcsas3.mc_analysis import McAnalysis

    w = world(env, 1)
    a, b = env.choice("first", env.p["a"]), env.choice("second", env.p["b"])
    reps = env.choice("repetitions", [[0, 1], [2, 10]])
    change = env.choice("change", ["none", "fit", "more", "fewer"])
    fn = env.tmp / "r.h5"
    r0 = write(env, w, fn, reps[0], dict(radius=[2.0, 9.0]))
    r1 = write(env, w, fn, reps[1], dict(radius=[3.0, 12.0]), last=r0)
    labels, rows = settings(env, "a")[a]
    opt = snapshot(env, fn, "/analyses/MCResult1/optimization"), snapshot(env, fn, "/analyses/MCResult1/model")
    an = McAnalysis(fn, w.data, ranges(env, [dict(r) for r in rows], labels), store=True)
    judge(env, an, fn, labels, rows, reps)
    judge_average(env, an, w, fn)

    def kept():
        new = snapshot(env, fn, "/analyses/MCResult1/optimization"), snapshot(env, fn, "/analyses/MCResult1/model")
        unchanged(env, opt[0], new[0], "optimization results", lambda k: k.split("/")[0] == "average")
        unchanged(env, opt[1], new[1], "models")

    kept()
    if change == "fit":  # another fit in the same place
        write(env, w, fn, reps[1], dict(radius=[5.0, 9.5]), last=r1)
    elif change == "more":
        write(env, w, fn, 11, dict(radius=[5.0, 9.5]), last=r1)
        reps = reps + [11]
    elif change == "fewer":  # a single one is left, its spread is not defined
        with env.h5.File(fn, "a") as f:
            del f[f"/analyses/MCResult1/model/repetition{reps[1]}"]
        reps = reps[:1]
    opt = snapshot(env, fn, "/analyses/MCResult1/optimization"), snapshot(env, fn, "/analyses/MCResult1/model")
    labels, rows = settings(env, "b")[b]
    an = McAnalysis(fn, w.data, ranges(env, [dict(r) for r in rows], labels), store=True)
    judge(env, an, fn, labels, rows, reps)
    judge_average(env, an, w, fn)
    kept()
    before = snapshot(env, fn)
    # without storing: the file stays as it is
    McAnalysis(fn, w.data, ranges(env, [row("radius", 1, "linear", False, 1.0, 4.0)]))
    unchanged(env, before, snapshot(env, fn), "analysis without storing")
    env.observe("keys", sorted(before))


@harness(
    quick=dict(reps=[12], ranges=11),
    thorough=dict(reps=[12, 21], ranges=12),
    witnesses=2,
    bounds="12 (thorough also 21) repetitions and then three fewer, or three repetitions and 11 (12) ranges and then one fewer; one limit anything",
)
def many(env):
    from mcsas3.mc_analysis import McAnalysis

    w = world(env, 1)
    what = env.choice("many", ["repetitions", "ranges"])
    reps = list(range(env.choice("n", env.p["reps"]) if what == "repetitions" else 3))
    labels = list(range(1 if what == "repetitions" else env.p["ranges"]))
    lo = env.real("lo", lo=0.25, hi=1.5)
    rows = [row("radius", 1 + l % 3, "linear", False, lo if l in (0, 10) else 1.0, 8.0 + l) for l in labels]
    fn = env.tmp / "r.h5"
    last = None
    for k in reps:
        last = write(env, w, fn, k, dict(radius=[2.0 + 0.25 * k, 7.0]), last=last)
    for k in range(2):
        an = McAnalysis(fn, w.data, ranges(env, [dict(r) for r in rows], labels), store=True)
        judge(env, an, fn, labels, rows, reps)
        judge_average(env, an, w, fn)
        if k == 0 and what == "repetitions":
            with env.h5.File(fn, "a") as f:
                for rep in reps[-3:]:
                    del f[f"/analyses/MCResult1/model/repetition{rep}"]
            reps = reps[:-3]
        elif k == 0:
            labels, rows = labels[:-1], rows[:-1]
