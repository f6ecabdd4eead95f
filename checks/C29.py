"""C29  Reports and the result card state the averaged results."""
import math
import re
import types

from symx.run import harness

from .C20 import ranges, row
from .C22 import IMPORTS as _IMP
from .C22 import MODES, OPT, world, write
from .common import LIMITS

IMPORTS = [
    "mcsas3.mc_analysis",
    "mcsas3.mc_model_histogrammer",
    "mcsas3.mc_core",
    "mcsas3.mc_model",
    "mcsas3.mc_opt",
    "mcsas3.osb",
    "mcsas3.mc_hdf",
    "mcsas3.mc_plot",
]
OUTSIDE = "what matplotlib draws for the calls it is given; fonts, positions and sizes; the wording of the reports beyond the names of the statistics; more ranges and repetitions than stated"
ASSUMPTIONS = [
    "a model is any function of the parameter values (uninterpreted), with positive volume",
    "the scaling/background search started at the optimum it found earlier for the same intensity stays there",
    "averages are compared as the analysis tables hold them (those are decided under C22)",
]
STUBS = [
    "matplotlib.pyplot (records what is drawn on which axes; accepts the axis scales matplotlib knows)",
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (stays at the starting point; objective value of the stored repetition)",
    "numpy random generator (any value inside the requested interval)",
    "h5py (in-memory model of its documented behaviour)",
]

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|\bnan\b|\binf\b)")
SCALES = {"linear", "log", "symlog", "logit", "asinh", "function", "functionlog", "mercator"}


# ------------------------------------------------------------------ numbers in a text
def numbers(env, text):
    from symx import values as V

    out = []
    for m in NUM.findall(text):
        x = float(m)
        out.append(V.unmagic_near(x) if env.symbolic else x)
    return out


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def shown(env, got, want, label, digits=3):
    """got is want rounded to significant digits (or, digits < 0, to decimals)"""
    if isnan(want) or isnan(got):
        env.check(isnan(want) and isnan(got), label, f"{got} {want}")
        return
    d = abs(got - want)
    if digits > 0:
        env.check(d <= abs(want) * (0.5 * 10 ** (1 - digits) * 1.001) + 1e-200, label)
    else:
        env.check(d <= 0.5 * 10**digits * 1.001 + abs(want) * 1e-9, label)


def judge_lines(env, text, stats, what):
    """one line per statistic: name, mean, deviation and, unless the mean is zero, the relative deviation"""
    lines = text.split("\n")
    for name, (mean, std) in stats.items():
        ls = [l for l in lines if l.strip().startswith(name)]
        env.eq(len(ls), 1, f"one line in {what} for {name}")
        v = numbers(env, ls[0].strip()[len(name) :])
        shown(env, v[0], mean, f"{what}: mean of {name}")
        shown(env, v[1], std, f"{what}: deviation of {name}")
        if len(v) > 2:
            if not isnan(mean) and not isnan(std):
                env.check(mean != 0, "a relative deviation is stated only of a mean that is not zero")
                shown(env, v[2], std / mean * 100, f"{what}: relative deviation of {name} in percent", -2)
        else:
            env.check(mean == 0, f"{what}: the relative deviation of {name} is left out only if the mean is zero")


def opt_stats(an):
    return {k: (an.optParAvg["valMean"][k], an.optParAvg["valStd"][k]) for k in OPT}


def mode_stats(an, l):
    return {k: (an._averagedModes[(k, "valMean")][l], an._averagedModes[(k, "valStd")][l]) for k in MODES}


def judge_run_report(env, an, text, nrep, Q):
    judge_lines(env, text, opt_stats(an), "the run report")
    head = [l for l in text.split("\n") if "Q" in l]
    env.eq(len(head), 1, "one line states the Q range")
    v = numbers(env, head[0].replace("1/nm", ""))
    shown(env, v[0], min(Q), "smallest Q of the fit")
    shown(env, v[1], max(Q), "largest Q of the fit")


def judge_hist_report(env, an, l, text, par, lo, hi):
    judge_lines(env, text, mode_stats(an, l), "the population report")
    head = [x for x in text.split("\n") if par in x and "≤" in x]
    env.eq(len(head), 1, "one line states the range")
    v = numbers(env, head[0])
    shown(env, v[0], lo, "lower end of the range in the population report")
    shown(env, v[1], hi, "upper end of the range in the population report")


# ------------------------------------------------------------------ a recording matplotlib
class Axes:
    def __init__(self, w):
        self.w = w
        self.calls = []
        self.xs = self.ys = "linear"
        self.transAxes = object()

    def set_xscale(self, s="linear", **k):
        if s not in SCALES:
            raise ValueError(f"{s!r} is not a valid value for scale")
        self.xs = s

    def set_yscale(self, s="linear", **k):
        if s not in SCALES:
            raise ValueError(f"{s!r} is not a valid value for scale")
        self.ys = s

    xscale, yscale = set_xscale, set_yscale

    def loglog(self, *a, **k):
        self.xs = self.ys = "log"
        self.calls.append(("plot", a, k))

    def semilogx(self, *a, **k):
        self.xs = "log"
        self.calls.append(("plot", a, k))

    def get_figure(self):
        return self.w.fig

    figure = property(get_figure)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, a, k))
            return types.SimpleNamespace()

        return f

    def of(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


class Figure:
    def __init__(self, w):
        self.w = w

    def savefig(self, fname, **k):
        self.w.saved.append(str(fname))

    def subplots(self, nrows=1, ncols=1, **k):
        return self.w.subplots(nrows, ncols)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Plt:
    """matplotlib.pyplot: state machine over the axes of the current figure"""

    def __init__(self):
        self.saved, self.axes, self.current = [], [], None
        self.fig = Figure(self)

    def _grid(self, nrows, ncols, squeeze=True):
        import numpy as np

        g = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                g[i, j] = Axes(self)
                g[i, j].place = (i, j)
                self.axes.append(g[i, j])
        self.current = self.axes[-1]
        if squeeze:
            g = g[0, 0] if g.size == 1 else g.reshape(-1) if 1 in g.shape else g
        return g

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        return self.fig, self._grid(nrows, ncols, squeeze)

    def figure(self, *a, **k):
        return self.fig

    gcf = figure

    def gca(self, **k):
        if self.current is None:
            self._grid(1, 1)
            self.current.place = (0, 0)
        return self.current

    def sca(self, ax):
        self.current = ax

    def savefig(self, fname, **k):
        self.saved.append(str(fname))

    def tight_layout(self, **k):
        pass

    def close(self, *a):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.gca(), name)


def plotter(env):
    p = Plt()
    import mcsas3.mc_analysis as a
    import mcsas3.mc_plot as m

    for mod in (a, m):
        if hasattr(mod, "plt"):
            env.patch(mod, "plt", p)
    return p


def arg(call, i, name):
    a, k = call
    return a[i] if len(a) > i else k.get(name)


def judge_bars(env, ax, t, scale):
    b = ax.of("bar")
    env.eq(len(b), 1, "the histogram of a range is drawn once")
    b = b[0]
    for i, (n, col) in enumerate((("x", "xMean"), ("height", "yMean"), ("width", "xWidth"))):
        env.eq(list(arg(b, i, n)), list(t[col]), f"bars: {col} of the averaged histogram")
    env.eq(list(b[1].get("yerr")), list(t["yStd"]), "error bars: yStd of the averaged histogram")
    env.check(b[1].get("align", "center") == "center", "bars are centred")
    env.eq(ax.xs, "log" if scale == "log" else "linear", "logarithmic axis for logarithmic bins only")


def any_text(ax):
    out = [a[2] if len(a) > 2 else k.get("s") for a, k in ax.of("text")] + [a[0] for a, k in ax.of("set_title") + ax.of("title")]
    return "\n".join(str(x) for x in out)


def contains(env, text, report, what):
    """every line of numbers of the report (judged in the other harnesses) is on the card next to its plot"""
    for l in report.split("\n")[1:]:
        if NUM.search(l):
            env.check(l.strip() in text, f"{what} is shown with the plot", l)


REPS = [(0,), (0, 1), (3, 10)]


@harness(
    quick=dict(npts=2, reps=REPS), thorough=dict(npts=3, reps=REPS + [(0, 1, 2)]), witnesses=8,
    bounds="1 or 2 (thorough 3) repetitions, one contribution each, 2 (3) data points in falling or mixed order of Q, any scaling, background, goodness of fit and counters; magnitudes between 1e-8 and 1e8 rounded exactly",
)
def run_report(env):
    from mcsas3.mc_analysis import McAnalysis

    n = env.p["npts"]
    w = world(env, n)
    Q = [[0.25, 0.1, 0.175], [0.5, 0.2, 0.1]][n - 2][:n]
    w.data["Q"] = [env.arr(Q)]
    reps = env.choice("repetitions", env.p["reps"])
    fn = env.tmp / "r.h5"
    last = None
    for k, rep in enumerate(reps):
        last = write(env, w, fn, rep, dict(radius=[env.const(2.0 + 0.5 * k)]), last=last)
    an = McAnalysis(fn, w.data, ranges(env, [row("radius", 1, "linear", False, 1.0, 5.0)]))
    text = an.debugRunReport()
    judge_run_report(env, an, text, len(reps), Q)
    env.eq(numbers(env, text.split("\n")[0]), [len(reps)], "the number of repetitions averaged")
    env.observe("scaling", an.optParAvg["valMean"]["scaling"])


@harness(
    quick=dict(reps=[1, 2], labels=[[0, 1], [7, 2]]), thorough=dict(reps=[1, 2, 3], labels=[[0, 1], [7, 2], [1, 0]]), witnesses=8,
    bounds="1 or 2 (thorough 3) repetitions of one contribution of any value from 0 to 1000, two linear ranges (one of any limits, the other preset or automatic), labels in and out of order, any scaling",
)
def population_report(env):
    from mcsas3.mc_analysis import McAnalysis

    w = world(env, 1)
    n = env.choice("reps", env.p["reps"])
    labels = env.choice("labels", env.p["labels"])
    lo, wd = env.real("lo", lo=0.001), env.real("width", lo=0.001, hi=1000)
    fn = env.tmp / "r.h5"
    last = None
    for rep in range(n):
        last = write(env, w, fn, rep, dict(radius=[env.real(f"radius{rep}", lo=0, hi=1000)]), last=last)
    # an automatic range has the fit limits, whatever is preset
    auto = env.choice("automatic range", [False, True] if labels[0] else [False])
    R = [row("radius", 1, "linear", False, lo, lo + wd), row("radius", 2, "linear", auto, 2.0, 300.0)]
    an = McAnalysis(fn, w.data, ranges(env, R, labels))
    judge_hist_report(env, an, labels[0], an.debugReport(labels[0]), "radius", lo, lo + wd)
    judge_hist_report(env, an, labels[1], an.debugReport(labels[1]), "radius", *(LIMITS["radius"] if auto else (2.0, 300.0)))
    env.observe("total", an._averagedModes[("totalValue", "valMean")][labels[0]])


@harness(
    quick=dict(npts=2), thorough=dict(npts=3), witnesses=8,
    bounds="1 or 2 repetitions of three contributions with two parameters, 2 (thorough 3) data points, one to three ranges with labels in and out of order, linear, logarithmic and automatic bins, any scaling and background; card stored or not",
)
def result_card(env):
    n = env.count("reps", 1, 2)
    labels, kinds = env.choice(
        "ranges", [([0], ["log"]), ([0, 1], ["linear", "log"]), ([0, 1], ["log", "linear"]), ([3, 1], ["log", "linear"]), ([1, 0], ["linear", "log"]), ([5], ["auto"]), ([0, 1, 2], ["linear", "log", "linear"])]
    )
    if "auto" in kinds and n > 1:
        return
    card(env, env.p["npts"], n, labels, kinds)


def card(env, npts, n, labels, kinds, outs=(None, "card.pdf", "card.png")):
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_plot import McPlot

    env.all_digits()
    w = world(env, npts, ("radius", "length"))
    fn, out = env.tmp / "r.h5", env.choice("stored as", list(outs))
    last = None
    for rep in range(n):
        v = dict(radius=[2.0 + rep, 3.0, 8.0], length=[25.0, 30.0, 49.0 - rep])
        last = write(env, w, fn, rep, v, last=last, sc=None if last else env.real("sc", lo=0.125, hi=1000))
    spec = {"linear": ("length", 2, 20.0, 50.0), "log": ("radius", 2, 1.0, 10.0), "auto": ("radius", 1, 1.0, 10.0)}
    R = [row(spec[k][0], spec[k][1], k, False, *spec[k][2:]) for k in kinds]
    an = McAnalysis(fn, w.data, ranges(env, R, labels))
    p = plotter(env)
    McPlot().resultCard(an, saveHistFile=None if out is None else env.tmp / out)
    env.eq(p.saved, [] if out is None else [str(env.tmp / out)], "the card is written to the given file, or not at all")
    bars = [a for a in p.axes if a.of("bar")]
    env.eq(len(bars), len(labels), "every range is drawn on its own axes")
    for l, k, ax in zip(labels, kinds, bars):
        judge_bars(env, ax, an._averagedHistograms[l], k)
        above = [any_text(a) for a in p.axes if a.place[1] == ax.place[1]]
        contains(env, "\n".join(above), an.debugReport(l), "the population report of its range")
        lab = [a[0] for a, _ in ax.of("xlabel") + ax.of("set_xlabel")]
        env.check(len(lab) == 1 and spec[k][0] in lab[0], "the axis is labelled with the parameter of its range", str(lab))
    fit = [a for a in p.axes if a.of("errorbar")]
    env.eq(len(fit), 1, "the data are drawn once")
    e, f = fit[0].of("errorbar"), fit[0].of("plot")
    env.eq((len(e), len(f)), (1, 1), "the data and the fit are drawn once, on the same axes")
    env.eq([list(arg(e[0], 0, "x")), list(arg(e[0], 1, "y")), list(e[0][1].get("yerr"))], [list(w.data["Q"][0]), list(w.data["I"]), list(w.data["ISigma"])], "the fitted data, with their uncertainties")
    env.eq([list(f[0][0][0]), list(f[0][0][1])], [list(w.data["Q"][0]), list(an.modelIAvg["modelIMean"])], "the averaged fit at the Q of the data")
    env.eq((fit[0].xs, fit[0].ys), ("log", "log"), "data and fit are drawn double-logarithmically")
    contains(env, "\n".join(any_text(a) for a in p.axes if a.place[1] == fit[0].place[1]), an.debugRunReport(), "the run report")
    env.observe("I", list(an.modelIAvg["modelIMean"]))


@harness(
    quick=dict(ranges=11, reps=12), thorough=dict(ranges=13, reps=24), witnesses=2,
    bounds="11 (thorough 13) ranges of two repetitions, or one range of 12 (24) repetitions, on 12 data points; any scaling of the first",
)
def many(env):
    if env.choice("many", ["ranges", "repetitions"]) == "ranges":
        k = env.p["ranges"]
        card(env, 12, 2, list(range(k)), ["linear" if i % 3 else "log" for i in range(k)], ("card.pdf",))
    else:
        card(env, 12, env.p["reps"], [0], ["linear"], ("card.pdf",))


@harness(quick={}, witnesses=6, bounds="one repetition of two contributions, two ranges (linear and logarithmic bins) with labels in and out of order, any scaling; further plot options passed on")
def single_histogram(env):
    from mcsas3.mc_analysis import McAnalysis

    w = world(env, 1, ("radius", "length"))
    labels = env.choice("labels", [[0, 1], [3, 1]])
    fn = env.tmp / "r.h5"
    write(env, w, fn, 0, dict(radius=[2.0, 8.0], length=[25.0, 30.0]))
    R = [row("length", 2, "linear", False, 20.0, 50.0), row("radius", 2, "log", False, 1.0, 10.0)]
    an = McAnalysis(fn, w.data, ranges(env, R, labels))
    i = env.choice("range", [0, 1])
    p = plotter(env)
    an.debugPlot(labels[i], color="red")
    judge_bars(env, p.gca(), an._averagedHistograms[labels[i]], ["linear", "log"][i])
    env.check(p.gca().of("bar")[0][1].get("color") == "red", "plot options are passed on")
