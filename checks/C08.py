"""C08  Results stored under different indices of one file never touch each other."""
import types

from symx.run import harness

from .C18 import world as run_world
from .C20 import ranges, row
from .C22 import OPT, world, write
from .common import LIMITS, data1, image2d, snapshot, unchanged

IMPORTS = [
    "mcsas3.mc_hat",
    "mcsas3.mc_core",
    "mcsas3.mc_model",
    "mcsas3.mc_opt",
    "mcsas3.osb",
    "mcsas3.mc_data_1d",
    "mcsas3.mc_data_2d",
    "mcsas3.mc_data",
    "mcsas3.mc_hdf",
    "mcsas3.mc_analysis",
    "mcsas3.mc_model_histogrammer",
]
OUTSIDE = "other pairs of indices and longer histories than stated; more than two indices in one file; data of the user elsewhere in the file are covered by one group and one dataset; a model histogrammer used on its own with another index than its core"
ASSUMPTIONS = [
    "a model is any function of the parameter values (uninterpreted), with positive volume",
    "the scaling/background search started at the optimum it found earlier for the same intensity stays there",
    "different fits yield different scalings",
]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any admissible scaling/background and any objective value)",
    "numpy random generator (any value inside the requested interval)",
    "multiprocessing (tasks work on copies, chunk by chunk, in this process)",
    "h5py (in-memory model of its documented behaviour)",
]


class Guard:
    """everything outside an index's own entry stays as it is while that index is stored"""

    def __init__(self, env, fn):
        self.env, self.fn = env, fn
        with env.h5.File(fn, "w") as f:  # what the user has in the file already
            f["entry/data/Q"] = env.arr([0.5, 0.25])
            f["entry/title"] = "user"
            f["analyses/other/x"] = 3.0

    def store(self, i, label, f):
        own = f"analyses/MCResult{i}"
        before = snapshot(self.env, self.fn)
        r = f()
        after = snapshot(self.env, self.fn)
        mine = lambda k: k == own or k.startswith((own + "/", own + "@"))  # noqa: E731
        unchanged(self.env, before, after, f"{label}: outside its own entry", mine)
        self.env.check(any(mine(k) for k in after), f"{label}: stored in its own entry")
        return r

    def read(self, label, f):
        before = snapshot(self.env, self.fn)
        r = f()
        unchanged(self.env, before, snapshot(self.env, self.fn), f"{label}: nothing is written by reading")
        return r


PAIRS = [(1, 2), (2, 1), (0, 1), (1, 10), (11, 1), (2, 12)]
ORDERS = {
    "one after the other": "D0 W0 A0 D1 W1 A1",
    "by kind": "D0 D1 W0 W1 A0 A1",
    "interleaved": "W1 D0 W0 D1 A1 A0",
    "again": "D0 W0 A0 D1 W1 A1 W0 D0 A0",
}


def frame(env, tag):
    n = 2
    return env.df(dict(Q=[0.1, 0.4], I=[env.real(f"{tag}I{i}") for i in range(n)], ISigma=[env.real(f"{tag}S{i}", lo=0) for i in range(n)]))


@harness(
    quick=dict(pairs=PAIRS, orders=list(ORDERS)),
    thorough=dict(pairs=PAIRS + [(3, 30), (100, 10), (5, 0), (21, 2), (9, 99)], orders=list(ORDERS)),
    witnesses=10,
    bounds="two indices of six (thorough eleven) pairs, one a prefix of the other or not, in one file; dataset, repetition and analysis stored in four orders, one of them overwriting the first index later; any intensities, uncertainties, scaling, background, goodness of fit, counters",
)
def stored_objects(env):
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_core import McCore
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    pair = env.choice("indices", env.p["pairs"])
    order = env.choice("order", env.p["orders"])
    w = world(env, 1)
    fn = env.tmp / "r.h5"
    g = Guard(env, fn)
    data, reps, res = {}, {}, {}
    last = None
    for n, op in enumerate(ORDERS[order].split()):
        kind, k = op[0], int(op[1])
        i = pair[k]
        if kind == "D":
            md = McData1D(df=frame(env, f"d{n}"), resultIndex=i, nbins=0, IEmin=0.25 * (k + 1))
            g.store(i, "dataset", lambda: md.store(fn))
            data[i] = md
        elif kind == "W":
            last = g.store(i, "repetition", lambda: write(env, w, fn, 0, dict(radius=[2.0 + n, 3.5]), index=i, last=last))
            w.reps[f"op{n}"] = w.reps.pop(0)
            reps[i] = last
        else:
            R = [row("radius", 1 + k, "linear", False, 1.0, 5.0 + n)]
            res[i] = g.store(i, "analysis", lambda: McAnalysis(fn, w.data, ranges(env, R, [k]), store=True, resultIndex=i)), k
    for i in pair:
        md = g.read("dataset", lambda: McData1D(loadFromFile=fn, resultIndex=i))
        env.eq({c: md.rawData[c] for c in md.rawData.columns}, {c: data[i].rawData[c] for c in data[i].rawData.columns}, "the dataset of this index")
        env.eq(md.IEmin, data[i].IEmin, "the settings of this index")
        r = reps[i]
        m = g.read("model", lambda: McModel(loadFromFile=fn, loadFromRepetition=0, resultIndex=i))
        env.eq(list(m.parameterSet["radius"]), r.vals["radius"], "the contributions of this index")
        o = g.read("optimization", lambda: McOpt(loadFromFile=fn, loadFromRepetition=0, resultIndex=i))
        env.eq([o.x0[0], o.x0[1], o.gof, o.accepted, o.step], [r.sc, r.bg, r.gof, r.accepted, r.step], "the optimization of this index")
        c = g.read("core", lambda: McCore(w.data, loadFromFile=fn, loadFromRepetition=0, resultIndex=i))
        env.eq(list(c._model.parameterSet["radius"]), r.vals["radius"], "the contributions of this index (core)")
        env.eq([c._opt.accepted, c._opt.step], [r.accepted, r.step], "the optimization of this index (core)")
        an, k = res[i]
        env.eq([an.optParAvg["valMean"][p] for p in OPT], [r.sc, r.bg, r.gof, r.accepted * 1.0, r.step * 1.0], "analysed: the repetition of this index")
        h = snapshot(env, fn, f"/analyses/MCResult{i}/histograms")
        env.eq([p for p in h if "/" not in p], [f"histRange{k}"], "the histograms of this index")
        env.eq(h[f"histRange{k}/repetition0/hist"], list(an._concatHistograms[k][0]), "the histograms of this index")
    env.observe("keys", sorted(snapshot(env, fn)))


@harness(
    quick=dict(pairs=[(1, 2), (2, 1), (0, 10), (11, 1)], reps=2),
    thorough=dict(pairs=PAIRS, reps=2),
    witnesses=10,
    bounds="runs of one or two repetitions of one step under two of four (thorough six) pairs of indices in one file; the index given to the hat, to its run, or to both differently; serial or in two processes; any random values and fits",
)
def runs(env):
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    pair = env.choice("indices", env.p["pairs"])
    how = env.choice("index given to", ["hat", "run", "both", "both differently", "one hat, two runs"])
    cores = env.choice("cores", [1, 2])
    n = 2 if cores == 2 else env.choice("repetitions", [1, 2][: env.p["reps"]])
    w = run_world(env)
    fn = env.tmp / "r.h5"
    g = Guard(env, fn)
    end = {}
    h = None
    for k, i in enumerate(pair):
        a = {"hat": dict(resultIndex=i), "both": dict(resultIndex=i), "both differently": dict(resultIndex=7)}.get(how, {})
        b = {} if how == "hat" else dict(resultIndex=i)
        if h is None or how != "one hat, two runs":
            h = McHat(
                modelName="sphere",
                fitParameterLimits={"radius": list(LIMITS["radius"])},
                staticParameters={"background": 0},
                nContrib=2 + k,
                nRep=n,
                nCores=cores,
                maxIter=1,
                convCrit=-1.0,
                seed=None,
                **a,
            )
        g.store(i, "run", lambda: h.run(w.data, fn, **b))
        end[i] = w.reps[:]
        del w.reps[:]
        env.eq(len(end[i]), n, "all repetitions were run")
    for i in pair:
        s = snapshot(env, fn, f"/analyses/MCResult{i}")
        for part in ("model", "optimization"):
            env.eq(sorted(k.split("/")[1] for k in s if k.startswith(part + "/rep") and k.count("/") == 1), [f"repetition{r}" for r in range(n)], f"all repetitions are stored under the index of the run ({part})")
        env.eq([s.get("optimization/nRep"), s.get("optimization/nCores")], [n, cores], "settings of the run under its index")
        for r in end[i]:
            m = g.read("model", lambda: McModel(loadFromFile=fn, loadFromRepetition=r.rep, resultIndex=i))
            env.eq(list(m.parameterSet["radius"]), r.end["rows"], "the contributions of this index")
            env.eq(list(m.volumes), r.end["volumes"], "the volumes of this index")
            o = g.read("optimization", lambda: McOpt(loadFromFile=fn, loadFromRepetition=r.rep, resultIndex=i))
            env.eq([o.gof, o.accepted, o.step, list(o.x0)], [r.end[x] for x in ("gof", "accepted", "step", "x0")], "the optimization of this index")
        x = g.read("hat", lambda: McHat(loadFromFile=fn, resultIndex=i))
        env.eq([x.nRep, x.nCores], [n, cores], "the settings of this index")


@harness(
    quick=dict(pairs=[(1, 2), (10, 1)]),
    thorough=dict(pairs=PAIRS),
    witnesses=6,
    bounds="a 2x2 pixel 2-D dataset with any values next to a dataset of another index",
)
def data_2d(env):
    from mcsas3.mc_data_1d import McData1D

    i, j = env.choice("indices", env.p["pairs"])
    fn = env.tmp / "r.h5"
    g = Guard(env, fn)
    one = McData1D(df=frame(env, "a"), resultIndex=i, nbins=0)
    g.store(i, "dataset", lambda: one.store(fn))
    two, px = image2d(env, (2, 2), inside=True, resultIndex=j)
    g.store(j, "2-D dataset", lambda: two.store(fn))
    s = snapshot(env, fn, f"/analyses/MCResult{j}/mcdata")
    env.eq(s["rawData/I"], [px.I[p] for p in px.ids], "stored intensities")
    b = McData1D(loadFromFile=fn, resultIndex=i)
    env.eq({c: b.rawData[c] for c in b.rawData.columns}, {c: one.rawData[c] for c in one.rawData.columns}, "the dataset of this index")


@harness(quick=dict(), thorough=dict(), bounds="reading under an index that holds nothing, with results under 1, 2 or 10 in the file")
def absent(env):
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    i, j = env.choice("stored, read", [(1, 2), (2, 1), (10, 1), (1, 10), (1, 11), (1, 0)])
    w = world(env, 1)
    fn = env.tmp / "r.h5"
    g = Guard(env, fn)
    g.store(i, "repetition", lambda: write(env, w, fn, 0, dict(radius=[2.0, 3.5]), index=i))
    for what, f in dict(
        model=lambda: McModel(loadFromFile=fn, loadFromRepetition=0, resultIndex=j),
        optimization=lambda: McOpt(loadFromFile=fn, loadFromRepetition=0, resultIndex=j),
        hat=lambda: McHat(loadFromFile=fn, resultIndex=j),
        analysis=lambda: McAnalysis(fn, w.data, ranges(env, [row("radius", 1, "linear", False, 1.0, 5.0)]), resultIndex=j),
    ).items():
        ok = False
        try:
            f()
        except Exception:
            ok = True
        env.check(ok, f"nothing is read from another index: {what}")
