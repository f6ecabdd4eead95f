"""C31  Unusable settings and data are refused with an error, not ignored; nothing is written then."""
import math
import os
from pathlib import Path

from symx.run import harness

from .C20 import ranges, row
from .C22 import world as stored_world
from .C22 import write
from .C24 import call, configs, fill, files, inside, link, old
from .C18 import judge, world
from .common import core, sas, rngs, snapshot, tnc

IMPORTS = [
    "mcsas3.cli_tools",
    "mcsas3.mcsas3_cli_runner",
    "mcsas3.mcsas3_cli_histogrammer",
    "mcsas3.mc_hat",
    "mcsas3.mc_core",
    "mcsas3.mc_model",
    "mcsas3.mc_opt",
    "mcsas3.osb",
    "mcsas3.mc_data_1d",
    "mcsas3.mc_data_2d",
    "mcsas3.mc_data",
    "mcsas3.mc_hdf",
    "mcsas3.mc_analysis",
    "mcsas3.mc_model_histogrammer",
    "mcsas3.mc_plot",
]
OUTSIDE = "option names, texts, file names and settings other than those listed; option values of the wrong type; refusals by the model library; text after conversion by pandas (C28)"
ASSUMPTIONS = ["an error of any type is a refusal"]
STUBS = [
    "sasmodels, scipy minimize, numpy random generator (arbitrary results)",
    "h5py (in-memory model of its documented behaviour; file names are those of the real file system, in a scratch directory)",
    "matplotlib figures of the histogrammer (left out)",
]
INF, NAN = float("inf"), float("nan")
UNKNOWN = ["nrep", "nReps", "maxiter", "contributions", "fitParameterLimit", "dataranges", "nBins", "_opt", "func", "volumes", "run", "rawdata"]
# what each kind of object lets its user set
KNOWN = {
    "data": ["nbins", "IEmin", "binning", "dataRange", "pathDict", "csvargs", "loader", "qNudge", "omitQRanges", "measDataLink"],
    "model": ["nContrib", "fitParameterLimits", "staticParameters", "modelName", "modelDType", "seed", "logRandom"],
    "opt": ["convCrit", "maxIter", "maxAccept", "repetition", "weighting"],
    "run": ["nCores", "nRep"],
}
KNOWN["hat"] = KNOWN["model"] + KNOWN["opt"] + KNOWN["run"]


def values(env):
    return dict(
        nbins=0,
        IEmin=env.real("IEmin", lo=0, hi=1),
        binning="logarithmic",
        dataRange=[0.0, 10.0],
        pathDict=None,
        csvargs={"sep": ";"},
        loader=None,
        qNudge=env.real("nudge", lo=0),
        omitQRanges=[],
        measDataLink="clippedData",
        nContrib=1,
        fitParameterLimits={"radius": (1.0, 10.0)},
        staticParameters={"background": 0},
        modelName="sphere",
        modelDType="fast",
        seed=3,
        logRandom=False,
        convCrit=env.real("crit"),
        maxIter=env.integer("maxIter", 0, 10),
        maxAccept=env.integer("maxAccept", 0, 10),
        repetition=env.integer("repetition", 0, 10),
        weighting=0.5,
        nCores=env.integer("cores", 1, 4),
        nRep=env.integer("reps", 1, 4),
    )


def make(env, kind, kw):
    from mcsas3 import mc_data_1d, mc_hat, mc_model, mc_opt

    if kind == "data":
        df = env.df(dict(Q=[env.real("Q", lo=1, hi=9)], I=[env.real("I")], ISigma=[env.real("S")]))
        return mc_data_1d.McData1D(df=df, **dict(dict(nbins=0), **kw))
    if kind == "model":
        sas(env)
        rngs(env)
        base = dict(fitParameterLimits={"radius": (1.0, 10.0)}, staticParameters={"background": 0}, nContrib=1)
        return mc_model.McModel(**dict(base, **kw))
    return {"opt": mc_opt.McOpt, "hat": mc_hat.McHat}[kind](**dict({} if kind == "opt" else dict(fitParameterLimits={"radius": (1.0, 10.0)}), **kw))


@harness(
    quick=dict(),
    thorough=dict(),
    bounds="data, model, optimizer and run objects made with one option of any listed name (its own, another object's, misspelt or internal), alone, before or after an own one; any numerical values",
)
def options(env):
    kind = env.choice("object", ["data", "model", "opt", "hat"])
    own = KNOWN[kind]
    name = env.choice("option", sorted(set(sum(KNOWN.values(), []))) + UNKNOWN)
    V = values(env)
    kw = {name: V.get(name, 1)}
    other = [k for k in own if k != name][0]
    pos = env.choice("next to", ["alone", "before", "after"])
    if pos == "before":
        kw = {**kw, other: V[other]}
    elif pos == "after":
        kw = {other: V[other], **kw}
    got = []
    given = dict(kw)
    e = env.raises(lambda: got.append(make(env, kind, kw)))
    if name in own:
        env.check(e is None, "options of the object are accepted", f"{kind} {name}: {e!r}")
        for k in given:
            if (kind != "hat" or k in KNOWN["run"]) and k != "loader":  # the others are handed on later (C18)
                env.eq(getattr(got[0], k), given[k], "options of the object are used")
    else:
        env.check(e is not None, "options the object does not know are refused", f"{kind} {name}")
    env.eq(list(kw), list(given), "the caller's options are left as they were")


@harness(quick=dict(lo=-2, hi=3), thorough=dict(lo=-20, hi=20), bounds="any number of repetitions from -2 to 3 (thorough -20 to 20), given with or without other options")
def repetitions(env):
    n = env.integer("n", env.p["lo"], env.p["hi"])
    kw = dict(nRep=n)
    if env.flag("more"):
        kw = dict(maxIter=1, **kw, nCores=1)
    e = env.raises(make, env, "hat", kw)
    env.check(bool(n > 0) == (e is None), "fewer than one repetition is refused, any other number accepted", f"{n}: {e!r}")


@harness(quick=dict(), thorough=dict(), bounds="one of two fit parameters with text or number limits as given; the other with automatic or any explicit ones; result file new or there already")
def fit_limits(env):
    from mcsas3.mc_hat import McHat

    w = world(env)
    lo, hi = env.real("lo", lo=0, lo_open=True), env.real("hi", lo=0, lo_open=True)
    env.assume(lo <= hi)
    bad = env.choice("limits", ["automatic", "Auto", "", "1, 10", "auto"])
    ok = env.choice("other", ["auto", "explicit"])
    L = {"radius": bad, "length": "auto" if ok == "auto" else [lo, hi]}
    if env.flag("second"):
        L = dict(reversed(list(L.items())))
    fn = env.tmp / "r.nxs"
    there = env.flag("there")
    if there:
        old(env, fn)
        before = snapshot(env, fn)
    d = dict(Q=[env.arr([0.5, 1.0])], I=env.arr([1.0, 2.0]), ISigma=env.arr([1.0, 1.0]))
    hat = McHat(nCores=env.choice("cores", [1, 2]), nRep=2, modelName="sphere", nContrib=1, fitParameterLimits=L, staticParameters={"background": 0}, maxIter=0)
    e = env.raises(hat.run, d, fn)
    if bad == "auto":
        env.check(e is None, "automatic limits are accepted", repr(e))
        return
    env.check(e is not None, "limits given by a text other than 'auto' are refused", repr(bad))
    env.eq(fn.is_file(), there, "no result file is made for a refused run")
    if there:
        env.eq(snapshot(env, fn), before, "the result file is left as it was")
    env.eq(len(w.reps), 0, "nothing is fitted for a refused run")


GOOD = dict(parameter="radius", nBin=2, binScale="linear", binWeighting="vol", autoRange=True)
BAD = dict(
    parameter=["length", "Radius", "background", ""],
    nBin=[0, 2.0, 2.5, "2", None],
    binScale=["logarithmic", "Linear", "", None],
    binWeighting=["num", "volsqr", "", None],
    autoRange=["yes", "False", 1, 0, None],
)


def settings(env):
    """-> table of one or two histogram ranges, one of them with one unusable setting (or none)"""
    key = env.choice("setting", [None, *BAD])
    r = dict(GOOD, presetRangeMin=2.0, presetRangeMax=4.0)
    if key == "nBin" and env.flag("number"):
        n = env.integer("nBin", -3, 3)
        r[key] = n
        ok = int(n) > 0
    else:
        if key is not None:
            r[key] = env.choice("value", BAD[key])
        ok = key is None
    if ok and key is None:
        r["binScale"] = env.choice("scale", ["linear", "log"])
        r["autoRange"] = env.choice("auto", [True, False])
    rows = {"alone": [r], "first": [r, dict(GOOD, presetRangeMin=3.0, presetRangeMax=5.0)], "last": [dict(GOOD, presetRangeMin=3.0, presetRangeMax=5.0), r]}
    import pandas

    # texts and numbers as they are (as in a table read from a configuration)
    t = pandas.DataFrame(rows[env.choice("place", list(rows))], dtype=object)
    return t, ok


@harness(quick=dict(), thorough=dict(), bounds="one or two histogram ranges, one of them with a parameter, bin number (-3 to 3, fractions, texts), scale, weighting or range flag as listed; two contributions of any two sizes, any fit")
def histogram_settings(env):
    from mcsas3.mc_model_histogrammer import McModelHistogrammer

    c, w = core(env, 1, 2)
    a, b = c._model.parameterSet["radius"]
    env.assume(a != b)
    t, ok = settings(env)
    e = env.raises(McModelHistogrammer, c, t)
    env.check((e is None) == ok, "unusable histogram settings are refused, usable ones accepted", f"{t.to_dict('records')}: {e!r}")


@harness(quick=dict(), thorough=dict(), bounds="a result file analysed before (or not) and now with unusable histogram settings as above, one or two repetitions of one contribution of any size and any fit")
def analysis(env):
    from mcsas3.mc_analysis import McAnalysis

    w = stored_world(env, 1)
    fn = env.tmp / "r.nxs"
    last = None
    for k in range(env.choice("repetitions", [1, 2])):
        last = write(env, w, fn, k, dict(radius=[env.real(f"x{k}", lo=1, hi=10)]), last=last)
    if env.flag("before"):
        import pandas

        McAnalysis(fn, w.data, pandas.DataFrame([dict(GOOD, presetRangeMin=1.0, presetRangeMax=2.0)]), store=True)
    before = snapshot(env, fn)
    t, ok = settings(env)
    e = env.raises(McAnalysis, fn, w.data, t, store=True)
    env.check((e is None) == ok, "unusable histogram settings are refused, usable ones accepted", f"{t.to_dict('records')}: {e!r}")
    if not ok:
        env.eq(snapshot(env, fn), before, "the result file is left as it was")


@harness(quick=dict(n=2), thorough=dict(n=4), bounds="n points (thorough 4) at any Q in any order, one of them possibly with a missing value; any range limits")
def empty_selection(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.p["n"]
    q = [env.real(f"Q{i}") for i in range(n)]
    I, S = [env.real(f"I{i}") for i in range(n)], [env.real(f"S{i}", lo=0, lo_open=True) for i in range(n)]
    gone = env.choice("missing", [None, *range(n)])
    if gone is not None:
        env.choice("of", [I, S])[gone] = NAN
    lo, hi = env.value("lo", [-INF]), env.value("hi", [INF])
    df = env.df(dict(Q=q, I=I, ISigma=S))
    e = env.raises(McData1D, df=df, dataRange=[lo, hi], nbins=0)
    some = any(bool(env.And(lo <= x, x < hi)) for i, x in enumerate(q) if i != gone)
    env.check((e is None) == some, "a range without any usable point is refused, any other accepted", repr(e))


@harness(quick=dict(), thorough=dict(), bounds="omitted ranges given as nothing, a list of none, one or two pairs, or as a pair, tuple of pairs, text, number, or list with a single number, one or three limits; any limits, two points at any Q")
def omitted(env):
    from mcsas3.mc_data_1d import McData1D

    q = [env.real(f"Q{i}") for i in range(2)]
    a, b, c = env.real("a"), env.real("b"), env.real("c")
    good = {"none": None, "empty": [], "pair": [[a, b]], "two": [[a, b], [b, c]], "tuple pair": [(a, b)]}
    bad = {"flat": [a, b], "tuple": ((a, b),), "text": "0.1, 0.2", "number": a, "one": [[a]], "three": [[a, b, c]], "second one": [[a, b], [c]], "second three": [[a, b], [a, b, c]]}
    k = env.choice("given", [*good, *bad])
    df = env.df(dict(Q=q, I=[1.0, 2.0], ISigma=[0.5, 0.5]))
    md = []
    e = env.raises(lambda: md.append(McData1D(df=df, dataRange=[-INF, INF], nbins=0, omitQRanges={**good, **bad}[k])))
    env.check((e is None) == (k in good), "omitted ranges that are no list of pairs are refused, any others accepted", f"{k}: {e!r}")


@harness(quick=dict(), thorough=dict(), bounds="tables of one row with any of the columns Q, I, ISigma and one more in any order, each of numbers or of text; something else than a table; made with the table or given it later; any numbers")
def tables(env):
    import pandas
    from mcsas3.mc_data_1d import McData1D

    how = env.choice("given", ["table", "records", "array", "nothing"])
    late = env.flag("later")
    rows = dict(Q=env.real("Q", lo=1, hi=9), I=env.real("I"), ISigma=env.real("S"))
    bad = None
    cols = ["Q", "I", "ISigma"]
    if how == "table":
        bad = env.choice("column", [None, "Q", "I", "ISigma"])
        if bad is not None:
            what = env.choice("is", ["missing", "renamed", "text"])
            if what == "missing":
                cols.remove(bad)
            elif what == "renamed":
                cols[cols.index(bad)] = bad.lower() + "1"
                rows[bad.lower() + "1"] = rows[bad]
            else:
                rows[bad] = "1,5"
        if env.flag("more"):
            rows["extra"] = env.real("E")
            cols.append("extra")
        if env.flag("reversed"):
            cols.reverse()
        t = env.df({c: [rows[c]] for c in cols if not isinstance(rows[c], str)})
        for c in cols:
            if isinstance(rows[c], str):
                t[c] = [rows[c]]
        t = t[cols]
    else:
        t = {"records": [rows], "array": env.arr(list(rows.values())), "nothing": None}[how]

    def f():
        if late or how == "nothing":
            McData1D(nbins=0, dataRange=[0.0, 10.0]).from_pandas(t)
        else:
            McData1D(df=t, nbins=0, dataRange=[0.0, 10.0])

    e = env.raises(f)
    env.check((e is None) == (how == "table" and bad is None), "tables without numeric Q, I and ISigma columns are refused, others accepted", f"{how} {cols} {bad}: {e!r}")


TEXT = "0.5 1.5 0.25\n1.0 2.5 0.5\n"


@harness(quick=dict(), thorough=dict(), bounds="an input file that is there, missing or a folder, with one of 12 endings and no, a known or an unknown loader; HDF5 content with any intensities")
def input_files(env):
    from mcsas3.mc_data_1d import McData1D

    ends = [".dat", ".csv", ".txt", ".nxs", ".h5", ".hdf5", ".nx", "", ".xyz", ".yaml", ".py", ".json"]
    end = env.choice("ending", ends)
    loader = env.choice("loader", [None, "from_csv", "from_nexus", "from_text", "csv"])
    state = env.choice("file", ["there", "missing", "folder"])
    fn = env.tmp / ("data" + end)
    by_end = "from_csv" if end in (".dat", ".csv", ".txt") else "from_nexus" if end in (".nxs", ".h5", ".hdf5", ".nx") else None
    by = by_end or (loader if loader in ("from_csv", "from_nexus") else None)
    if by_end and loader not in (None, by_end):
        return  # a contradiction: either may win
    I = [2.5, 1.5]
    if state == "folder":
        fn.mkdir()
    elif state == "there":
        if by == "from_nexus":
            I = [env.real("I0"), env.real("I1")]
            with env.h5.File(fn, "w") as f:
                f["q"], f["i"], f["s"] = env.arr([0.5, 1.0]), env.arr(I), env.arr([0.25, 0.5])
        else:
            I = [1.5, 2.5]
            fn.write_text(TEXT)
    kw = dict(nbins=0, dataRange=[0.0, 10.0], pathDict=dict(Q="/q", I="/i", ISigma="/s"))
    if by == "from_csv":
        kw["csvargs"] = dict(sep=" ", header=None, names=["Q", "I", "ISigma"])
    if loader is not None:
        kw["loader"] = loader
    md = []
    e = env.raises(lambda: md.append(McData1D(filename=fn, **kw)))
    good = state == "there" and by is not None
    env.check((e is None) == good, "files that are missing or of unknown type are refused, others read", f"{fn.name} {loader} {state}: {e!r}")
    if good:
        env.eq(list(md[0].measData["I"]), I, "files that can be read are read")


@harness(quick=dict(stored=[0, 2]), thorough=dict(stored=[0, 1, 4]), bounds="repetition numbers 0 and 2 (thorough 0, 1 and 4) are stored; any number from -1 to 5 or none, of the same or another result index, is asked for as a whole, its model, or its optimization; any contributions")
def repetition_numbers(env):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    w = stored_world(env, 1)
    fn = env.tmp / "r.nxs"
    last = None
    for k in env.p["stored"]:
        last = write(env, w, fn, k, dict(radius=[env.real(f"x{k}", lo=1, hi=10)]), last=last)
    before = snapshot(env, fn)
    i = env.choice("index", [1, 2])
    r = None if env.flag("none") else env.integer("r", -1, 5)
    what = env.choice("load", ["core", "model", "opt"])
    if r is None and what == "opt":
        return  # repetition 0 unless told otherwise
    if r is not None:
        r = int(r)
    f = {
        "core": lambda: McCore(w.data, loadFromFile=fn, loadFromRepetition=r, resultIndex=i),
        "model": lambda: McModel(loadFromFile=fn, loadFromRepetition=r, resultIndex=i),
        "opt": lambda: McOpt(loadFromFile=fn, loadFromRepetition=r, resultIndex=i),
    }[what]
    e = env.raises(f)
    env.check((e is None) == (i == 1 and r in env.p["stored"]), "repetitions not named or not there are refused", f"{what} {r} {i}: {e!r}")
    env.eq(snapshot(env, fn), before, "the result file is left as it was")


@harness(quick=dict(), thorough=dict(), bounds="storing a model without saying which repetition, into a new or existing file; any contributions")
def unnamed_store(env):
    c, w = core(env, 1, 2)
    fn = env.tmp / "r.nxs"
    if env.flag("there"):
        old(env, fn)
    before = snapshot(env, fn) if fn.exists() else None
    r = env.choice("repetition", [None, 0, 3])
    e = env.raises(c._model.store, fn, r)
    env.check((e is None) == (r is not None), "a model is stored only for a given repetition", repr(e))
    if r is None:
        env.eq(snapshot(env, fn) if fn.exists() else None, before, "the result file is left as it was")


@harness(
    quick=dict(),
    thorough=dict(),
    witnesses=4,
    bounds="data file, read or run configuration missing, or a configuration not ending in .yaml; the optimizer called as a class, by its own and by the package's command line, deleting an existing result file or not; the result file new, existing or the data file; any data",
)
def command_line(env):
    w = world(env)
    d = env.tmp
    data, same, other = link(env, d)
    cfg = configs(d, 1, 1)
    fill(env, data, d)
    what = env.choice("unusable", ["data missing", "read missing", "run missing", "read ending", "run ending"])
    a = dict(dataFile=data, resultIndex=1, deleteIfExists=env.flag("delete if it exists"), nThreads=0, **cfg)
    name = env.choice("result file", ["new", "existing"] + ["same"] * (what != "data missing"))
    res = a["resultFile"] = {**same, **other}[name]
    if name == "existing":
        old(env, res)
    if what == "data missing":
        a["dataFile"] = d / "in" / "missing.nxs"
    elif "missing" in what:
        a[what.split()[0] + "ConfigFile"].unlink()
    else:
        k = what.split()[0] + "ConfigFile"
        a[k] = a[k].rename(a[k].with_suffix(env.choice("ending", [".txt", ".json", ""])))
    inp = snapshot(env, data)
    prior = snapshot(env, res) if res.exists() else None
    how = env.choice("command", ["class", "runner", "main"])

    def run():
        e = env.raises(call, env, how, a)
        env.check(e is not None, "a command line naming unusable files is refused", what)
        env.eq(snapshot(env, data), inp, "the data file is left as it was")
        env.eq(snapshot(env, res) if res.exists() else None, prior, "the result file is left as it was")
        env.eq(len(w.reps), 0, "nothing is fitted")

    inside(d / "in", run)


@harness(quick=dict(), thorough=dict(), bounds="histogram configuration missing or not ending in .yaml, by the class or its command line; a result file of one repetition, any data")
def histogram_command_line(env):
    import sys

    from mcsas3 import cli_tools, mc_plot

    w = world(env)
    d = env.tmp
    data, same, other = link(env, d)
    cfg = configs(d, 1, 1)
    fill(env, data, d)
    res = other["new"]
    cli_tools.McSAS3_cli_optimize(dataFile=data, resultFile=res, resultIndex=1, deleteIfExists=False, nThreads=0, **cfg)
    before = snapshot(env, res)
    card = res.with_suffix(".pdf")
    card.write_text("earlier")
    env.patch(mc_plot.McPlot, "resultCard", lambda *a, **k: None)
    hf = d / "cfg" / "hist.yaml"
    what = env.choice("unusable", ["missing", "ending"])
    if what == "missing":
        hf.unlink()
    else:
        hf = hf.rename(hf.with_suffix(env.choice("suffix", [".txt", ""])))
    if env.choice("command", ["class", "histogrammer"]) == "class":
        e = env.raises(cli_tools.McSAS3_cli_histogram, resultFile=res, histConfigFile=hf, resultIndex=1)
    else:
        from mcsas3 import mcsas3_cli_histogrammer

        env.patch(sys, "argv", ["mcsas3", "-r", str(res), "-H", str(hf), "-i", "1"])
        e = env.raises(mcsas3_cli_histogrammer.main)
    env.check(e is not None, "a command line naming unusable files is refused", what)
    env.eq(snapshot(env, res), before, "the result file is left as it was")
    env.check(card.read_text() == "earlier", "an earlier result card is left as it was")


@harness(quick=dict(), thorough=dict(), bounds="model, optimizer, run and data objects restored from a result file with one further option of any listed name; any contributions and numbers")
def options_on_restoring(env):
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    w = stored_world(env, 1)
    fn = env.tmp / "r.nxs"
    write(env, w, fn, 0, dict(radius=[env.real("x", lo=1, hi=10)]))
    kind = env.choice("object", ["data", "model", "opt", "hat"])
    if kind == "data":
        make(env, "data", {}).store(fn)
    if kind == "hat":
        make(env, "hat", {}).store(fn)
    before = snapshot(env, fn)
    own = KNOWN[kind]
    name = env.choice("option", sorted(set(sum(KNOWN.values(), []))) + UNKNOWN)
    if kind == "data" and name in ("pathDict", "loader"):
        return  # belong to the file read
    V = values(env)
    kw = {name: V.get(name, 1)}
    f = {
        "data": lambda: McData1D(loadFromFile=fn, **kw),
        "model": lambda: McModel(loadFromFile=fn, loadFromRepetition=0, **kw),
        "opt": lambda: McOpt(loadFromFile=fn, loadFromRepetition=0, **kw),
        "hat": lambda: McHat(loadFromFile=fn, **dict(dict(fitParameterLimits={"radius": (1.0, 10.0)}), **kw)),
    }[kind]
    e = env.raises(f)
    env.check((e is None) == (name in own), "options the object does not know are refused, its own accepted", f"{kind} {name}: {e!r}")
    env.eq(snapshot(env, fn), before, "the result file is left as it was")


@harness(quick=dict(), thorough=dict(), bounds="a model without fit limits or static parameters or with limits of one or three numbers; the sphere and the simulation of the package itself with an unknown or a missing static parameter; any numbers")
def models(env):
    from mcsas3.mc_model import McModel

    sas(env)
    rngs(env)
    lo = env.real("lo", lo=0, lo_open=True)
    hi = lo + env.real("width", lo=0)
    kw = dict(fitParameterLimits={"radius": (lo, hi)}, staticParameters={"background": 0.0}, nContrib=1)
    kind = env.choice("model", ["sphere", "mcsas_sphere", "sim"])
    kw["modelName"] = kind
    ok = True
    if kind == "sphere":
        k = env.choice("without", [None, "fitParameterLimits", "staticParameters", "upper limit", "one limit too many"])
        ok = k is None
        if k in kw:
            kw[k] = None
            if env.flag("left out"):
                del kw[k]
        elif k is not None:
            kw["fitParameterLimits"] = {"radius": (lo,) if k == "upper limit" else (lo, hi, hi)}
    elif kind == "mcsas_sphere":
        k = env.choice("static", ["sld", "sld_solvent", "scale", "SLD", "sldSolvent", "length", "measQ", "info"])
        ok = k in ("sld", "sld_solvent", "scale")
        kw["staticParameters"] = {"background": 0.0, k: env.real("value")}
    else:
        sim = dict(extrapY0=0.0, extrapScaling=1.0, simDataQ0=env.arr([0.5, 1.0, 2.0]), simDataQ1=None, simDataI=env.arr([3.0, 2.0, 1.0]), simDataISigma=env.arr([0.3, 0.2, 0.1]))
        k = env.choice("without", [None, "extrapY0", "extrapScaling", "simDataQ0", "simDataI", "simDataISigma", "simDataQ1"])
        ok = k in (None, "simDataQ1")  # one-dimensional data have no second component
        if k:
            del sim[k]
        kw["fitParameterLimits"] = {"factor": (lo, hi)}
        kw["staticParameters"] = sim
    e = env.raises(McModel, **kw)
    env.check((e is None) == ok, "models that are not fully or wrongly described are refused, others accepted", f"{kind} {k}: {e!r}")


@harness(quick=dict(), thorough=dict(), bounds="a fit without data or with data that are no mapping; an analysis of a missing file, without data, or with ranges that are no table; any contributions")
def objects(env):
    import pandas
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_core import McCore

    w = stored_world(env, 1)
    fn = env.tmp / "r.nxs"
    write(env, w, fn, 0, dict(radius=[env.real("x", lo=1, hi=10)]))
    before = snapshot(env, fn)
    t = pandas.DataFrame([dict(GOOD, presetRangeMin=1.0, presetRangeMax=2.0)])
    what = env.choice("with", ["all", "no data", "data as a list", "file missing", "no file", "ranges as a list", "ranges as a mapping", "no ranges"])
    data = {"no data": None, "data as a list": [w.data["Q"], w.data["I"], w.data["ISigma"]]}.get(what, w.data)
    if "data" in what:
        e = env.raises(McCore, measData=data, loadFromFile=fn, loadFromRepetition=0)
        env.check(e is not None, "a fit without data is refused", what)
    f = {"file missing": env.tmp / "other.nxs", "no file": env.tmp}.get(what, fn)
    r = {"ranges as a list": t.to_dict("records"), "ranges as a mapping": t.to_dict(), "no ranges": None}.get(what, t)
    store = env.flag("store")
    e = env.raises(McAnalysis, f, data, r, store=store)
    env.check((e is None) == (what == "all"), "an analysis lacking its file, data or ranges is refused, others accepted", f"{what}: {e!r}")
    env.check(not (env.tmp / "other.nxs").exists(), "no file is made for a refused analysis")
    if what != "all" or not store:
        env.eq(snapshot(env, fn), before, "the result file is left as it was")
