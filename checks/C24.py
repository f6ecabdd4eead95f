"""C24  The command line never destroys its input, and stores everything where it was asked to."""
import os
import runpy
import sys
from pathlib import Path

from symx.run import harness

from .C18 import judge, world
from .common import snapshot, unchanged

IMPORTS = [
    "mcsas3.cli_tools",
    "mcsas3.mcsas3_cli_runner",
    "mcsas3.mcsas3_cli_histogrammer",
    "mcsas3.mc_hat",
    "mcsas3.mc_core",
    "mcsas3.mc_model",
    "mcsas3.mc_opt",
    "mcsas3.osb",
    "mcsas3.mc_data_1d",
    "mcsas3.mc_data",
    "mcsas3.mc_hdf",
    "mcsas3.mc_analysis",
    "mcsas3.mc_model_histogrammer",
    "mcsas3.mc_plot",
]
OUTSIDE = "input files other than NeXus (a text file as result file is refused by the HDF5 library); more repetitions and steps than stated; a run interrupted half-way; the plots of the histogrammer; other operating systems"
ASSUMPTIONS = [
    "random generators of different seeds, and different draws of one generator, never produce the same number",
    "a model is any function of the parameter values (uninterpreted), with positive volume",
    "different fits yield different scalings",
]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any admissible scaling/background and any objective value)",
    "numpy random generator (any value inside the requested interval)",
    "multiprocessing (tasks work on copies, chunk by chunk, in this process)",
    "h5py (in-memory model of its documented behaviour; file names, links and deletion are those of the real file system, in a scratch directory)",
    "matplotlib figures of the histogrammer (left out)",
]

READ = """nbins: 0
dataRange: [0.0, 1.0]
pathDict:
  Q: /entry/Q
  I: /entry/I
  ISigma: /entry/s
"""
RUN = """modelName: sphere
nContrib: {n}
fitParameterLimits:
  radius: [1.0, 10.0]
staticParameters:
  background: 0
maxIter: 1
convCrit: -1.0
nRep: {reps}
nCores: {cores}
"""
HIST = """--- # histogramming
parameter: radius
nBin: 2
binScale: linear
presetRangeMin: 1
presetRangeMax: 5
binWeighting: vol
autoRange: {auto}
"""


def link(env, d):
    """-> data file, {spelling: result file}, spellings of the data file itself"""
    (d / "in").mkdir()
    (d / "out").mkdir()
    data = d / "in" / "data.nxs"
    same = {
        "same": data,
        "dotted": d / "in" / ".." / "in" / "data.nxs",
        "dotted elsewhere": d / "out" / ".." / "in" / "." / "data.nxs",
        "relative": Path("data.nxs"),
        "relative dotted": Path("..") / "in" / "data.nxs",
        "linked file": d / "out" / "link.nxs",
        "linked directory": d / "lnk" / "data.nxs",
        "hard link": d / "out" / "hard.nxs",
    }
    other = {
        "new": d / "out" / "new.nxs",
        "existing": d / "out" / "old.nxs",
        "existing, same name": d / "out" / "data.nxs",
        "existing, same directory": d / "in" / "data.nxs.out",
    }
    return data, same, other


def fill(env, data, d, n=2):
    Q = [0.25 * (i + 1) for i in range(n)]
    I = [env.real(f"I{i}") for i in range(n)]
    s = [env.real(f"S{i}", lo=0, lo_open=True) for i in range(n)]
    with env.h5.File(data, "w") as f:
        f["entry/Q"] = env.arr(Q)
        f["entry/I"] = env.arr(I)
        f["entry/s"] = env.arr(s)
        f["entry/title"] = "sample"
        f["entry"].attrs["default"] = "Q"
    os.symlink(data, d / "out" / "link.nxs")
    os.symlink(d / "in", d / "lnk")
    os.link(data, d / "out" / "hard.nxs")
    return Q, I, s


def bystanders(d):
    """other files of the user, next to all files used and named alike -> {path: content}"""
    for sub in ("in", "out", "cfg"):
        for nm in ("data.dat", "data.csv", "data.pdf", "data.h5", "data.yaml", "new.dat", "new.txt", "new.png", "new1.nxs", "old.csv", "read.yaml.bak", "hist.pdf", "notes"):
            p = d / sub / nm
            if not p.exists():
                p.write_text(f"content of {sub}/{nm}")
    return files(d)


def files(d):
    return {p.relative_to(d): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file() and not p.is_symlink() and p.suffix not in (".nxs", ".out") or p.name == "new1.nxs"}


def untouched(env, before, d, *but):
    now = files(d)
    for k, v in before.items():
        if d / k not in but:
            env.check(k in now, "no other file is deleted", str(k))
            env.check(now[k] == v, "no other file is changed", str(k))


def old(env, fn):
    with env.h5.File(fn, "w") as f:
        f["note"] = "earlier"
        f["analyses/MCResult9/optimization/nRep"] = 5


def call(env, how, a):
    """runs the optimizer as a class or by a command line"""
    from mcsas3 import cli_tools, mc_plot

    if how == "class":
        cli_tools.McSAS3_cli_optimize(**a)
        return
    opts = dict(dataFile="-f", resultFile="-r", readConfigFile="-F", runConfigFile="-R", resultIndex="-i", nThreads="-t")
    argv = ["mcsas3"]
    for k, o in opts.items():
        argv += [o, str(a[k])]
    if a["deleteIfExists"]:
        argv += ["-d"]
    if how == "main":
        argv += ["-H", str(a["readConfigFile"].parent / "hist.yaml")]
        env.patch(mc_plot.McPlot, "resultCard", lambda *a, **k: None)
    env.patch(sys, "argv", argv)
    if how == "runner":
        from mcsas3 import mcsas3_cli_runner

        mcsas3_cli_runner.main()
    else:
        runpy.run_path(str(Path(cli_tools.__file__).parent / "__main__.py"), run_name="__main__")


def inside(d, f):
    cwd = os.getcwd()
    os.chdir(d)
    try:
        f()
    finally:
        os.chdir(cwd)


def stay(env, w):
    """scipy.minimize: started at the optimum found earlier, stays there"""
    from symx.stubs import Result

    def f(fn, x0, args=(), method=None, bounds=None, **k):
        for r in w.tnc:
            if env.same(x0, r.x):
                return Result(x=r.x, fun=r.fun)
        return Result(x=x0, fun=1.0)

    env.stub("minimize", f)


def configs(d, reps, cores, auto=False, n=2):
    c = d / "cfg"
    c.mkdir()
    for k, t in (("read", READ), ("run", RUN.format(reps=reps, cores=cores, n=n)), ("hist", HIST.format(auto=auto))):
        (c / f"{k}.yaml").write_text(t)
    return dict(readConfigFile=c / "read.yaml", runConfigFile=c / "run.yaml")


def stored(env, w, fn, i, n, Q, I, s):
    """the data and every repetition are in the result file"""
    from mcsas3.mc_data_1d import McData1D

    md = McData1D(loadFromFile=fn, resultIndex=i)
    env.eq({k: md.rawData[k] for k in ("Q", "I", "ISigma")}, {"Q": env.arr(Q), "I": env.arr(I), "ISigma": env.arr(s)}, "the data are stored in the result file")
    env.eq(list(md.measData["I"]), I, "the stored data give the fitted intensities")
    judge(env, w, fn, n, i)


def scenario(env, how, names, w):
    d = env.tmp
    data, same, other = link(env, d)
    name = env.choice("result file", names)
    delete = env.flag("delete if it exists")
    i = env.choice("index", [1, 4] if how == "class" else [3])
    n = env.choice("repetitions", env.p["reps"])
    cfg = configs(d, n, 1)
    Q, I, s = fill(env, data, d)
    res = {**same, **other}[name]
    if "existing" in name:
        old(env, res)
    mine = lambda k: k == "analyses" or k == f"analyses/MCResult{i}" or k.startswith(f"analyses/MCResult{i}/")  # noqa: E731
    inp = snapshot(env, data)
    others = bystanders(d)
    prior = snapshot(env, res) if "existing" in name else {}
    # the way the data file itself is spelled
    df = data if name not in ("same", "dotted") else env.choice("data file", [data, d / "lnk" / "data.nxs", d / "out" / "link.nxs"])
    a = dict(dataFile=df, resultFile=res, resultIndex=i, deleteIfExists=delete, nThreads=0, **cfg)

    def run():
        call(env, how, a)
        env.check(data.is_file(), "the input data file is never deleted")
        env.check(res.is_file(), "a result file is there afterwards")
        untouched(env, others, d, res.parent.resolve() / (res.stem + ".pdf"))
        after = snapshot(env, data)
        unchanged(env, inp, after, "the input data", mine if name in same else lambda k: False)
        env.check(os.path.samefile(res, data) == (name in same), "the result is stored in the file asked for")
        got = snapshot(env, res)
        if name in other:
            kept = {k: v for k, v in got.items() if not mine(k)}
            if delete:
                env.eq(sorted(kept), [], "an existing result file is removed if asked to")
            else:
                unchanged(env, prior, got, "earlier results", mine)
        stored(env, w, res, i, n, Q, I, s)
        if how == "main":
            h = snapshot(env, res, f"/analyses/MCResult{i}/histograms")
            env.eq(sorted(k for k in h if k.count("/") == 1 and "/repetition" in k), [f"histRange0/repetition{r}" for r in range(n)], "every repetition is histogrammed")
        env.observe("keys", sorted(got))

    inside(d / "in", run)


@harness(
    quick=dict(reps=[1, 2]),
    thorough=dict(reps=[1, 2, 3]),
    witnesses=10,
    bounds="result file new, existing or the input file itself, spelled in 8 ways (dotted, relative, symbolic link of file or directory, hard link); input file linked as well; delete option set or not; index 1 or 4; 1 or 2 (thorough 3) repetitions of one step; any intensities, uncertainties, random values and fits",
)
def optimize(env):
    w = world(env)
    scenario(
        env,
        "class",
        ["same", "dotted", "dotted elsewhere", "relative", "relative dotted", "linked file", "linked directory", "hard link"]
        + ["new", "existing", "existing, same name", "existing, same directory"],
        w,
    )


@harness(
    quick=dict(reps=[1]),
    thorough=dict(reps=[1, 2]),
    witnesses=6,
    bounds="the same by the command line of the optimizer and by that of the package (which histograms afterwards), for five result files, index 3",
)
def command_line(env):
    how = env.choice("command", ["runner", "main"])
    w = world(env)
    scenario(env, how, ["dotted", "relative", "linked file", "new", "existing"], w)


@harness(
    quick=dict(cores=[1, 2], lo=-1, hi=3),
    thorough=dict(cores=[1, 2, 3], lo=-2, hi=4),
    witnesses=6,
    bounds="any thread count from -1 to 3 (thorough -2 to 4) with 1 or 2 (3) configured cores, two repetitions",
)
def threads(env):
    from mcsas3.mc_hat import McHat

    w = world(env)
    d = env.tmp
    data, _, other = link(env, d)
    cores = env.choice("configured", env.p["cores"])
    Q, I, s = fill(env, data, d)
    how = env.choice("command", ["class", "runner"])
    t = env.integer("threads", env.p["lo"], env.p["hi"])
    if how == "runner":
        t = int(t)
        env.assume(t >= 0)
    cfg = configs(d, 2, cores)
    res = other["new"]
    call(env, how, dict(dataFile=data, resultFile=res, resultIndex=1, deleteIfExists=False, nThreads=t, **cfg))
    env.check(res.is_file(), "a result file is there afterwards")
    want = int(t) if int(t) > 0 else cores
    env.eq([int(p.n) for p in w.procs.pools], [want] if want > 1 else [], "processes used: the thread count if positive, else the configured one")
    env.eq(int(McHat(loadFromFile=res).nCores), want, "thread count stored")
    stored(env, w, res, 1, 2, Q, I, s)


@harness(
    quick=dict(),
    thorough=dict(),
    witnesses=4,
    bounds="histogramming one of two indices of a result file by the class or its command line, preset or automatic range, any random values and fits",
)
def histogram(env):
    from mcsas3 import cli_tools, mc_plot

    w = world(env)
    d = env.tmp
    data, _, other = link(env, d)
    Q, I, s = fill(env, data, d)
    auto = env.flag("auto range")
    cfg = configs(d, 1, 1, auto, 1)
    res = other["new"]
    for i in (1, 2):
        cli_tools.McSAS3_cli_optimize(dataFile=data, resultFile=res, resultIndex=i, deleteIfExists=False, nThreads=0, **cfg)
    ends = [r.end for r in w.reps]
    stay(env, w)
    i = env.choice("index", [1, 2])
    cards = []
    env.patch(mc_plot.McPlot, "resultCard", lambda self, an, saveHistFile=None: cards.append((an, saveHistFile)))
    before = snapshot(env, res)
    inp = snapshot(env, data)
    hf = d / "cfg" / "hist.yaml"
    others = bystanders(d)
    if env.choice("command", ["class", "histogrammer"]) == "class":
        cli_tools.McSAS3_cli_histogram(resultFile=res, histConfigFile=hf, resultIndex=i)
    else:
        from mcsas3 import mcsas3_cli_histogrammer

        env.patch(sys, "argv", ["mcsas3", "-r", str(res), "-H", str(hf), "-i", str(i)])
        mcsas3_cli_histogrammer.main()
    untouched(env, others, d, res.with_suffix(".pdf"))
    after = snapshot(env, res)
    root = f"analyses/MCResult{i}/"
    unchanged(env, before, after, "all but the histograms and averages of the index", lambda k: k.startswith((root + "histograms", root + "optimization/average")))
    unchanged(env, inp, snapshot(env, data), "the input data")
    lo, hi = (1.0, 10.0) if auto else (1.0, 5.0)
    h = f"{root}histograms/histRange0/"
    env.eq(after[h + "repetition0/binEdges"], [lo, (lo + hi) / 2, hi], "the configured bins")
    e = ends[i - 1]
    x = e["rows"][0]
    m = (lo + hi) / 2
    f = e["x0"][0]
    env.eq(
        [v * 1e5 for v in after[h + "repetition0/hist"]],
        [env.ite(x < m, f, 0.0), env.ite(env.And(x >= m, x <= hi), f, 0.0)],
        "the contributions of this index are counted",
    )
    env.eq([str(c[1]) for c in cards], [str(res.with_suffix(".pdf"))], "the result card is written next to the result file")
