"""C09  A 1-D dataset loaded back from a result file has the same raw data, settings and fit data."""
from pathlib import Path

from symx.run import harness

IMPORTS = ["mcsas3.mc_data_1d", "mcsas3.mc_data", "mcsas3.mc_hdf"]
OUTSIDE = "larger datasets, more omitted ranges than stated; row labels of the raw data; 2-D datasets (not restorable)"
ASSUMPTIONS = ["h5py as modelled by symx/h5fake.py (validated by replaying witnesses on the real h5py)"]
STUBS = ["h5py (in-memory model of its documented behaviour)"]
INF = float("inf")
QS = [0.1, 0.2, 0.3, 0.5, 0.7]
SETTINGS = ["dataRange", "omitQRanges", "nbins", "IEmin", "measDataLink", "qNudge", "csvargs", "pathDict"]


def setting(env, name):
    if name == "dataRange":
        return [env.real("rmin", lo=0, hi=0.15), env.real("rmax", lo=0.45, hi=1)]
    if name == "omitQRanges":
        n = env.choice("omits", [1, 2, 0])
        return [[env.real(f"omin{k}", lo=0.25, hi=0.4), env.real(f"omax{k}", lo=0.25, hi=0.6)] for k in range(n)]
    if name == "nbins":
        return env.choice("nbins", [0, 1, 3])
    if name == "IEmin":
        return env.real("IEmin", lo=0, hi=1)
    if name == "measDataLink":
        return env.choice("link", ["rawData", "clippedData", "binnedData"])
    if name == "qNudge":
        return env.real("nudge")
    if name == "csvargs":
        return env.choice(
            "csv",
            [
                {"sep": ";", "header": None, "names": ["Q", "I", "ISigma"]},
                {"sep": ",", "skiprows": 3, "header": 0},
                {"sep": None, "names": ["Q", "I", "ISigma", "QSigma"], "comment": "#"},
                {},
            ],
        )
    if name == "pathDict":
        return {"Q": "/entry/Q", "I": "/entry/I", "ISigma": "/entry/s"}


def frame(env, n, extra=False):
    c = dict(
        Q=[env.const(q) for q in QS[:n]],
        I=[env.real(f"I{i}") for i in range(n)],
        ISigma=[env.real(f"S{i}", lo=0) for i in range(n)],
    )
    if extra:
        c["QSigma"] = [env.real(f"U{i}", lo=0) for i in range(n)]
    return env.df(c)


def table(df):
    return None if df is None else {str(c): df[c] for c in df.columns}


def lists(d):
    return {k: v if v is None or isinstance(v, str) or not hasattr(v, "__len__") else list(v) for k, v in d.items()}


def same(env, a, b, gen):
    t = f" ({gen})" if gen else ""
    env.eq(table(b.rawData), table(a.rawData), "raw data are restored" + t)
    for k in ("dataRange", "nbins", "IEmin", "measDataLink", "qNudge", "binning", "loader", "filename", "pathDict"):
        env.eq(getattr(b, k), getattr(a, k), f"setting {k} is restored" + t)
    oa, ob = a.omitQRanges, b.omitQRanges
    env.check((oa is None) == (ob is None), "setting omitQRanges is restored" + t)
    if oa is not None:
        env.eq([list(x) for x in ob], [list(x) for x in oa], "setting omitQRanges is restored" + t)
        env.check(isinstance(ob, list), "omitted ranges remain a list" + t)
    env.check(lists(a.csvargs) == lists(b.csvargs), "reader options are restored" + t, f"{a.csvargs} {b.csvargs}")
    for k in ("clippedData", "binnedData"):
        env.eq(table(getattr(b, k)), table(getattr(a, k)), f"{k} is reproduced" + t)
    for k in ("Q", "I", "ISigma"):
        env.eq(a.measData[k], b.measData[k], "fit data are reproduced" + t)


def roundtrip(env, md, idx=1, twice=False):
    from mcsas3.mc_data_1d import McData1D

    fn = env.tmp / "r.h5"
    md.store(fn)
    b = McData1D(loadFromFile=fn, resultIndex=idx)
    same(env, md, b, "")
    b.prepare()
    same(env, md, b, "prepared again")
    if twice:
        b.store(env.tmp / "r2.h5")
        c = McData1D(loadFromFile=env.tmp / "r2.h5", resultIndex=idx)
        same(env, md, c, "second generation")
    env.observe("I", list(b.measData["I"]))
    env.observe("Q", list(b.measData["Q"][0]))
    return b


@harness(
    quick=dict(n=3),
    thorough=dict(n=5),
    witnesses=20,
    bounds="any intensities and uncertainties at n fixed Q; every setting alone away from its default (any value), or all at their defaults; index 1 or 11",
)
def one_setting(env):
    from mcsas3.mc_data_1d import McData1D

    which = env.choice("setting", ["none"] + SETTINGS)
    idx = env.choice("index", [1, 11])
    df = frame(env, env.p["n"], env.flag("Q uncertainty"))
    kw = {} if which == "none" else {which: setting(env, which)}
    if which not in ("nbins", "none", "measDataLink"):
        kw["nbins"] = 2
    md = McData1D(df=df, resultIndex=idx, **kw)
    roundtrip(env, md, idx, twice=True)


@harness(
    quick=dict(n=3),
    thorough=dict(n=4),
    witnesses=10,
    bounds="any two settings away from their defaults together, or all of them",
)
def settings_together(env):
    from mcsas3.mc_data_1d import McData1D

    many = [s for s in SETTINGS if s not in ("csvargs", "pathDict")]
    a = env.choice("first", many + ["all"])
    if a == "all":
        names = SETTINGS
    else:
        names = [a, env.choice("second", [s for s in many if s > a] or [a])]
    df = frame(env, env.p["n"])
    kw = dict(nbins=2)
    kw.update({k: setting(env, k) for k in dict.fromkeys(names)})
    md = McData1D(df=df, **kw)
    roundtrip(env, md)


@harness(quick=dict(), thorough=dict(), bounds="text files in three layouts read with their reader options, then stored, loaded and read again from the file")
def from_text(env):
    from mcsas3.mc_data_1d import McData1D

    lay = env.choice("layout", ["default", "semicolon", "header", "defaults kept"])
    fn = env.tmp / "d.dat"
    rows = [(0.1, 5.0, 0.5), (0.2, 4.0, 0.25), (0.3, 3.0, 0.125)]
    sep = ";" if lay in ("semicolon",) else "," if lay == "header" else " "
    with open(fn, "w") as f:
        if lay == "header":
            f.write("Q,I,ISigma\n")
        for r in rows:
            f.write(sep.join(map(str, r)) + "\n")
    kw = {}
    if lay == "semicolon":
        kw["csvargs"] = {"sep": ";", "header": None, "names": ["Q", "I", "ISigma"]}
    if lay == "header":
        kw["csvargs"] = {"sep": ","}
    if lay == "default":
        kw["csvargs"] = {"sep": r"\s+", "header": None, "names": ["Q", "I", "ISigma"]}
    md = McData1D(filename=fn, nbins=env.choice("nbins", [0, 2]), **kw)
    b = roundtrip(env, md)
    b.from_file()
    env.eq(table(b.rawData), table(md.rawData), "reading the original file again with the restored options gives the same raw data")


@harness(
    quick=dict(n=24, omits=12), thorough=dict(n=60, omits=20), witnesses=3,
    bounds="24 (thorough 60) points of which four have any intensity, and up to 12 (20) omitted ranges of which two are anything; 11 bins or no rebinning",
)
def many(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.p["n"]
    free = (0, 9, n // 2, n - 1)
    df = env.df(dict(
        Q=[env.const(0.1 + 0.0625 * i) for i in range(n)],
        I=[env.real(f"I{i}") if i in free else env.const(30.0 - 0.25 * i) for i in range(n)],
        ISigma=[env.real(f"S{i}", lo=0) if i in free else env.const(0.5) for i in range(n)],
    ))
    c = [0.15 + 0.125 * k for k in range(env.choice("omits", [2, env.p["omits"]]))]
    omits = [[x, x + 0.03125] for x in c]
    omits[0][1], omits[-1][0] = env.real("omit0", lo=0.12, hi=0.3), env.real("omitn", lo=c[-1] - 0.15, hi=c[-1])
    md = McData1D(df=df, nbins=env.choice("nbins", [0, 11]), omitQRanges=omits, dataRange=[env.real("rmin", lo=0.0, hi=0.15), INF])
    roundtrip(env, md)
