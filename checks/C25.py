"""C25  Objects do not influence each other: settings, results, defaults and what the caller passed in stay put."""
import types
from pathlib import Path

from symx.run import harness

from .C20 import ranges, row
from .common import LIMITS, data1, fixed_guess, image2d, rngs, sas

IMPORTS = [
    "mcsas3.mc_hat",
    "mcsas3.mc_core",
    "mcsas3.mc_model",
    "mcsas3.mc_opt",
    "mcsas3.osb",
    "mcsas3.mc_data_1d",
    "mcsas3.mc_data_2d",
    "mcsas3.mc_data",
    "mcsas3.mc_hdf",
    "mcsas3.mc_analysis",
    "mcsas3.mc_model_histogrammer",
]
OUTSIDE = "sequences of more than two objects used in turns, larger objects than stated; an object knowingly handed to two others (one model in two cores); plots; the state of the model library"
ASSUMPTIONS = [
    "a library model is any function of the parameter values (uninterpreted), with positive volume",
    "sin and cos are uninterpreted functions",
]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any scaling/background and objective value)",
    "scipy interp1d (its documented linear interpolation)",
    "numpy random generator (any value inside the requested interval)",
    "h5py (in-memory model of its documented behaviour)",
]


# ------------------------------------------------------------------ state of objects
def state(o, seen=()):
    """all that an object holds, in plain containers with copied structure"""
    import numpy as np
    import pandas

    if id(o) in seen:
        return "(again)"
    if o is None or isinstance(o, (bool, int, float, str, bytes, np.generic)) or type(o).__name__ in ("SymF", "SymI", "SymB"):
        return o
    if isinstance(o, Path):
        return str(o)
    seen = seen + (id(o),)
    if isinstance(o, dict):
        return {f"{type(k).__name__} {k}": state(v, seen) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [state(v, seen) for v in o]
    if isinstance(o, np.ndarray):
        return [list(o.shape)] + [state(v, seen) for v in o.flat]
    if isinstance(o, pandas.DataFrame):
        return {"columns": [str(c) for c in o.columns], "index": [str(i) for i in o.index], "data": [state(np.asarray(o.iloc[:, j]._values), seen) for j in range(o.shape[1])]}
    if isinstance(o, (pandas.Series, pandas.Index)):
        return [str(i) for i in getattr(o, "index", [])] + state(np.asarray(o._values), seen)
    if isinstance(o, type) or isinstance(o, types.ModuleType):
        return o.__name__
    s = getattr(o, "__self__", None)
    if callable(o) and s is not None and hasattr(s, "k") and hasattr(s, "draws"):
        return {"generator": s.tag, "draws": s.k}
    mod = type(o).__module__ or ""
    if mod.startswith("mcsas3") or mod.startswith("checks.common"):
        d = {}
        for c in type(o).__mro__:
            for k in getattr(c, "__slots__", ()):
                if hasattr(o, k) and not k.startswith("__"):
                    d[k] = state(getattr(o, k), seen)
        for k, v in getattr(o, "__dict__", {}).items():
            d[k] = state(v, seen)
        return d
    return type(o).__name__


def classes():
    """what all classes and modules of the package hold: the defaults of objects created later"""
    import inspect
    import sys

    out = {}
    for name, m in list(sys.modules.items()):
        if m is None or not name.startswith("mcsas3"):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if inspect.isclass(v):
                if v.__module__ != name:
                    continue
                for a, x in list(vars(v).items()):
                    if a.startswith("__") or callable(x) or isinstance(x, (property, staticmethod, classmethod)) or inspect.isdatadescriptor(x):
                        continue
                    out[f"{name}.{k}.{a}"] = state(x)
            elif not callable(v):
                out[f"{name}.{k}"] = state(v)
    return out


def same(env, before, after, label):
    """nothing that was there has changed (additions, such as a new cache, are no change)"""
    for k in before:
        env.check(k in after, label + ": still there", k)
        a, b = before[k], after[k]
        short = k.replace("mcsas3.", "")
        env.eq(b, a, f"{label}: {short}")


# ------------------------------------------------------------------ objects
CURVE = dict(simDataQ0=[0.05, 50.0], simDataI=[8.0, 1.0], simDataISigma=[0.5, 0.25])


def configs(env, kind, v):
    """what the caller passes in, fresh containers in every call"""
    import numpy as np

    t = f"{kind}{v}_"
    sph = {"sphere": dict(background=0, sld=3.0 + v), "mcsas_sphere": dict(sld=33.5 + v, sld_solvent=1.0), "sim": dict(extrapY0=0.0, extrapScaling=1.0 + v)}
    c = {}
    if kind == "data":
        c["df"] = env.df(dict(Q=[0.1, 0.2, 0.4], I=[env.real(f"{t}I{i}") for i in range(3)], ISigma=[env.real(f"{t}S{i}", lo=0) for i in range(3)]))
        c["dataRange"] = [0.05, 0.3 + v]
        c["omitQRanges"] = [[0.15, 0.25 - 0.1 * v]]
        c["csvargs"] = {"sep": ";", "names": ["Q", "I", "ISigma"]}
        c["pathDict"] = {"Q": "/q"}
    elif kind == "text data":
        c["csvargs"] = {"sep": ";", "header": None, "names": ["Q", "I", "ISigma"]}
        c["options"] = {"sep": ",", "comment": "#"}
    elif kind == "nexus data":
        c["pathDict"] = {"Q": "/some/Q", "I": "/some/I", "ISigma": "/some/S"}
    elif kind == "data2":
        c["v"] = v
    elif kind == "opt":
        c["x0"] = [1.0 + v, 0.0]
    else:
        name = kind.split()[0]
        st = dict(sph.get(name, sph["sphere"]))
        if name == "sim":
            st.update({k: np.array(x) for k, x in CURVE.items()})
        c["staticParameters"] = st
        par = "factor" if name == "sim" else "radius"
        c["fitParameterLimits"] = {par: list(LIMITS["radius"]) if name != "hat" or v else "auto"}
        if name == "hat":
            c["x0"] = [2.0, 0.5 + v]
        c["data"] = data1(env, 2)
        if name == "analysis":
            c["ranges"] = ranges(env, [row("radius", 1, "linear", True, None, None), row("radius", 1, "linear", False, 0.5, 15.0 + v)], [0, 3])
    return c


class Obj:
    """one object of a kind with what it belongs to"""

    def __init__(self, env, kind, v, cfg, fn, make=True):
        self.env, self.kind, self.v, self.cfg, self.fn = env, kind, v, cfg, fn
        if make:
            self.make()

    def model(self, index=1, **kw):
        from mcsas3.mc_model import McModel

        c = self.cfg
        name = self.kind.split()[0]
        if name not in ("sphere", "mcsas_sphere", "sim"):
            name = "sphere"
        return McModel(modelName=name, staticParameters=c["staticParameters"], fitParameterLimits=c["fitParameterLimits"], nContrib=1 + self.v, seed=3 + self.v, resultIndex=index, **kw)

    def make(self):
        env, c, v = self.env, self.cfg, self.v
        kind = self.kind
        if kind == "data":
            from mcsas3.mc_data_1d import McData1D

            self.o = McData1D(nbins=v, IEmin=0.25 * (1 + v), resultIndex=1 + v, **c)
        elif kind == "text data":
            from mcsas3.mc_data_1d import McData1D

            self.o = McData1D(nbins=0, csvargs=c["csvargs"])
        elif kind == "nexus data":
            from mcsas3.mc_data_1d import McData1D

            with env.h5.File(env.tmp / f"in{v}.nxs", "w") as f:
                for k, x in (("Q", [0.1, 0.2]), ("I", [env.real(f"nxI{v}{i}") for i in range(2)]), ("S", [0.5, 0.5])):
                    f[f"/some/{k}"] = env.arr(x)
            self.o = McData1D(nbins=0, **c)
        elif kind == "data2":
            px = {(y, x): 0.25 * (1 + x + 2 * y + 4 * v) for y in range(2) for x in range(2)}
            self.o, _ = image2d(env, (2, 2), qx=px, qy={k: p + 0.125 for k, p in px.items()}, S={k: 0.5 for k in px}, I={(y, x): env.real(f"d2{v}I{y}{x}") for y in range(2) for x in range(2)})
        elif kind == "opt":
            from mcsas3.mc_opt import McOpt

            self.o = McOpt(maxIter=5 + v, resultIndex=1 + v, **c)
        elif kind == "hat":
            from mcsas3.mc_hat import McHat

            self.o = McHat(modelName="sphere", staticParameters=c["staticParameters"], fitParameterLimits=c["fitParameterLimits"], x0=c["x0"], nContrib=1 + v, nRep=1, nCores=1, maxIter=1, convCrit=-1.0, seed=5 + v, resultIndex=1 + v)
        elif kind == "analysis":
            from mcsas3.mc_core import McCore
            from mcsas3.mc_opt import McOpt

            core = McCore(c["data"], model=self.model(index=1 + v), opt=McOpt(resultIndex=1 + v), resultIndex=1 + v)
            core._opt.repetition = 0
            core.store(self.fn)
            self.o = self.analyse()
        elif kind.endswith("model"):
            self.o = self.model()
        elif kind.endswith("core"):
            from mcsas3.mc_core import McCore
            from mcsas3.mc_opt import McOpt

            self.o = McCore(c["data"], model=self.model(), opt=McOpt(maxIter=1, convCrit=-1.0))
        else:
            raise ValueError(kind)

    def analyse(self):
        from mcsas3.mc_analysis import McAnalysis

        c = self.cfg
        return McAnalysis(self.fn, c["data"], c["ranges"], store=bool(self.v), resultIndex=1 + self.v)

    def use(self):
        """operations of the object that change its own settings or results"""
        env, o, v = self.env, self.o, self.v
        if self.kind == "data":
            o.qNudge = 0.5
            o.prepare()
            o.linkMeasData("rawData")
            o.store(self.fn)
        elif self.kind == "text data":
            rows = [(0.1 + v, 1.5, 0.5), (0.2 + v, 2.5, 0.25)]
            (env.tmp / f"c{v}.csv").write_text("# text\n" + "".join("%g,%g,%g\n" % r for r in rows))
            (env.tmp / f"s{v}.csv").write_text("".join("%g;%g;%g\n" % r for r in rows))
            (env.tmp / f"p{v}.pdh").write_text("t\n" * 5 + "".join("%g;%g;%g\n" % r for r in rows) + "<?xml?>\n")
            o.from_csv(env.tmp / f"c{v}.csv", self.cfg["options"])
            o.from_csv(env.tmp / f"s{v}.csv")
            o.from_pdh(env.tmp / f"p{v}.pdh")
            env.eq(list(o.measData["I"]), [1.5, 2.5], "the file is read")
        elif self.kind == "nexus data":
            o.from_nexus(env.tmp / f"in{v}.nxs")
            o.store(self.fn)
        elif self.kind == "data2":
            o.orthoQ0Range = [0, 100]
            o.qNudge = [0.5, 0.25]
            o.prepare()
            o.reconstruct2D(env.arr([1.0] * len(o.measData["I"])))
        elif self.kind == "opt":
            o.step, o.accepted, o.gof = 4, 1, 0.5
            o.acceptedSteps += [4]
            o.acceptedGofs += [0.5]
            o.repetition = v
            o.store(self.fn)
        elif self.kind == "hat":
            o.run(self.cfg["data"], self.fn)
        elif self.kind == "analysis":
            o.debugReport(0)
            o.debugRunReport()
        elif self.kind.endswith("model"):
            o.pick()
            o.resetParameterSet()
            o.store(self.fn, v)
        else:
            o.optimize()
            o._opt.repetition = v
            o.store(self.fn)
        return self


KINDS = ["data", "text data", "nexus data", "data2", "opt", "sphere model", "sphere core", "mcsas_sphere core", "sim core", "hat", "analysis"]


def world(env):
    from symx.stubs import Result, interp1d

    w = types.SimpleNamespace(sas=sas(env), rng=rngs(env), n=0)
    fixed_guess(env)
    env.all_digits()
    if env.symbolic:
        env.stub("interp1d", interp1d(env))

    def tnc(fn, x0, args=(), method=None, bounds=None, **k):
        w.n += 1
        return Result(x=env.arr([float(w.n), 0.5]), fun=env.real(f"chi{w.n}", lo=0))

    env.stub("minimize", tnc)
    return w


def fresh():
    """what objects created without settings hold"""
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_data_2d import McData2D
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel, McSimPseudoModel, mcsasSphereModel
    from mcsas3.mc_opt import McOpt

    objs = dict(data=McData1D(), data2=McData2D(), opt=McOpt(), hat=McHat(fitParameterLimits={}), sphere=mcsasSphereModel(), core=McModel(fitParameterLimits={"radius": [1.0, 2.0]}, staticParameters={}, modelName="mcsas_sphere", nContrib=1))
    out = {k: state(o) for k, o in objs.items()}
    out["core"] = {k: v for k, v in out["core"].items() if k not in ("parameterSet", "randomGenerators")}
    out["library parameters"] = state(objs["core"].showModelParameters())
    import numpy as np

    sim = McSimPseudoModel(simDataQ1=None, extrapY0=0.0, extrapScaling=1.0, **{k: np.array(x) for k, x in CURVE.items()})
    out["sim parameters"] = state(sim.info.parameters.defaults)
    return out


def scenario(env, a, b, shared):
    world(env)
    base = classes()
    d0 = fresh()
    cfg = configs(env, a, 0)
    cfg0 = state(cfg)
    same(env, base, classes(), "defaults")
    A = Obj(env, a, 0, cfg, env.tmp / "a.h5").use()
    same(env, {"": cfg0}, {"": state(cfg)}, "what the caller passed in")
    sA = state(A.o)
    same(env, base, classes(), "defaults")
    cfgB = cfg if shared else configs(env, b, 1)
    cB = state(cfgB)
    B = Obj(env, b, 1, cfgB, env.tmp / "b.h5")
    same(env, sA, state(A.o), "another object is created")
    B.use()
    same(env, sA, state(A.o), "another object is used")
    same(env, {"": cB}, {"": state(cfgB)}, "what the caller passed in")
    same(env, {"": cfg0}, {"": state(cfg)}, "what the caller passed in")
    same(env, base, classes(), "defaults")
    sB = state(B.o)
    A.use()
    same(env, sB, state(B.o), "the other object is used")
    same(env, {"": cfg0}, {"": state(cfg)}, "what the caller passed in")
    same(env, base, classes(), "defaults")
    same(env, d0, fresh(), "new objects")
    env.observe("n", len(base))


@harness(
    quick=dict(kinds=KINDS),
    thorough=dict(kinds=KINDS),
    witnesses=12,
    bounds="any two of eleven kinds of objects (1-D dataset of a table, of text and of NeXus files, 2-D dataset, options, library model, cores on the three kinds of models, hat, analysis) with different settings, created, used, used in turns; small datasets of any intensities, any random values",
)
def two_objects(env):
    a = env.choice("first", env.p["kinds"])
    b = env.choice("second", env.p["kinds"])
    scenario(env, a, b, False)


@harness(
    quick=dict(),
    thorough=dict(),
    witnesses=8,
    bounds="two objects of one of ten kinds created with the very same dicts, lists, tables and data of the caller",
)
def shared_settings(env):
    a = env.choice("kind", [k for k in KINDS if k != "data2"])
    scenario(env, a, a, True)
