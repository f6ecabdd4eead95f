"""C10  A repetition loaded from a result file is exactly the stored one; continuing it extends its history."""
from symx.run import harness

from .common import core, pset

IMPORTS = ["mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb", "mcsas3.mc_hdf"]
OUTSIDE = "more contributions, repetitions and steps than stated; the BETA logarithmic-picking switch"
ASSUMPTIONS = [
    "a model is any function of the parameter values (uninterpreted), with positive volume",
    "different fits yield different scalings (told apart by them)",
    "the scaling/background search started at the optimum it found earlier for the same intensity stays there",
]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any admissible scaling/background and any objective value)",
    "numpy random generator (any value inside the requested interval)",
    "h5py (in-memory model of its documented behaviour)",
]
INF = float("inf")


def state(core_):
    m, o = core_._model, core_._opt
    ps = m.parameterSet
    return dict(
        columns=[str(c) for c in ps.columns],
        rows={str(c): [ps[c].iloc[i] for i in range(len(ps))] for c in ps.columns},
        index=[int(i) for i in ps.index],
        volumes=list(m.volumes),
        seed=m.seed,
        limits={k: list(v) for k, v in m.fitParameterLimits.items()},
        static={k: (list(v) if hasattr(v, "__len__") and not isinstance(v, str) else v) for k, v in m.staticParameters.items()},
        modelName=m.modelName,
        modelDType=m.modelDType,
        nContrib=m.nContrib,
        accepted=o.accepted,
        convCrit=o.convCrit,
        gof=o.gof,
        maxIter=o.maxIter,
        maxAccept=o.maxAccept,
        modelI=list(o.modelI),
        step=o.step,
        x0=list(o.x0),
        acceptedSteps=list(o.acceptedSteps),
        acceptedGofs=list(o.acceptedGofs),
    )


def compare(env, got, want, label):
    for k in want:
        env.eq(got[k], want[k], f"{label}: {k}")


def grow(env, w, rep, k):
    """a fresh repetition: new contribution set, k steps"""
    from mcsas3.mc_core import McCore

    w.model.resetParameterSet()
    w.opt.x0 = None
    c = McCore(w.data, model=w.model, opt=w.opt)
    w.opt.repetition = rep
    for _ in range(k):
        c.iterate()
    return c


@harness(
    quick=dict(n=2, k=2, more=2),
    thorough=dict(n=3, k=3, more=3),
    witnesses=10,
    bounds="n contributions, 1 or 2 fit parameters, two stored repetitions out of 0, 1 and 10 after up to k steps each, either is loaded, loaded states are stepped further; with and without static parameters, limit on accepted steps and seed",
)
def reload(env):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    p = env.p
    names = env.choice("names", [("radius",), ("radius", "length")])
    var = env.choice("variant", ["plain", "static", "open"])
    static = {"plain": {"background": 0}, "static": {"sld": env.real("sld"), "sld_solvent": 1.5, "background": 0.0}, "open": {}}[var]
    opt = {"plain": {}, "static": dict(maxAccept=7, maxIter=50, convCrit=env.real("conv", lo=0)), "open": dict(maxAccept=INF)}[var]
    kw = {"plain": {}, "static": dict(seed=99, modelDType="double"), "open": dict(seed=None)}[var]
    c, w = core(env, 1, p["n"], names, opt=opt, static=static, reload=True, **kw)
    w.model.staticParameters = dict(static)
    reps = env.choice("repetitions", [(0, 1), (1, 10), (10, 0)])
    fn = env.tmp / "r.h5"
    st = {}
    for j, rep in enumerate(reps):
        c = grow(env, w, rep, p["k"] if j == 0 else 1)
        c.store(fn)
        st[rep] = state(c)
    w.settled.append(1)
    rep = env.choice("load", list(reps))
    n0 = len(w.tnc)
    # parts on their own
    o = McOpt(loadFromFile=fn, loadFromRepetition=rep)
    for k in ("accepted", "convCrit", "gof", "maxIter", "maxAccept", "step"):
        env.eq(getattr(o, k), st[rep][k], f"optimization settings alone: {k}")
    env.eq(list(o.x0), st[rep]["x0"], "optimization settings alone: x0")
    env.eq(list(o.acceptedSteps), st[rep]["acceptedSteps"], "optimization settings alone: acceptedSteps")
    env.eq(o.repetition, rep, "the repetition is remembered")
    m = McModel(loadFromFile=fn, loadFromRepetition=rep)
    env.eq([m.parameterSet.loc[i][names[0]] for i in range(p["n"])], st[rep]["rows"][names[0]], "model alone: contribution set")
    # the whole
    b = McCore(w.data, loadFromFile=fn, loadFromRepetition=rep)
    compare(env, state(b), st[rep], "restored exactly")
    env.eq(b._opt.repetition, rep, "the repetition is remembered")
    env.observe("gof", b._opt.gof)
    env.observe("rows", state(b)["rows"])
    # stored again and loaded again
    b.store(env.tmp / "r2.h5")
    b2 = McCore(w.data, loadFromFile=env.tmp / "r2.h5", loadFromRepetition=rep)
    compare(env, state(b2), st[rep], "restored exactly after storing again")
    w.settled.clear()
    # continued
    w.model, w.opt = b._model, b._opt
    steps, gofs = list(st[rep]["acceptedSteps"]), list(st[rep]["acceptedGofs"])
    acc, gof = st[rep]["accepted"], st[rep]["gof"]
    for s in range(p["more"] if var == "plain" else 1):
        at = st[rep]["step"] + s
        nf = len(w.tnc)
        before = [pset(w, i) for i in range(p["n"])]
        b.iterate()
        if bool(w.tnc[-1].fun < gof):
            gof, acc = w.tnc[-1].fun, acc + 1
            steps, gofs = steps + [at], gofs + [gof]
        for i in range(p["n"]):
            if i != at % p["n"]:
                env.eq(pset(w, i), before[i], "continuing goes on with the contribution whose turn it is")
        env.eq(list(b._opt.acceptedSteps), steps, "continuing extends the history (steps)")
        env.eq(list(b._opt.acceptedGofs), gofs, "continuing extends the history (goodness of fit)")
        env.eq([b._opt.step, b._opt.accepted], [at + 1, acc], "continuing extends the counters")
        env.eq(b._opt.gof, gof, "continuing starts from the stored goodness of fit")


@harness(
    quick=dict(n=2),
    thorough=dict(n=3),
    bounds="a result stored over an earlier one in the same place, with other fit and static parameters, numbers of contributions and history lengths",
)
def overwritten(env):
    from mcsas3.mc_core import McCore

    p = env.p
    fn = env.tmp / "r.h5"
    sets = [(("radius",), {"background": 0}), (("radius", "length"), {"sld": 2.0, "background": 0}), (("radius",), {})]
    a = env.choice("before", [0, 1, 2])
    b = env.choice("after", [0, 1, 2])
    n1 = env.choice("n before", [1, 3])
    c, w = core(env, 1, n1, sets[a][0], static=dict(sets[a][1]), reload=True)
    w.model.staticParameters = dict(sets[a][1])
    for _ in range(2):
        c.iterate()
    c._opt.repetition = 0
    c.store(fn)
    # another optimization, same place
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt
    from .common import LIMITS, sas

    sas(env, sets[b][0])
    m = McModel(
        fitParameterLimits={k: [x * 1.5 for x in LIMITS[k]] for k in sets[b][0]},
        staticParameters=dict(sets[b][1]),
        nContrib=p["n"],
        modelName="sphere",
    )
    c2 = McCore(w.data, model=m, opt=McOpt(maxIter=12))
    c2._opt.repetition = 0
    c2.store(fn)
    want = state(c2)
    w.settled.append(1)
    d = McCore(w.data, loadFromFile=fn, loadFromRepetition=0)
    compare(env, state(d), want, "only what was stored last")


@harness(quick=dict(n=12), thorough=dict(n=101), bounds="a repetition of 12 (thorough 101) contributions of two fit parameters, stored after one step and loaded")
def many(env):
    from mcsas3.mc_core import McCore

    c, w = core(env, 1, env.p["n"], ("radius", "length"), reload=True)
    c.iterate()
    w.opt.repetition = 0
    c.store(env.tmp / "r.h5")
    w.settled.append(1)
    b = McCore(w.data, loadFromFile=env.tmp / "r.h5", loadFromRepetition=0)
    compare(env, state(b), state(c), "restored exactly")
