"""C13  Optimization steps while above the convergence criterion and below both maxima, and stops exactly then."""
from symx.run import harness

from .common import core, data1, fixed_guess, late, rngs, sas, tnc

IMPORTS = ["mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb", "mcsas3.mc_hat"]
OUTSIDE = "maximum numbers of steps larger than stated; the progress messages"
ASSUMPTIONS = ["a model is any function of the parameter values (uninterpreted), with positive volume"]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any admissible scaling/background and any objective value)",
    "numpy random generator (any value inside the requested interval)",
]
INF = float("inf")


def limits(env, k):
    o = dict(convCrit=env.real("conv", lo=0), maxIter=env.integer("maxIter", 0, k))
    m = env.choice("limit on accepted", ["none", "some", "default"])
    if m == "some":
        o["maxAccept"] = env.integer("maxAccept", 0, k)
    elif m == "none":
        o["maxAccept"] = INF
    return o


def reference(env, fits, o, step=0, acc=0, gof=None):
    """-> (steps, accepted, gof, number of fits used) for the given sequence of goodness-of-fit values"""
    i = 0
    if gof is None:
        gof, i = fits[0].fun, 1
    while True:
        go = env.And(gof > o["convCrit"], step < o["maxIter"], acc < o.get("maxAccept", INF))
        if not bool(go):
            return step, acc, gof, i, True
        if i >= len(fits):
            return step, acc, gof, i, False
        if bool(fits[i].fun < gof):
            gof, acc = fits[i].fun, acc + 1
        i += 1
        step += 1


def compare(env, opt, fits, o, **k):
    step, acc, gof, used, stopped = reference(env, fits, o, **k)
    env.check(stopped, "does not stop before convergence or a maximum is reached", f"stopped after {len(fits)} searches")
    env.check(used == len(fits), "stops as soon as converged or at a maximum", f"{len(fits) - used} steps too many")
    env.eq(opt.step, step, "number of steps")
    env.eq(opt.accepted, acc, "number of accepted steps")
    env.eq(opt.gof, gof, "final goodness of fit")
    env.check(env.Or(opt.gof <= o["convCrit"], opt.step >= o["maxIter"], opt.accepted >= o.get("maxAccept", INF)), "one of the limits is reached at the end")
    env.check(opt.step <= o["maxIter"], "never more steps than the maximum")
    env.check(opt.accepted <= o.get("maxAccept", INF), "never more accepted steps than the maximum")


@harness(
    quick=dict(n=2, k=3),
    thorough=dict(n=2, k=6),
    witnesses=12,
    bounds="any convergence criterion, maximum of 0..k steps, no or any maximum of accepted steps, any goodness of fit",
)
def stops(env):
    p = env.p
    o = limits(env, p["k"])
    c, w = core(env, 1, p["n"], opt=o)
    c.optimize()
    compare(env, c._opt, w.tnc, o)
    env.observe("end", [c._opt.step, c._opt.accepted, c._opt.gof])


@harness(
    quick=dict(n=1, k=2),
    thorough=dict(n=2, k=4),
    bounds="limits raised after a first optimization, then optimized further (history of two runs)",
)
def resumed(env):
    p = env.p
    o = limits(env, p["k"])
    c, w = core(env, 1, p["n"], opt=o)
    c.optimize()
    n0, st = len(w.tnc), dict(step=c._opt.step, acc=c._opt.accepted, gof=c._opt.gof)
    o2 = dict(o, maxIter=env.integer("maxIter2", 0, p["k"] + 1), convCrit=env.real("conv2", lo=0))
    env.assume(o2["maxIter"] >= o["maxIter"])
    c._opt.maxIter, c._opt.convCrit = o2["maxIter"], o2["convCrit"]
    c.optimize()
    compare(env, c._opt, w.tnc[n0:], o2, **st)


@harness(
    quick=dict(n=2, k=3),
    thorough=dict(n=2, k=6),
    witnesses=8,
    bounds="an optimization loaded after any number of steps up to a million, with any maximum of at most k more steps, any convergence criterion and no or any maximum of accepted steps",
)
def later(env):
    p = env.p
    o = dict(convCrit=env.real("conv", lo=0), maxIter=env.integer("maxIter", 0, 2 * 10**6))
    if env.flag("limit on accepted"):
        o["maxAccept"] = env.integer("maxAccept", 0, 4)
    c, w = late(env, 1, p["n"], opt=o)
    env.assume(o["maxIter"] <= c._opt.step + p["k"])
    if "maxAccept" in o:
        env.assume(o["maxAccept"] >= c._opt.accepted)
    n0, st = len(w.tnc), dict(step=c._opt.step, acc=c._opt.accepted, gof=c._opt.gof)
    c.optimize()
    if bool(o["maxIter"] < st["step"]):
        env.eq([c._opt.step, len(w.tnc)], [st["step"], n0], "no further step beyond the maximum")
        return
    compare(env, c._opt, w.tnc[n0:], o, **st)
    env.observe("end", [c._opt.step, c._opt.accepted, c._opt.gof])


@harness(
    quick=dict(n=1, k=2),
    thorough=dict(n=2, k=4),
    bounds="the limits given to a whole run (all repetitions in one process), up to 2 repetitions",
)
def run_limits(env):
    from mcsas3.mc_hat import McHat

    p = env.p
    o = limits(env, p["k"])
    sas(env)
    rngs(env)
    fits = tnc(env)
    fixed_guess(env)
    hat = McHat(
        nCores=1,
        nRep=env.choice("nRep", [1, 2]),
        modelName="sphere",
        nContrib=p["n"],
        fitParameterLimits={"radius": [1.0, 10.0]},
        staticParameters={"background": 0},
        seed=None,
        **o,
    )
    # the repetitions are told apart by what is stored for each of them
    ends = []
    from mcsas3.mc_core import McCore

    env.patch(McCore, "store", lambda self, filename: ends.append((len(fits), self._opt.step, self._opt.accepted, self._opt.gof)))
    env.patch(McHat, "store", lambda self, filename, path=None: None)
    hat.run(data1(env, 1), env.tmp / "out.h5")
    env.eq(len(ends), hat.nRep, "every repetition is run")
    a = 0
    for b, step, acc, gof in ends:
        import types

        compare(env, types.SimpleNamespace(step=step, accepted=acc, gof=gof), fits[a:b], o)
        a = b
