"""C11  The total model intensity is always the sum over the contributions; round robin; rejected steps change nothing."""
from symx.run import harness

from .common import core, late, on_turn, pset

IMPORTS = ["mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb"]
OUTSIDE = "more contributions, data points, fit parameters and steps than stated; accumulation of floating-point rounding in the running sum"
ASSUMPTIONS = ["a model is any function of the parameter values (uninterpreted), with positive volume"]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any admissible scaling/background and any objective value)",
    "numpy random generator (any value inside the requested interval)",
]


def check_sum(env, c, w, n):
    tot = [0] * w.npts
    for i in range(n):
        p = pset(w, i)
        tot = [t + x for t, x in zip(tot, w.sas.inten(p, w.npts))]
        env.eq(c._model.volumes[i], w.sas.vol(p), "the stored volume is the contribution's volume")
    env.eq(list(c._opt.modelI), tot, "total intensity = sum of the contributions")


@harness(
    quick=dict(n=2, k=4, npts=2, names=("radius",)),
    thorough=dict(n=3, k=7, npts=2, names=("radius",)),
    witnesses=10,
    bounds="n contributions, npts data points, k steps with any picks and any goodness of fit (each accepted or rejected), contributions of any sign or positive only",
)
def running_sum(env):
    p = env.p
    c, w = core(env, p["npts"], p["n"], p["names"], signed=env.choice("sign", ["any", "positive"]) == "any")
    goes_on(env, p, c, w)


@harness(
    quick=dict(n=2, k=2, npts=1),
    thorough=dict(n=3, k=3, npts=1),
    witnesses=8,
    bounds="an optimization loaded after any number of steps up to a million (all but the first of them rejected), continued by k steps with any picks and any goodness of fit; n or 12 contributions of any sign",
)
def later(env):
    p = dict(env.p)
    if env.flag("many"):
        p.update(n=12, k=1)
    c, w = late(env, p["npts"], p["n"], signed=True)
    goes_on(env, p, c, w)


def goes_on(env, p, c, w):
    check_sum(env, c, w, p["n"])
    for s in range(p["k"]):
        turn = on_turn(c._opt.step, p["n"])
        before = [pset(w, i) for i in range(p["n"])]
        vol = list(c._model.volumes)
        tot = list(c._opt.modelI)
        x0 = list(c._opt.x0)
        acc = c._opt.accepted
        c.iterate()
        changed = c._opt.accepted != acc
        for i in range(p["n"]):
            if i != turn or not changed:
                env.eq(pset(w, i), before[i], "only the contribution whose turn it is may change, and only if accepted")
                env.eq(c._model.volumes[i], vol[i], "volumes of the other contributions are untouched")
        if changed:
            env.eq(pset(w, turn), {n: w.model.pickParameters[n] for n in w.names}, "an accepted step puts the picked values in place")
        else:
            env.eq(list(c._opt.modelI), tot, "a rejected step leaves the intensity")
            env.eq(list(c._opt.x0), x0, "a rejected step leaves scaling and background")
        check_sum(env, c, w, p["n"])
    env.observe("I", list(c._opt.modelI))
    env.observe("V", list(c._model.volumes))


@harness(
    quick=dict(n=2, k=3),
    thorough=dict(n=3, k=4),
    bounds="two fit parameters and static parameters, n contributions, k steps, one data point",
)
def two_parameters(env):
    p = env.p
    c, w = core(env, 1, p["n"], ("radius", "length"), static={"sld": 2.0, "background": 0})
    check_sum(env, c, w, p["n"])
    for s in range(p["k"]):
        before = [pset(w, i) for i in range(p["n"])]
        acc = c._opt.accepted
        c.iterate()
        for i in range(p["n"]):
            if i != s % p["n"] or c._opt.accepted == acc:
                env.eq(pset(w, i), before[i], "only the contribution whose turn it is may change, and only if accepted")
        check_sum(env, c, w, p["n"])
