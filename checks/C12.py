"""C12  A step is accepted iff it strictly improves the goodness of fit; kept scaling, counters and history match."""
from symx.run import harness

from .common import core, late, on_turn, pset

IMPORTS = ["mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb"]
OUTSIDE = "more steps, contributions and data points than stated"
ASSUMPTIONS = ["a model is any function of the parameter values (uninterpreted), with positive volume"]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any admissible scaling/background and any objective value)",
    "numpy random generator (any value inside the requested interval)",
]


def fits_of(env, w, start, inten):
    """the fits of an intensity made since call number `start`"""
    return w.tnc[start:]


def history(env, p, names):
    c, w = core(env, p["npts"], p["n"], names)
    assert w.tnc
    gof, x = w.tnc[-1].fun, list(w.tnc[-1].x)
    env.eq(w.tnc[-1].args[2], list(c._opt.modelI), "the starting goodness of fit is that of the starting set")
    env.eq(c._opt.gof, gof, "the starting goodness of fit is kept")
    env.eq(list(c._opt.x0), x, "the starting scaling/background is kept")
    steps, gofs = [0], [gof]
    env.eq([c._opt.step, c._opt.accepted], [0, 0], "counters start at zero")
    goes_on(env, p, names, c, w, gof, x, steps, gofs, 0)
    env.observe("gof", c._opt.gof)
    env.observe("x0", list(c._opt.x0))
    env.observe("gofs", list(c._opt.acceptedGofs))


def goes_on(env, p, names, c, w, gof, x, steps, gofs, at):
    for s in range(p["k"]):
        before = [pset(w, i) for i in range(p["n"])]
        n0 = len(w.tnc)
        c.iterate()
        env.check(len(w.tnc) > n0, "every step evaluates the goodness of fit")
        # intensity of the set with the contribution in turn replaced by the pick
        cand = [dict(b) for b in before]
        cand[on_turn(at + s, p["n"])] = {n: w.model.pickParameters[n] for n in names}
        tot = [sum(w.sas.inten(q, p["npts"])[j] for q in cand) for j in range(p["npts"])]
        f = w.tnc[-1]
        env.eq(f.args[2], tot, "the goodness of fit is evaluated for the changed set")
        better = f.fun < gof
        if bool(better):
            gof, x = f.fun, list(f.x)
            steps, gofs = steps + [at + s], gofs + [gof]
            now = cand
        else:
            now = before
        env.eq([pset(w, i) for i in range(p["n"])], now, "accepted exactly if strictly better")
        env.eq(c._opt.gof, gof, "the goodness of fit is that of the kept set (never worse)")
        env.eq(list(c._opt.x0), x, "the kept scaling/background belongs to the kept set")
        env.eq(c._opt.step, at + s + 1, "the step counter counts every step")
        env.eq(c._opt.accepted, len(steps) - 1, "the accepted counter counts every accepted step")
        env.eq(list(c._opt.acceptedSteps), steps, "the history lists the starting point and each accepted step")
        env.eq(list(c._opt.acceptedGofs), gofs, "the history lists the goodness of fit reached at each accepted step")


@harness(
    quick=dict(n=2, k=4, npts=2),
    thorough=dict(n=3, k=7, npts=2),
    witnesses=10,
    bounds="n contributions, npts data points, k steps, any picks, any goodness of fit and scaling/background per fit (ties included)",
)
def accept_iff_better(env):
    history(env, env.p, ("radius",))


@harness(quick=dict(n=1, k=4, npts=1), thorough=dict(n=1, k=8, npts=1), bounds="a single contribution, k steps")
def one_contribution(env):
    history(env, env.p, ("radius",))


@harness(quick=dict(n=2, k=3, npts=1), thorough=dict(n=2, k=5, npts=1), bounds="two fit parameters, k steps")
def two_parameters(env):
    history(env, env.p, ("radius", "length"))


@harness(
    quick=dict(n=2, k=2, npts=1),
    thorough=dict(n=3, k=3, npts=1),
    witnesses=8,
    bounds="an optimization loaded after any number of steps up to a million (all but the first of them rejected), continued by k steps; n or 12 contributions",
)
def later(env):
    p = dict(env.p)
    if env.flag("many"):
        p.update(n=12, k=1)
    c, w = late(env, p["npts"], p["n"])
    o = c._opt
    goes_on(env, p, ("radius",), c, w, o.gof, list(o.x0), list(o.acceptedSteps), list(o.acceptedGofs), o.step)
    env.observe("end", [o.step, o.accepted, o.gof])
