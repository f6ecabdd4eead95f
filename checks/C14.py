"""C14  Every picked value lies within its own parameter's fit limits, each picked afresh."""
from symx.run import harness

from .common import rngs, sas

IMPORTS = ["mcsas3.mc_model"]
OUTSIDE = "more parameters, contributions and picks than stated; the distribution of the values; rounding of 10**x at the limits"
ASSUMPTIONS = ["numpy's generator returns values inside the requested interval and refuses high < low"]
STUBS = ["numpy random generator (any value inside the requested interval; equal seeds give equal sequences where freshness is checked)", "sasmodels (not evaluated)"]
NAMES = ["radius", "length", "sld"]


def lims(env, names, pos):
    o = {}
    for n in names:
        lo, hi = env.real(n + ".lo", lo=0 if pos else None, lo_open=pos), env.real(n + ".hi")
        env.assume(lo <= hi)
        o[n] = (lo, hi)
    return o


def inside(env, v, lim, label):
    env.check(env.And(v >= lim[0], v <= lim[1]), label, f"{v} in {lim}")


def check_set(env, ps, L, n, label):
    env.eq([str(c) for c in ps.columns], list(L), "exactly the fit parameters are picked")
    env.eq(len(ps), n, "one value per contribution")
    for p in L:
        for i in range(n):
            inside(env, ps.loc[i][p], L[p], label)


def make(env, L, n, log, mixed=True):
    from mcsas3.mc_model import McModel

    sas(env)
    rngs(env)
    m = McModel(fitParameterLimits=dict(L), staticParameters={"background": 0}, nContrib=n, seed=3, **log)
    return m


@harness(
    quick=dict(n=2, k=2, names=NAMES[:2]),
    thorough=dict(n=3, k=3, names=NAMES),
    witnesses=12,
    bounds="any limits lo <= hi per parameter (positive ones when picking logarithmically), uniform or logarithmic, n contributions, a reset, k picks",
)
def within_limits(env):
    p = env.p
    log = env.choice("log", [False, True])
    L = lims(env, p["names"], log)
    m = make(env, L, p["n"], dict(logRandom=True) if log else {})
    check_set(env, m.parameterSet, L, p["n"], "initial values lie within their limits")
    for i in range(p["k"]):
        m.pick()
        env.eq(list(m.pickParameters), list(L), "exactly the fit parameters are picked")
        for q in L:
            inside(env, m.pickParameters[q], L[q], "picked values lie within their limits")
    m.resetParameterSet()
    check_set(env, m.parameterSet, L, p["n"], "values after a reset lie within their limits")


@harness(quick=dict(), thorough=dict(), bounds="one parameter, any limits (any signs, swapped), logarithmic picking")
def log_limits(env):
    lo, hi = env.real("lo"), env.real("hi")
    L = {"radius": (lo, hi)}
    e = env.raises(make, env, L, 1, dict(logRandom=True))
    pos = env.And(lo > 0, hi > 0)
    if bool(pos):
        env.check(e is None, "logarithmic picking works for positive limits", repr(e))
    else:
        env.check(e is not None, "logarithmic picking refuses non-positive limits")


@harness(quick=dict(n=1), thorough=dict(n=2), bounds="one parameter, positive limits in either order, logarithmic picking")
def log_swapped(env):
    lo, hi = env.real("lo", lo=0, lo_open=True), env.real("hi", lo=0, lo_open=True)
    m = make(env, {"radius": (lo, hi)}, env.p["n"], dict(logRandom=True))
    a, b = env.ite(lo <= hi, lo, hi), env.ite(lo <= hi, hi, lo)
    m.pick()
    inside(env, m.pickParameters["radius"], (a, b), "picked values lie within their limits")
    check_set(env, m.parameterSet, {"radius": (a, b)}, env.p["n"], "initial values lie within their limits")


@harness(quick=dict(n=2), thorough=dict(n=3), bounds="two parameters, one picked logarithmically and one uniformly")
def mixed(env):
    L = lims(env, NAMES[:1], True)
    L.update(lims(env, NAMES[1:2], False))
    n = env.p["n"]
    m = make(env, L, n, {})
    m.logRandoms = {"radius": True, "length": False}
    m.resetParameterSet()
    check_set(env, m.parameterSet, L, n, "values lie within their limits")
    m.pick()
    for q in L:
        inside(env, m.pickParameters[q], L[q], "picked values lie within their limits")


@harness(
    quick=dict(n=2, k=2),
    thorough=dict(n=3, k=3),
    bounds="the underlying random sequence is any with pairwise different values; two parameters of different width, n contributions, k picks, one reset, uniform or logarithmic",
)
def afresh(env):
    from mcsas3.mc_model import McModel

    p = env.p
    log = env.choice("log", [False, True])
    sas(env)
    rl = rngs(env, streams=True)
    L = {"radius": (env.const(1.0), env.const(10.0)), "length": (env.const(20.0), env.const(100.0))}
    seed = env.choice("seed", [12345, None])
    m = McModel(fitParameterLimits=L, staticParameters={"background": 0}, nContrib=p["n"], seed=seed, logRandom=log)
    vals = {q: [m.parameterSet.loc[i][q] for i in range(p["n"])] for q in L}
    for i in range(p["k"]):
        m.pick()
        for q in L:
            vals[q].append(m.pickParameters[q])
    m.resetParameterSet()
    for q in L:
        vals[q] += [m.parameterSet.loc[i][q] for i in range(p["n"])]
    from symx import stubs

    us = list(stubs.UNITS.get(id(env), {}).values())
    different = env.And(*[env.Not(a == b) for i, a in enumerate(us) for b in us[:i]])
    env.assume(different)
    for q in L:
        v = vals[q]
        env.check(env.And(*[env.Not(a == b) for i, a in enumerate(v) for b in v[:i]]), "every value is drawn afresh")
    # position within the limits must not be shared by the two parameters of a contribution
    if not log:
        rel = {q: [(x - L[q][0]) / (L[q][1] - L[q][0]) for x in vals[q]] for q in L}
        env.check(env.And(*[env.Not(a == b) for a in rel["radius"] for b in rel["length"]]), "every parameter is drawn afresh")
