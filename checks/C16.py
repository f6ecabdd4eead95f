"""C16  Goodness of fit = reduced chi-squared at the returned scaling/background; bounds and start of the search."""
from symx.run import harness

from .common import core, fixed_guess, rngs, sas

IMPORTS = ["mcsas3.osb", "mcsas3.mc_core"]
OUTSIDE = "more data points than stated; rounding; that the search finds the minimum (C26)"
ASSUMPTIONS = ["model intensities are positive"]
STUBS = ["scipy minimize (some point inside the bounds it is given, if the method honours bounds, with the objective value there)"]
BOUNDED = {"nelder-mead", "l-bfgs-b", "tnc", "slsqp", "powell", "trust-constr", "cobyla", "cobyqa"}
INF = float("inf")


def search(env):
    """minimize by its contract: any point inside the bounds, and the objective evaluated there"""
    import types

    from symx.stubs import Result

    log = []

    def f(fn, x0, args=(), method=None, bounds=None, **k):
        i = len(log)
        x = [env.real(f"sc{i}"), env.real(f"bg{i}")]
        if bounds is not None and hasattr(bounds, "lb"):
            bounds = list(zip(bounds.lb, bounds.ub))
        bounds = None if bounds is None else [list(b) for b in bounds]
        if bounds is not None and (method is None or str(method).lower() in BOUNDED):
            for v, (lo, hi) in zip(x, bounds):
                if lo is not None and hi is not None and bool(lo > hi):
                    raise ValueError("An upper bound is less than the corresponding lower bound.")
                if lo is not None:
                    env.assume(v >= lo)
                if hi is not None:
                    env.assume(v <= hi)
        if not isinstance(args, tuple):
            args = (args,)
        xa = env.arr(x)
        log.append(types.SimpleNamespace(x0=x0, x=x, bounds=bounds, method=method, value=lambda s, b: fn(env.arr([s, b]), *args)))
        return Result(x=xa, fun=fn(xa, *args), success=True)

    env.stub("minimize", f)
    return log


def chi2(I, S, M, s, b):
    t = 0
    for i, si, m in zip(I, S, M):
        d = (i - (m * s + b)) / si
        t = t + d * d
    return t / len(I)


def osb(env, n, sym_sigma=False, **kw):
    from mcsas3.osb import optimizeScalingAndBackground as O

    I = [env.real(f"I{i}") for i in range(n)]
    S = [env.real(f"S{i}", lo=0, lo_open=True) if sym_sigma else 0.5 * (i + 1) for i in range(n)]
    M = [env.real(f"M{i}", lo=0, lo_open=True) for i in range(n)]
    return I, S, M, O(env.arr(I), env.arr(S), **kw)


@harness(
    quick=dict(n=2),
    thorough=dict(n=3),
    witnesses=8,
    bounds="any I and model intensity, any positive uncertainty, any admissible scaling/background, 1..n data points, a starting point given or not",
)
def reduced_chi_squared(env):
    n = env.count("n", 1, env.p["n"])
    log = search(env)
    if env.flag("symbolic sigma"):
        env.assume(n <= 2)
        I, S, M, o = osb(env, n, True)
    else:
        I, S, M, o = osb(env, n)
    x0 = env.arr([env.real("x0s", lo=0), env.real("x0b")]) if env.flag("start given") else None
    want0 = None if x0 is None else list(x0)
    if x0 is None:
        fixed_guess(env)
        x, gof = o.match(env.arr(M))
    else:
        x, gof = o.match(env.arr(M), x0)
        env.eq(list(log[-1].x0), want0, "a given starting point is used")
    s, b = x[0], x[1]
    env.check(any(s is l.x[0] or s == l.x[0] for l in log) if not env.symbolic else True, "the scaling/background found is returned")
    env.eq([s, b], log[-1].x, "the scaling/background found is returned")
    env.eq(gof, chi2(I, S, M, s, b), "goodness of fit = reduced chi-squared at the returned scaling/background")
    s2, b2 = env.real("s2", lo=0), env.real("b2")
    env.eq(log[-1].value(s2, b2), chi2(I, S, M, s2, b2), "the search minimises the reduced chi-squared")
    env.observe("gof", gof)


@harness(
    quick=dict(n=3),
    thorough=dict(n=5),
    witnesses=8,
    bounds="1..n data points, any intensities (also negative on average) and any positive model intensities, automatic limits and start",
)
def limits_and_start(env):
    n = env.count("n", 1, env.p["n"])
    log = search(env)
    I, S, M, o = osb(env, n)
    x, gof = o.match(env.arr(M))
    mean = sum(I) / n
    lim = env.ite(mean >= 0, mean, -mean)
    (slo, shi), (blo, bhi) = log[-1].bounds
    env.eq(slo, 0, "the scaling is limited to non-negative values")
    env.check(shi is None or shi == INF, "no upper limit on the scaling")
    env.eq([blo, bhi], [-lim, lim], "the background is limited to plus or minus the mean intensity")
    env.check(x[0] >= 0, "the scaling is not negative")
    env.check(env.And(x[1] >= -lim * (1 + 1e-9), x[1] <= lim * (1 + 1e-9)), "the background is within plus or minus the mean intensity")
    g = list(log[-1].x0)
    env.check(g[0] >= 0, "starts inside the limits (scaling)", str(g))
    env.check(env.And(g[1] >= -lim * (1 + 1e-9), g[1] <= lim * (1 + 1e-9)), "starts inside the limits (background)", str(g))
    env.observe("start", g)


@harness(
    quick=dict(n=2),
    thorough=dict(n=3),
    bounds="1..n data points, any user limits (each bound given or left open)",
)
def user_limits(env):
    n = env.count("n", 1, env.p["n"])
    log = search(env)
    B = []
    for v in ("s", "b"):
        lo = env.real(v + "lo") if env.flag(v + " lower given") else None
        hi = env.real(v + "hi") if env.flag(v + " upper given") else None
        if lo is not None and hi is not None:
            env.assume(lo <= hi)
        B.append([lo, hi])
    I, S, M, o = osb(env, n, xBounds=[list(b) for b in B])
    x, gof = o.match(env.arr(M))
    g = list(log[-1].x0)
    for k, name in enumerate(("scaling", "background")):
        lo, hi = B[k]
        if lo is not None:
            env.check(x[k] >= lo, f"the {name} respects the limits the user gave")
            env.check(g[k] >= lo, f"starts inside the limits the user gave ({name})")
        if hi is not None:
            env.check(x[k] <= hi, f"the {name} respects the limits the user gave")
            env.check(g[k] <= hi, f"starts inside the limits the user gave ({name})")
    env.eq(gof, chi2(I, S, M, x[0], x[1]), "goodness of fit = reduced chi-squared at the returned scaling/background")


@harness(
    quick=dict(n=24),
    thorough=dict(n=130),
    witnesses=2,
    bounds="n data points (24; thorough 130), intensity and model intensity of one of them (the first, one in between, the last) anything, any admissible scaling/background",
)
def many(env):
    from mcsas3.osb import optimizeScalingAndBackground as O

    n = env.p["n"]
    log = search(env)
    at = env.choice("which point", [0, 7, n // 2, n - 1])
    I = [env.real("I") if i == at else 3.0 + 2.0 * ((7 * i) % 5) - 0.25 * i for i in range(n)]
    M = [env.real("M", lo=0, lo_open=True) if i == at else 0.5 + (5 * i) % 7 for i in range(n)]
    S = [0.25 * (1 + (3 * i) % 4) for i in range(n)]
    o = O(env.arr(I), env.arr(S))
    x, gof = o.match(env.arr(M))
    env.eq([x[0], x[1]], log[-1].x, "the scaling/background found is returned")
    env.eq(gof, chi2(I, S, M, x[0], x[1]), "goodness of fit = reduced chi-squared at the returned scaling/background")
    mean = sum(I) / n
    lim = env.ite(mean >= 0, mean, -mean)
    (slo, shi), (blo, bhi) = log[-1].bounds
    env.eq(slo, 0, "the scaling is limited to non-negative values")
    env.eq([blo, bhi], [-lim, lim], "the background is limited to plus or minus the mean intensity")
    g = list(log[-1].x0)
    env.check(g[0] >= 0, "starts inside the limits (scaling)", str(g))
    env.check(env.And(g[1] >= -lim * (1 + 1e-9), g[1] <= lim * (1 + 1e-9)), "starts inside the limits (background)", str(g))


@harness(quick=dict(n=2), thorough=dict(n=3), bounds="n data points, two contributions, the goodness of fit kept by the optimizer core at the start and after a step")
def of_the_core(env):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    n = env.p["n"]
    m = sas(env)
    rngs(env)
    log = search(env)
    fixed_guess(env)
    I = [env.real(f"I{i}") for i in range(n)]
    S = [0.5 * (i + 1) for i in range(n)]
    data = dict(Q=[env.arr([0.1 * (i + 1) for i in range(n)])], I=env.arr(I), ISigma=env.arr(S))
    model = McModel(fitParameterLimits={"radius": [1.0, 10.0]}, staticParameters={"background": 0}, nContrib=2)
    c = McCore(data, model=model, opt=McOpt())
    for step in range(2):
        rad = [model.parameterSet.loc[i]["radius"] for i in range(2)]
        M = [sum(m.fsq({"radius": r}, j) / m.vol({"radius": r}) for r in rad) for j in range(n)]
        env.eq(c._opt.gof, chi2(I, S, M, c._opt.x0[0], c._opt.x0[1]), "the kept goodness of fit is that of the data, the kept set and the kept scaling/background")
        if step == 0:
            c.iterate()


@harness(quick=dict(), thorough=dict(), bounds="2 data points, one of them NaN or infinite in intensity or uncertainty, or arrays of different length")
def invalid(env):
    from mcsas3.osb import optimizeScalingAndBackground as O

    bad = env.choice("bad", [float("nan"), INF, -INF, "length", None])
    where = env.choice("where", ["I", "S"])
    I, S = [env.real("I0"), env.real("I1")], [env.real("S0", lo=0, lo_open=True), env.real("S1", lo=0, lo_open=True)]
    tgt = I if where == "I" else S
    if bad == "length":
        tgt.pop()
    elif bad is not None:
        tgt[env.choice("k", [0, 1])] = bad
    e = env.raises(O, env.arr(I), env.arr(S))
    env.check((e is None) == (bad is None), "data that are not finite or do not match are refused", repr(e))
