"""C15  Automatic fit limits are pi/Qmax and pi/Qmin of the data being fitted; the configuration is left as it was."""
import math
from pathlib import PurePosixPath

from symx.run import harness

from .common import fixed_guess, rngs, sas, tnc

IMPORTS = ["mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb", "mcsas3.mc_hat"]
OUTSIDE = "more data points and parameters than stated"
ASSUMPTIONS = ["a model is any function of the parameter values (uninterpreted), with positive volume"]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any admissible scaling/background and any objective value)",
    "numpy random generator (any value inside the requested interval)",
    "h5py (in-memory model of its documented behaviour)",
]


def dataset(env, tag, n, pos=True):
    q = [env.real(f"{tag}q{i}", lo=0 if pos else None, lo_open=pos) for i in range(n)]
    return q, dict(Q=[env.arr(q)], I=env.arr([3.0 + i for i in range(n)]), ISigma=env.arr([0.5] * n))


def auto_ok(env, got, q, label):
    lo, hi = got[0], got[1]
    env.check(env.And(*[lo * x <= math.pi * (1 + 1e-9) for x in q]), label + " (lower: pi/Qmax)")
    env.check(env.Or(*[env.And(lo * x <= math.pi * (1 + 1e-9), lo * x >= math.pi * (1 - 1e-9)) for x in q]), label + " (lower: pi/Qmax)")
    env.check(env.And(*[hi * x >= math.pi * (1 - 1e-9) for x in q]), label + " (upper: pi/Qmin)")
    env.check(env.Or(*[env.And(hi * x <= math.pi * (1 + 1e-9), hi * x >= math.pi * (1 - 1e-9)) for x in q]), label + " (upper: pi/Qmin)")


def setup(env):
    sas(env)
    w = rngs(env)
    tnc(env)
    fixed_guess(env)
    return w


def snapshot(cfg):
    return {k: ({a: (list(b) if isinstance(b, (list, tuple)) else b) for a, b in v.items()} if isinstance(v, dict) else v) for k, v in cfg.items()}


def used_limits(env, fn, idx=1):
    from mcsas3.mc_hdf import loadKV

    return loadKV(fn, PurePosixPath(f"/analyses/MCResult{idx}/model/fitParameterLimits"), datatype="dict")


def drawn(rl, a):
    return [(lo, hi) for s, r in rl[a:] for lo, hi, v in r.draws]


@harness(
    quick=dict(n=2),
    thorough=dict(n=3),
    witnesses=10,
    bounds="n data points per dataset with any positive Q in any order; two datasets after each other with one configuration; automatic and explicit parameters mixed; a new optimizer for the second dataset or the same again",
)
def own_data(env):
    from mcsas3.mc_hat import McHat

    n = env.p["n"]
    rl = setup(env)
    explicit = [env.real("lo"), env.real("hi")]
    env.assume(explicit[0] < explicit[1])
    kinds = env.choice("kinds", ["auto", "both", "explicit"])
    lim = {"radius": "auto", "length": list(explicit)} if kinds == "both" else {"radius": "auto" if kinds == "auto" else list(explicit)}
    cfg = dict(nCores=1, nRep=1, modelName="sphere", nContrib=1, fitParameterLimits=lim, staticParameters={"background": 0}, maxIter=1)
    want = snapshot(cfg)
    again = env.choice("second run", ["new optimizer", "same optimizer"])
    hat = None
    for tag in ("a", "b"):
        q, d = dataset(env, tag, n)
        if hat is None or again == "new optimizer":
            hat = McHat(**cfg)
        q0 = list(q)
        a = len(rl)
        hat.run(d, env.tmp / f"{tag}.h5")
        got = used_limits(env, env.tmp / f"{tag}.h5")
        env.eq(set(got) == set(lim), True, "limits for exactly the fit parameters")
        for name, lm in lim.items():
            if isinstance(want["fitParameterLimits"][name], str):
                auto_ok(env, got[name], q0, "automatic limits derive from this run's data")
            else:
                env.eq(list(got[name]), explicit, "explicit limits are used as given")
        dr = drawn(rl, a)
        env.check(len(dr) > 0, "values are picked")
        for lo, hi in dr:
            env.check(env.Or(*[env.And(lo == v[0], hi == v[1]) for v in got.values()]), "picking uses the stored limits")
        env.check(snapshot(cfg)["fitParameterLimits"].keys() == want["fitParameterLimits"].keys() and all(
            isinstance(cfg["fitParameterLimits"][k], str) == isinstance(v, str) for k, v in want["fitParameterLimits"].items()), "the caller's configuration is left as it was")
        for k, v in want["fitParameterLimits"].items():
            env.eq(cfg["fitParameterLimits"][k], v, "the caller's configuration is left as it was")
        env.eq(list(d["Q"][0]), q0, "the data are left as they were")
        env.observe(tag, {k: list(v) for k, v in got.items()})


@harness(quick=dict(n=2), thorough=dict(n=3), bounds="n data points with any Q (negative, zero, positive); automatic or explicit limits; anything but 'auto' refused")
def refused(env):
    from mcsas3.mc_hat import McHat

    n = env.p["n"]
    setup(env)
    q, d = dataset(env, "a", n, pos=False)
    lim = env.choice("limits", ["auto", "explicit", "other"])
    val = {"auto": "auto", "explicit": [1.0, 2.0], "other": "automatic"}[lim]
    hat = McHat(nCores=1, nRep=1, modelName="sphere", nContrib=1, fitParameterLimits={"radius": val}, staticParameters={"background": 0}, maxIter=0)
    e = env.raises(hat.run, d, env.tmp / "a.h5")
    pos = bool(env.And(*[x > 0 for x in q]))
    if lim == "other":
        env.check(e is not None, "limits other than 'auto' or [min, max] are refused")
    elif lim == "auto" and not pos:
        env.check(e is not None, "data reaching down to Q <= 0 are refused for automatic limits")
    else:
        env.check(e is None, "accepted otherwise", repr(e))


@harness(quick=dict(n=2), thorough=dict(n=3), bounds="2-D data: n pixels, any positive components of Q in any order; automatic limits")
def two_components(env):
    from mcsas3.mc_hat import McHat

    n = env.p["n"]
    setup(env)
    q, d = dataset(env, "a", n)
    q2 = [env.real(f"bq{i}", lo=0, lo_open=True) for i in range(n)]
    d["Q"] = [d["Q"][0], env.arr(q2)]
    McHat(nCores=1, nRep=1, modelName="sphere", nContrib=1, fitParameterLimits={"radius": "auto"}, staticParameters={"background": 0}, maxIter=0).run(d, env.tmp / "a.h5")
    got = used_limits(env, env.tmp / "a.h5")
    auto_ok(env, got["radius"], q + q2, "automatic limits derive from all components of Q")
    env.observe("limits", list(got["radius"]))


@harness(
    quick=dict(n=24),
    thorough=dict(n=130),
    bounds="n data points (24; thorough 130) in falling, rising or mixed order, of which one (the first, one in between, the last) has any positive Q; automatic limits",
)
def many(env):
    from mcsas3.mc_hat import McHat

    n = env.p["n"]
    setup(env)
    order = env.choice("order", ["rising", "falling", "mixed"])
    at = env.choice("which point", [0, 7, n - 1])
    q = [0.01 * (1 + (i if order == "rising" else n - 1 - i if order == "falling" else (7 * i + 3) % n)) for i in range(n)]
    q[at] = env.real("q", lo=0, lo_open=True)
    q0 = list(q)
    d = dict(Q=[env.arr(q)], I=env.arr([3.0 + i for i in range(n)]), ISigma=env.arr([0.5] * n))
    McHat(nCores=1, nRep=1, modelName="sphere", nContrib=1, fitParameterLimits={"radius": "auto"}, staticParameters={"background": 0}, maxIter=0).run(d, env.tmp / "a.h5")
    auto_ok(env, used_limits(env, env.tmp / "a.h5")["radius"], q0, "automatic limits derive from all data points")
