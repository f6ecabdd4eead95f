"""C30  A seeded run is reproducible."""
import types

from symx.run import harness

from .common import LIMITS, another_process, data1, fixed_guess, procs, rngs, sas, snapshot, unchanged

IMPORTS = ["mcsas3.mc_hat", "mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb", "mcsas3.mc_hdf"]
OUTSIDE = "more repetitions, steps and contributions than stated; equality between runs on different numbers of cores (their random sequences are distributed differently); runs without a seed; rounding differences between machines"
ASSUMPTIONS = [
    "the model library and the scaling/background search return the same for the same arguments (uninterpreted functions)",
]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (uninterpreted function of the starting point and the model intensity)",
    "numpy random generator (equal seeds give equal sequences of otherwise arbitrary numbers; without a seed anything)",
    "multiprocessing (tasks work on copies, chunk by chunk, in either order, in this process)",
    "h5py (in-memory model of its documented behaviour)",
]


def search(env):
    """scipy.minimize: any function of where it starts and what it compares"""
    from symx.stubs import Result

    def f(fn, x0, args=(), method=None, bounds=None, **k):
        a = list(x0) + list(args[2])
        n = len(args[2])
        sc, bg, chi = env.ufun(f"sc{n}", *a, lo=0), env.ufun(f"bg{n}", *a), env.ufun(f"chi{n}", *a, lo=0)
        return Result(x=env.arr([sc, bg]), fun=chi)

    env.stub("minimize", f)


def world(env, npts=1, cpus=4, names=("radius",)):
    w = types.SimpleNamespace()
    w.sas = sas(env, names)
    w.rng = rngs(env, streams=True)
    search(env)
    fixed_guess(env)
    w.data = data1(env, npts)
    w.procs = procs(env, cpus)
    from mcsas3 import mc_hat

    if hasattr(mc_hat, "STORE_LOCK"):
        env.patch(mc_hat, "STORE_LOCK", None)
    return w


def hat(env, limits="given", names=("radius",), **k):
    from mcsas3.mc_hat import McHat

    lim = {n: list(LIMITS[n]) if limits == "given" else "auto" for n in names}
    return McHat(modelName="sphere", fitParameterLimits=lim, staticParameters={"background": 0}, convCrit=-1.0, **k)


def between(env, kind):
    """something else happens in the same process"""
    import numpy as np

    if kind == "another run":
        hat(env, nContrib=2, nRep=1, maxIter=1, seed=99, nCores=1).run(data1(env, 2), env.tmp / "other.h5")
    elif kind == "a run with the same seed":
        hat(env, nContrib=1, nRep=1, maxIter=0, seed=7, nCores=1).run(data1(env, 1), env.tmp / "other.h5")
    elif kind == "an unseeded run":
        hat(env, nContrib=1, nRep=1, maxIter=0, seed=None, nCores=1).run(data1(env, 1), env.tmp / "other.h5")
    elif kind == "random numbers drawn":
        np.random.seed(3)
        np.random.default_rng(7).uniform(0.0, 1.0)


def same(env, a, b, index=1):
    root = f"/analyses/MCResult{index}"
    x, y = snapshot(env, a, root), snapshot(env, b, root)
    env.check(any(k.startswith("model/repetition0/") for k in x), "the run is stored")
    unchanged(env, x, y, "both runs store the same")
    keys = [k for k in x if k.endswith("/gof") or k.endswith("gof")]
    env.observe("gof", [x[k] for k in keys if not isinstance(x[k], (list, type(None)))])


KINDS = ["nothing", "another run", "a run with the same seed", "an unseeded run", "random numbers drawn"]


@harness(
    quick=dict(n=2, reps=2, it=1),
    thorough=dict(n=2, reps=3, it=2),
    witnesses=8,
    bounds="1, 2 (thorough 3) repetitions of 1 step (thorough 2), 2 contributions, one data point, on one core; given seeds (also 0) and the default seed; limits given or automatic; a new instance or the same again; something else run in between or not",
)
def serial(env):
    p = env.p
    w = world(env)
    n = env.choice("repetitions", list(range(1, p["reps"] + 1)))
    seed = env.choice("seed", [dict(seed=7), dict(seed=0), {}])
    lim = env.choice("limits", ["given", "auto"])
    again = env.choice("instance", ["new", "same"])
    cfg = dict(nContrib=p["n"], nRep=n, maxIter=p["it"], nCores=1, limits=lim, **seed)
    h = hat(env, **cfg)
    h.run(w.data, env.tmp / "a.h5")
    between(env, env.choice("between", KINDS))
    if again == "new":
        h = hat(env, **cfg)
    h.run(w.data, env.tmp / "b.h5")
    same(env, env.tmp / "a.h5", env.tmp / "b.h5")


@harness(
    quick=dict(cfg=[(2, 2, 1), (3, 2, 1), (9, 2, 0)]),
    thorough=dict(cfg=[(2, 2, 2), (3, 2, 1), (4, 3, 1), (9, 2, 0), (17, 2, 0)]),
    witnesses=8,
    bounds="2, 3 (thorough 4) repetitions of 1 step (2) on two or three cores and 9 (17) repetitions without steps, 2 contributions, one data point; tasks finishing in any order; workers doing one or more chunks; given and default seed; a new instance or the same again",
)
def parallel(env):
    n, cores, it = env.choice("repetitions, cores, steps", env.p["cfg"])
    w = world(env)
    seed = env.choice("seed", [dict(seed=7), {}])
    again = env.choice("instance", ["new", "same"])
    kind = env.choice("between", KINDS[:2])
    cfg = dict(nContrib=2 if it else 1, nRep=n, maxIter=it, nCores=cores, **seed)
    h = hat(env, **cfg)
    h.run(w.data, env.tmp / "a.h5")
    between(env, kind)
    if again == "new":
        h = hat(env, **cfg)
    # the second run is scheduled differently
    w.procs.reverse, w.procs.lazy = env.choice("schedule", [(False, False), (True, False), (True, True)])
    h.run(w.data, env.tmp / "b.h5")
    same(env, env.tmp / "a.h5", env.tmp / "b.h5")


@harness(
    quick=dict(reps=2, it=1),
    thorough=dict(reps=3, it=2),
    witnesses=6,
    bounds="1 or 2 (thorough 3) repetitions of 1 step (2), two fit parameters, 2 contributions, one data point; second run in a process with other hashes (order of sets)",
)
def other_process(env):
    p = env.p
    w = world(env, names=("radius", "length"))
    n = env.choice("repetitions", list(range(1, p["reps"] + 1)))
    seed = env.choice("seed", [dict(seed=7), {}])
    names = env.choice("order", [("radius", "length"), ("length", "radius")])
    for k in (0, 1):
        another_process(env, k)
        hat(env, names=names, nContrib=2, nRep=n, maxIter=p["it"], nCores=1, **seed).run(w.data, env.tmp / f"{k}.h5")
    same(env, env.tmp / "0.h5", env.tmp / "1.h5")
