"""C18  Every requested repetition is run from a fresh, independent start, and stored."""
import types

from symx.run import harness

from .common import LIMITS, data1, fixed_guess, procs, rngs, sas, tnc

IMPORTS = ["mcsas3.mc_hat", "mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb", "mcsas3.mc_hdf"]
OUTSIDE = "more repetitions, steps and contributions than stated; results of an earlier, longer run in the same place (the command line documents that overwriting needs its delete option)"
ASSUMPTIONS = [
    "random generators of different seeds, and different draws of one generator, never produce the same number",
    "a model is any function of the parameter values (uninterpreted), with positive volume",
    "different fits yield different scalings",
    "writing to the result file succeeds (failing writes are decided under C19)",
    "nothing is in the result file at the requested index before",
]
STUBS = [
    "sasmodels (uninterpreted squared amplitude and volume)",
    "scipy minimize (any admissible scaling/background and any objective value)",
    "numpy random generator (equal seeds give equal sequences of otherwise arbitrary numbers)",
    "multiprocessing (tasks work on copies, chunk by chunk, in either order, in this process)",
    "h5py (in-memory model of its documented behaviour)",
]


def watch(env, w):
    """log of repetitions: initial state, draws, final state"""
    from mcsas3 import mc_hat
    from mcsas3.mc_core import McCore

    w.reps = []
    cur = []

    def snap(c):
        m, o = c._model, c._opt
        return dict(
            rows=[float_(m.parameterSet["radius"].iloc[i]) for i in range(len(m.parameterSet))],
            step=o.step,
            accepted=o.accepted,
            gof=o.gof,
            x0=list(o.x0),
            acceptedSteps=list(o.acceptedSteps),
            acceptedGofs=list(o.acceptedGofs),
            modelI=list(o.modelI),
            volumes=list(m.volumes),
            seed=m.seed,
        )

    def float_(v):
        return v

    init, optimize = McCore.__init__, McCore.optimize

    def draw(rng, v):
        w.draws.append(v)

    def begin(self, *a, **k):
        n = len(w.tnc)
        init(self, *a, **k)
        self.first = w.tnc[n] if len(w.tnc) > n else None

    def opt(self):
        r = types.SimpleNamespace(rep=self._opt.repetition, start=snap(self), first=self.first, draws=w.draws[:])
        del w.draws[:]
        optimize(self)
        r.draws += w.draws
        del w.draws[:]
        r.end = snap(self)
        r.limits = (self._opt.maxIter, self._opt.maxAccept, self._opt.convCrit)
        w.reps.append(r)

    w.draws = []
    env.patch(McCore, "__init__", begin)
    env.patch(McCore, "optimize", opt)
    base = w.factory

    def factory(seed=None):
        r = base(seed)
        r.hook = draw
        return r

    env.stub("default_rng", factory)
    env.patch(mc_hat, "STORE_LOCK", None)


def world(env, cpus=4, reverse=False, npts=1):
    from symx.stubs import rng_factory

    w = types.SimpleNamespace()
    w.sas = sas(env)
    w.rng = []
    w.factory = rng_factory(env, w.rng, True)
    w.tnc = tnc(env, settled=[])
    fixed_guess(env)
    w.data = data1(env, npts)
    w.procs = procs(env, cpus, reverse)
    watch(env, w)
    return w


def distinct(env):
    """idealised generator: no two numbers are the same"""
    from symx.stubs import UNITS

    u = list(UNITS.get(id(env), {}).values())
    env.assume(env.And(*[u[i] != u[j] for i in range(len(u)) for j in range(i)]))


def judge(env, w, fn, n, index, x0=None, opt=None):
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    distinct(env)
    env.eq(sorted(int(r.rep) for r in w.reps), list(range(n)), "every repetition is performed once")
    for r in w.reps:
        s = r.start
        env.eq([s["step"], s["accepted"], s["acceptedSteps"]], [0, 0, [0]], "counters and history start anew")
        env.eq([s["gof"], s["acceptedGofs"]], [r.first.fun, [r.first.fun]], "goodness of fit starts anew")
        env.eq(list(r.first.x0), [1.0, 0.0] if x0 is None else x0, "scaling and background are not those of another repetition")
        env.eq(list(s["x0"]), list(r.first.x), "scaling and background of the first fit")
        I = [0.0] * len(s["modelI"])
        for v in s["rows"]:
            I = [a + b for a, b in zip(I, w.sas.inten(dict(radius=v), len(I)))]
        env.eq(s["modelI"], I, "intensity of the fresh contribution set")
        for k, v in (opt or {}).items():
            env.eq(r.limits[("maxIter", "maxAccept", "convCrit").index(k)], v, f"{k} as configured for every repetition")
    for i, a in enumerate(w.reps):
        env.check(len(a.draws) >= len(a.start["rows"]), "the contribution set is drawn anew")
        for b in w.reps[:i]:
            for v in a.start["rows"]:
                for k, o in (("start", b.start["rows"]), ("end", b.end["rows"])):
                    env.check(env.And(*[v != x for x in o]), f"fresh contribution set: no value from the {k} of another repetition")
            env.check(env.And(*[x != y for x, y in zip(a.draws, b.draws)]), "another random sequence in every repetition")
    root = f"/analyses/MCResult{index}"
    with env.h5.File(fn, "r") as f:
        for part in ("model", "optimization"):
            got = sorted(k for k in f[f"{root}/{part}"].keys() if k.startswith("repetition"))
            env.eq(got, sorted(f"repetition{i}" for i in range(n)), f"exactly the repetitions 0..N-1 are stored ({part})")
        env.eq(int(f[f"{root}/optimization/nRep"][()]), n, "the number of repetitions is stored")
    for r in w.reps:
        o = McOpt(loadFromFile=fn, loadFromRepetition=r.rep, resultIndex=index)
        for k in ("step", "accepted", "gof"):
            env.eq(getattr(o, k), r.end[k], f"stored: {k}")
        for k in ("x0", "acceptedSteps", "acceptedGofs", "modelI"):
            env.eq(list(getattr(o, k)), r.end[k], f"stored: {k}")
        m = McModel(loadFromFile=fn, loadFromRepetition=r.rep, resultIndex=index)
        env.eq(list(m.parameterSet["radius"]), r.end["rows"], "stored: contribution set")
        env.eq(list(m.volumes), r.end["volumes"], "stored: volumes")
        env.eq(m.seed, r.end["seed"], "stored: seed")


def hat(env, **k):
    from mcsas3.mc_hat import McHat

    return McHat(modelName="sphere", fitParameterLimits={"radius": list(LIMITS["radius"])}, staticParameters={"background": 0}, **k)


SEEDS = {"default": {}, "none": dict(seed=None), "int": dict(seed=7)}


@harness(
    quick=dict(n=2, reps=3, it=1),
    thorough=dict(n=2, reps=4, it=2),
    witnesses=10,
    bounds="1..3 (thorough 4) repetitions of 1 step (thorough 2), 2 contributions, one data point, without multiprocessing; default, given and no seed; starting point given or not; result index 1 or 4",
)
def serial(env):
    p = env.p
    w = world(env)
    n = env.choice("repetitions", list(range(1, p["reps"] + 1)))
    seed = env.choice("seed", list(SEEDS))
    x0 = env.choice("x0", [None, [2.0, 0.5]])
    cores = env.choice("cores", [1] if n > 1 else [0, 1, 3])
    index = 4 if seed == "int" else 1
    fn = env.tmp / "r.h5"
    opt = dict(maxIter=p["it"] if n < 4 else 1, maxAccept=3)
    h = hat(env, nContrib=p["n"], nRep=n, nCores=cores, resultIndex=index, convCrit=-1.0, **opt, **SEEDS[seed], **({} if x0 is None else dict(x0=list(x0))))
    h.run(w.data, fn)
    env.eq(len(w.procs.pools), 0, "no processes for a serial run")
    judge(env, w, fn, n, index, x0, opt)


@harness(
    quick=dict(n=2, it=1, cfg=[(2, 2), (3, 0), (3, 8)]),
    thorough=dict(n=2, it=1, cfg=[(2, 2), (2, 0), (3, 0), (3, 2), (3, 8), (4, 2), (4, 3)]),
    witnesses=10,
    bounds="2, 3 (thorough 4) repetitions of 1 step, 2 contributions, one data point, on 2, 3, 8 or an automatic number of cores (1, 2 or 4 present); chunks of tasks finishing in order or reversed; default, given and no seed; starting point given or not",
)
def parallel(env):
    p = env.p
    n, cores = env.choice("repetitions, cores", p["cfg"])
    cpus = env.choice("cpus", [1, 2, 4]) if cores == 0 else 4
    w = world(env, cpus, env.choice("order", [False, True]))
    seed = env.choice("seed", list(SEEDS))
    x0 = [2.0, 0.5] if seed == "none" else None
    fn = env.tmp / "r.h5"
    opt = dict(maxIter=p["it"])
    h = hat(env, nContrib=p["n"], nRep=n, nCores=cores, convCrit=-1.0, **opt, **SEEDS[seed], **({} if x0 is None else dict(x0=list(x0))))
    h.run(w.data, fn)
    judge(env, w, fn, n, 1, x0, opt)


@harness(
    quick=dict(),
    thorough=dict(),
    bounds="9 repetitions without steps on one or two cores, so that chunks of several tasks share one process; default, given and no seed",
)
def chunks(env):
    w = world(env, env.choice("cpus", [1, 2]), env.choice("order", [False, True]))
    seed = env.choice("seed", list(SEEDS))
    fn = env.tmp / "r.h5"
    h = hat(env, nContrib=1, nRep=9, nCores=0, maxIter=0, **SEEDS[seed])
    h.run(w.data, fn)
    judge(env, w, fn, 9, 1)


@harness(
    quick=dict(),
    thorough=dict(),
    bounds="two runs of the same instance, serial and parallel in any order, on different data and with different numbers of repetitions (2 and 3) into different files",
)
def again(env):
    w = world(env)
    seed = env.choice("seed", list(SEEDS))
    first, second = env.choice("first cores", [1, 2]), env.choice("second cores", [1, 2])
    h = hat(env, nContrib=1, nRep=2, nCores=first, maxIter=1, convCrit=-1.0, **SEEDS[seed])
    h.run(w.data, env.tmp / "a.h5")
    judge(env, w, env.tmp / "a.h5", 2, 1)
    del w.reps[:]
    h.nCores, h.nRep = second, 3
    h.run(data1(env, 2), env.tmp / "b.h5")
    judge(env, w, env.tmp / "b.h5", 3, 1)
    judge_file = env.tmp / "a.h5"
    with env.h5.File(judge_file, "r") as f:
        env.eq(sorted(k for k in f["/analyses/MCResult1/model"].keys() if k.startswith("rep")), ["repetition0", "repetition1"], "the other file is left alone")
