"""C19  Writes to the result file are serialised by one lock, which is always released."""
from symx.run import harness

from .common import LIMITS, data1, fixed_guess, on_open, procs, rngs, sas, tnc

IMPORTS = ["mcsas3.mc_hat", "mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb", "mcsas3.mc_hdf"]
OUTSIDE = "more repetitions and cores than stated; failures of the operating system's lock; workers that are killed"
ASSUMPTIONS = [
    "writes under one lock that is held exclude each other (the operating system's lock)",
    "a write fails by an exception when the file is opened for writing",
]
STUBS = [
    "sasmodels, scipy minimize, numpy random generator (arbitrary results)",
    "multiprocessing (tasks work on copies in worker processes with module variables of their own; recording lock)",
    "h5py (in-memory model of its documented behaviour)",
]
KINDS = {"OSError": OSError, "TypeError": TypeError, "KeyError": KeyError}


def run(env, reps, cores, faults, **k):
    """faults: None or function(rep, number of the write within it) -> exception class or None"""
    from mcsas3 import mc_hat
    from mcsas3.mc_hat import McHat

    from symx.stubs import rng_factory

    sas(env)
    env.stub("default_rng", rng_factory(env, [], True))
    tnc(env)
    fixed_guess(env)
    w = procs(env, **k)
    env.patch(mc_hat, "STORE_LOCK", None)
    fn = env.tmp / "r.h5"
    w.writes, w.failed, w.outside = {}, set(), []

    def hook(name, mode):
        if mode == "r" or w.task is None:
            return
        n = w.writes[w.task] = w.writes.get(w.task, -1) + 1
        w.events.append(("write", None, w.task))
        e = faults(w.task, n) if faults else None
        if e is not None:
            w.failed.add(w.task)
            raise e(f"injected failure of write {n} of repetition {w.task}")

    on_open(env, hook)
    h = McHat(modelName="sphere", fitParameterLimits={"radius": list(LIMITS["radius"])}, staticParameters={"background": 0}, nContrib=1, maxIter=0, nRep=reps, nCores=cores)
    w.exc = env.raises(h.run, data1(env, 1), fn)
    return w, fn


def judge(env, w, fn, reps):
    env.eq(w.deadlocks, 0, "no repetition is blocked by a lock that is never released")
    used = {id(l) for e, l, t in w.events if l is not None}
    env.eq(len(used), 1, "one lock shared by all workers")
    held = {t: 0 for t in range(reps)}
    wrote = set()
    since = {t: 0 for t in range(reps)}
    for e, l, t in w.events:
        if e == "acquire":
            env.eq(sum(held.values()), 0, "the lock is held by one repetition at a time")
            held[t] += 1
        elif e == "release":
            env.eq(held[t], 1, "the lock is released once, by the repetition holding it")
            held[t] -= 1
        else:
            env.eq(held[t], 1, "every write happens while holding the lock")
            wrote.add(t)
    env.eq(list(held.values()), [0] * reps, "the lock is released after each repetition's write")
    env.eq(sorted(wrote), list(range(reps)), "every repetition gets to write")
    from mcsas3.mc_opt import McOpt

    for r in sorted(set(range(reps)) - w.failed):
        o = McOpt(loadFromFile=fn, loadFromRepetition=r)
        env.eq([o.step, o.accepted], [0, 0], "repetitions whose writes succeed are stored")


@harness(
    quick=dict(reps=[(2, 2), (3, 2), (3, 0)]),
    thorough=dict(reps=[(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (9, 2), (3, 0), (10, 0)]),
    witnesses=6,
    bounds="2 or 3 (thorough to 10) repetitions on 2, 3 or an automatic number of cores, tasks handed to the workers in turn or all to one, finishing in order or reversed; nothing fails",
)
def discipline(env):
    reps, cores = env.choice("reps, cores", env.p["reps"])
    w, fn = run(env, reps, cores, None, cpus=env.choice("cpus", [2, 4]) if cores == 0 else 4, reverse=env.choice("reverse", [False, True]), lazy=env.choice("one worker", [False, True]))
    env.eq(w.exc is None, True, "the run completes")
    judge(env, w, fn, reps)


@harness(
    quick=dict(reps=2, kinds=["OSError"]),
    thorough=dict(reps=3, kinds=["OSError", "TypeError", "KeyError"]),
    witnesses=6,
    bounds="any single write of any single repetition fails",
)
def one_fault(env):
    p = env.p
    which = env.choice("which", list(range(p["reps"])))
    at = env.integer("at", 0, 200)
    kind = KINDS[env.choice("kind", p["kinds"])]
    w, fn = run(env, p["reps"], 2, lambda r, n: kind if r == which and bool(at == n) else None, lazy=env.choice("one worker", [False, True]))
    judge(env, w, fn, p["reps"])


@harness(
    quick=dict(reps=3, at=[None, 0, 6]),
    thorough=dict(reps=4, at=[None, 0, 6, 12]),
    witnesses=6,
    bounds="every combination of repetitions failing at their first, or a later write, or not at all",
)
def many_faults(env):
    p = env.p
    at = [env.choice(f"at{r}", p["at"]) for r in range(p["reps"])]
    kind = KINDS[env.choice("kind", ["OSError", "KeyError"])]
    w, fn = run(env, p["reps"], 2, lambda r, n: kind if at[r] == n else None, reverse=env.choice("reverse", [False, True]))
    judge(env, w, fn, p["reps"])
