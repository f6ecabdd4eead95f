"""builders shared by the checks"""
import types

INF = float("inf")


def write_frame(env, fn, qx, qy, I, S, mask, shape):
    """a minimal HDF5 frame: Q as [dim, y, x] (y first, as the reader expects), I, ISigma, mask"""
    ny, nx = shape
    grid = [(y, x) for y in range(ny) for x in range(nx)]
    with env.h5.File(fn, "w") as f:
        f["Q"] = env.arr([qy[i] for i in grid] + [qx[i] for i in grid]).reshape((2, ny, nx))
        f["I"] = env.arr([I[i] for i in grid]).reshape(shape)
        f["ISigma"] = env.arr([S[i] for i in grid]).reshape(shape)
        if mask is not None:
            import numpy as np

            f["mask"] = np.array([mask[i] for i in grid]).reshape(shape)


def image2d(env, shape, inside=False, qx=None, qy=None, I=None, S=None, mask=None, **kw):
    """-> (McData2D read from a file, pixels)"""
    from mcsas3.mc_data_2d import McData2D

    ny, nx = shape
    ids = [(y, x) for y in range(ny) for x in range(nx)]

    def col(v, name, **k):
        if v is None:
            return {i: env.real(f"{name}_{i[0]}_{i[1]}", **k) for i in ids}
        return {i: v[i] if i in v else env.real(f"{name}_{i[0]}_{i[1]}", **k) for i in ids}

    lo = dict(lo=0, lo_open=True) if inside else {}
    qx, qy = col(qx, "Qx", **lo), col(qy, "Qy", **lo)
    I, S = col(I, "I"), col(S, "S", lo=0, lo_open=inside)
    fn = env.tmp / "frame.h5"
    write_frame(env, fn, qx, qy, I, S, mask, shape)
    pd = dict(Q="/Q", I="/I", ISigma="/ISigma")
    if mask is not None:
        pd["mask"] = "/mask"
    limits = {k: kw.pop(k) for k in ("orthoQ0Range", "orthoQ1Range") if k in kw}
    px = types.SimpleNamespace(ids=ids, qx=qx, qy=qy, I=I, S=S, mask=mask or {i: 0 for i in ids})
    if limits:
        md = McData2D(pathDict=pd, loader="from_nexus", **kw)
        for k, v in limits.items():
            setattr(md, k, v)
        md.from_file(fn)
    else:
        md = McData2D(filename=fn, pathDict=pd, loader="from_nexus", **kw)
    return md, px


# ------------------------------------------------------------------ model library stand-in
class FakeKernel:
    def __init__(self, func, q):
        self.func, self.q, self.released = func, q, 0

    def release(self):
        self.released += 1


class FakeFunc:
    def __init__(self, name, defaults):
        self.name = name
        self.kernels = []
        self.info = types.SimpleNamespace(parameters=types.SimpleNamespace(defaults=dict(defaults)))

    def make_kernel(self, q):
        k = FakeKernel(self, q)
        self.kernels.append(k)
        return k


DEFAULTS = dict(scale=1.0, background=0.001, sld=1.0, sld_solvent=6.0, radius=50.0, length=400.0)


def sas(env, names=("radius",), defaults=DEFAULTS, signed=False):
    """stands in for sasmodels: squared amplitude per data point and volume are uninterpreted functions of the
    parameter values (any model); -> log with .fsq(pars, j), .vol(pars), .inten(pars, npts)"""
    log = types.SimpleNamespace(funcs=[], calls=[])

    def key(pars, func=None):
        return [pars[n] for n in names]

    log.fsq = lambda pars, j: env.ufun(f"fsq{j}", *key(pars), **({} if signed else dict(lo=0, lo_open=True)))
    log.vol = lambda pars: env.ufun("vol", *key(pars), lo=0, lo_open=True)
    log.inten = lambda pars, npts: [log.fsq(pars, j) / log.vol(pars) for j in range(npts)]

    def load_model(name, dtype=None, platform="ocl"):
        f = FakeFunc(name, defaults)
        log.funcs.append(f)
        return f

    def call_Fq(kernel, pars, cutoff=0.0, mono=False):
        full = dict(kernel.func.info.parameters.defaults)
        full.update(pars)
        log.calls.append(dict(pars))
        n = len(kernel.q[0])
        return None, env.arr([log.fsq(full, j) for j in range(n)]), 1.0, log.vol(full), 1.0

    env.stub("load_model", load_model)
    env.stub("call_Fq", call_Fq)
    return log


def tnc(env, fun=None, settled=None):
    """stands in for scipy.optimize.minimize: some admissible (scaling, background) and some objective value"""
    from symx.stubs import Result

    log = []
    consistent = settled is not None
    settled = [] if settled is None else settled

    def f(fn, x0, args=(), method=None, bounds=None, **k):
        i = len(log)
        for r in log if settled[:] else []:
            # started at the optimum found earlier for the same model intensity: stays there
            if env.same(x0, r.x) and env.same(args[2], r.args[2]):
                return Result(x=r.x, fun=r.fun)
        sc, bg = env.real(f"sc{i}", lo=0), env.real(f"bg{i}")
        if bounds is not None and bounds[1] is not None:
            lo, hi = bounds[1]
            env.assume(env.And(*([bg >= lo] if lo is not None else []), *([bg <= hi] if hi is not None else [])))
        chi = env.real(f"chi{i}", lo=0) if fun is None else fun(i)
        if consistent and log:
            # different fits are told apart by their scaling
            env.assume(sc >= log[-1].sc + 0.125)
        r = Result(x=env.arr([sc, bg]), fun=chi)
        log.append(types.SimpleNamespace(x0=x0, args=args, bounds=bounds, x=r.x, fun=chi, sc=sc, bg=bg))
        return r

    env.stub("minimize", f)
    return log


def rngs(env, streams=False):
    from symx.stubs import rng_factory

    log = []
    env.stub("default_rng", rng_factory(env, log, streams))
    return log


def fixed_guess(env):
    """the automatic starting point of the scaling/background search (decided under C16) is left out"""
    from mcsas3.osb import optimizeScalingAndBackground as O

    env.patch(O, "initialGuess", lambda self, optI: env.arr([1.0, 0.0]))


def data1(env, n, sym=False):
    q = [0.1 * (i + 1) for i in range(n)]
    I = [env.real(f"I{i}") for i in range(n)] if sym else [float(n + 1 - i) for i in range(n)]
    s = [env.real(f"S{i}", lo=0, lo_open=True) for i in range(n)] if sym else [0.1 * (i + 1) for i in range(n)]
    return dict(Q=[env.arr(q)], I=env.arr(I), ISigma=env.arr(s))


LIMITS = {"radius": [1.0, 10.0], "length": [20.0, 50.0]}


def core(env, npts=1, ncontrib=2, names=("radius",), opt=None, static=None, reload=False, signed=False, **kw):
    """-> (McCore on a fake model, namespace of logs)"""
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    w = types.SimpleNamespace()
    w.sas = sas(env, names, signed=signed)
    w.rng = rngs(env)
    w.settled = [] if reload else None
    w.tnc = tnc(env, settled=w.settled)
    fixed_guess(env)
    w.data = data1(env, npts)
    w.model = McModel(
        fitParameterLimits={n: list(LIMITS[n]) for n in names},
        staticParameters=dict(static or {"background": 0}),
        nContrib=ncontrib,
        modelName="sphere",
        **kw,
    )
    w.opt = McOpt(**(opt or {}))
    w.core = McCore(w.data, model=w.model, opt=w.opt)
    w.names, w.npts = names, npts
    return w.core, w


def late(env, npts=1, ncontrib=2, names=("radius",), opt=None, steps=(0, 1), most=10**6, **kw):
    """-> (McCore, namespace of logs): an optimization that has made any number of steps, the last of which were rejected.
    A rejected step only advances the counter (decided under C11 and C12); it is advanced in a stored and loaded state."""
    from pathlib import PurePosixPath

    from mcsas3.mc_core import McCore
    from mcsas3.mc_hdf import storeKV

    c, w = core(env, npts, ncontrib, names, opt=opt, reload=True, **kw)
    for _ in range(env.choice("steps before", steps)):
        c.iterate()
    w.opt.repetition = 0
    fn = env.tmp / "late.h5"
    c.store(fn)
    storeKV(fn, PurePosixPath("/analyses/MCResult1/optimization/repetition0/step"), c._opt.step + env.integer("rejected", 0, most))
    w.settled.append(1)
    c = McCore(w.data, loadFromFile=fn, loadFromRepetition=0)
    w.settled.clear()
    w.core, w.model, w.opt = c, c._model, c._opt
    return c, w


def on_turn(step, n):
    """the contribution whose turn it is (forks)"""
    return next(i for i in range(n) if bool(step % n == i))


def pset(w, i):
    return {n: w.model.parameterSet.loc[i][n] for n in w.names}


# ------------------------------------------------------------------ processes stand-in
class FakeLock:
    """multiprocessing.Lock: reaches other processes by inheritance only (pool initializer arguments)"""

    def __init__(self, w, reentrant=False):
        self.w, self.held, self.reentrant = w, 0, reentrant
        w.locks.append(self)

    def acquire(self, block=True, timeout=None):
        self.w.events.append(("acquire", self, self.w.task))
        if self.held and not self.reentrant:
            self.w.deadlocks += bool(block and timeout is None)
            if block and timeout is None:
                raise Deadlock()
            return False
        self.held += 1
        return True

    def release(self):
        self.w.events.append(("release", self, self.w.task))
        if not self.held:
            raise ValueError("semaphore or lock released too many times")
        self.held -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise RuntimeError("Lock objects should only be shared between processes through inheritance")


class Deadlock(Exception):
    """a worker waits for a lock that is never released"""


class Worker:
    """a process: its own copy of the module level variables of mcsas3.mc_hat"""

    def __init__(self):
        import mcsas3.mc_hat as m

        self.m = m
        self.vars = dict(vars(m))

    def __enter__(self):
        self.parent = dict(vars(self.m))
        vars(self.m).update(self.vars)

    def __exit__(self, *a):
        d = vars(self.m)
        self.vars = dict(d)
        d.update(self.parent)
        for k in set(d) - set(self.parent):
            del d[k]


class Ready:
    def __init__(self, f):
        self.ok, self.v = True, None
        try:
            self.v = f()
        except Exception as e:
            self.ok, self.v = False, e

    def get(self, timeout=None):
        if not self.ok:
            raise self.v
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.ok


class FakePool:
    """multiprocessing.Pool: every chunk of tasks is pickled on its own (works on copies), chunks finish in any
    order, results are returned in task order; output streams and module variables are those of the worker"""

    def __init__(self, w, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        n = w.cpus if processes is None else processes
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.w, self.n, self.open, self.given = w, n, True, 0
        w.pools.append(self)
        self.workers = [Worker() for _ in range(int(n))]
        if initializer is not None:
            for p in self.workers:
                with p:
                    initializer(*initargs)

    def _run(self, func, tasks, chunk):
        import copy
        import sys

        if not self.open:
            raise ValueError("Pool not running")
        tasks = list(tasks)
        if not chunk:
            chunk, extra = divmod(len(tasks), int(self.n) * 4)
            chunk += bool(extra)
        chunk = max(1, int(chunk))
        groups = [list(range(i, min(i + chunk, len(tasks)))) for i in range(0, len(tasks), chunk)]
        if self.w.reverse:
            groups.reverse()
        out = [None] * len(tasks)
        base, self.given = self.given, self.given + len(tasks)
        err = {}
        for j, g in enumerate(groups):
            f, ts = copy.deepcopy((func, [tasks[i] for i in g]))
            std = sys.stdout, sys.stderr
            try:
                for i, t in zip(g, ts):
                    self.w.task = base + i
                    try:
                        with self.workers[0 if self.w.lazy else (base + j) % len(self.workers)]:
                            out[i] = f(*t)
                    except Exception as e:
                        err[i] = e
                        break  # the rest of the chunk is lost with it
            finally:
                sys.stdout, sys.stderr = std
                self.w.task = None
        if err:
            raise err[min(err)]
        return out

    def starmap(self, func, iterable, chunksize=None):
        return self._run(func, iterable, chunksize)

    def map(self, func, iterable, chunksize=None):
        return self._run(func, [(i,) for i in iterable], chunksize)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._run(func, [(i,) for i in iterable], chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        r = self._run(func, [(i,) for i in iterable], chunksize)
        return iter(r[::-1] if self.w.reverse else r)

    def apply(self, func, args=(), kwds={}):
        import functools

        return self._run(functools.partial(func, **kwds), [tuple(args)], 1)[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._async(lambda: self.apply(func, args, kwds), callback, error_callback)

    def _async(self, f, callback=None, error_callback=None):
        r = Ready(f)
        cb = callback if r.ok else error_callback
        if cb is not None:
            cb(r.v)
        return r

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(func, iterable, chunksize), callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(func, iterable, chunksize), callback, error_callback)

    def close(self):
        self.open = False

    terminate = close

    def join(self):
        if self.open:
            raise ValueError("Pool is still running")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False


def procs(env, cpus=4, reverse=False, lazy=False):
    """stands in for multiprocessing; -> namespace: pools, locks, events, task (current task number)"""
    w = types.SimpleNamespace(pools=[], locks=[], events=[], task=None, deadlocks=0, cpus=cpus, reverse=reverse, lazy=lazy)
    env.stub("Pool", lambda *a, **k: FakePool(w, *a, **k))
    env.stub("Lock", lambda *a, **k: FakeLock(w))
    env.stub("RLock", lambda *a, **k: FakeLock(w, True))
    env.stub("cpu_count", lambda: w.cpus)
    return w


def another_process(env, k):
    """what differs between processes: their number, hashes of texts, addresses of objects and hence the order of sets"""
    import builtins
    import sys

    sign = -1 if k % 2 else 1

    class Order(set):
        def __iter__(self):
            return iter(sorted(set.__iter__(self), key=repr, reverse=sign < 0))

        def pop(self):
            x = next(iter(self))
            self.remove(x)
            return x

    def op(name):
        def f(self, *a):
            r = getattr(set, name)(self, *a)
            return r if r is NotImplemented else Order(r)

        return f

    for name in "__or__ __and__ __sub__ __xor__ __ror__ __rand__ __rsub__ __rxor__ union intersection difference symmetric_difference copy".split():
        setattr(Order, name, op(name))

    class Frozen(Order):
        __hash__ = lambda self: builtins.hash(builtins.frozenset(self))

    def hash_(x):
        h = builtins.hash(x)
        return sign * h if builtins.isinstance(x, (str, bytes)) else h

    import os

    env.patch(os, "getpid", lambda: 4000 + k)
    for name, m in list(sys.modules.items()):
        if m is not None and name.split(".")[0] == "mcsas3":
            for n, f in (("hash", hash_), ("set", Order), ("frozenset", Frozen), ("id", lambda x: sign * builtins.id(x))):
                env.patch(m, n, f)


def on_open(env, hook):
    """hook(path, mode) is called before a HDF5 file is opened"""
    F = env.h5.File

    class Hooked(F):
        def __init__(self, name, mode="r", *a, **k):
            hook(name, mode)
            super().__init__(name, mode, *a, **k)

    env.patch(env.h5, "File", Hooked)


# ------------------------------------------------------------------ content of result files
def snapshot(env, fn, root="/"):
    """{path below root: value} of all datasets (and attributes), {path: None} of all groups"""
    out = {}

    def val(v):
        if isinstance(v, bytes):
            return v.decode()
        if hasattr(v, "shape") and getattr(v, "shape", ()) != ():
            return [val(x) for x in v]
        return v.item() if hasattr(v, "dtype") and hasattr(v, "item") else v

    def walk(g, path):
        for k in g.keys():
            o = g[k]
            out[path + k] = None
            if hasattr(o, "keys"):
                walk(o, path + k + "/")
            else:
                v = o[()]
                out[path + k] = "empty" if type(v).__name__ == "Empty" else val(v)
            for a in o.attrs.keys():
                out[path + k + "@" + a] = val(o.attrs[a])

    with env.h5.File(fn, "r") as f:
        if root in f:
            walk(f[root], "")
    return out


def unchanged(env, before, after, label, but=lambda k: False):
    """nothing added, removed or altered"""
    b, a = ({k: v for k, v in d.items() if not but(k)} for d in (before, after))
    env.eq(sorted(a), sorted(b), label + ": nothing added or removed")
    env.eq([a[k] for k in sorted(b)], [b[k] for k in sorted(b)], label + ": values")
