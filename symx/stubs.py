"""Environment entry points (third-party code that is compiled, random or touches the system).

install() replaces each by a dispatcher *before* mcsas3 is imported, in both modes; a harness activates a
stand-in with env.stub(name, f), otherwise the real function is called.
"""
import importlib

ACTIVE = {}

POINTS = {
    "minimize": ("scipy.optimize", "minimize"),
    "default_rng": ("numpy.random", "default_rng"),
    "load_model": ("sasmodels.core", "load_model"),
    "call_Fq": ("sasmodels.direct_model", "call_Fq"),
    "call_kernel": ("sasmodels.direct_model", "call_kernel"),
    "interp1d": ("scipy.interpolate", "interp1d"),
    "Pool": ("multiprocessing", "Pool"),
    "Lock": ("multiprocessing", "Lock"),
    "RLock": ("multiprocessing", "RLock"),
    "cpu_count": ("multiprocessing", "cpu_count"),
}

REAL = {}


def _disp(name, real):
    def f(*a, **k):
        g = ACTIVE.get(name)
        return real(*a, **k) if g is None else g(*a, **k)

    f.__name__ = name
    f.__wrapped__ = real
    return f


def install():
    import scipy.interpolate
    import scipy.interpolate._interpolate  # noqa

    for name, (mod, attr) in POINTS.items():
        m = importlib.import_module(mod)
        real = getattr(m, attr)
        REAL[name] = real
        setattr(m, attr, _disp(name, real))
    # multiprocessing.get_context() hands out context objects with their own Pool/Lock
    import multiprocessing
    import multiprocessing.context

    ctxt = multiprocessing.context.BaseContext
    for n in ("Pool", "Lock", "RLock", "cpu_count"):
        r = getattr(ctxt, n)

        def g(self, *a, _n=n, _r=r, **k):
            h = ACTIVE.get(_n)
            return _r(self, *a, **k) if h is None else h(*a, **k)

        setattr(ctxt, n, g)


# ------------------------------------------------------------------ stand-ins shared by harnesses
class Rng:
    """numpy Generator contract: uniform(low, high, size) is any value in [low, high] (a fresh one per draw);
    with streams, generators of equal seed yield equal sequences low + (high - low) * u"""

    def __init__(self, env, tag, seed=None, streams=False):
        self.env = env
        self.tag = tag
        self.seed = seed
        self.streams = streams
        self.k = 0
        self.draws = []
        self.hook = None

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            import numpy as np

            n = int(np.prod(size))
            return self.env.arr([self.uniform(low, high) for _ in range(n)]).reshape(size)
        if low > high:
            raise ValueError("high - low < 0")
        self.k += 1
        name = f"{self.tag}.u{self.k}"
        v = unit(self.env, name, low, high) if self.streams else draw(self.env, name, low, high)
        self.draws.append((low, high, v))
        if self.hook is not None:
            self.hook(self, v)
        return v

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def __deepcopy__(self, memo):
        # as pickling does: same state, independent from then on
        r = Rng(self.env, self.tag, self.seed, self.streams)
        r.k, r.draws, r.hook = self.k, self.draws, self.hook
        return r

    def spawn(self, n):
        self.kids = getattr(self, "kids", 0) + n
        return [Rng(self.env, f"{self.tag}.s{self.kids - n + i}", None, self.streams) for i in range(n)]


UNITS = {}


def unit(env, name, low, high):
    d = UNITS.setdefault(id(env), {})
    if name not in d:
        d[name] = env.real(name, 0, 1, default=0.5)
    return low + (high - low) * d[name]


def draw(env, name, low, high):
    """arbitrary value in [low, high]"""
    if env.symbolic:
        v = env.real(name)
        env.assume(env.And(v >= low, v <= high))
        return v
    if name in env.inputs:
        return min(max(float(env.inputs[name]), float(low)), float(high))
    return env.real(name, low, high)


def _seedtag(seed):
    import numpy as np

    if isinstance(seed, np.random.SeedSequence):
        return f"{_seedtag(seed.entropy)}k{'_'.join(map(str, seed.spawn_key))}"
    if isinstance(seed, (list, tuple, np.ndarray)):
        return "_".join(str(int(i)) for i in seed)
    return str(int(seed))


def rng_factory(env, log, streams=False):
    """stands in for numpy.random.default_rng; log receives (seed, Rng)"""

    def f(seed=None):
        if isinstance(seed, Rng):
            return seed
        if streams and seed is not None:
            tag = f"seed{_seedtag(seed)}"
        else:
            tag = f"rng{len(log)}"
        r = Rng(env, tag, seed, streams)
        log.append((seed, r))
        return r

    UNITS.clear()
    return f


class Result(dict):
    __getattr__ = dict.__getitem__


def interp1d(env):
    """documented contract of scipy.interpolate.interp1d(kind='linear')"""
    from . import values as V
    import numpy as np

    class I1:
        def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
            assert kind == "linear"
            xs, ys = list(x), list(y)
            if len(xs) != len(ys):
                raise ValueError("x and y arrays must be equal in length along interpolation axis.")
            if not assume_sorted:
                # stable insertion sort by x (forks)
                z = []
                for a, b in zip(xs, ys):
                    i = len(z)
                    while i > 0 and bool(a < z[i - 1][0]):
                        i -= 1
                    z.insert(i, (a, b))
                xs, ys = [a for a, _ in z], [b for _, b in z]
            self.x, self.y = xs, ys
            self.be = bounds_error
            self.fv = fill_value

        def one(self, v):
            xs, ys = self.x, self.y
            ext = isinstance(self.fv, str) and self.fv == "extrapolate"
            below = bool(v < xs[0])
            above = bool(v > xs[-1])
            if (below or above) and not ext:
                if self.be or (self.be is None and isinstance(self.fv, float) and self.fv != self.fv):
                    raise ValueError("A value in x_new is outside the interpolation range.")
                if isinstance(self.fv, tuple):
                    return self.fv[0] if below else self.fv[1]
                return self.fv
            k = 0
            while k < len(xs) - 2 and bool(v > xs[k + 1]):
                k += 1
            s = (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k])
            return s * (v - xs[k]) + ys[k]

        def __call__(self, v):
            if isinstance(v, np.ndarray):
                out = np.empty(v.shape, dtype=object)
                for i, e in np.ndenumerate(v):
                    out[i] = self.one(e)
                return out
            if isinstance(v, (list, tuple)):
                return self(np.array(v, dtype=object))
            return np.array(self.one(v), dtype=object)

    return I1
