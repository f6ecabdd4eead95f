"""C17  Intensity of one contribution: squared amplitude at the measured Q over its volume; sphere and simulation models."""
import math

from symx.run import harness

from .common import DEFAULTS, FakeFunc, FakeKernel, data1, fixed_guess, rngs, sas, tnc

IMPORTS = ["mcsas3.mc_core", "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.osb"]
OUTSIDE = "more data points and parameters than stated; the values computed by the model library itself (C27); simulated curves given in unsorted order or with NaN"
ASSUMPTIONS = ["model volumes are positive", "sin and cos are uninterpreted functions"]
STUBS = [
    "sasmodels (uninterpreted squared amplitude, intensity and volume)",
    "scipy interp1d (its documented linear interpolation)",
    "scipy minimize, numpy random generator (any value)",
]


def build(env, npts, static, fit, name="sphere", Q=None, **kw):
    """model inside a core, so that it is evaluated at the measured Q"""
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    rngs(env)
    tnc(env)
    fixed_guess(env)
    if Q is None:
        Q = [env.real(f"Q{j}", lo=0, lo_open=True) for j in range(npts)]
    data = data1(env, npts)
    data["Q"] = [env.arr(Q)]
    m = McModel(fitParameterLimits=fit, staticParameters=static, nContrib=1, modelName=name, **kw)
    McCore(data, model=m, opt=McOpt())
    return m, Q


@harness(
    quick=dict(npts=2),
    thorough=dict(npts=3),
    witnesses=8,
    bounds="library model with any amplitude and volume as function of three parameters, each picked, static, both or left at its default; npts data points, two evaluations",
)
def library(env):
    names = ("radius", "length", "sld")
    s = sas(env, names)
    n = env.p["npts"]
    where = {p: env.choice(p + " is", ["picked", "static", "both", "default"] if p != "radius" else ["picked", "both"]) for p in names}
    static = {"background": 0.0}
    val = dict(DEFAULTS)
    for p in names:
        if where[p] in ("static", "both"):
            static[p] = env.real(p + ".static")
        if where[p] == "static":
            val[p] = static[p]
    fit = {p: [1.0, 10.0] for p in names if where[p] in ("picked", "both")}
    want = dict(static)
    m, Q = build(env, n, static, fit)
    env.eq(list(m.kernel.q[0]), Q, "evaluated at the measured Q")
    for k in range(2):
        pars = {p: env.real(f"{p}.pick{k}") for p in fit}
        I, V = m.calcModelIV(dict(pars))
        full = dict(val, **pars)
        env.eq(list(I), [s.fsq(full, j) / s.vol(full) for j in range(n)], "intensity = squared amplitude / volume, picked parameters override static ones")
        env.eq(V, s.vol(full), "the volume is the model's")
    env.eq(static, want, "the static parameters are left as given")


@harness(
    quick=dict(npts=2),
    thorough=dict(npts=3),
    bounds="structure-factor (product) and mixture models with any volume-normalised intensity and volume, npts data points, two evaluations; a model without volume is refused",
)
def structure_factor(env):
    import sasmodels.mixture
    import sasmodels.product

    n = env.p["npts"]
    kind = env.choice("kind", ["product", "mixture"])
    base = sasmodels.product.ProductKernel if kind == "product" else sasmodels.mixture.MixtureKernel
    hasvol = env.flag("has volume")

    class K(base):
        def __init__(self, func, q):
            self.func, self.q, self.last = func, q, None

        def release(self):
            pass

        def results(self):
            if self.last is None:
                return {}
            return {"volume": env.ufun("vol", *self.last, lo=0, lo_open=True)} if hasvol else {"other": 1.0}

    class F(FakeFunc):
        def make_kernel(self, q):
            return K(self, q)

    def call_kernel(kernel, pars, cutoff=0.0, mono=False):
        full = dict(DEFAULTS, **pars)
        kernel.last = [full["radius"], full["sld"]]
        return env.arr([env.ufun(f"int{j}", *kernel.last, lo=0, lo_open=True) for j in range(len(kernel.q[0]))])

    env.stub("load_model", lambda name, dtype=None, platform="ocl": F(name, DEFAULTS))
    env.stub("call_kernel", call_kernel)
    sld = env.real("sld")
    if not hasvol:
        e = env.raises(build, env, n, {"sld": sld}, {"radius": [1.0, 10.0]}, "sphere@hardsphere")
        env.check(e is not None, "a model without a volume is refused")
        return
    m, Q = build(env, n, {"sld": sld}, {"radius": [1.0, 10.0]}, "sphere@hardsphere")
    env.eq(list(m.kernel.q[0]), Q, "evaluated at the measured Q")
    for k in range(2):
        r = env.real(f"r{k}")
        I, V = m.calcModelIV({"radius": r})
        env.eq(list(I), [env.ufun(f"int{j}", r, sld, lo=0, lo_open=True) for j in range(n)], "intensity = the volume-normalised intensity of the model")
        env.eq(V, env.ufun("vol", r, sld, lo=0, lo_open=True), "the volume is the model's")


@harness(
    quick=dict(npts=2),
    thorough=dict(npts=3),
    witnesses=8,
    bounds="built-in sphere, any radius > 0, any scattering length densities given as static or picked parameters or left at their defaults (1 and 0), npts data points",
)
def sphere(env):
    n = env.p["npts"]
    where = {p: env.choice(p + " is", ["static", "picked", "both", "default"]) for p in ("sld", "sld_solvent")}
    static, fit = {}, {"radius": [1.0, 10.0]}
    val = dict(sld=1, sld_solvent=0)
    for p, w in where.items():
        if w in ("static", "both"):
            static[p] = val[p] = env.real(p + ".static")
        if w in ("picked", "both"):
            fit[p] = [1.0, 2.0]
    m, Q = build(env, n, static, fit, "mcsas_sphere")
    for k in range(1):
        pars = {p: env.real(f"{p}.pick{k}", lo=0, lo_open=True) for p in fit}
        full = dict(val, **pars)
        I, V = m.calcModelIV(pars)
        r = full["radius"]
        vol = (math.pi * 4.0 / 3.0) * r * r * r
        env.eq(V, vol, "the volume is 4/3 pi r^3")
        con = (full["sld"] - full["sld_solvent"]) / 100.0
        want = []
        for q in Q:
            x = q * r
            f = 3.0 * (env.np.sin(x) - x * env.np.cos(x)) / (x * x * x)
            want.append(vol * con**2 * f * f)
        env.eq(list(I), want, "intensity = V x squared contrast x squared form factor of the sphere")
        env.observe("V", V)


@harness(
    quick=dict(npts=1, m=3),
    thorough=dict(npts=2, m=3),
    witnesses=8,
    bounds="built-in simulation model: any curve of m points with increasing Q, any continuation parameters, any positive size factor, npts data points anywhere (below, between, on, beyond the points)",
)
def simulation(env):
    from symx.stubs import interp1d

    if env.symbolic:  # the replay runs the real one
        env.stub("interp1d", interp1d(env))
    n, m_ = env.p["npts"], env.p["m"]
    X = [env.real(f"x{i}", lo=0, lo_open=True) for i in range(m_)]
    for i in range(m_ - 1):
        env.assume(X[i] < X[i + 1])
    Y = [env.real(f"y{i}") for i in range(m_)]
    S = [env.real(f"s{i}") for i in range(m_)]
    y0, sc = env.real("extrap0"), env.real("extrapS")
    with_q1 = env.flag("Q1 given")
    static = dict(extrapY0=y0, extrapScaling=sc, simDataQ0=env.arr(X), simDataI=env.arr(Y), simDataISigma=env.arr(S))
    if with_q1:
        static["simDataQ1"] = None
    from mcsas3.mc_model import McModel

    rngs(env)
    tnc(env)
    Q = [env.real(f"Q{j}", lo=0, lo_open=True) for j in range(n)]
    m = McModel(fitParameterLimits={"factor": [0.5, 2.0]}, staticParameters=static, nContrib=1, modelName="sim")
    m.kernel = m.func.make_kernel([env.arr(Q)])
    f = env.real("factor", lo=0, lo_open=True)
    I, V = m.calcModelIV({"factor": f})
    f3 = f * f * f
    env.eq(V, f3, "the volume scales with the third power of the factor")
    env.eq([X, Y], [list(static["simDataQ0"]), list(static["simDataI"])], "the simulated curve is left as given")
    for j in range(n):
        q = Q[j] * f
        if bool(q < X[0]):
            w = Y[0]
        elif bool(q > X[-1]):
            w = y0 + sc / (q * q * q * q)
        else:
            k = 0
            while k < m_ - 2 and bool(q > X[k + 1]):
                k += 1
            w = Y[k] + (Y[k + 1] - Y[k]) / (X[k + 1] - X[k]) * (q - X[k])
        # intensity scales with the sixth power, divided by the volume
        env.eq(I[j], w * f3, "linear interpolation at Q x factor, first value below, power law beyond; scales with the sixth power over the volume")
    env.observe("I", list(I))


@harness(
    quick=dict(npts=24),
    thorough=dict(npts=100),
    bounds="library model and built-in sphere at 24 (thorough 100) data points of which two have any Q; built-in simulation model with a curve of 24 (100) points, the intensity of two of them and the Q evaluated anything",
)
def many(env):
    n = env.p["npts"]
    Q = [env.real(f"Q{j}", lo=0, lo_open=True) if j in (9, n - 1) else 0.05 * (1 + (7 * j) % n) for j in range(n)]
    kind = env.choice("kind", ["library", "sphere", "simulation"])
    r = env.real("r", lo=0, lo_open=True)
    if kind == "library":
        s = sas(env)
        m, _ = build(env, n, {"background": 0.0}, {"radius": [1.0, 10.0]}, Q=Q)
        env.eq(list(m.kernel.q[0]), Q, "evaluated at the measured Q")
        I, V = m.calcModelIV({"radius": r})
        full = dict(DEFAULTS, radius=r)
        env.eq(list(I), [s.fsq(full, j) / s.vol(full) for j in range(n)], "intensity = squared amplitude / volume, picked parameters override static ones")
        env.eq(V, s.vol(full), "the volume is the model's")
    elif kind == "sphere":
        m, _ = build(env, n, {"sld": 3.0}, {"radius": [1.0, 10.0]}, "mcsas_sphere", Q=Q)
        I, V = m.calcModelIV({"radius": r})
        vol = (math.pi * 4.0 / 3.0) * r * r * r
        env.eq(V, vol, "the volume is 4/3 pi r^3")
        xs = [q * r for q in Q]
        F = [3.0 * (env.np.sin(x) - x * env.np.cos(x)) / (x * x * x) for x in xs]
        env.eq(list(I), [vol * 0.03**2 * f * f for f in F], "intensity = V x squared contrast x squared form factor of the sphere")
    else:
        from mcsas3.mc_model import McModel
        from symx.stubs import interp1d

        if env.symbolic:
            env.stub("interp1d", interp1d(env))
        rngs(env)
        tnc(env)
        X = [0.25 * (i + 1) for i in range(n)]
        Y = [env.real(f"y{i}") if i in (n // 2, n - 1) else 20.0 - 0.125 * i * i for i in range(n)]
        m = McModel(fitParameterLimits={"factor": [0.5, 2.0]}, staticParameters=dict(extrapY0=0.5, extrapScaling=0.25, simDataQ0=env.arr(X), simDataI=env.arr(Y), simDataISigma=env.arr([0.5] * n)), nContrib=1, modelName="sim")
        q = env.real("q", lo=0, lo_open=True)
        m.kernel = m.func.make_kernel([env.arr([q])])
        I, V = m.calcModelIV({"factor": 1.0})
        if bool(q < X[0]):
            w = Y[0]
        elif bool(q > X[-1]):
            w = 0.5 + 0.25 / (q * q * q * q)
        else:
            k = 0
            while k < n - 2 and bool(q > X[k + 1]):
                k += 1
            w = Y[k] + (Y[k + 1] - Y[k]) / (X[k + 1] - X[k]) * (q - X[k])
        env.eq(I[0], w, "linear interpolation at Q x factor, first value below, power law beyond; scales with the sixth power over the volume")
