"""C03  Uncertainties of rebinned points are the largest of the documented estimates."""
from symx.run import harness

IMPORTS = ["mcsas3.mc_data_1d"]
OUTSIDE = "bins of more points than stated"
ASSUMPTIONS = ["Q positive"]


def smax(env, xs):
    r = xs[0]
    for x in xs[1:]:
        r = env.ite(x >= r, x, r)
    return r


def mean(xs):
    return sum(xs) / len(xs)


def sem(env, xs):
    m = mean(xs)
    return env.np.sqrt(sum((x - m) * (x - m) for x in xs) / (len(xs) - 1) / len(xs))


def prop(env, xs):
    return env.np.sqrt(sum(x * x for x in xs)) / len(xs)


def bins(env, groups, qsig):
    """groups: list of lists of Q; I/S symbolic. -> columns"""
    qs = [q for g in groups for q in g]
    n = len(qs)
    I = env.reals("I", n)
    S = env.reals("S", n, lo=0)
    cols = dict(Q=qs, I=I, ISigma=S)
    if qsig:
        cols["QSigma"] = env.reals("QS", n, lo=0)
    return cols


def expect(env, cols, idx, iemin):
    Q = [cols["Q"][i] for i in idx]
    I = [cols["I"][i] for i in idx]
    S = [cols["ISigma"][i] for i in idx]
    n = len(idx)
    if n == 1:
        isig = [S[0], I[0] * iemin]
        qs = [Q[0] * 0.01]
        if "QSigma" in cols:
            qs.append(cols["QSigma"][idx[0]])
    else:
        isig = [sem(env, I), prop(env, S), mean(I) * iemin]
        qs = [sem(env, Q), mean(Q) * 0.01]
        if "QSigma" in cols:
            qs.append(prop(env, [cols["QSigma"][i] for i in idx]))
    return isig, qs


def compare(env, md, cols, groups, iemin):
    got = md.binnedData
    occ = [g for g in groups if g]
    env.check(len(got) == len(occ), "one row per occupied bin", f"{len(got)}")
    for r, g in enumerate(occ):
        isig, qsig = expect(env, cols, g, iemin)
        gi, gq = got["ISigma"].iloc[r], got["QSigma"].iloc[r]
        env.eq(gi, smax(env, isig), "intensity uncertainty is the largest estimate")
        env.eq(gq, smax(env, qsig), "Q uncertainty is the largest estimate")
        env.eq(md.measData["ISigma"][r], gi, "fit data carry the rebinned uncertainty")


@harness(
    quick=dict(nmax=3), thorough=dict(nmax=4),
    bounds="one bin of 1..n points (all Q, I, sigma symbolic), with/without a Q-uncertainty column, any minimum relative uncertainty",
)
def one_bin(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.count("n", 1, env.p["nmax"])
    qs = [env.real(f"Q{i}", 0, None, lo_open=True) for i in range(n)]
    qsig = env.flag("qsig")
    iemin = env.real("IEmin", 0, 10)
    cols = bins(env, [qs], qsig)
    md = McData1D(df=env.df(cols), nbins=1, IEmin=iemin)
    compare(env, md, cols, [list(range(n))], iemin)


@harness(
    quick=dict(), thorough=dict(),
    bounds="two bins (decades) of 1+2, 2+1, 2+2 points; default minimum uncertainty 1% or a given one",
)
def two_bins(env):
    from mcsas3.mc_data_1d import McData1D

    a, b = env.choice("sizes", [(1, 1), (1, 2), (2, 1), (2, 2)])
    q1 = [env.const(1.0)] + [env.real(f"q{i}", 1, 10, hi_open=True) for i in range(1, a)]
    q2 = [env.const(100.0)] + [env.real(f"p{i}", 10, 100) for i in range(1, b)]
    cols = bins(env, [q1, q2], env.flag("qsig"))
    kw = {}
    iemin = 0.01
    if env.flag("own"):
        kw["IEmin"] = iemin = env.real("IEmin", 0, 10)
    md = McData1D(df=env.df(cols), nbins=2, **kw)
    compare(env, md, cols, [list(range(a)), list(range(a, a + b))], iemin)


@harness(quick=dict(), thorough=dict(), bounds="minimum uncertainty changed on an existing object or given in the rebinning call")
def changed_minimum(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.count("n", 1, 2)
    qs = [env.real(f"Q{i}", 1, 10) for i in range(n)]
    cols = bins(env, [qs], False)
    e0, e1 = env.real("e0", 0, 1), env.real("e1", 0, 1)
    md = McData1D(df=env.df(cols), nbins=1, IEmin=e0)
    how = env.choice("how", ["attr", "call"])
    if how == "attr":
        md.IEmin = e1
        md.prepare()
    else:
        md.reBin(IEmin=e1)
        md.linkMeasData()
    compare(env, md, cols, [list(range(n))], e1)


@harness(quick=dict(n=[7, 12]), thorough=dict(n=[7, 12, 40]), bounds="one bin of 7 or 12 (thorough 40) points, two of them with any intensity and uncertainty, the others given; any minimum relative uncertainty")
def many(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.choice("n", env.p["n"])
    a, b = 2, n - 2
    cols = dict(
        Q=[env.const(1.0 + i / n) for i in range(n)],
        I=[env.real(f"I{i}", 0, 1000) if i in (a, b) else env.const(1.0 + 0.25 * (i % 5)) for i in range(n)],
        ISigma=[env.real(f"S{i}", 0, 100) if i in (a, b) else env.const(0.125 * (1 + i % 3)) for i in range(n)],
    )
    iemin = env.real("IEmin", 0, 10)
    md = McData1D(df=env.df(cols), nbins=1, IEmin=iemin)
    compare(env, md, cols, [list(range(n))], iemin)
