"""C02  Rebinning: every selected point in exactly one logarithmic bin, rows are bin means."""
from symx.run import harness

IMPORTS = ["mcsas3.mc_data_1d"]
OUTSIDE = "more points or bins than stated; datasets reaching Q <= 0; Q ranges narrower than 1e-6 relative"
ASSUMPTIONS = [
    "selected Q values are positive (logarithmic bins)",
    "'general' and 'rounding': 10**x and log10 are abstracted to mutually inverse increasing functions",
]
INF = float("inf")


def make(env, qs, extra=None, **kw):
    from mcsas3.mc_data_1d import McData1D

    n = len(qs)
    I = env.reals("I", n)
    S = env.reals("S", n, lo=0)
    cols = dict(Q=qs, I=I, ISigma=S)
    md = McData1D(df=env.df(cols), **kw)
    return md, I, S


def group(env, qs, edges):
    """reference bin of every point: half-open bins, the last one closed"""
    k = len(edges) - 1
    bins = [[] for _ in range(k)]
    for i, q in enumerate(qs):
        j = 0
        while j < k - 1 and bool(q >= edges[j + 1]):
            j += 1
        bins[j].append(i)
    return bins


def compare(env, md, qs, I, bins):
    occ = [b for b in bins if b]
    got = md.binnedData
    env.check(len(got) == len(occ), "one row per occupied bin", f"{len(got)} rows, {len(occ)} bins occupied")
    for r, b in enumerate(occ):
        env.eq(got["Q"].iloc[r], sum(qs[i] for i in b) / len(b), "row Q is the mean of its points")
        env.eq(got["I"].iloc[r], sum(I[i] for i in b) / len(b), "row intensity is the mean of its points")
        if r:
            env.check(got["Q"].iloc[r - 1] < got["Q"].iloc[r], "rows in increasing Q")
    env.eq(list(md.measData["I"]), [sum(I[i] for i in b) / len(b) for b in occ], "fit data are the binned intensities")
    env.eq(list(md.measData["Q"][0]), [sum(qs[i] for i in b) / len(b) for b in occ], "fit data are the binned Q")
    env.observe("binned", [list(got["Q"]), list(got["I"])])


@harness(
    quick=dict(n=4, k=(1, 2, 3)), thorough=dict(n=5, k=(1, 2, 3, 4)),
    bounds="n points in any order between Q=1 and Q=10^k (k bins, edges are exact powers of ten), ties and edge points allowed",
)
def decades(env):
    n = env.p["n"]
    k = env.choice("k", env.p["k"])
    top = 10.0**k
    pos = env.choice("minmaxpos", [(0, n - 1), (n - 1, 0), (1, 2)])
    qs = []
    for i in range(n):
        if i == pos[0]:
            qs.append(env.const(1.0))
        elif i == pos[1]:
            qs.append(env.const(top))
        else:
            qs.append(env.real(f"Q{i}", 1.0, top))
    md, I, S = make(env, qs, nbins=k)
    compare(env, md, qs, I, group(env, qs, [10.0**j for j in range(k + 1)]))


@harness(
    quick=dict(n=4), thorough=dict(n=5), bounds="n points, 2 bins over one decade (irrational inner edge), data range and omit range applied before"
)
def after_selection(env):
    n = env.p["n"]
    qs = [env.const(1.0), env.const(100.0)] + [env.real(f"Q{i}", 0.001, 1000) for i in range(2, n)]
    for q in qs[2:]:
        env.assume(env.Or(q <= 100.0, q >= 101.0))
    a, b = env.real("a", 1.5, 90), env.real("b", 1.5, 90)
    md, I, S = make(env, qs, nbins=2, dataRange=[1.0, 101.0], omitQRanges=[[a, b]])
    keep = [i for i in range(n) if bool(qs[i] >= 1.0) and bool(qs[i] < 101.0) and not (bool(a <= qs[i]) and bool(qs[i] < b))]
    sel = [qs[i] for i in keep]
    compare(env, md, sel, [I[i] for i in keep], group(env, sel, [1.0, 10.0, 100.0]))


@harness(quick=dict(n=3, k=(1, 2)), thorough=dict(n=3, k=(1, 2, 3, 4)), bounds="n points with arbitrary positive Q, k bins, general edges", witnesses=4)
def general(env):
    n = env.p["n"]
    k = env.choice("k", env.p["k"])
    qs = [env.real(f"Q{i}", 0, None, lo_open=True) for i in range(n)]
    md, I, S = make(env, qs, nbins=k)
    np = env.np
    qlo = qs[0]
    qhi = qs[0]
    for q in qs[1:]:
        qlo = env.ite(q < qlo, q, qlo)
        qhi = env.ite(q > qhi, q, qhi)
    l0, l1 = np.log10(qlo), np.log10(qhi)
    edges = [qlo] + [10.0 ** (l0 + (l1 - l0) * (j / k)) for j in range(1, k)] + [qhi]
    compare(env, md, qs, I, group(env, qs, edges))


@harness(quick=dict(), thorough=dict(), bounds="1..3 points all at the same positive Q, 1..3 bins")
def single_q(env):
    n = env.count("n", 1, 3)
    k = env.count("k", 1, 3)
    q = env.real("Q", 0.001, 1000)
    md, I, S = make(env, [q] * n, nbins=k)
    got = md.binnedData
    env.check(len(got) == 1, "points at one Q end up in one row", len(got))
    env.eq(got["Q"].iloc[0], q, "row Q is the mean of its points")
    env.eq(got["I"].iloc[0], sum(I) / n, "row intensity is the mean of its points")


@harness(quick=dict(n=3), thorough=dict(n=4), bounds="2 bins; log10/10**x each off by up to 2^-50 relative (float rounding)")
def rounding(env):
    """no point may be lost or doubled by rounding of the bin edges"""
    from mcsas3.mc_data_1d import McData1D

    n = env.p["n"]
    qs = [env.real(f"Q{i}", 0.001, 1000) for i in range(n)]
    env.assume(qs[0] * (1 + 1e-6) <= qs[1])
    for q in qs[2:]:
        env.assume(env.And(q >= qs[0], q <= qs[1]))
    if env.symbolic:
        env.path.rounding = 2.0**-50
        scales = [1.0]
    else:
        # a rounding error is only realised by some of the values of the solver's class: rescale Q
        scales = [1.0] + [1.0 + 0.37 * j / 400 for j in range(1, 400)]
    for s in scales:
        q2 = [q * s for q in qs]
        # the intensities are powers of two: the total tells which points were counted how often
        I = [float(4**i) for i in range(n)]
        md = McData1D(df=env.df(dict(Q=q2, I=[env.const(x) for x in I], ISigma=[env.const(1.0)] * n)), nbins=2)
        d = md.binnedData
        rows = [(d["I"].iloc[r], d["Q"].iloc[r]) for r in range(len(d))]
        # reconstruct the memberships: every subset mean of {1,4,16,..} is unique
        import itertools

        members = {}
        for m in range(1, n + 1):
            for c in itertools.combinations(range(n), m):
                members[round(sum(I[i] for i in c) / m, 9)] = c
        cnt = [0] * n
        for iv, qv in rows:
            v = float(iv)
            c = members.get(round(v, 9))
            env.check(c is not None, "a row is the mean of a set of points", v)
            for i in c:
                cnt[i] += 1
        env.check(all(x == 1 for x in cnt), "every point is counted exactly once despite rounding of the bin edges", cnt)


@harness(quick=dict(n=3), thorough=dict(n=4), bounds="rebinning off (0 bins): n points pass through, any order")
def off(env):
    n = env.p["n"]
    qs = env.reals("Q", n)
    md, I, S = make(env, qs, nbins=0)
    env.eq(list(md.binnedData["Q"]), qs, "unbinned Q pass through")
    env.eq(list(md.binnedData["I"]), I, "unbinned intensities pass through")
    env.eq(list(md.binnedData["ISigma"]), S, "unbinned uncertainties pass through")


@harness(quick=dict(), thorough=dict(), bounds="explicit number of bins given to the rebinning call overrides the setting")
def explicit(env):
    qs = [env.const(1.0), env.const(100.0), env.real("q", 1, 100)]
    md, I, S = make(env, qs, nbins=env.choice("nb", [0, 1, 5]))
    md.reBin(nbins=2)
    md.linkMeasData()
    compare(env, md, qs, I, group(env, qs, [1.0, 10.0, 100.0]))


@harness(
    quick=dict(ends=[(1, 3), (1, 5), (2, 4), (1, 12)]), thorough=dict(ends=[(1, 3), (1, 5), (2, 4), (1, 12), (2, 7), (3, 5), (1, 40)]),
    bounds="fewer points than bins: 2 to 4 (thorough 5) points over 3 to 12 (40) decades with a bin per decade; 1 or 2 (3) of them anywhere in between",
)
def few(env):
    free, k = env.choice("points, bins", env.p["ends"])
    qs = [env.const(1.0)] + [env.real(f"Q{i}", 1.0, 10.0**k) for i in range(free)] + [env.const(10.0**k)]
    md, I, S = make(env, qs, nbins=k)
    compare(env, md, qs, I, group(env, qs, [10.0**j for j in range(k + 1)]))


@harness(
    quick=dict(n=24, k=[6, 24, 100]), thorough=dict(n=60, k=[3, 6, 24, 100, 300]),
    bounds="n (24, thorough 60) points at fixed Q over 6 decades, in order or not, any intensities; 6 to 100 (thorough 300) bins; one point anywhere in between",
)
def many(env):
    n, k = env.p["n"], env.choice("bins", env.p["k"])
    qs = [10 ** (6 * i / (n - 1)) * (1 + 0.002 * (i % 7)) if 0 < i < n - 1 else 10.0 ** (6 * i / (n - 1)) for i in range(n)]
    if env.flag("out of order"):
        qs = [qs[7 * i % n] for i in range(n)] if n % 7 else qs[::-1]
    if k == 6:
        qs = [env.const(q) for q in qs] + [env.real("Q", 1, 10**6)]
        edges = [10.0**j for j in range(k + 1)]
    else:
        edges = [10 ** (6 * j / k) for j in range(k + 1)]
    md, I, S = make(env, qs, nbins=k)
    compare(env, md, qs, I, group(env, qs, edges))
