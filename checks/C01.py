"""C01  1-D selection: the retained points are exactly the valid rows inside the range and outside the omitted ranges."""
import math

from symx.run import harness

IMPORTS = ["mcsas3.mc_data_1d"]
OUTSIDE = "datasets longer than the stated number of rows, more than two omit ranges, extra NaN-carrying columns"
ASSUMPTIONS = ["range limits are numbers or +/-inf (not NaN)"]
INF = float("inf")
NAN = float("nan")


def inside(env, q, lo, hi):
    return bool(lo <= q) and bool(q < hi)


def reference(rows, dr, omit, env):
    keep = []
    for r in rows:
        if any(isinstance(v, float) and math.isnan(v) for v in r):
            continue
        if not inside(env, r[0], *dr):
            continue
        if any(inside(env, r[0], *o) for o in omit):
            continue
        keep.append(r)
    return keep


def build(env, n, nan_rows, cols=("Q", "I", "ISigma")):
    rows = []
    for i in range(n):
        q = env.real(f"Q{i}")
        v = [q, env.real(f"I{i}"), env.real(f"S{i}")]
        if i in nan_rows:
            v[nan_rows[i]] = NAN
        rows.append(v)
    return rows


def clipped(md):
    d = md.clippedData
    return [[d[c].iloc[k] for c in ("Q", "I", "ISigma")] for k in range(len(d))]


def run(env, rows, dr, omit, index=None, **kw):
    from mcsas3.mc_data_1d import McData1D

    df = env.df({c: [r[k] for r in rows] for k, c in enumerate(("Q", "I", "ISigma"))}, index=index)
    before = {c: list(df[c]) for c in df}
    md = McData1D(df=df, dataRange=list(dr), omitQRanges=omit, nbins=0, **kw)
    env.eq({c: list(df[c]) for c in df}, before, "the input data are left untouched")
    return md


def compare(env, rows, dr, omit, index=None):
    after_clip = reference(rows, dr, [], env)
    if not after_clip:
        e = env.raises(run, env, rows, dr, omit, index)
        env.check(isinstance(e, AssertionError), "an empty selection is refused", repr(e))
        return
    md = run(env, rows, dr, omit, index)
    want = reference(rows, dr, omit or [], env)
    got = clipped(md)
    env.observe("kept", got)
    env.check(len(got) == len(want), "exactly the selected points are kept", f"{len(got)} kept, {len(want)} expected")
    env.eq(got, want, "kept points have their original values and order")
    env.eq(list(md.measData["I"]), [r[1] for r in want], "fit data: intensities of the kept points")
    env.eq(list(md.measData["ISigma"]), [r[2] for r in want], "fit data: uncertainties of the kept points")
    env.eq(list(md.measData["Q"][0]), [r[0] for r in want], "fit data: Q of the kept points")


@harness(
    quick=dict(n=3), thorough=dict(n=5), bounds="n rows, each column symbolic; symbolic data range; no omitted range"
)
def clip_range(env):
    n = env.p["n"]
    rows = build(env, n, {})
    dr = [env.value("lo", [-INF]), env.value("hi", [INF])]
    compare(env, rows, dr, None)


@harness(quick=dict(n=3), thorough=dict(n=4), bounds="n rows, any one or two entries missing (NaN), any order of Q")
def clip_missing(env):
    n = env.p["n"]
    nr = {}
    a = env.count("nanrow", 0, n - 1)
    nr[a] = env.count("nancol", 0, 2)
    b = env.choice("nanrow2", [None] + [i for i in range(n) if i != a])
    if b is not None:
        nr[b] = 2 - nr[a] if nr[a] != 1 else 0
    rows = build(env, n, nr)
    dr = [env.value("lo", [-INF]), env.real("hi")]
    om = [[env.real("a"), env.real("b")]] if env.flag("omit") else []
    compare(env, rows, dr, om)


@harness(quick=dict(n=3), thorough=dict(n=4), bounds="n rows, two symbolic omitted ranges (possibly overlapping, nested, empty)")
def omit_two(env):
    n = env.p["n"]
    rows = build(env, n, {})
    om = [[env.real("a0"), env.real("b0")], [env.real("a1"), env.real("b1")]]
    compare(env, rows, [-INF, INF], om)


@harness(
    quick=dict(n=3), thorough=dict(n=4), bounds="n rows, row labels repeated / descending / offset; one omitted range"
)
def row_labels(env):
    n = env.p["n"]
    rows = build(env, n, {})
    idx = env.choice("index", [[0] * n, list(range(n))[::-1], [7 + (i // 2) for i in range(n)], [0] + list(range(n - 1))])
    dr = [env.real("lo"), INF]
    om = [[env.real("a"), env.real("b")]]
    compare(env, rows, dr, om, index=idx)


@harness(quick=dict(n=2), thorough=dict(n=3), bounds="ranges replaced on an existing object, then prepare() again")
def reprepare(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.p["n"]
    rows = build(env, n, {})
    md = run(env, rows, [-INF, INF], None)
    lo, hi, a, b = (env.real(x) for x in ("lo", "hi", "a", "b"))
    if not reference(rows, [lo, hi], [], env):
        return
    md.dataRange = [lo, hi]
    md.omitQRanges = [[a, b]]
    md.prepare()
    want = reference(rows, [lo, hi], [[a, b]], env)
    env.eq(clipped(md), want, "a changed range is applied to the original data")
    md.dataRange = [-INF, INF]
    md.omitQRanges = None
    md.prepare()
    env.eq(clipped(md), rows, "widening the range again restores the original data")


@harness(quick=dict(n=16), thorough=dict(n=40), bounds="n (16, thorough 40) rows at fixed Q out of order with any intensities and uncertainties; any lower limit, any end of one omitted range, a second omitted range")
def many(env):
    n = env.p["n"]
    rows = [[float(7 * i % n) + 0.5, env.real(f"I{i}"), env.real(f"S{i}")] for i in range(n)]
    dr = [env.value("lo", [-INF]), INF]
    compare(env, rows, dr, [[4.5, env.real("b")], [n - 2.5, n - 1.0]])
