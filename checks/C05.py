"""C05  2-D selection keeps exactly the valid pixels; maps rebuild from the per-pixel model intensity."""
from checks.common import image2d
from symx.run import harness

IMPORTS = ["mcsas3.mc_data_2d"]
OUTSIDE = "frames larger than stated, or of a single row or column (not read as 2-D); uncertainties that are NaN"
ASSUMPTIONS = ["the frame has at least one valid pixel (an empty selection raises)"]
INF = float("inf")
NAN = float("nan")
ALL = dict(q=[0, INF], q0=[0, INF], q1=[0, INF])


def valid(env, px, i, lim):
    """reference predicate: unmasked, finite intensity, nonzero uncertainty, strictly within the limits"""
    import math

    np = env.np
    a, b = px.qy[i], px.qx[i]
    if bool(px.mask[i]):
        return False
    if isinstance(px.I[i], float) and not math.isfinite(px.I[i]):
        return False
    if bool(px.S[i] == 0):
        return False
    qq = np.sqrt(a * a + b * b)
    for v, (lo, hi) in ((abs(a), lim["q0"]), (abs(b), lim["q1"]), (qq, lim["q"])):
        if not (bool(lo < v) and bool(v < hi)):
            return False
    return True


def within(env, px, i, lim):
    import types

    free = types.SimpleNamespace(qx=px.qx, qy=px.qy, mask=px.mask, I={i: 0.0}, S={i: 1.0})
    return valid(env, free, i, lim)


def compare(env, md, px, lim, shape):
    import math

    import numpy as np

    keep = [i for i in px.ids if valid(env, px, i, lim)]
    m = md.measData
    n = len(keep)
    env.check(len(m["I"]) == n and len(m["ISigma"]) == n, "exactly the valid pixels are fitted", f"{len(m['I'])} fitted, {n} valid")
    env.check(len(m["Q"]) == 2 and len(m["Q"][0]) == n and len(m["Q"][1]) == n, "every fitted pixel has its two Q components")
    env.eq(list(m["I"]), [px.I[i] for i in keep], "each fitted pixel has its own intensity")
    env.eq(list(m["ISigma"]), [px.S[i] for i in keep], "each fitted pixel has its own uncertainty")
    env.eq(list(m["Q"][0]), [px.qy[i] for i in keep], "each fitted pixel has its own Q (first component)")
    env.eq(list(m["Q"][1]), [px.qx[i] for i in keep], "each fitted pixel has its own Q (second component)")
    # the cropped frame: smallest rectangle around the unmasked pixels within the limits
    frame = [i for i in px.ids if within(env, px, i, lim)]
    y0, y1 = min(i[0] for i in frame), max(i[0] for i in frame)
    x0, x1 = min(i[1] for i in frame), max(i[1] for i in frame)
    crop = [(y, x) for y in range(y0, y1 + 1) for x in range(x0, x1 + 1)]
    model = [env.const(100.0 + k) for k in range(n)]
    rmi = md.reconstruct2D(env.arr(model))
    env.check(tuple(rmi.shape) == (y1 - y0 + 1, x1 - x0 + 1), "the rebuilt map has the shape of the cropped frame", str(rmi.shape))
    want = [[model[keep.index((y, x))] if (y, x) in keep else NAN for x in range(x0, x1 + 1)] for y in range(y0, y1 + 1)]
    env.eq([list(r) for r in rmi], want, "every model value returns to its own pixel, excluded pixels are NaN")
    env.eq(
        [list(r) for r in md.clippedData["I2D"]],
        [[px.I[(y, x)] for x in range(x0, x1 + 1)] for y in range(y0, y1 + 1)],
        "the cropped frame shows the measured intensities at the same pixels",
    )
    env.observe("I", list(m["I"]))


def separate(shape, qy=None, qx=None):
    """pixel grid of a detector: Qx by column, Qy by row"""
    ny, nx = shape
    return (
        {(y, x): (qx or [1.0, 2.0, -3.0, 4.0])[x] for y in range(ny) for x in range(nx)},
        {(y, x): (qy or [-1.5, 2.5, 3.5, 4.5])[y] for y in range(ny) for x in range(nx)},
    )


@harness(
    quick=dict(shapes=[(2, 2), (3, 2)]), thorough=dict(shapes=[(2, 3), (3, 2), (4, 2), (2, 2)]),
    bounds="per-pixel symbolic Qx, Qy; one symbolic limit pair at a time (|Q|, |Qx| or |Qy|)",
)
def limits(env):
    shape = env.choice("shape", env.p["shapes"])
    which = env.choice("limit", ["q", "q0", "q1"])
    lim = dict(ALL)
    lo, hi = env.real("lo", 0), env.value("hi", [INF])
    lim[which] = [lo, hi]
    qx, qy = separate(shape)
    ids = list(qx)
    if which == "q":
        # |Q| symbolic per pixel through one axis, the other fixed
        qx = {i: env.real(f"qx{i[0]}{i[1]}") for i in ids}
        for i in ids:
            env.assume(qx[i] != 0)
    elif which == "q0":
        qy = {i: env.real(f"qy{i[0]}{i[1]}") for i in ids}
        for i in ids:
            env.assume(qy[i] != 0)
    else:
        qx = {i: env.real(f"qx{i[0]}{i[1]}") for i in ids}
        for i in ids:
            env.assume(qx[i] != 0)
    ok = {i: None for i in ids}
    import types

    pxr = types.SimpleNamespace(ids=ids, qx=qx, qy=qy, I={i: 0.5 for i in ids}, S={i: 1.0 for i in ids}, mask={i: 0 for i in ids})
    if not any([valid(env, pxr, i, lim) for i in ids]):
        return
    kw = {}
    if which == "q":
        kw["dataRange"] = lim["q"]
    else:
        kw["orthoQ0Range" if which == "q0" else "orthoQ1Range"] = lim[which]
    S = {i: env.const(1.0) for i in ids}
    md, px = image2d(env, shape, qx={i: _c(env, v) for i, v in qx.items()}, qy={i: _c(env, v) for i, v in qy.items()}, S=S, **kw)
    compare(env, md, px, lim, shape)


def _c(env, v):
    return env.const(v) if isinstance(v, float) else v


@harness(
    quick=dict(shape=(2, 2)), thorough=dict(shape=(3, 2)),
    bounds="every combination of masked pixels, zero uncertainties, infinite / NaN intensities in a frame of the given shape",
)
def invalid_pixels(env):
    shape = env.p["shape"]
    qx, qy = separate(shape)
    ids = list(qx)
    kind = {i: env.choice(f"kind{i[0]}{i[1]}", ["ok", "masked", "inf", "nan", "zero"]) for i in ids}
    env.assume(any(k == "ok" for k in kind.values()))
    I = {i: {"inf": INF, "nan": NAN}.get(kind[i]) for i in ids}
    I = {i: v for i, v in I.items() if v is not None}
    S = {i: env.const(0.0) if kind[i] == "zero" else env.const(1.0) for i in ids}
    mask = {i: int(kind[i] == "masked") for i in ids}
    md, px = image2d(env, shape, qx={i: env.const(v) for i, v in qx.items()}, qy={i: env.const(v) for i, v in qy.items()}, I=I, S=S, mask=mask)
    compare(env, md, px, ALL, shape)


@harness(
    quick=dict(shape=(2, 2)), thorough=dict(shape=(2, 3)),
    bounds="mask of symbolic flags: any integer from -128 to 255 in every pixel (or a mask of booleans), one symbolic limit",
)
def mask_flags(env):
    shape = env.p["shape"]
    qx, qy = separate(shape)
    ids = list(qx)
    qx, qy = {i: env.const(v) for i, v in qx.items()}, {i: env.const(v) for i, v in qy.items()}
    logical = env.choice("logical", [False, True])
    if logical:
        mask = {i: env.choice(f"m{i[0]}{i[1]}", [False, True]) for i in ids}
    else:
        mask = {i: env.integer(f"m{i[0]}{i[1]}", -128, 255) for i in ids}
    env.assume(any([bool(mask[i] == 0) for i in ids]))
    md, px = image2d(env, shape, qx=qx, qy=qy, S={i: env.const(1.0) for i in ids}, mask=mask)
    compare(env, md, px, ALL, shape)


@harness(
    quick=dict(shape=(3, 3), sym=2), thorough=dict(shape=(3, 3), sym=4),
    bounds="3x3 detector grid; limits on |Q|, |Qx| and |Qy| together (symbolic), one masked pixel anywhere, two/four pixels with symbolic uncertainty",
)
def combined(env):
    shape = env.p["shape"]
    qx, qy = separate(shape, [-2.0, 1.0, 3.0], [-1.0, 2.0, 4.0])
    ids = list(qx)
    qx, qy = {i: env.const(v) for i, v in qx.items()}, {i: env.const(v) for i, v in qy.items()}
    lim = dict(q=[env.real("qlo", 0), INF], q0=[0, env.real("q0hi", 0)], q1=[env.real("q1lo", 0), INF])
    mask = {i: 0 for i in ids}
    mp = env.choice("masked", [None, (0, 0), (1, 1), (2, 2), (0, 2)])
    if mp is not None:
        mask[mp] = 2
    S = {i: env.const(1.0) for i in ids}
    for i in [(1, 1), (2, 1), (1, 2), (0, 0)][: env.p["sym"]]:
        S[i] = env.real(f"s{i[0]}{i[1]}", 0)
    import types

    pxr = types.SimpleNamespace(ids=ids, qx=qx, qy=qy, I={i: 0.5 for i in ids}, S=S, mask=mask)
    if not any([valid(env, pxr, i, lim) for i in ids]):
        return
    md, px = image2d(
        env, shape, qx=qx, qy=qy,
        S=S, mask=mask, dataRange=lim["q"], orthoQ0Range=lim["q0"], orthoQ1Range=lim["q1"],
    )
    compare(env, md, px, lim, shape)


@harness(quick=dict(shape=(2, 3)), thorough=dict(shape=(3, 3)), bounds="limits changed on an existing object, then prepared again: judged against the original frame")
def reprepare(env):
    shape = env.p["shape"]
    qx, qy = separate(shape)
    ids = list(qx)
    qx, qy = {i: env.const(v) for i, v in qx.items()}, {i: env.const(v) for i, v in qy.items()}
    mask = {i: int(i == (0, 1)) for i in ids}
    md, px = image2d(
        env, shape, qx=qx, qy=qy,
        S={i: env.const(1.0) for i in ids}, mask=mask, dataRange=[2.0, 4.5],
    )
    lim = dict(ALL, q=[env.real("lo", 0), env.real("hi", 0)])
    if not any([valid(env, px, i, lim) for i in ids]):
        return
    md.dataRange = lim["q"]
    md.prepare()
    compare(env, md, px, lim, shape)


@harness(
    quick=dict(shapes=[(6, 3), (3, 6)]), thorough=dict(shapes=[(6, 3), (3, 6), (7, 5), (5, 7), (9, 2)]),
    bounds="frames of 3x6 and 6x3 (thorough up to 5x7 and 9x2) pixels with a single valid pixel, anywhere, in one of the four border rows or columns, all others there excluded by mask, limits, zero uncertainty or infinite intensity; any intensities",
)
def sparse_border(env):
    shape = env.choice("shape", env.p["shapes"])
    ny, nx = shape
    qx, qy = separate(shape, [1.0 + y for y in range(ny)], [1.5 + x for x in range(nx)])
    ids = list(qx)
    side = env.choice("side", ["first column", "last column", "first row", "last row"])
    line = {
        "first column": [(y, 0) for y in range(ny)],
        "last column": [(y, nx - 1) for y in range(ny)],
        "first row": [(0, x) for x in range(nx)],
        "last row": [(ny - 1, x) for x in range(nx)],
    }[side]
    one = env.choice("valid", list(range(len(line))))
    out = [i for k, i in enumerate(line) if k != one]
    why = env.choice("others", ["mask", "limits", "uncertainty", "intensity"])
    mask = {i: int(why == "mask" and i in out) for i in ids}
    if why == "limits":
        for i in out:
            qx[i] = 100.0
    S = {i: env.const(0.0 if why == "uncertainty" and i in out else 1.0) for i in ids}
    I = {i: INF for i in out} if why == "intensity" else {}
    lim = dict(ALL, q=[0, 50.0])
    md, px = image2d(env, shape, qx={i: env.const(v) for i, v in qx.items()}, qy={i: env.const(v) for i, v in qy.items()}, I=I, S=S, mask=mask, dataRange=lim["q"])
    compare(env, md, px, lim, shape)


@harness(
    quick=dict(shapes=[(12, 11), (10, 13)]), thorough=dict(shapes=[(12, 11), (10, 13), (21, 18)]),
    bounds="frames of 12x11 and 10x13 (thorough 21x18) pixels around an off-centre beam, one in seven masked; a limit on |Q|, |Qx| or |Qy| between 2.1 and 3.6; any intensity in four pixels",
)
def larger(env):
    shape = env.choice("shape", env.p["shapes"])
    ny, nx = shape
    which = env.choice("limit", ["q", "q0", "q1"])
    side = env.choice("side", ["lower", "upper"])
    v = env.real("lim", 2.1, 3.6)
    lim = dict(ALL)
    lim[which] = [v, INF] if side == "lower" else [0, v]
    qx, qy = separate(shape, [y - 3.25 for y in range(ny)], [0.5 * x - 1.3 for x in range(nx)])
    ids = list(qx)
    mask = {i: int((3 * i[0] + 5 * i[1]) % 7 == 0) for i in ids}
    free = [(1, 1), (4, 6), (ny - 2, nx - 3), (ny - 1, nx - 1)]
    I = {i: 5.0 + i[0] * 20 + i[1] for i in ids if i not in free}
    S = {i: env.const(1.0 + 0.01 * i[0] + i[1]) for i in ids}
    kw = {{"q": "dataRange", "q0": "orthoQ0Range", "q1": "orthoQ1Range"}[which]: lim[which]}
    md, px = image2d(env, shape, qx={i: env.const(x) for i, x in qx.items()}, qy={i: env.const(y) for i, y in qy.items()}, I=I, S=S, mask=mask, **kw)
    compare(env, md, px, lim, shape)
