"""C06  NeXus input: data come from the paths given, or from the group reached by the chain of defaults."""
import numpy as np

from symx.run import harness

IMPORTS = ["mcsas3.mc_data_1d", "mcsas3.mc_data_2d"]
OUTSIDE = "files with both q and Q axes; longer chains; single-point datasets; frames of a single row or column"
ASSUMPTIONS = ["h5py as modelled by symx/h5fake.py (validated by replaying witnesses on the real h5py)"]
STUBS = ["h5py (in-memory model of its documented behaviour)"]


def read1d(env, fn, **kw):
    from mcsas3.mc_data_1d import McData1D

    return McData1D(filename=fn, nbins=0, **kw)


def same(env, md, Q, I, S, what):
    d = md.rawData
    env.eq(list(d["Q"]), Q, f"Q {what}")
    env.eq(list(d["I"]), I, f"intensity {what}")
    env.eq(list(d["ISigma"]), S, f"uncertainty {what}")
    env.eq(list(md.measData["Q"][0]), Q, "the read Q reach the fit unchanged")
    env.eq(list(md.measData["I"]), I, "the read intensities reach the fit unchanged")
    env.eq(list(md.measData["ISigma"]), S, "the read uncertainties reach the fit unchanged")
    env.observe("raw", [list(d["Q"]), list(d["I"]), list(d["ISigma"])])


def put(env, g, name, xs, lead=0):
    g[name] = env.arr(xs).reshape((1,) * lead + (len(xs),))


@harness(quick=dict(n=2), thorough=dict(n=3), bounds="paths given by the user (nested groups, decoy data elsewhere, chain of defaults pointing elsewhere), n points, leading axes of length 1")
def given_paths(env):
    n = env.p["n"]
    Q, I, S = env.reals("Q", n), env.reals("I", n), env.reals("S", n)
    Q2, I2, S2 = env.reals("Qd", n), env.reals("Id", n), env.reals("Sd", n)
    fn = env.tmp / ("data" + env.choice("suffix", [".h5", ".hdf5", ".nxs", ".nx"]))
    lead = env.count("lead", 0, 2)
    p = env.choice("paths", [("/x/q", "/x/i", "/x/e"), ("entry/a/Q", "/entry/b/I", "entry/b/ISigma"), ("/Q", "/I", "/ISigma")])
    with env.h5.File(fn, "w") as f:
        for path, v in zip(p, (Q, I, S)):
            put(env, f, path, v, lead)
        g = f.require_group("default")
        f.attrs["default"] = "default"
        g.attrs["signal"] = "I"
        g.attrs["axes"] = ["Q"]
        put(env, g, "I", I2)
        put(env, g, "Q", Q2)
        put(env, g, "ISigma", S2)
        g["I"].attrs["uncertainties"] = "ISigma"
    md = read1d(env, fn, pathDict=dict(Q=p[0], I=p[1], ISigma=p[2]))
    same(env, md, Q, I, S, "from the path the user gave")


@harness(
    quick=dict(n=2, depth=3), thorough=dict(n=3, depth=4),
    bounds="chain of 0..depth default attributes with decoys at every level; uncertainty referenced by the group, by the signal or not at all; axis called q or Q",
)
def default_chain(env):
    n = env.p["n"]
    Q, I, S = env.reals("Q", n), env.reals("I", n), env.reals("S", n)
    depth = env.count("depth", 0, env.p["depth"])
    asbytes = env.choice("bytes", [False, True])
    enc = (lambda s: s.encode()) if asbytes else (lambda s: s)
    sig = env.choice("signal", ["I", "intensity"])
    q = env.choice("q", ["Q", "q"])
    unc = env.choice("uncertainty", ["group", "signal", "none"])
    axes = env.choice("axes", ["axes", "I_axes"])
    listed = env.choice("listed", [[q], ["Temperature", "Time", q]])
    lead = env.choice("lead", [0, 2])
    fn = env.tmp / "data.nxs"
    k = 0
    with env.h5.File(fn, "w") as f:
        g = f
        for lev in range(depth + 1):
            last = lev == depth
            # every level carries plausible data; only the end of the chain is to be used
            for nm, v in (("I", I), ("intensity", I), ("Q", Q), ("q", Q), ("sigI", S), ("other", S), ("ISigma", S)):
                use = last and nm in (sig, q, "sigI")
                k += 1
                put(env, g, nm, v if use else [env.const(1000.0 * k + i) for i in range(n)], lead if use else 0)
            g.attrs["signal"] = enc(sig) if last else enc("I")
            if last:
                if unc == "group":
                    g.attrs[f"{sig}_uncertainty"] = enc("sigI")
                elif unc == "signal":
                    g[sig].attrs["uncertainties"] = enc("sigI")
                g.attrs[axes] = np.array([enc(a) for a in listed]) if asbytes else listed
            else:
                g[("I")].attrs["uncertainties"] = enc("other")
                g.attrs["axes"] = ["Q"]
                for d in ("dataset", "decoy"):
                    g.require_group(d)
                put(env, g, "decoy/I", [env.const(-5.0)] * n)
                g.attrs["default"] = enc("dataset")
                g = g["dataset"]
    md = read1d(env, fn)
    want = S if unc != "none" else [i * 0.001 for i in I]
    same(env, md, Q, I, want, "from the group the chain of defaults ends at")


@harness(quick=dict(), thorough=dict(), bounds="chain ending at a group without signal, without axes, without q; paths given without uncertainty; path given that does not exist")
def refused(env):
    fn = env.tmp / "data.nxs"
    case = env.choice("case", ["nosignal", "noaxes", "noq", "nosigma", "missing"])
    x = env.real("x")
    with env.h5.File(fn, "w") as f:
        g = f.require_group("e")
        f.attrs["default"] = "e"
        put(env, g, "I", [x, x])
        put(env, g, "Q", [x, x])
        if case != "nosignal":
            g.attrs["signal"] = "I"
        if case != "noaxes":
            g.attrs["axes"] = ["T"] if case == "noq" else ["Q"]
    kw = {}
    if case == "nosigma":
        kw["pathDict"] = dict(Q="/e/Q", I="/e/I")
    if case == "missing":
        kw["pathDict"] = dict(Q="/e/Q", I="/e/I", ISigma="/e/S")
    e = env.raises(read1d, env, fn, **kw)
    env.check(e is not None, "a file that does not identify the data is refused", case)


@harness(
    quick=dict(shape=(2, 2)), thorough=dict(shape=(3, 2)),
    bounds="2-D frames: two or three Q components with the vanishing one first, in the middle or last; paths given or chain of defaults; with and without mask; one component may vanish in a pixel (beam centre)",
)
def frame(env):
    from mcsas3.mc_data_2d import McData2D

    ny, nx = env.p["shape"]
    ids = [(y, x) for y in range(ny) for x in range(nx)]
    n = len(ids)
    qy, qx = env.reals("Qy", n), env.reals("Qx", n)
    zeros = env.choice("zeros", [None, "y", "x"])  # the beam centre may be in the frame
    for c, v in (("y", qy), ("x", qx)):
        env.assume(v[0] > 0)
        env.assume(v[-1] > 0)
        for e in (v if zeros != c else v[2:-1]):
            env.assume(e != 0)
    I, S = env.reals("I", n), env.reals("S", n, lo=0, lo_open=True)
    zero = env.choice("zero", [None, 2, 1, 0])
    comps = [qy, qx]
    if zero is not None:
        comps.insert(zero, [env.const(0.0)] * n)
    viapath = env.choice("viapath", [True, False])
    mask = env.choice("mask", [None, 0, n - 1])
    fn = env.tmp / "frame.h5"
    with env.h5.File(fn, "w") as f:
        g = f.require_group("a/b")
        f.attrs["default"] = "a"
        f["a"].attrs["default"] = "b"
        g["Q"] = env.arr([e for c in comps for e in c]).reshape((len(comps), ny, nx))
        g["I"] = env.arr(I).reshape((1, ny, nx))
        g["sig"] = env.arr(S).reshape((ny, nx))
        g.attrs["signal"] = "I"
        g["I"].attrs["uncertainties"] = "sig"
        g.attrs["axes"] = ["Q"]
        if mask is not None:
            g["msk"] = np.array([int(i == mask) for i in range(n)]).reshape((ny, nx))
            g.attrs["mask"] = "msk"
    kw = {}
    if viapath:
        kw["pathDict"] = dict(Q="/a/b/Q", I="/a/b/I", ISigma="/a/b/sig")
        if mask is not None:
            kw["pathDict"]["mask"] = "/a/b/msk"
    md = McData2D(filename=fn, **kw)
    # pixels at zero of a component are outside the default limits
    keep = [i for i in range(n) if i != mask and bool(qy[i] != 0) and bool(qx[i] != 0)]
    raw = md.rawData2D
    env.eq([list(r) for r in raw["I"]], [I[y * nx : y * nx + nx] for y in range(ny)], "intensity frame as in the file")
    env.eq([list(r) for r in raw["ISigma"]], [S[y * nx : y * nx + nx] for y in range(ny)], "uncertainty frame as in the file")
    env.eq([list(r) for r in raw["Qy"]], [qy[y * nx : y * nx + nx] for y in range(ny)], "first nonzero Q component is Qy")
    env.eq([list(r) for r in raw["Qx"]], [qx[y * nx : y * nx + nx] for y in range(ny)], "second nonzero Q component is Qx")
    m = md.measData
    env.eq(list(m["I"]), [I[i] for i in keep], "intensities reach the fit unchanged")
    env.eq(list(m["Q"][0]), [qy[i] for i in keep], "Qy reaches the fit unchanged")
    env.eq(list(m["Q"][1]), [qx[i] for i in keep], "Qx reaches the fit unchanged")


@harness(
    quick=dict(n=40, depth=9), thorough=dict(n=300, depth=24),
    bounds="40 (thorough 300) points, of which four hold any values; a chain of 9 (24) default attributes, or paths given that are as long",
)
def many(env):
    n, depth = env.p["n"], env.p["depth"]
    free = (0, 9, n // 2, n - 1)
    Q, I, S = ([env.real(f"{c}{i}") if i in free else a + b * ((7 * i) % n) for i in range(n)] for c, a, b in (("Q", 0.1, 0.1), ("I", 5.0, -0.03), ("S", 0.2, 0.01)))
    viapath, lead = env.choice("viapath", [True, False]), env.choice("lead", [0, 2])
    path = "/".join(f"g{k}" for k in range(depth))
    fn = env.tmp / "data.nxs"
    with env.h5.File(fn, "w") as f:
        g = f
        for k in range(depth):
            for nm in ("I", "Q", "sig"):
                put(env, g, nm, [env.const(-100.0 - k)] * n)
            g.attrs["signal"], g.attrs["axes"] = "I", ["Q"]
            g.attrs["default"] = f"g{k}"
            g = g.require_group(f"g{k}")
        for nm, v in (("I", I), ("Q", Q), ("sig", S)):
            put(env, g, nm, v, lead)
        g.attrs["signal"], g.attrs["axes"] = "I", ["Q"]
        g["I"].attrs["uncertainties"] = "sig"
    kw = dict(pathDict=dict(Q=f"/{path}/Q", I=f"{path}/I", ISigma=f"/{path}/sig")) if viapath else {}
    same(env, read1d(env, fn, **kw), Q, I, S, "of every one of many points")
