"""C04  Fit data follow the chosen processing stage; the Q offset is added once, to Q only."""
from checks.common import image2d
from symx.run import harness

IMPORTS = ["mcsas3.mc_data_1d", "mcsas3.mc_data_2d"]
OUTSIDE = "more rows/pixels than stated"
ASSUMPTIONS = ["Q positive where rebinning is on"]
STAGES = ["rawData", "clippedData", "binnedData"]
INF = float("inf")


def snap(env, md):
    return {s: {c: list(getattr(md, s)[c]) for c in ("Q", "I", "ISigma")} for s in STAGES}


def agree(env, md, stage, nudge, snapshot, when):
    want = snapshot[stage]
    got = md.measData
    env.check(len(got["Q"]) == 1, f"one Q dimension {when}")
    env.eq(list(got["Q"][0]), [q + nudge for q in want["Q"]], f"Q of the chosen stage plus the offset, once {when}")
    env.eq(list(got["I"]), want["I"], f"intensity of the chosen stage {when}")
    env.eq(list(got["ISigma"]), want["ISigma"], f"uncertainty of the chosen stage {when}")
    env.eq(snap(env, md), snapshot, f"the stored stages are not altered by linking {when}")


def build(env, **kw):
    from mcsas3.mc_data_1d import McData1D

    qs = [env.const(1.0), env.real("q1", 1, 9), env.real("q2", 11, 100), env.const(100.0)][: env.p["n"]]
    n = len(qs)
    I, S = env.reals("I", n), env.reals("S", n, lo=0)
    lo = env.choice("lo", [0.5, 1.0625])
    df = env.df(dict(Q=qs, I=I, ISigma=S))
    md = McData1D(df=df, dataRange=[lo, INF], **kw)
    keep = [i for i in range(n) if bool(lo <= qs[i])]
    return md, dict(Q=qs, I=I, ISigma=S), keep


@harness(
    quick=dict(n=3), thorough=dict(n=4), bounds="n rows; every stage; rebinning on (2 bins) and off; symbolic offset; constructed once"
)
def constructed(env):
    stage = env.choice("stage", STAGES)
    nbins = env.choice("nbins", [2, 0])
    d = env.value("nudge", [0])
    md, raw, keep = build(env, nbins=nbins, measDataLink=stage, qNudge=d)
    s = snap(env, md)
    env.eq(s["rawData"], raw, "the raw stage holds the input, without the offset")
    env.eq(s["clippedData"], {k: [v[i] for i in keep] for k, v in raw.items()}, "the clipped stage holds the selected input, without the offset")
    if nbins == 0:
        env.eq(s["binnedData"], s["clippedData"], "without rebinning the binned stage equals the clipped one")
    agree(env, md, stage, d, s, "after construction")
    env.observe("Q", md.measData["Q"][0])


@harness(
    quick=dict(n=3, steps=2), thorough=dict(n=3, steps=3),
    bounds="n rows; any sequence of 'steps' operations out of prepare(), linkMeasData(), linkMeasData(stage), changed offset"
)
def repeated(env):
    stage = env.choice("stage", STAGES)
    d = env.real("nudge")
    md, raw, keep = build(env, nbins=env.choice("nbins", [0, 2]), measDataLink=stage, qNudge=d)
    s = snap(env, md)
    for k in range(env.p["steps"]):
        op = env.choice(f"op{k}", ["prepare", "link", "other", "nudge"])
        if op == "prepare":
            md.prepare()
            agree(env, md, stage, d, s, "after preparing again")
        elif op == "link":
            md.linkMeasData()
            agree(env, md, stage, d, s, "after linking again")
        elif op == "other":
            other = env.choice(f"st{k}", STAGES)
            md.linkMeasData(other)
            agree(env, md, other, d, s, "after linking a given stage")
        else:
            d = env.real(f"nudge{k}")
            md.qNudge = d
            md.linkMeasData()
            agree(env, md, stage, d, s, "after changing the offset")


@harness(quick=dict(n=3), thorough=dict(n=4), bounds="n rows; stage name outside the three stages")
def invalid(env):
    md, raw, keep = build(env, nbins=0)
    e = env.raises(md.linkMeasData, "measData")
    env.check(isinstance(e, AssertionError), "an unknown stage is refused", repr(e))


@harness(quick=dict(shape=(2, 2), steps=1), thorough=dict(shape=(3, 2), steps=2), bounds="2-D frame of the given shape, offsets along both axes, every stage, repeated preparing/linking")
def frame(env):
    md, px, d = None, None, [env.real("n0"), env.real("n1")]
    stage = env.choice("stage", STAGES)
    md, px = image2d(env, env.p["shape"], inside=True, measDataLink=stage, qNudge=d)

    def stage_data(st):
        if st == "rawData":
            return dict(Q0=list(md.rawData["Qy"]), Q1=list(md.rawData["Qx"]), I=list(md.rawData["I"]), S=list(md.rawData["ISigma"]))
        o = getattr(md, st)
        return dict(Q0=list(o["Q"][0]), Q1=list(o["Q"][1]), I=list(o["I"]), S=list(o["ISigma"]))

    before = {st: stage_data(st) for st in STAGES}
    flat = dict(
        Q0=[px.qy[i] for i in px.ids], Q1=[px.qx[i] for i in px.ids], I=[px.I[i] for i in px.ids], S=[px.S[i] for i in px.ids]
    )
    env.eq(before["rawData"], flat, "the raw stage holds the input, without the offset")
    env.eq(before["clippedData"], flat, "the clipped stage holds the input, without the offset")

    def ok(st, when):
        w = before[st]
        m = md.measData
        env.eq(list(m["Q"][0]), [q + d[0] for q in w["Q0"]], f"first Q axis of the stage plus its offset {when}")
        env.eq(list(m["Q"][1]), [q + d[1] for q in w["Q1"]], f"second Q axis of the stage plus its offset {when}")
        env.eq(list(m["I"]), w["I"], f"intensity of the chosen stage {when}")
        env.eq(list(m["ISigma"]), w["S"], f"uncertainty of the chosen stage {when}")
        env.eq({x: stage_data(x) for x in STAGES}, before, f"the stored stages are not altered {when}")

    ok(stage, "after construction")
    for k in range(env.p["steps"]):
        op = env.choice(f"op{k}", ["prepare", "link", "other"])
        if op == "prepare":
            md.prepare()
            ok(stage, "after preparing again")
        elif op == "link":
            md.linkMeasData()
            ok(stage, "after linking again")
        else:
            st = env.choice(f"st{k}", STAGES)
            md.linkMeasData(st)
            ok(st, "after linking a given stage")


@harness(
    quick=dict(n=30), thorough=dict(n=120),
    bounds="30 (thorough 120) rows of which four hold any intensity and uncertainty, fixed Q, every stage, 20 bins or none, any offset; prepared and linked three times over",
)
def many(env):
    from mcsas3.mc_data_1d import McData1D

    n = env.p["n"]
    free = (0, 9, n // 2, n - 1)
    qs = [env.const(0.5 + 0.25 * i) for i in range(n)]
    I = [env.real(f"I{i}") if i in free else env.const(9.0 + (7 * i) % n) for i in range(n)]
    S = [env.real(f"S{i}", lo=0) if i in free else env.const(0.5) for i in range(n)]
    stage, nbins, d = env.choice("stage", STAGES), env.choice("nbins", [20, 0]), env.real("nudge")
    md = McData1D(df=env.df(dict(Q=qs, I=I, ISigma=S)), dataRange=[1.125, INF], nbins=nbins, measDataLink=stage, qNudge=d)
    s = snap(env, md)
    env.eq(s["rawData"], dict(Q=qs, I=I, ISigma=S), "the raw stage holds the input, without the offset")
    env.eq(s["clippedData"], dict(Q=qs[3:], I=I[3:], ISigma=S[3:]), "the clipped stage holds the selected input, without the offset")
    agree(env, md, stage, d, s, "after construction")
    for _ in range(3):
        md.prepare()
        agree(env, md, stage, d, s, "after preparing again")
        md.linkMeasData()
        agree(env, md, stage, d, s, "after linking again")
