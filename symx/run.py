"""Driver: explores all harnesses of one property, replays counterexamples and witnesses, writes evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    def __init__(self, fn, name=None, quick=None, thorough=None, bounds="", stubs=(), witnesses=3, weight=1.0):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick or {}
        self.thorough = thorough if thorough is not None else self.quick
        self.bounds = bounds
        self.stubs = list(stubs)
        self.witnesses = witnesses

    def params(self, tier):
        return dict(self.thorough if tier == "thorough" else self.quick)


REGISTRY = []


def harness(**kw):
    def deco(fn):
        REGISTRY.append(Harness(fn, **kw))
        return fn

    return deco


def load_check(pid):
    REGISTRY.clear()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f"checks.{pid}")
    return mod, [h for h in REGISTRY if h.fn.__module__ == mod.__name__]


# --------------------------------------------------------------------------- exploration of one path
def run_path(h, params, prefix, stats, want_witness):
    from . import h5fake
    from . import values as V
    from .engine import EngineLimit, Path, PathAbort
    from .env import PathEnd, SymEnv, eval_obs, extract

    p = Path(prefix, stats, query_ms=params.get("query_ms", 6000), assert_ms=params.get("assert_ms", 20000))
    V.set_ctx(p)
    env = SymEnv(p, params)
    out = dict(outcome="ok", candidates=[], witness=None, why=None)
    try:
        try:
            h.fn(env)
        except PathAbort as e:
            out["outcome"] = "abort"
        except PathEnd as e:
            out["outcome"] = "violated"
        except EngineLimit as e:
            out["outcome"] = "limit"
            out["why"] = f"{e}: {_where()}"
        except RecursionError as e:
            out["outcome"] = "limit"
            out["why"] = "recursion"
        except Exception as e:
            out["outcome"] = "exception"
            out["why"] = f"{type(e).__name__}: {str(e)[:200]} @ {_where()}"
            if os.environ.get("SYMX_TB"):
                traceback.print_exc(file=sys.__stderr__)
            r, m = extract(p, [])
            if m is not None:
                m.pop("_m", None)
                env.candidates.append(
                    dict(label=f"exception {type(e).__name__}", detail=out["why"], exc=True, **m)
                )
            elif str(r) == "unsat":
                out["outcome"] = "abort"
        if out["outcome"] == "ok":
            if p.model is None:
                r = p._check()
                if str(r) == "sat":
                    p.model = p.solver.model()
                elif str(r) == "unsat":
                    out["outcome"] = "abort"
            if p.model is not None:
                stats["reached"] += 1
            if want_witness and out["outcome"] == "ok":
                r, m = extract(p, [])
                if m is not None:
                    mm = m.pop("_m")
                    obs = {}
                    if not m["abstract"] and not p.degraded:
                        try:
                            obs = {k: eval_obs(mm, v) for k, v in p.observed.items()}
                        except (EngineLimit, Exception):
                            obs = {}
                    m.pop("model", None)
                    out["witness"] = dict(obs=obs, **m)
        if p.degraded and out["outcome"] == "ok":
            out["degraded"] = p.degraded
        for c in env.candidates:
            c.pop("_m", None)
            c.pop("model", None)
        out["candidates"] = env.candidates
        out["unk"] = env.labels
    finally:
        try:
            env.cleanup()
        finally:
            V.set_ctx(None)
            h5fake.reset()
            h5fake.FAULT = None
    stats["paths"] += 1
    return out, p.pending


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    keep = [f for f in fr if "mcsas3" in f.filename or "/checks/" in f.filename] or fr
    f = keep[-1]
    last = fr[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno} ({os.path.basename(last.filename)}:{last.lineno})"


_H = None
_TIER = None


def _quiet():
    f = open(os.devnull, "w")
    sys.stdout = f
    if not os.environ.get("SYMX_TB"):
        sys.stderr = f
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def _winit():
    import resource

    _quiet()
    if os.environ.get("SYMX_DUMP"):
        import faulthandler

        faulthandler.dump_traceback_later(float(os.environ["SYMX_DUMP"]), file=sys.__stderr__)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def work(task):
    """explore depth-first from a prefix for a time slice; return results and the leftover prefixes"""
    hi, prefixes, slice_s, nwit = task
    from . import loader
    from .engine import Stats

    h = _H[hi]
    params = h.params(_TIER)
    stats = Stats()
    st = [list(p) for p in prefixes]
    res = dict(hi=hi, candidates=[], witnesses=[], limits={}, outcomes={}, stats=stats, left=[], unk={})
    t0 = time.time()
    while st:
        pre = st.pop()
        try:
            out, pend = run_path(h, params, pre, stats, nwit > len(res["witnesses"]))
        except MemoryError:
            out, pend = dict(outcome="limit", why="memory", candidates=[], witness=None), []
        st.extend(pend)
        o = out["outcome"]
        if out.get("degraded"):
            o = "ok-concretised"
        res["outcomes"][o] = res["outcomes"].get(o, 0) + 1
        if out["why"]:
            res["limits"][out["why"]] = res["limits"].get(out["why"], 0) + 1
        for k, v in out.get("unk", {}).items():
            res["unk"][k] = res["unk"].get(k, 0) + v
        res["candidates"] += out["candidates"]
        if out["witness"]:
            res["witnesses"].append(out["witness"])
        if time.time() - t0 > slice_s:
            break
    res["left"] = st
    res["ran"] = set(loader.RAN)
    return res


# --------------------------------------------------------------------------- replay in a subprocess
def replay(pid, jobs, timeout=120):
    """jobs: list of dict(harness, params, inputs, ufuns) -> list of dict(status, label, detail, observed)"""
    import tempfile

    with tempfile.TemporaryDirectory(prefix="symx_replay_") as d:
        src, dst = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(src, "w") as f:
            json.dump(dict(property=pid, jobs=jobs), f)
        env = dict(os.environ)
        env["PYTHONPATH"] = VERIF
        r = subprocess.run(
            [sys.executable, "-m", "symx.replay", src, "--out", dst],
            cwd=VERIF,
            env=env,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE,
            timeout=timeout + 60 * len(jobs),
        )
        if not os.path.exists(dst):
            return [dict(status="error", label="", detail=r.stderr.decode()[-500:], observed={})] * len(jobs)
        with open(dst) as f:
            return json.load(f)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def known_match(kf, cand, hname):
    for k in kf:
        if k["harness"] == hname and k["label"] == cand["label"]:
            if all(cand["inputs"].get(n) == v for n, v in k.get("inputs", {}).items()):
                return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = a.budget or (420.0 if tier == "quick" else 840.0 if os.environ.get("SYMX_CAP") else 3000.0)

    from . import loader, stubs

    stubs.install()
    loader.install()
    mod, hs = load_check(pid)
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    global _H, _TIER
    _H, _TIER = hs, tier
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        for m in getattr(mod, "IMPORTS", []):
            importlib.import_module(m)
    if a.jobs == 1 and a.v:
        pool = None
    else:
        pool = mp.get_context("fork").Pool(a.jobs, initializer=_winit)
    from .engine import Stats

    total = Stats()
    per = {
        h.name: dict(
            bounds=h.bounds,
            params={k: v for k, v in h.params(tier).items()},
            outcomes={},
            reasons={},
            undecided={},
            complete=True,
            stats=Stats(),
        )
        for h in hs
    }
    witnesses = {h.name: [] for h in hs}
    confirmed, known_hits, unrepro = [], [], []
    tried = {}
    ran = set()
    queue = [(i, [[]]) for i in range(len(hs))][::-1]
    running = []
    stop = False
    kf = known_findings(pid)
    pend_c = []

    def absorb(res):
        h = hs[res["hi"]]
        d = per[h.name]
        ran.update(res["ran"])
        total.merge(res["stats"])
        d["stats"].merge(res["stats"])
        for k, v in res["outcomes"].items():
            d["outcomes"][k] = d["outcomes"].get(k, 0) + v
        for k, v in res["limits"].items():
            d["reasons"][k] = d["reasons"].get(k, 0) + v
        for k, v in res["unk"].items():
            d["undecided"][k] = d["undecided"].get(k, 0) + v
        for c in res["candidates"]:
            pend_c.append((h, c))
        w = witnesses[h.name]
        for x in res["witnesses"]:
            if len(w) < h.witnesses:
                w.append(x)
        left = res["left"]
        if left:
            n = max(1, min(len(left), a.jobs))
            for j in range(n):
                part = left[j::n]
                if part:
                    queue.append((res["hi"], part))

    def consider():
        """replay pending candidates; True if a confirmed, unlisted violation exists"""
        batch = []
        while pend_c:
            h, c = pend_c.pop(0)
            key = (h.name, c["label"])
            if tried.get(key, 0) >= 6:
                continue
            tried[key] = tried.get(key, 0) + 1
            batch.append((h, c))
            if len(batch) >= 8:
                break
        if not batch:
            return False
        jobs = [
            dict(harness=h.name, params=h.params(tier), inputs=c["inputs"], ufuns=c["ufuns"]) for h, c in batch
        ]
        out = replay(pid, jobs)
        for (h, c), r, j in zip(batch, out, jobs):
            c["replay_status"] = r
            if r["status"] in ("failed", "exception"):
                k = known_match(kf, dict(c, label=r["label"]), h.name)
                if k is not None:
                    known_hits.append(k)
                    continue
                confirmed.append((h, c, r, j))
            elif r["status"] == "invalid" and c.get("abstract"):
                per[h.name]["reasons"]["abstract counterexample outside the real functions"] = (
                    per[h.name]["reasons"].get("abstract counterexample outside the real functions", 0) + 1
                )
            elif c.get("exc") or c.get("abstract"):
                if a.v: print("   cand", c["label"], c["inputs"], r["status"], c.get("abstract"))
                per[h.name]["reasons"][f"not reproduced: {c['detail'][:160] or c['label']}"] = (
                    per[h.name]["reasons"].get(f"not reproduced: {c['detail'][:160] or c['label']}", 0) + 1
                )
            else:
                unrepro.append((h, c, r))
        return bool(confirmed)

    if pool is None:
        while queue and not stop:
            absorb(work((*queue.pop(), 1e9, 3)))
            if consider():
                break
    else:
        while (queue or running) and not stop:
            while queue and len(running) < a.jobs:
                hi, pre = queue.pop(0) if len(queue) > a.jobs else queue.pop()
                nw = max(0, hs[hi].witnesses - len(witnesses[hs[hi].name]))
                small = time.time() - t0 < 10
                running.append(pool.apply_async(work, ((hi, pre, 1.0 if small else 3.0, nw),)))
            nr = []
            hit = False
            for r in running:
                if r.ready():
                    absorb(r.get())
                    hit = True
                else:
                    nr.append(r)
            running = nr
            if pend_c and consider():
                stop = True
            if time.time() - t0 > budget:
                for hi, pre in queue:
                    per[hs[hi].name]["complete"] = False
                for r in running:
                    pass
                for d in per.values():
                    if not d["outcomes"]:
                        d["complete"] = False
                per_incomplete = True
                queue = []
                if running:
                    tend = time.time() + 60
                    while running and time.time() < tend:
                        time.sleep(0.05)
                        nr = []
                        for r in running:
                            if r.ready():
                                res = r.get()
                                if res["left"]:
                                    per[hs[res["hi"]].name]["complete"] = False
                                res["left"] = []
                                absorb(res)
                            else:
                                nr.append(r)
                        running = nr
                break
            if not hit:
                time.sleep(0.01)
        pool.terminate()
        pool.join()
    while pend_c and not confirmed:
        consider()

    # ---- witness validation: replay path models on the unmodified code and compare what was observed
    validated, wit_bad, wit_invalid, wjobs, wh = 0, [], 0, [], []
    if not confirmed:
        for h in hs:
            for w in witnesses[h.name]:
                wjobs.append(dict(harness=h.name, params=h.params(tier), inputs=w["inputs"], ufuns=w["ufuns"]))
                wh.append((h, w))
        if wjobs:
            for (h, w), r, j in zip(wh, replay(pid, wjobs), wjobs):
                if r["status"] == "passed":
                    from .env import obs_close

                    bad = [k for k in w["obs"] if not obs_close(w["obs"][k], r["observed"].get(k))]
                    if bad:
                        wit_bad.append((h.name, bad, {k: (w["obs"][k], r["observed"].get(k)) for k in bad}, w["inputs"]))
                    else:
                        validated += 1
                elif r["status"] in ("failed", "exception"):
                    # a violation the encoding missed, shown by the real code itself
                    k = known_match(kf, dict(inputs=w["inputs"], label=r["label"]), h.name)
                    if k is not None:
                        known_hits.append(k)
                    elif w.get("abstract") and r["status"] == "invalid":
                        wit_invalid += 1
                    else:
                        confirmed.append((h, dict(label=r["label"], detail=r["detail"], inputs=w["inputs"]), r, j))
                else:
                    wit_invalid += 1

    # ---- verdict
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    nviol = 0
    for h, c, r, j in confirmed:
        key = (h.name, r["label"])
        if key in seen:
            continue
        seen.add(key)
        nviol += 1
        path = os.path.join(rdir, f"{pid}_{h.name}_{nviol}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, jobs=[j], expected=r, solver_label=c["label"]), f, indent=1)
        print(f"  counterexample [{h.name}] {r['label']}: {r['detail'][:300]}")
        print(f"    inputs: {json.dumps(j['inputs'])[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    for k in {json.dumps(k, sort_keys=True) for k in known_hits}:
        k = json.loads(k)
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    wall = time.time() - t0
    inconclusive = {}
    for n, d in per.items():
        for o in ("limit", "exception", "ok-concretised"):
            if d["outcomes"].get(o):
                inconclusive[f"{n}: {o}"] = d["outcomes"][o]
        if not d["complete"]:
            inconclusive[f"{n}: exploration stopped by the time budget"] = 1
        for k, v in d["undecided"].items():
            inconclusive[f"{n}: solver undecided on {k}"] = v
    for h, c, r in unrepro:
        inconclusive[f"{h.name}: counterexample not reproduced by the real code: {c['label']}"] = 1
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=total["paths"],
            transitions=total["queries"],
            traces_validated_against_impl=validated,
            samples=[
                dict(harness=h.name, inputs=w["inputs"], observed=w["obs"]) for h, w in wh[:6]
            ] or [dict(harness=h.name, inputs=c["inputs"]) for h, c, r, j in confirmed[:2]] or ["none"],
            meaning="states = symbolic paths executed, transitions = solver queries; every path stands for all "
            "values of its inputs that satisfy the path condition",
            assertions_checked=total["asserts"],
            assertions_discharged=total["discharged"],
            discharged_without_solver=total["trivial"],
            queries=dict(sat=total["sat"], unsat=total["unsat"], unknown=total["unknown"]),
            solver_time_s=round(total["solver_ms"] / 1000, 2),
            paths_reaching_the_end=total["reached"],
            functions_encoded=sorted(ran) or sorted(loader.ENCODED),
            harnesses={
                n: dict(
                    bounds=d["bounds"],
                    params=d["params"],
                    outcomes=d["outcomes"],
                    complete=d["complete"],
                    inconclusive_reasons=d["reasons"],
                    paths=d["stats"]["paths"],
                    asserts=d["stats"]["asserts"],
                    discharged=d["stats"]["discharged"],
                )
                for n, d in per.items()
            },
            inconclusive=inconclusive,
            witness_mismatches=len(wit_bad),
            witnesses_not_replayable=wit_invalid,
            counterexamples_not_reproduced=len(unrepro),
            outside_the_bounds=getattr(mod, "OUTSIDE", ""),
            stubs=sorted({s for h in hs for s in h.stubs} | set(getattr(mod, "STUBS", []))),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", []))
        + ["float64 values are modelled as exact reals (rounding is outside the claim unless stated)"],
        wall_s=round(wall, 2),
        violations=nviol,
    )
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} {tier}: {total['paths']} paths ({total['reached']} to the end), {total['asserts']} assertions, "
        f"{total['discharged']} discharged, {total['queries']} queries, solver {total['solver_ms']/1000:.1f}s, "
        f"{validated}/{len(wjobs)} witnesses validated, wall {wall:.1f}s"
    )
    for k, v in inconclusive.items():
        print(f"  inconclusive: {k} x{v}")
    if a.v:
        for n, d in per.items():
            print(" ", n, d["outcomes"], "complete" if d["complete"] else "INCOMPLETE", d["stats"]["paths"], "paths")
    if a.v or unrepro or wit_bad or inconclusive:
        for n, d in per.items():
            for k, v in list(d["reasons"].items())[:8]:
                print(f"    {n}: {k} x{v}")
    for n, bad, dd, inp in wit_bad[:5]:
        print(f"  encoding mismatch on a witness of {n}: {json.dumps(dd)[:600]} inputs {json.dumps(inp)[:400]}")
    for h, c, r in unrepro[:5]:
        print(f"  NOT REPRODUCED [{h.name}] {c['label']} {c['detail']}: {r['status']} {json.dumps(c['inputs'])[:500]}")
    if nviol:
        return 1
    # a counterexample the real code does not reproduce is not a violation: the assertion stays undecided
    # (reported above and in the evidence); an encoding that disagrees with the code often is unusable
    if len(wit_bad) > max(1, validated // 3):
        return 3
    if total["reached"] == 0 or total["discharged"] == 0:
        print("  vacuous: no path reached an assertion")
        return 4
    return 0


if __name__ == "__main__":
    sys.exit(main())
