"""Replays solver models on the unmodified package: python -m symx.replay FILE.json [--out OUT.json]"""
import json
import math
import os
import sys
import traceback


def run_job(harnesses, job):
    out = run_once(harnesses, job)
    pair = out.pop("pair", None)
    if out["status"] == "failed" and pair and max((abs(v) for v in reals(job).values()), default=0) > 1e7:
        # huge inputs: is what differs more than rounding?  the last bits of the inputs must not matter
        noisy = stable = 0
        for k in (3e-16, 7e-16, -5e-16):
            ins = dict(job["inputs"], **{n: repr(v * (1 + k * (-1) ** i)) for i, (n, v) in enumerate(reals(job).items())})
            o = run_once(harnesses, dict(job, inputs=ins))
            if o["status"] == "failed" and o["label"] == out["label"] and o.get("pair"):
                d = max(abs(a - b) for a, b in zip(pair, o["pair"]))
                if d <= 0.1 * abs(pair[0] - pair[1]):
                    stable += 1
                else:
                    noisy += 1
        if noisy and not stable:
            out.update(status="passed", detail=f"ill-conditioned: {out['detail']}")
    return out


def reals(job):
    return {n: float(v) for n, v in job["inputs"].items() if isinstance(v, str) and _real(v)}


def _real(v):
    try:
        return math.isfinite(float(v))
    except ValueError:
        return False


def run_once(harnesses, job):
    from .env import CheckFailed, ConcEnv, ReplayInvalid
    from .values import EngineLimit, PathAbort

    h = harnesses[job["harness"]]
    env = ConcEnv(job["params"], job["inputs"], job["ufuns"])
    out = dict(status="passed", label="", detail="", observed={})
    try:
        h.fn(env)
    except CheckFailed as e:
        out.update(status="failed", label=e.label, detail=str(e.detail)[:500])
        if all(isinstance(v, float) and math.isfinite(v) for v in getattr(env, "pair", [""])):
            out["pair"] = env.pair
    except ReplayInvalid as e:
        out.update(status="invalid", label=str(e))
    except EngineLimit as e:
        out.update(status="error", detail=str(e))
    except Exception as e:
        fr = traceback.extract_tb(e.__traceback__)
        inrepo = any("mcsas3" in f.filename for f in fr)
        out.update(
            status="exception" if inrepo else "error",
            label=f"exception {type(e).__name__}",
            detail=f"{str(e)[:300]} @ "
            + ", ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in fr[-4:]),
        )
    finally:
        out["observed"] = env.observed
        env.cleanup()
    return out


def main():
    src = sys.argv[1]
    out = sys.argv[sys.argv.index("--out") + 1] if "--out" in sys.argv else None
    with open(src) as f:
        d = json.load(f)
    repo = os.environ.get("MCSAS3_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    from . import run, stubs

    stubs.install()
    # harness modules register with symx.run (not __main__)
    mod, hs = run.load_check(d["property"])
    import importlib

    for m in getattr(mod, "IMPORTS", []):
        importlib.import_module(m)
    hs = {h.name: h for h in hs}
    res = []
    tmp = (out or "/tmp/symx_replay") + ".part"
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    for job in d["jobs"]:
        pid = os.fork()
        if pid == 0:
            import signal

            signal.alarm(100)
            devnull = os.open(os.devnull, os.O_WRONLY)
            if out:
                os.dup2(devnull, 1)
            r = dict(status="error", label="", detail="crash", observed={})
            try:
                r = run_job(hs, job)
            except BaseException as e:
                r = dict(status="error", label="", detail=repr(e)[:300], observed={})
            finally:
                with open(tmp, "w") as f:
                    json.dump(r, f)
                os._exit(0)
        _, st = os.waitpid(pid, 0)
        if os.path.exists(tmp):
            with open(tmp) as f:
                res.append(json.load(f))
            os.unlink(tmp)
        else:
            res.append(dict(status="error", label="", detail=f"replay process died ({st})", observed={}))
    if out:
        with open(out, "w") as f:
            json.dump(res, f)
    else:
        bad = 0
        for r in res:
            print(json.dumps(r, indent=1))
            bad |= r["status"] in ("failed", "exception")
        sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
