"""Self-test of the symbolic numpy/pandas layer: expressions over symbolic arrays/frames are explored and every path's
witness is compared with what the real libraries compute.  usage: MCSAS3_REPO=<copy with src/mcsas3/xshim.py> shimtest.py [filter]"""
import contextlib, importlib, importlib.util, io, multiprocessing as mp, os, sys, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, "/opt/veriftools/pyvenv/lib/python3.12/site-packages"] if False else [VERIF]
import numpy as np, pandas

REPO = os.environ["MCSAS3_REPO"]
spec = importlib.util.spec_from_file_location("xreal", REPO + "/src/mcsas3/xshim.py")
xreal = importlib.util.module_from_spec(spec); spec.loader.exec_module(xreal)

from symx import loader, stubs
stubs.install(); loader.install()
from symx import values as V, env as E
from symx.engine import Stats
from symx.run import Harness, run_path
with contextlib.redirect_stdout(io.StringIO()):
    xs = importlib.import_module("mcsas3.xshim")


def norm(r):
    if isinstance(r, pandas.DataFrame):
        return {"cols": [str(c) for c in r.columns], "idx": [str(i) for i in r.index], "v": [[x for x in r.iloc[:, j]] for j in range(r.shape[1])]}
    if isinstance(r, pandas.Series):
        return {"idx": [str(i) for i in r.index], "v": list(r)}
    if isinstance(r, np.ndarray):
        return norm(list(r)) if r.ndim else r[()]
    if isinstance(r, np.ma.MaskedArray): return norm(r.data)
    if isinstance(r, (list, tuple)): return [norm(x) for x in r]
    if isinstance(r, dict): return {str(k): norm(v) for k, v in r.items()}
    if isinstance(r, np.generic): return r.item()
    return r


def inputs(env):
    a = env.reals("a", 3, 0.1, 10); b = env.reals("b", 3, 0.1, 10); m = env.reals("m", 6, 0.1, 10)
    s = env.real("s", 0.2, 3); t = env.real("t", 3.5, 9)
    df = env.df({"Q": env.arr(env.reals("q", 3, 0.1, 10)), "I": env.arr(env.reals("i", 3, 0.1, 10)), "ISigma": env.arr(env.reals("e", 3, 0.1, 10))}, index=[2, 4, 7])
    return env.arr(a), env.arr(b), env.arr(m).reshape(2, 3), s, t, np.array([True, False, True]), df


def one(name):
    sys.stdout = open(os.devnull, "w"); warnings.simplefilter("ignore")
    f = xs.FUNCS[name]
    problems = {}
    def fn(env):
        env.observe("r", norm(f(*inputs(env))))
    h = Harness(fn, name)
    st, stack, n, t0, comp, abstract = Stats(), [[]], 0, time.time(), 0, 0
    def note(x): problems[x] = problems.get(x, 0) + 1
    while stack and n < 60 and time.time() - t0 < 20:
        out, pend = run_path(h, {}, stack.pop(), st, n < 12)
        stack += pend; n += 1
        if out["outcome"] not in ("ok", "abort"): 
            note(f"{out['outcome']}: {out['why']}")
        if out.get("degraded"): note(f"degraded {out['degraded']}")
        w = out["witness"]
        if w:
            try:
                ce = E.ConcEnv({}, w["inputs"], w["ufuns"])
                want = E.conc_obs(norm(xreal.FUNCS[name](*inputs(ce))))
            except Exception as e:
                note(f"real raises {type(e).__name__}: {e}"); continue
            if "r" not in w["obs"]: abstract += 1; continue
            comp += 1
            if not E.obs_close(w["obs"]["r"], want):
                note(f"MISMATCH sym {w['obs']['r']} real {want}")
    return name, xs.NAMES.get(name, name), problems, n, comp, abstract, time.time() - t0


if __name__ == "__main__":
    names = [n for n in xs.FUNCS if len(sys.argv) < 2 or any(k in xs.NAMES.get(n, n) for k in sys.argv[1:])]
    bad = 0
    with mp.get_context("fork").Pool(4, maxtasksperchild=40) as p:
        for name, src, problems, n, comp, ab, dt in p.imap(one, names, chunksize=4):
            if problems or n >= 60 or not comp and not ab:
                bad += 1
                print(f"{src}   [{n} paths, {comp} compared, {ab} abstract, {dt:.1f}s]")
                for k, v in list(problems.items())[:2]: print("     ", k[:260], f"x{v}")
    print(f"{bad} of {len(names)} with problems")
