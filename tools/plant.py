"""plant.py make SPEC.py | try ID [check...] | matrix
make: writes seeded/<id>/ from a spec module defining BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
      after confirming in a scratch copy: patch applies, stable tests pass, demo 0 without and nonzero with the patch
try:  runs the check of the bug's property (or those given) against a scratch copy with the bug"""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/scratch"
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def copy(name):
    d = os.path.join(S, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(S, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def demo(folder, cwd):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    try:
        return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, "", "timeout")


def tests(d):
    env = dict(os.environ, PYTHONPATH=os.path.join(d, "src"), MPLBACKEND="Agg")
    ids = []
    for t in STABLE:
        path, name = t.split("::")
        mod, cls = path.rsplit(".", 1) if path.count(".") > 1 else (path, None)
        ids.append(mod.replace(".", "/") + ".py::" + (cls + "::" if cls else "") + name)
    r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *ids], cwd=d, env=env, capture_output=True, text=True, timeout=600)
    return r


def make(spec):
    for b in runpy.run_path(spec)["BUGS"]:
        if len(sys.argv) > 3 and b["id"] not in sys.argv[3:]:
            continue
        d = copy("plant")
        out = os.path.join("/tmp/scratch/seeded", b["id"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT", f, "matches", s.count(old), repr(old[:50]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(out, "demo.sh"), "w").write(
                '#!/bin/bash\n# run in the repository; exit 0 if the property holds\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SAS_OPENCL=none\n'
                'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n'
            )
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
            r1 = demo(out, "/repo")
            r2 = demo(out, d)
            t = tests(d)
            ok = r1.returncode == 0 and r2.returncode != 0 and t.returncode == 0
            print(b["id"], "OK" if ok else "REJECTED", "demo clean", r1.returncode, "bug", r2.returncode, "tests", t.returncode, t.stdout.strip().splitlines()[-1:])
            if r1.returncode:
                print(r1.stdout[-800:], r1.stderr[-800:])
            if r2.returncode:
                print("   ", (r2.stderr.strip().splitlines() or [""])[-1][:200])
            if t.returncode:
                print(t.stdout[-1500:])
            if ok:
                dst = os.path.join(V, "seeded", b["id"])
                if os.path.isdir(dst):
                    shutil.rmtree(dst)
                shutil.copytree(out, dst)
        shutil.rmtree(d)
        shutil.rmtree(out)


def run(i, checks=(), tier="quick"):
    d = copy("try_" + i)
    try:
        subprocess.run(["git", "-C", d, "apply", os.path.join(V, "seeded", i, "patch.diff")], check=True)
        res = {}
        for c in checks or [json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]]:
            r = subprocess.run([os.path.join(V, "check"), c, tier], env=dict(os.environ, MCSAS3_REPO=d), capture_output=True, text=True, timeout=1000)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[c] = (r.returncode, v, r.stdout.strip().splitlines()[-1:])
            print(i, c, "CAUGHT" if r.returncode == 1 and v else f"missed rc={r.returncode}", (v or res[c][2] or [r.stderr[-300:]])[0][:200], flush=True)
        return res
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    elif sys.argv[1] == "try":
        run(sys.argv[2], sys.argv[3:])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))):
            run(i)
