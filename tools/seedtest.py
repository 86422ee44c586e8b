"""Confirm planted bugs in a scratch copy: python3 tools/seedtest.py [--notests] ID... (all when none given).

Applies seeded/<id>/patch.diff to a copy of /repo under /tmp, runs the stable tests there, the demonstration on both
trees, and the check of the property on the patched copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def tests(d):
    try:
        return tests1(d)
    except subprocess.TimeoutExpired:
        return "tests time out"


def tests1(d):
    r = subprocess.run([PY, "-m", "pytest", "tests", "-p", "vp_fixed_seed", "-q", "-p", "no:cacheprovider", "--timeout=100", "-x", "-n", "8", "--dist=loadfile"],
                       cwd=d, env=dict(ENV, PYTHONPATH="/opt/vp/plugins"), capture_output=True, text=True, timeout=150)
    return r.stdout.strip().splitlines()[-1] if r.stdout else r.stderr[-300:]


def main(a):
    no = "--notests" in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        s = os.path.join(V, "seeded", i)
        meta = json.load(open(os.path.join(s, "meta.json")))
        d = tempfile.mkdtemp(prefix="seed_")
        try:
            subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
            d1 = d + "/r"
            demo = d + "/demo"
            os.mkdir(demo)
            for f in os.listdir(s):
                if f.endswith((".diff", ".patch")) or f == "meta.json":
                    continue
                shutil.copy(os.path.join(s, f), demo)
            e = dict(ENV, PYTHONPATH=d1)
            run = lambda: subprocess.run(["bash", demo + "/demo.sh"], cwd=d1, env=e, capture_output=True, text=True, timeout=300)
            c = run()
            p = subprocess.run(["git", "-C", d1, "apply", "--whitespace=nowarn", s + "/patch.diff"], capture_output=True, text=True)
            b = run() if p.returncode == 0 else None
            t = "" if no else tests(d1)
            k = subprocess.run([sys.executable, V + "/check.py", meta["property"]], env=dict(os.environ, FPSA_REPO=d1), capture_output=True, text=True)
            print("%-10s %s apply=%d demo clean=%d patched=%s check=%d %s" % (
                i, meta["property"], p.returncode, c.returncode, b.returncode if b else None, k.returncode, t), flush=True)
            if c.returncode:
                print("   ", (c.stdout + c.stderr)[-400:])
            if b is not None and b.returncode == 0:
                print("    demo passes with the patch")
        finally:
            shutil.rmtree(d)


main(sys.argv[1:])
