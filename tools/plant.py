"""Developer tool: build and validate a planted bug (never used by a check).

usage: plant.py SPEC.py [--notests]
SPEC.py defines BUGS = [dict(id=, property=, edits=[(file, old, new)], demo="python source", needs=, what=)]
For each: makes a scratch copy of /repo, applies the edits, writes /verif/seeded/<id>/, runs the demo on both trees, the
property's quick check on the changed tree, and the repository's tests there.
"""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\n# run with cwd at the repository root; exit 0 on a correct tree\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def one(b, tests=True):
    d = f"/verif/seeded/{b['id']}"; w = f"/tmp/seedwork/{b['id']}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/seedwork", exist_ok=True); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    for f, old, new in b["edits"]:
        s = open(f"{w}/{f}").read()
        if s.count(old) != 1:
            return b["id"], f"EDIT: {s.count(old)} matches in {f}"
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    out = []
    # lines must be original, not ones a fix: commit added
    base = "b6ac3b2"
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    for f, _, _ in b["edits"]:
        orig = subprocess.run(["git", "show", f"{base}:{f}"], cwd=w, capture_output=True, text=True).stdout.splitlines()
        removed = [l for l in removed if l not in orig]
    if removed:
        out.append(f"NOT ORIGINAL LINES {removed}")
    if any(f.endswith((".c", ".pyx", ".h")) for f, _, _ in b["edits"]):
        rc, o = run([PY, "setup.py", "build_ext", "--inplace"], w)
        if rc: out.append("BUILD FAIL")
    c0, o0 = run(["bash", d + "/demo.sh"], "/repo", timeout=300)
    c1, o1 = run(["bash", d + "/demo.sh"], w, timeout=300)
    out.append(f"demo clean={c0} patched={c1}")
    if c0 or not c1: out.append((o0 if c0 else o1)[-600:])
    rc, o = run(["/verif/run.sh", b["property"], "quick"], "/verif", {"VERIF_REPO": w, "VERIF_SEED": "1", "VERIF_NPROC": "4"})
    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    out.append(f"check rc={rc} {v[:2]}")
    if tests:
        rep = f"/tmp/seedwork/{b['id']}.xml"
        run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=600", "--runslow", "-n", "4", "--continue-on-collection-errors",
             "--ignore=pystatsm/tests/glmm_test.py", "--tb=short", "-o", "junit_family=xunit2", f"--junitxml={rep}", "pystatsm"], w, {"PYTHONDONTWRITEBYTECODE": "1"}, 1800)
        res = f"/tmp/seedwork/{b['id']}.json"
        subprocess.run(["python3", "/opt/vp/results.py", res, f"junit:{rep}"], capture_output=True)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = stable - set(json.load(open(res))["passed"])
        out.append(f"tests broken={sorted(miss)[:4]}")
    shutil.rmtree(w, ignore_errors=True)
    return b["id"], "\n    ".join(out)


if __name__ == "__main__":
    B = runpy.run_path(sys.argv[1])["BUGS"]
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    B = [b for b in B if not only or b["id"] in only]
    with ThreadPoolExecutor(2) as ex:
        for i, r in ex.map(lambda b: one(b, "--notests" not in sys.argv), B):
            print(i, "\n   ", r, flush=True)
