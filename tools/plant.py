"""Build and verify planted bugs: python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines PLANTS, a list of dicts: id, property, needs, breaks, demo (the
text of demo.py) and edits [(file below src/pymanopt, old, new), ...].  Each is
applied to a scratch copy of /repo; kept in seeded/ID only if the tests pass
with it, the demonstration passes without and fails with it, and only original
lines of the repository are changed.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, runpy

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# Run with the repository as working directory.
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 \\
    OPENBLAS_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
BASE = subprocess.check_output(
    ["git", "-C", str(REPO), "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]


def sh(cmd, cwd, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, text=True, capture_output=True)


def original_lines_only(work, path):
    """Every removed line must stem from the base commit."""
    diff = sh(["git", "diff", "-U0", "--", path], work).stdout
    import re
    removed = []
    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
        start, n = int(m[1]), int(m[2] or 1)
        removed += range(start, start + n)
    if not removed:
        return "no line removed"
    for n in removed:
        out = sh(["git", "blame", "-s", "--root", "-L", f"{n},{n}", "HEAD", "--", path], work).stdout
        if not out.lstrip("^").startswith(BASE[:7]):
            return f"line {n} is not original: {out.strip()}"
    return None


def main():
    spec = runpy.run_path(sys.argv[1])
    wanted = set(sys.argv[2:])
    work = pathlib.Path(tempfile.mkdtemp(prefix="plant-")) / "repo"
    subprocess.check_call(["cp", "-a", str(REPO), str(work)])
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for p in spec["PLANTS"]:
        if wanted and p["id"] not in wanted:
            continue
        sh(["git", "checkout", "-q", "--", "."], work)
        problem = None
        for rel, old, new in p["edits"]:
            f = work / "src/pymanopt" / rel
            text = f.read_text()
            if text.count(old) != 1:
                problem = f"{rel}: old text occurs {text.count(old)} times"; break
            f.write_text(text.replace(old, new))
        d = pathlib.Path(tempfile.mkdtemp(prefix="demo-"))
        if not problem:
            files = {f"src/pymanopt/{rel}" for rel, _, _ in p["edits"]}
            for f in files:
                problem = problem or original_lines_only(work, f)
        if not problem:
            (d / "demo.sh").write_text(DEMO_SH); os.chmod(d / "demo.sh", 0o755)
            (d / "demo.py").write_text(p["demo"])
            clean = sh(["bash", str(d / "demo.sh")], REPO)
            bad = sh(["bash", str(d / "demo.sh")], work)
            if clean.returncode != 0:
                problem = "demo fails on the clean tree: " + (clean.stdout + clean.stderr)[-600:]
            elif bad.returncode == 0:
                problem = "demo passes with the bug"
        if not problem:
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300",
                    "-W", "ignore", "--tb=line", "tests"], work, {"PYTHONPATH": str(work / "src")})
            if t.returncode != 0:
                problem = "tests fail: " + "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "rror" in l)[:500]
        if problem:
            print(f"REJECT {p['id']}: {problem}", flush=True)
        else:
            out = ROOT / "seeded" / p["id"]
            out.mkdir(parents=True, exist_ok=True)
            for n in ("demo.sh", "demo.py"):
                shutil.copy(d / n, out / n)
            (out / "patch.diff").write_text(sh(["git", "diff"], work).stdout)
            (out / "meta.json").write_text(json.dumps(
                {"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
            print(f"KEEP {p['id']} ({p['property']})", flush=True)
        shutil.rmtree(d)
    shutil.rmtree(work.parent)


main()
