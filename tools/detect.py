"""Run the claimed check against planted bugs: python3 tools/detect.py [ID ...]

Works on scratch copies of /repo (MON_REPO); prints one line per bug.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time

ROOT = pathlib.Path(__file__).resolve().parent.parent
man = json.load(open(ROOT / "MANIFEST.json"))
checks = {c["property"]: c for c in man["checks"]} if "property" in man["checks"][0] else {c["property_id"]: c for c in man["checks"]}
ids = sys.argv[1:] or sorted(p.name for p in (ROOT / "seeded").iterdir())
work = pathlib.Path(tempfile.mkdtemp(prefix="detect-")) / "repo"
subprocess.check_call(["cp", "-a", "/repo", str(work)])
for i in ids:
    d = ROOT / "seeded" / i
    prop = json.load(open(d / "meta.json"))["property"]
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=work)
    subprocess.check_call(["git", "apply", str(d / "patch.diff")], cwd=work)
    t = time.time()
    cmd = checks[prop].get("quick_cmd") or checks[prop].get("quick")
    r = subprocess.run(cmd, shell=True, cwd=ROOT, text=True, capture_output=True,
        env=dict(os.environ, MON_REPO=str(work), MON_NO_EVIDENCE="1", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    state = "CAUGHT" if r.returncode == 1 and any(f"property={prop}" in l for l in v) else f"MISSED rc={r.returncode}"
    print(f"{state} {i} {prop} {time.time() - t:.0f}s {v[0] if v else (r.stdout + r.stderr)[-300:]}", flush=True)
shutil.rmtree(work.parent)
