"""Source of properties.jsonl and MANIFEST.json: ``python3 tools/props.py``."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAN = "src/pymanopt/manifolds/"
ALLMAN = [
    MAN + f
    for f in (
        "manifold.py", "complex_circle.py", "euclidean.py", "fixed_rank.py",
        "grassmann.py", "group.py", "hyperbolic.py", "oblique.py",
        "positive.py", "positive_definite.py", "product.py", "psd.py",
        "sphere.py", "stiefel.py",
    )
]
OPT = "src/pymanopt/optimizers/"
ALLOPT = [
    OPT + f
    for f in (
        "optimizer.py", "steepest_descent.py", "conjugate_gradient.py",
        "trust_regions.py", "nelder_mead.py", "particle_swarm.py",
        "line_search.py",
    )
]
AD = "src/pymanopt/autodiff/"
ALLAD = [
    AD + "__init__.py", AD + "backends/_autograd.py", AD + "backends/_jax.py",
    AD + "backends/_pytorch.py", AD + "backends/_tensorflow.py",
    "src/pymanopt/core/problem.py",
]
SPACES = (
    "every shipped manifold class, any dimension, any number of stacked "
    "copies, products of them"
)
P = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         state=(), note=None, level="exploration"):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier={"over": over, "text": text}, why_tests_cant=why,
            anchors={
                "files": files,
                "state": [
                    dict(name=n, meaning=m, where=w) for n, m, w in state
                ],
                "mechanism": [dict(name=n, where=w) for n, w in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
            note=note,
        )
    )


exec(open(os.path.join(VERIF, "tools", "props_manifolds.py")).read())
for extra in ("props_autodiff.py", "props_optimizers.py", "props_tools.py"):
    path = os.path.join(VERIF, "tools", extra)
    if os.path.exists(path):
        exec(open(path).read())

TECH = (
    "runtime monitoring: online oracles over real executions of randomized "
    "and adversarial workloads"
)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "note"}
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps(q) + "\n")
    checks = [
        {
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick ./run {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run {p['id']}",
            "technique": TECH,
            "level": "exploration",
            "level_note": p["note"]
            or "oracle verdicts hold for the executions observed; counts, "
            "distinct inputs and closest calls are in the evidence file",
        }
        for p in P
    ]
    manifest = {
        "version": 1,
        "setup_cmd": "./run --selftest",
        "checks": checks,
        "not_applicable": [],
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
