"""Entry point: ``python main.py <PROPERTY> [--replay FILE]``."""

import importlib
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("MON_REPO", "/repo")


def stage():
    """Copy the library from the repository's working tree (pure Python, so
    this is the build) so that nothing is ever written below /repo."""
    scratch = tempfile.mkdtemp(prefix="pymanopt-mon-")
    dst = os.path.join(scratch, "src")
    shutil.copytree(
        os.path.join(REPO, "src"),
        dst,
        ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"),
    )
    version = os.path.join(dst, "pymanopt", "_version.py")
    if not os.path.exists(version):
        with open(version, "w") as f:
            f.write("__version__ = version = '0+monitor'\n")
    shutil.copytree(
        os.path.join(REPO, "examples"), os.path.join(scratch, "examples")
    )
    sys.path.insert(0, scratch)
    sys.path.insert(0, dst)
    return scratch


def selftest():
    """setup_cmd: the interpreter, the dependencies and the staging work."""
    scratch = stage()
    try:
        import pymanopt

        print("monitoring pymanopt from", pymanopt.__file__)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def shard(prop, tier, seed, backend, index, count, scratch, out):
    """Worker of a sharded check: one process, one autodiff backend."""
    from registry import CHECKS

    for b in ("tensorflow", "torch", "jax"):
        if b != {"pytorch": "torch"}.get(backend, backend):
            sys.modules[b] = None
    sys.path.insert(0, scratch)
    sys.path.insert(0, os.path.join(scratch, "src"))
    import core

    check = importlib.import_module(CHECKS[prop][0]).CHECKS[prop]
    core.run_shard(prop, check, tier, seed, backend, int(index), int(count), out)
    return 0


def main():
    prop = sys.argv[1]
    if prop == "--selftest":
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--shard":
        return shard(prop, tier, seed, *sys.argv[3:])
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            witness = json.load(f)
        only, tier, seed = witness["case"], witness["tier"], witness["seed"]
    from registry import CHECKS

    module_name, backends = CHECKS[prop]
    for b in ("tensorflow", "torch", "jax"):
        if b not in backends:
            # "backend not installed" is a supported configuration; skipping
            # the import keeps checks that do not need it fast.
            sys.modules[b] = None
    scratch = stage()
    try:
        import pymanopt

        if not os.path.realpath(pymanopt.__file__).startswith(
            os.path.realpath(scratch)
        ):
            print("ERROR: wrong pymanopt:", pymanopt.__file__)
            return 2
        import core

        module = importlib.import_module(module_name)
        check = module.CHECKS[prop]
        return core.execute(
            prop, check, tier, seed, only_key=only,
            workers=int(os.environ.get("MON_WORKERS", "8")), scratch=scratch,
        )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
