#!/opt/venv/bin/python
"""run.py Cnn            decide property Cnn on /repo's working tree
   run.py --replay FILE  re-run one recorded violation"""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from mc import engine  # noqa: E402


def main():
    if sys.argv[1] == "--replay":
        engine.import_target()
        return engine.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        engine.import_target()
        import importlib
        spec = importlib.import_module("mc.checks." + prop).SPEC
    except Exception:       # the tree under test cannot even be imported or lacks a public name
        import traceback
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as fp:
            fp.write(traceback.format_exc())
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return engine.run_property(prop, spec, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
