"""Entry point: run.py <PROPERTY> [--replay FILE] ; tier from VERIF_TIER, seed from VERIF_SEED."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)
from mc.core import rng
import networkx, numpy, pandas, scipy.sparse, scipy.linalg  # before installing: they keep their own generators
import geopandas, shapely, tqdm  # noqa
rng.install()
import warnings
warnings.simplefilter("ignore")
import gerrychain
assert os.path.realpath(gerrychain.__file__).startswith(os.path.realpath(REPO) + os.sep), gerrychain.__file__
from mc.core import harness


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = "mc.props." + pid.lower()
    if "--child" in argv:
        import importlib
        importlib.import_module(mod).child(argv[argv.index("--child") + 1])
        return 0
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            r = json.load(f)
        return harness.run_property(mod, r["tier"], seed, only=(r["kind"], _tup(r["params"])))
    return harness.run_property(mod, tier, seed)


def _tup(x):
    return x


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
