"""The code under test, always imported from the working tree of /repo."""
import os
import sys
import warnings

REPO = os.environ.get("FORONOI_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import foronoi  # noqa: E402

if not os.path.realpath(foronoi.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"foronoi was imported from {foronoi.__file__}, not from {REPO}")

from foronoi import Voronoi, Polygon, BoundingBox  # noqa: E402,F401
from foronoi.graph import Coordinate  # noqa: E402,F401


def build(poly, sites, **kwargs):
    """The plain public use of the library."""
    v = Voronoi(Polygon(poly), **kwargs)
    v.create_diagram(sites)
    return v
