"""Import paths: the code under test always comes from /repo's working tree.

The interpreter is /opt/venv/bin/python (which has the dependencies of the
project); Hypothesis, a pure Python package, is taken from the tooling venv,
appended at the end of the path so that nothing of it shadows the project.
"""

import os
import sys
import glob

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True

if REPO not in sys.path:
    sys.path.insert(0, REPO)

for _p in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
    if _p not in sys.path:
        sys.path.append(_p)

if VERIF not in sys.path:
    sys.path.insert(1, VERIF)

# The version of the package is read from the installed metadata.
# The checks do not depend on the package being installed.
import importlib.metadata as _md  # noqa: E402

try:
    _md.version("mau")
except _md.PackageNotFoundError:
    _orig_version = _md.version
    _md.version = lambda name: "0" if name == "mau" else _orig_version(name)
