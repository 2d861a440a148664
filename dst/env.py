"""Imports the code under test on top of the simulator (order matters)."""
import logging
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
from . import simos          # noqa: E402
simos.install()
REPO = os.environ.get("DST_REPO", "/repo")
sys.path.insert(0, REPO)
import ocfl                   # noqa: E402
assert os.path.dirname(os.path.dirname(os.path.abspath(ocfl.__file__))) == REPO, ocfl.__file__
import bagit                  # noqa: E402,F401
from . import store           # noqa: E402
store.register()
logging.getLogger().addHandler(logging.NullHandler())
logging.getLogger().setLevel(logging.CRITICAL)
logging.getLogger("bagit").addHandler(logging.NullHandler())
logging.getLogger("bagit").propagate = False

