"""check.py <property> [quick|thorough]: decide one property on /repo's working tree."""

import os
import sys
import tempfile

# never read or write byte code of the tree under test
sys.dont_write_bytecode = True
sys.pycache_prefix = tempfile.mkdtemp(prefix="verif_pyc_")
os.environ.setdefault("TZ", "UTC")

import atexit  # noqa: E402
import shutil  # noqa: E402

atexit.register(shutil.rmtree, sys.pycache_prefix, True)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core  # noqa: E402
import drivers  # noqa: E402
import d_values  # noqa: E402,F401
import d_heap  # noqa: E402,F401
import d_find  # noqa: E402,F401
import d_equal  # noqa: E402,F401
import d_libs  # noqa: E402,F401
import d_registry  # noqa: E402,F401
import d_names  # noqa: E402,F401
import d_files  # noqa: E402,F401
import d_order  # noqa: E402,F401
import d_schedule  # noqa: E402,F401
import d_refuse  # noqa: E402,F401
import d_platform  # noqa: E402,F401

sys.exit(core.main(drivers.DRIVERS))
