import importlib
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(1, os.path.join(os.path.dirname(HERE), "checks"))
logging.disable(logging.CRITICAL)

import vt  # noqa: E402

prop = sys.argv[1]
module = importlib.import_module(prop.lower())
code = vt.main(prop, module)
sys.stdout.flush()
os._exit(code)
