"""setup_cmd: confirms that the interpreter, Hypothesis, the library and the generators are usable. Builds nothing."""
import os
import sys
import tempfile

os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = tempfile.gettempdir()
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env, gen, oracle  # noqa: E402,F401
from pbt.table import OBJS, PMAPS, ROOT  # noqa: E402
from hypothesis import find, settings  # noqa: E402

doc = find(gen.documents(), lambda d: True, settings=settings(max_examples=50, database=None, deadline=None))
assert oracle.conforms(ROOT, doc) is None
print(f"ready: {len(OBJS)} objects, {len(PMAPS)} patterned maps")
