#!/opt/venv/bin/python
"""check.py <ID> [--thorough] [--replay FILE] [--profile]: runs the check of one property."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:])
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import tempfile  # noqa: E402

argv = [os.path.abspath(a) if i and sys.argv[1 + i] == "--replay" else a for i, a in enumerate(sys.argv[2:])]
os.chdir(tempfile.gettempdir())          # Hypothesis keeps its (unused) directory out of /verif
scratch = tempfile.mkdtemp(prefix="pbt-")
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = scratch
try:
    from pbt import harness
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)
try:
    code = harness.main(sys.argv[1], argv)
except Exception:
    import traceback
    traceback.print_exc()
    code = 2
finally:
    import shutil
    shutil.rmtree(scratch, ignore_errors=True)
sys.stdout.flush()
sys.exit(code)
