#!/opt/venv/bin/python
"""Entry point of the checks: run.py <property-id> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

# Everything that influences numpy/matplotlib has to be set before they are imported.
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from wtb.harness import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
