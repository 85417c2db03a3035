"""Setup: nothing has to be built; checks that everything the checks import is there."""
import os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ["MPLBACKEND"] = "Agg"
from wtb.harness import HYP, _setup_env
import shutil
d = _setup_env()
sys.path.append(HYP)
try:
    import importlib, json
    import hypothesis, numpy, scipy, matplotlib
    from wtb import sut
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    for i in ids:
        importlib.import_module("wtb.props." + i.lower())
    print(f"{len(ids)} properties; hypothesis {hypothesis.__version__}, numpy {numpy.__version__}, scipy {scipy.__version__},"
          f" matplotlib {matplotlib.__version__}; code under test: {sut.dwt.__file__}")
finally:
    shutil.rmtree(d, ignore_errors=True)
