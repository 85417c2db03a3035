"""Loads deltares_wave_toolbox from /repo's current working tree.

The package is always compiled from source (a stale .pyc, whose validity is judged by a
timestamp in whole seconds, can never hide an edit), and it is asserted that it comes from /repo.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "deltares_wave_toolbox"


class _SourceLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as fh:
            return compile(fh.read(), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_SourceLoader(fullname, init), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_SourceLoader(fullname, base + ".py")
            )
        return None


sys.meta_path.insert(0, _Finder())

import deltares_wave_toolbox as dwt  # noqa: E402

assert dwt.__file__ == os.path.join(REPO, PKG, "__init__.py"), dwt.__file__

from deltares_wave_toolbox.cores import (  # noqa: E402,F401
    core_dispersion,
    core_engine,
    core_spectral,
    core_time,
    core_wave_decomposition,
    core_wavefunctions,
)
from deltares_wave_toolbox.series import Series, WaveHeights  # noqa: E402,F401
from deltares_wave_toolbox.spectrum import Spectrum  # noqa: E402,F401

import matplotlib.pyplot as plt  # noqa: E402

# the style sheet of the package asks for a large figure at a high resolution; the figures of the
# checks are only inspected, so that a small canvas does
plt.rcParams["figure.dpi"] = 40
plt.rcParams["savefig.dpi"] = 40
plt.rcParams["figure.max_open_warning"] = 0
