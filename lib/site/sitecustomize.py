"""On the path of every driver process: modules of the code under test are always compiled from source
(a stale bytecode file next to them is never used), all others may use their bytecode files."""
import importlib._bootstrap_external as _b
import os

_repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
_orig = _b.cache_from_source


def _cache_from_source(path, *a, **k):
    if os.path.realpath(path).startswith(_repo):
        raise NotImplementedError
    return _orig(path, *a, **k)


_b.cache_from_source = _cache_from_source
