"""Framework of the property checks: import this before rf or hypothesis."""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_BORROW = ('hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis')


class _Borrow(importlib.abc.MetaPathFinder):
    """Finds Hypothesis (and only it) in the verification tools' environment."""

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if path is None and top.startswith(_BORROW):
            return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
        return None


sys.meta_path.append(_Borrow())
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
