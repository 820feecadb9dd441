"""All contracts on /repo's functions (sidecar: the source is parsed, never edited)."""
import importlib
import os
import pkgutil

from pyver.spec import Registry

from .props import PROPS  # noqa: F401


def load(only=None):
    reg = Registry()
    for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(__file__)])):
        if m.startswith("c_") and (only is None or m in only):
            importlib.import_module(f"contracts.{m}").register(reg)
    return reg
