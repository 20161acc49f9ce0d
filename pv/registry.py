"""Contracts registered per property (shared by the verifier and the native replay)."""
import importlib
import os
import sys

CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, functions, opts):
        self.prop, self.name, self.fn, self.functions, self.opts = prop, name, fn, functions, opts


def contract(prop, name, functions=(), **opts):
    """opts: sym=False (bounded only), conc=False (no native run), samples=N, timeout=s"""

    def deco(fn):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, name, fn, tuple(functions), opts))
        return fn

    return deco


def load(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    importlib.import_module("contracts." + prop.lower())
    return CONTRACTS[prop]
