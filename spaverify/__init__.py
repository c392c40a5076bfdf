"""spaverify: contract based deductive verification of surface_potential_analysis."""
import importlib
import os
import sys


def load_contracts():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    if os.path.dirname(d) not in sys.path:
        sys.path.insert(0, os.path.dirname(d))
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
