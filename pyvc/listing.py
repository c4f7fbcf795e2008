"""What is registered for a property (without importing the code under test)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "pyvc itself: its semantics of the Python subset (cross-checked natively against CPython on every run, see concrete)",
    "floats are mathematical reals extended with inf/nan, except where a contract says otherwise; rounding is not modelled",
    "sequence lemmas built into pyvc (pointwise congruence of sums, folds, searches; split of a sum; argmax/witness facts)",
    "z3",
]


def _load():
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    from . import api
    import importlib

    if not api.REGISTRY:
        for d in ("contracts", "runtime"):
            p = os.path.join(VERIF, d)
            for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
                if f.endswith(".py") and not f.startswith("_"):
                    importlib.import_module(d + "." + f[:-3])
    return api


def of(prop):
    api = _load()
    return [c.ident for c in api.REGISTRY if c.prop == prop], [f.ident for f in api.RUNTIME if f.prop == prop]


def describe(prop):
    with open(os.path.join(VERIF, "levels.json")) as fh:
        d = json.load(fh)
    return d.get(prop, {"level": "proof"})


def z3_version():
    import z3

    return z3.get_version_string()


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out
