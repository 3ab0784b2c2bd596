"""Sidecar contracts, one module per property."""
import importlib

MODULES = {"C01": ["jacobian"], "C02": ["residual"], "C03": ["results"],
           "C04": ["connection"], "C05": ["units"], "C06": ["numeric"],
           "C07": ["chars"], "C08": ["bus"], "C09": ["exergy"],
           "C10": ["mixtures"],
           "C11": ["reactors"], "C12": ["system"],
           "C13": ["topology"], "C14": ["storage"],
           "C15": ["switching"],
           "C16": ["wrappers"],
           "C17": ["corrections"],
           "C18": ["optimise"],
           "C19": ["reports", "documentation"]}
INFO = {}


def harnesses(prop, tier):
    out = []
    for m in MODULES[prop]:
        out += importlib.import_module("contracts." + m).harnesses(tier)
    return out
