"""Module level caches: every path starts with the ones of a fresh import."""

import copy
import types

SNAPS = {}


def snapshot(module):
    SNAPS[module] = {k: (v, copy.deepcopy(v) if isinstance(v, (dict, list, set)) else v) for k, v in vars(module).items()
                     if not k.startswith("__") and not isinstance(v, (types.FunctionType, type, types.ModuleType))}


def fresh(module):
    names = vars(module)
    for k, (v, was) in SNAPS[module].items():
        if isinstance(v, (dict, set)):
            v.clear()
            v.update(copy.deepcopy(was))
        elif isinstance(v, list):
            v[:] = copy.deepcopy(was)
        names[k] = v
    for v in list(names.values()):
        if hasattr(v, "cache_clear"):
            v.cache_clear()
