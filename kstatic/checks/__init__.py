"""registry: property id -> check function"""
REG = {}


def check(pid, technique, note, floor):
    """floor: minimum number of decided obligations on any healthy tree (vacuity guard)"""
    def deco(fn):
        REG[pid] = {"fn": fn, "technique": technique, "note": note, "floor": floor}
        return fn
    return deco


def load():
    import importlib
    import pkgutil
    for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
        importlib.import_module(__name__ + "." + m)
    return REG
