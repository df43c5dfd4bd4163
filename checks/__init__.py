"""The checks, by property id."""
REGISTRY = {}


def check(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


from . import tries, enum, props, bidi, case, util, norm, uset, data, files, names, ucd, consts, purity   # noqa: E402,F401
