"""P07, P08: value names and header constants."""
import json
import os
from . import check
from .common import *
from sa.report import HERE


def oracle(name):
    return json.load(open(os.path.join(HERE, "oracle", name + ".json")))


DICTS = [("UCDTypeDictionaries", n, p) for n, p in (
    ("bidiClassNames", "bc"), ("blockNames", "blk"), ("decompositionTypeNames", "dt"), ("eastAsianWidthNames", "ea"), ("generalCategoryNames", "gc"),
    ("graphemeClusterBreakNames", "GCB"), ("hangulSyllableTypeNames", "hst"), ("indicPositionalCategoryNames", "InPC"), ("indicSyllabicCategoryNames", "InSC"),
    ("joiningGroupNames", "jg"), ("joiningTypeNames", "jt"), ("lineBreakNames", "lb"), ("numberTypeNames", "nt"), ("sentenceBreakNames", "SB"), ("scriptNames", "sc"),
    ("verticalOrientationNames", "vo"), ("wordBreakNames", "WB"))]
DICTS += [("GeneralCategories", "generalCategories", "gc"), ("Scripts", "scriptCodes", "sc"), ("EastAsianWidth", "eastAsianWidthNames", "ea"),
          ("CharDirection", "bidiClassNames", "bc"), ("DecompositionType", "decompositionTypeNames", "dt"), ("Boundaries", "graphemeClusterBreakNames", "GCB"),
          ("Boundaries", "wordBreakNames", "WB"), ("Boundaries", "sentenceBreakNames", "SB"), ("Boundaries", "lineBreakNames", "lb"),
          ("JoiningTypesAndGroups", "joiningTypes", "jt"), ("JoiningTypesAndGroups", "joiningGroups", "jg"), ("Blocks", "blockNames", "blk"),
          ("LayoutTypes", "inpcNames", "InPC"), ("LayoutTypes", "inscNames", "InSC"), ("LayoutTypes", "voNames", "vo")]


def constant(vm, v):
    """A module-level value as a Python one."""
    if isinstance(v, Lin) and not v.terms:
        return v.const
    if isinstance(v, tuple):
        return tuple(constant(vm, x) for x in v)
    return v


@check("P07")
def p07(ctx):
    names = oracle("names13")

    def one(mod, var_, prop):
        label = "%s.%s" % (mod, var_)
        vm = ctx.project.vm
        v = ctx.anchor("UnicodeData." + mod, var_)
        o = vm.base.get(v.id) if isinstance(v, Ref) else None
        if o is None or o.kind != "dict":
            ctx.undecide(label, "not a dictionary of constants")
            return
        d = {constant(vm, k): constant(vm, x) for k, x in o.d.items()}
        ctx.count("entries", len(d))
        bad = []
        for k, want in names[prop].items():
            got = d.get(int(k))
            if got != want:
                bad.append((int(k), want, got))
        for k in d:
            if not isinstance(k, int):
                bad.append((k, "no such code", d[k]))
        opaque = [b for b in bad if not (b[2] is None or isinstance(b[2], str))]
        if opaque:
            ctx.undecide(label, "values that are no constants: %r" % (opaque[0],))
        elif bad:
            ctx.violate(label, "UnicodeData/%s.py:%s" % (mod, var_), witness="code %r" % (bad[0][0],), got_value=repr(bad[0][2]), expected_value=repr(bad[0][1]),
                        what="%d entries differ" % len(bad))
        else:
            ctx.ok(label, entries=len(d))
    for m, n, p in DICTS:
        ctx.guard("%s.%s" % (m, n), one, m, n, p)
    return {"explanation": "The module-level code that builds each dictionary is interpreted; every code's name is compared with the short name Unicode gives the value.",
            "trusted": ["the abstract interpreter in /verif/sa", "/verif/oracle/names13.json: names confirmed by perl's value aliases and, for codes without characters, ISO 15924"]}


@check("P08")
def p08(ctx):
    vm = ctx.project.vm

    def module(mod, consts):
        bad, missing, opaque = [], [], []
        attrs = module_attrs(ctx, "UnicodeData." + mod)
        for n, want in consts.items():
            if n not in attrs:
                missing.append(n)
                continue
            got = constant(vm, attrs[n])
            ctx.count("constants")
            if type(got) in (int, str, bool, tuple) or got is None:
                if got != want or isinstance(got, bool):
                    bad.append((n, want, got))
            elif isinstance(got, Fraction) or isinstance(got, float):
                if got != want:
                    bad.append((n, want, got))
            else:
                opaque.append(n)
        for n, want, got in bad[:4]:
            ctx.violate("%s.%s" % (mod, n), "UnicodeData/%s.py:%s" % (mod, n), witness="the constant", got_value=repr(got), expected_value=repr(want))
        if opaque or missing:
            ctx.undecide(mod, "%d constants are gone, %d are no constants" % (len(missing), len(opaque)), first=(missing + opaque)[:3])
        elif not bad:
            ctx.ok(mod, constants=len(consts))
    for mod, consts in sorted(oracle("icu_constants").items()):
        ctx.guard(mod, module, mod, consts)
    s = ctx.spec("consts")
    for mod in ("uchar_h", "UCDTypeDictionaries"):
        ctx.equiv("%s.U_MASK" % mod, lambda: ctx.anchor("UnicodeData." + mod, "U_MASK"), s("U_MASK"), fixed(var("x", 0, 31)), where="UnicodeData/uchar_h.py:U_MASK")
    return {"explanation": "Module-level constant expressions are interpreted and compared with the values of ICU's headers.",
            "trusted": ["the abstract interpreter in /verif/sa", "/verif/oracle/icu_constants.json"]}
