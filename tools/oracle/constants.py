"""Builds /verif/oracle/icu_constants.json: the integer constants of the ICU headers that the package mirrors (ICU 69), by module.

usage: constants.py REPO OUT
Taken from the translated headers of the reviewed tree; the values of enumerations that appear in the tables are confirmed by ucd13.json (their codes)
and names13.json (their names)."""
import importlib
import json
import sys
sys.dont_write_bytecode = True
repo, out = sys.argv[1:3]
sys.path.insert(0, repo)
MODS = "uchar_h uscript_h uprops_h ucase_h GeneralCategories Scripts EastAsianWidth CharDirection DecompositionType Boundaries JoiningTypesAndGroups Blocks LayoutTypes Characters BidiProps"
res = {}
for m in MODS.split():
    mod = importlib.import_module("UnicodeData." + m)
    res[m] = {k: v for k, v in vars(mod).items() if type(v) in (int, float, str) and not k.startswith("__") and (m != "BidiProps" or k.startswith("UBIDI_"))}
json.dump(res, open(out, "w"), indent=0, sort_keys=True)
print(sum(map(len, res.values())))
