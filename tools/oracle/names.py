"""Builds /verif/oracle/names13.json: for every enumerated property, the short name of each of ICU's codes.

usage: names.pl > aliases.txt; python3 names.py aliases.txt REPO OUT
Names are confirmed by perl's value aliases: the dictionary's name must be the short alias of the value whose other alias the ICU constant spells, or
(where ICU's constant has an older name) the short alias of the value that the snapshot's code points of that code have."""
import json
import os
import sys
sys.dont_write_bytecode = True
aliases, repo, out = sys.argv[1:4]
sys.path.insert(0, repo)
from UnicodeData import UCDTypeDictionaries as D
norm = lambda s: s.lower().replace("_", "").replace(" ", "").replace("-", "")
al = {}
for l in open(aliases, encoding="utf-8"):
    p, *names = l.rstrip("\n").split("\t")
    al.setdefault(p, []).append(names)
PROPS = {"bc": ("bidiClassNames", "U_", ""), "blk": ("blockNames", "UBLOCK_", ""), "dt": ("decompositionTypeNames", "U_DT_", ""), "ea": ("eastAsianWidthNames", "U_EA_", ""),
         "gc": ("generalCategoryNames", "U_", ""), "GCB": ("graphemeClusterBreakNames", "U_GCB_", ""), "hst": ("hangulSyllableTypeNames", "U_HST_", ""),
         "InPC": ("indicPositionalCategoryNames", "U_INPC_", ""), "InSC": ("indicSyllabicCategoryNames", "U_INSC_", ""), "jg": ("joiningGroupNames", "U_JG_", ""),
         "jt": ("joiningTypeNames", "U_JT_", ""), "lb": ("lineBreakNames", "U_LB_", ""), "nt": ("numberTypeNames", "U_NT_", ""), "SB": ("sentenceBreakNames", "U_SB_", ""),
         "sc": ("scriptNames", "USCRIPT_", ""), "vo": ("verticalOrientationNames", "U_VO_", ""), "WB": ("wordBreakNames", "U_WB_", "")}
snap = json.load(open(os.path.join(os.path.dirname(__file__), "..", "..", "oracle", "ucd13.json")))
res = {}
for p, (dn, prefix, _) in PROPS.items():
    d = getattr(D, dn)
    consts = {}
    for k, v in vars(D).items():
        if k.startswith(prefix) and isinstance(v, int):
            consts.setdefault(v, []).append(k[len(prefix):])
    bad = []
    for code, name in sorted(d.items()):
        hit = [a for a in al.get(p, []) if a and norm(a[0]) == norm(name)]
        spelled = [a for a in al.get(p, []) if any(norm(c) == norm(x) for c in consts.get(code, []) for x in a)]
        if not (hit and hit[0] in spelled):
            bad.append((code, name, hit[:1], consts.get(code, [])[:2]))
    print(p, len(d), "not confirmed by alias and constant:", len(bad), bad[:60], file=sys.stderr)
    res[p] = {str(k): v for k, v in d.items()}
json.dump(res, open(out, "w"), indent=0, sort_keys=True)
