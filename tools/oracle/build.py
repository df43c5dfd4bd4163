"""Builds /verif/oracle/ucd13.json from the dumps of two independent Unicode
implementations (Java 17 = Unicode 13, perl 5 = Unicode 15).

usage: dump.pl > perl.txt; java Dump.java > java.txt; python3 build.py perl.txt java.txt REPO OUT

Where perl's later Unicode version may have changed a value (the code point was
assigned after 13.0, or the value differs from this tree's and no Unicode 13
source confirms either) the code point is marked unconfirmed ("*")."""
import json, sys
sys.dont_write_bytecode = True
perl, java, repo, out = sys.argv[1:5]
sys.path.insert(0, repo)
N = 0x110000
from UnicodeData import UCDTypeDictionaries as D, CharProps as P, BidiProps as BP, uchar_h as U, uprops_h as H
inv = {}
for l in open(perl, encoding="utf-8"):
    p, s, v = l.rstrip("\n").split("\t")
    inv.setdefault(p, []).append((int(s, 16), v))
def expand(p):
    r = [None] * N
    L = inv[p]
    for i, (s, v) in enumerate(L):
        e = L[i + 1][0] if i + 1 < len(L) else N
        e = min(e, N)
        for c in range(s, e): r[c] = v
    return r
J = [l.rstrip("\n").split("\t") for l in open(java, encoding="utf-8")]
jcol = {n: i for i, n in enumerate("cp gc bc script block mirrored lower upper title nfd nfkd alpha ideo fullupper fulllower digit".split())}
def jc(n): return [r[jcol[n]] for r in J]
assert len(J) == N
age = expand("age")
def av(a):
    return None if a in ("NA", "Unassigned") else tuple(int(x) for x in a.split("."))
later = [(a is not None and a > (13, 0)) for a in map(av, age)]
norm = lambda s: s.lower().replace("_", "").replace(" ", "").replace("-", "")
def rev(d):
    return {norm(v): k for k, v in d.items()}
snap = {}
def emit(name, oracle, got, strict=False, note=""):
    """oracle: list of values or None when unconfirmed."""
    bad = [c for c in range(N) if oracle[c] is not None and oracle[c] != got(c)]
    badl = [c for c in bad if not later[c]]
    print("%-24s mismatches %d (not counting later-assigned %d) %s" % (name, len(bad), len(badl), [(hex(c), oracle[c], got(c)) for c in badl[:6]]), file=sys.stderr)
    vals = list(oracle)
    if not strict:
        for c in range(N):
            if later[c] : vals[c] = None
        for c in bad: vals[c] = None
    runs = []
    for c in range(N):
        v = vals[c]
        if not runs or runs[-1][1] != v: runs.append([c, v])
    snap[name] = runs
    unk = sum(v is None for v in vals)
    print("   unconfirmed %d, runs %d" % (unk, len(runs)), file=sys.stderr)
def enum(p, d, getter, name, extra=None, strict=False):
    r = rev(d); r.update(extra or {})
    o = expand(p)
    miss = sorted({v for v in o if norm(v) not in r})
    if miss: print("   no code for", p, miss, file=sys.stderr)
    emit(name, [r.get(norm(v)) for v in o], getter, strict)
def jenum(col, d, getter, name):
    r = rev(d); o = jc(col)
    miss = sorted({v for v in o if norm(v) not in r})
    if miss: print("   no code for java", col, miss, file=sys.stderr)
    emit(name, [r.get(norm(v)) for v in o], getter, True)
jenum("gc", D.generalCategoryNames, P.getGeneralCategory, "gc")
rb = rev(D.bidiClassNames); pb = expand("bc")
emit("bc", [rb.get(norm(v)) if v != "?" else rb.get(norm(pb[c])) for c, v in enumerate(jc("bc"))], BP.getCharDirection)
from collections import Counter
def jlearn(col, p, d, getter, name):
    """Java's long names, matched to codes through perl's short names."""
    r = rev(d); pv = expand(p); jv = jc(col); cnt = {}
    for c in range(N):
        k = r.get(norm(pv[c]))
        if not later[c] and k is not None: cnt.setdefault(jv[c], Counter())[k] += 1
    m = {a: b.most_common(1)[0][0] for a, b in cnt.items()}
    assert len(set(m.values())) == len(m), name
    emit(name, [m.get(v) for v in jv], getter, True)
jlearn("script", "sc", D.scriptNames, P.getScript, "sc")
jlearn("block", "blk", D.blockNames, P.getBlock, "blk")
enum("ea", D.eastAsianWidthNames, P.getEastAsianWidth, "ea")
enum("lb", D.lineBreakNames, P.getLineBreak, "lb")
enum("sb", D.sentenceBreakNames, P.getSentenceBreak, "sb")
ws = expand("wb"); gcp = jc("gc")
for c in range(N):
    pass
rw = rev(D.wordBreakNames)
def wbv(c):
    v = ws[c]
    if "HSpace" in v:
        return U.U_WB_WSEGSPACE if gcp[c] == "Zs" and c not in (0xA0, 0x2007, 0x202F) else U.U_WB_OTHER
    if v.startswith("ExtPict_"): v = v[8:]
    return rw.get(norm(v))
print("wb unmapped", sorted({ws[c] for c in range(N) if wbv(c) is None}), file=sys.stderr)
emit("wb", [wbv(c) for c in range(N)], P.getWordBreak)
g = expand("gcb"); rg = rev(D.graphemeClusterBreakNames)
f = lambda v: rg.get(norm(v[8:] if v.startswith("ExtPict_") else v))
print("gcb unmapped", sorted({v for v in g if f(v) is None}), file=sys.stderr)
emit("gcb", [f(v) for v in g], P.getGraphemeClusterBreak)
enum("dt", D.decompositionTypeNames, P.getDecompType, "dt")
emit("age", [0 if av(a) is None else av(a)[0] * 16 + av(a)[1] if av(a) <= (13, 0) else None for a in age],
     lambda c: (lambda x: x[0] * 16 + x[1])(P.getAge(c)))
enum("nt", D.numberTypeNames, P.getNumericType, "nt")
nv = [None] * N
for i, (s_, v) in enumerate(inv["nv"]):
    e_ = min(inv["nv"][i + 1][0] if i + 1 < len(inv["nv"]) else N, N)
    for c in range(s_, e_):
        nv[c] = str(int(v) + c - s_) if v.lstrip("-").isdigit() else v
def num(v):
    if v == "NaN": return "none"
    if "/" in v:
        a, b = v.split("/"); return "%d/%d" % (int(a), int(b))
    x = float(v)
    return "%d/1" % int(x) if x == int(x) else v
from fractions import Fraction
def gotnv(c):
    v = P.getNumericValue(c)
    if v is None: return "none"
    fr = Fraction(v).limit_denominator(2000)
    return "%d/%d" % (fr.numerator, fr.denominator)
def red(s):
    if s == "none": return s
    fr = Fraction(s); return "%d/%d" % (fr.numerator, fr.denominator)
emit("nv", [red(num(v)) for v in nv], gotnv)
enum("jt", D.joiningTypeNames, BP.getJoiningType, "jt")
enum("jg", D.joiningGroupNames, BP.getJoiningGroup, "jg")
enum("bpt", {0: "n", 1: "o", 2: "c"}, BP.getPairedBracketType, "bpt")
def delta(p):
    r = [None] * N
    L = inv[p]
    for i, (s, v) in enumerate(L):
        e = min(L[i + 1][0] if i + 1 < len(L) else N, N)
        for c in range(s, e):
            if v in ("-", ""): r[c] = c
            elif v.startswith("+"):
                k = int(v[1:])
                r[c] = k if p in ("bmg", "bpb") else (c if k == 0 else k + (c - s))
            else: r[c] = [int(x, 16) for x in v.split()]
    return r
def emitd(name, o, got, strict=False):
    # stored as differences from c
    bad = [c for c in range(N) if o[c] is not None and o[c] != got(c)]
    print("%-24s mismatches %d %s" % (name, len(bad), [(hex(c), o[c], got(c)) for c in bad[:8]]), file=sys.stderr)
    d = {}
    for c in range(N):
        v = o[c]
        if not strict and (later[c] or c in badset(bad)): v = None
        if v != c and v != [c]: d["%X" % c] = v
    snap[name] = d
_b = {}
def badset(b):
    k = id(b)
    if k not in _b: _b[k] = set(b)
    return _b[k]
emitd("bmg", delta("bmg"), BP.getMirror)
emitd("bpb", delta("bpb"), BP.getPairedBracket)
from UnicodeData import CaseProps as CP
for n, gg in (("lower", CP.toLower), ("upper", CP.toUpper), ("title", CP.toTitle)):
    emitd("s" + n, [int(x, 16) for x in jc(n)], gg, True)
def L(s): return [ord(x) for x in s]
fu = jc("fullupper"); fl = jc("fulllower")
h = lambda s, c: [int(x, 16) for x in s.split()] if s else [c]
emitd("fupper", [h(fu[c], c) for c in range(N)], lambda c: L(CP.toFullUpper(c)), True)
emitd("flower", [h(fl[c], c) for c in range(N)], lambda c: L(CP.toFullLower(c)), True)
ft = delta("tc")
emitd("ftitle", [v if isinstance(v, list) else [v] for v in ft], lambda c: L(CP.toFullTitle(c)))
nfd = jc("nfd"); 
d = {}
for c in range(N):
    v = h(nfd[c], c)
    if v != [c]: d["%X" % c] = v
snap["nfd"] = d
import unicodedata as UD
from UnicodeData import Norm2NFCData
d = {}
for c in range(N):
    if 0xAC00 <= c <= 0xD7A3:
        i = c - 0xAC00
        d["%X" % c] = [c - i % 28, 0x11A7 + i % 28] if i % 28 else [0x1100 + i // 588, 0x1161 + i % 588 // 28]
        continue
    v = UD.decomposition(chr(c))
    if v and "<" not in v: d["%X" % c] = None if later[c] else [int(x, 16) for x in v.split()]
snap["dm"] = d
BIN = {"WSpace":0,"Dash":1,"Hyphen":2,"QMark":3,"Term":4,"Math":5,"Hex":6,"AHex":7,"Alpha":8,"Ideo":9,"Dia":10,"Ext":11,"NChar":12,"Gr_Ext":13,"Gr_Link":14,"IDSB":15,"IDST":16,"Radical":17,"UIdeo":18,"DI":19,"Dep":20,"LOE":21,"XIDS":22,"XIDC":23,"IDS":24,"IDC":25,"Gr_Base":26,"STerm":27,"VS":28,"Pat_Syn":29,"Pat_WS":30,"PCM":31}
for p, b in BIN.items():
    if p not in inv: print("absent", p, file=sys.stderr); continue
    first = inv[p][0][0]
    if first: inv[p].insert(0, (0, "N"))
    o = [int(v == "Y") for v in expand(p)]
    if p == "Alpha": o = [int(x) for x in jc("alpha")]
    emit("b1:%d" % b, o, lambda c, b=b: int(P.getBinaryProp(c, b)), p == "Alpha")
E2 = {"ExtPict": "EXTENDED_PICTOGRAPHIC", "EComp": "EMOJI_COMPONENT", "Emoji": "EMOJI", "EPres": "EMOJI_PRESENTATION", "EMod": "EMOJI_MODIFIER", "EBase": "EMOJI_MODIFIER_BASE"}
for p, n in E2.items():
    if inv[p][0][0]: inv[p].insert(0, (0, "N"))
    b = getattr(H, "UPROPS_2_" + n)
    emit("b2:%d" % b, [int(v == "Y") for v in expand(p)], lambda c, b=b: int(P.getBinaryProp(c, b, 2)))
for p, n, fn in (("Join_C", "join_c", BP.isJoinControl), ("Bidi_C", "bidi_c", BP.isBidiControl)):
    if inv[p][0][0]: inv[p].insert(0, (0, "N"))
    emit(n, [int(v == "Y") for v in expand(p)], lambda c, fn=fn: int(fn(c)))
emit("bidi_m", [int(x) for x in jc("mirrored")], lambda c: int(BP.isMirrored(c)), True)
json.dump(snap, open(out, "w"), separators=(",", ":"))
