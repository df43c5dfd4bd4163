"""X01-X03: character records read from the UCD XML files."""
import json
from . import check
from .common import *

MOD = "UnicodeData.CharacterData"
W = "UnicodeData/%s.py"
T, F = "text", "flag"

FIELDS = {
    "": ("CharacterData", [
        ("codePoint", "cp", "code_point"), ("cp", "cp", T), ("combiningClass", "ccc", "integer"), ("name", "na", "name"), ("generalCategory", "gc", T),
        ("numericType", "nt", T), ("numericValue", "nv", "number"), ("script", "sc", T), ("scriptExtensions", "scx", "several"), ("block", "blk", "spaced"),
        ("joiningType", "jt", T), ("joiningGroup", "jg", "spaced"), ("isJoiningControl", "Join_C", F), ("lineBreak", "lb", T), ("sentenceBreak", "SB", T),
        ("wordBreak", "WB", T), ("graphemeClusterBreak", "GCB", T), ("eastAsianWidth", "ea", T), ("hangulSyllableType", "hst", T),
        ("jamoShortName", "JSN", T), ("verticalOrientation", "vo", T), ("emoji", "Emoji", F), ("emojiPresentation", "EPres", F), ("emojiModifier", "EMod", F),
        ("emojiModifierBase", "EBase", F), ("emojiComponent", "EComp", F), ("extendedPictograph", "ExtPict", F)]),
    "bidiProperties": ("BidiProperties", [
        ("bidiClass", "bc", T), ("bidiMirrored", "Bidi_M", F), ("bidiMirroredGlyph", "bmg", "mirror"), ("bidiControl", "Bidi_C", F),
        ("bidiPairedBracketType", "bpt", T), ("bidiPairedBracket", "bpb", "bracket")]),
    "decompProperties": ("DecompProperties", [
        ("decompositionType", "dt", T), ("decomposition", "dm", "decomposed"), ("compositionExclusion", "CE", F), ("fullCompositionExclusion", "Comp_Ex", F),
        ("nfcQuickCheck", "NFC_QC", T), ("nfdQuickCheck", "NFD_QC", T), ("nfkcQuickCheck", "NFKC_QC", T), ("nfkdQuickCheck", "NFKD_QC", T),
        ("expandOnNFC", "XO_NFC", F), ("expandOnNFD", "XO_NFD", F), ("expandOnNFKC", "XO_NFKC", F), ("expandOnNFKD", "XO_NFKD", F),
        ("nfkcFullClosure", "FC_NFKC", "decomposed"), ("nfkcCaseFolded", "NFKC_CF", "folded")]),
    "caseProperties": ("CaseProperties", [
        ("upper", "Upper", F), ("lower", "Lower", F), ("otherUpper", "OUpper", F), ("otherLower", "OLower", F),
        ("simpleUpperCase", "suc", "mapped"), ("simpleLowerCase", "slc", "mapped"), ("simpleTitleCase", "stc", "mapped"),
        ("upperCase", "uc", "mapped"), ("lowerCase", "lc", "mapped"), ("titleCase", "tc", "mapped"), ("simpleCaseFolding", "scf", "mapped"), ("caseFolding", "cf", "mapped"),
        ("caseIgnorable", "CI", F), ("cased", "Cased", F), ("changesWhenCaseFolded", "CWCF", F), ("changesWhenCasedMapped", "CWCM", F), ("changesWhenLowercased", "CWL", F),
        ("changesWhenNFKCCaseFolded", "CWKCF", F), ("changesWhenTitlecased", "CWT", F), ("changesWhenUppercased", "CWU", F), ("nkfcCasefold", "NFKC_CF", "mapped")]),
    "indicProperties": ("IndicProperties", [("syllabicCategory", "InSC", T), ("positionalCategory", "InPC", T)]),
    "binaryProperties": ("BinaryProperties", [(f, t, F) for f, t in (x.split(":") for x in """
        whitespace:WSpace dash:Dash hyphen:Hyphen quotationMark:QMark terminalPunctuation:Term sentenceTerminalPunctuation:STerm diacritic:Dia extender:Ext
        prependedConcatenationMark:PCM softDotted:SD alphabetic:Alpha otherAlphabetic:OAlpha math:Math otherMath:OMath hexDigit:Hex asciiHexDigit:AHex defaultIgnorable:DI
        otherDefaultIgnorable:ODI logicalOrderException:LOE regionalIndicator:RI graphemeBase:Gr_Base graphemeExtended:Gr_Ext otherGraphemeExtended:OGr_Ext
        graphemeLink:Gr_Link ideographic:Ideo unifiedIdeographic:UIdeo idsBinaryOperator:IDSB idsTrinaryOperator:IDST radical:Radical deprecated:Dep variationSelector:VS
        nonCharacterCodePoint:NChar idStart:IDS otherIDStart:OIDS xIDStart:XIDS idContinue:IDC otherIDContinue:OIDC xIDContinue:XIDC patternSyntax:Pat_Syn
        patternWhitespace:Pat_WS""".split())]),
}
ALL = [(part, cls, f, t, r) for part, (cls, fs) in FIELDS.items() for f, t, r in fs]
REQUIRED = {"cp": "0041", "ccc": "7", "nv": "NaN", "bpb": "#"}


SPREAD = "0635 0644 0649 0020 0627 0644 0644 0647 0020 0639 0644 064A 0647 0020 0648 0633 0644 0645"
LONG = {
    T: ["a text of many words, all of which matter: " + "word " * 12, "a_b#c d/e"],
    "spaced": ["Unified_Canadian_Aboriginal_Syllabics_Extended_A_and_one_more__word_"],
    "several": ["Beng Deva Dogr Gong Gonm Gran Gujr Guru Knda Mahj Mlym Nand Orya Sind Sinh Sylo Takr Taml Telu Tirh", "Beng Deva Beng"],
    "name": ["CJK UNIFIED IDEOGRAPH-# OR #-#", "a name of many words " * 6],
    "number": ["1/3", "2/3", "1/7", "5/6", "7/12", "11/12", "1/320", "3/80", "17/2", "1000000000000", "216000", "10000000000000001"],
    "mapped": ["0046 0046 0049", "0061 0061", "0041 0301 0041 0301", SPREAD], "decomposed": ["0061 0061", "2032 2032 2032 2032", SPREAD],
    "folded": ["0073 0073", "0041 0301 0041 0301", SPREAD],
}
FIRST = {T: "other's", "spaced": "An_other", "several": "Arab Latn", "name": "NAME-#", "integer": "230", "number": "7", F: "N", "mapped": "0062 0063", "decomposed": "0062 0063",
         "folded": "0062 0063", "mirror": "0028", "bracket": "0029", "code_point": "0041"}


def letters(name, n, lo=33, hi=126):
    """A text of n unknown characters."""
    return B.mkstr([("chr", var("%s%d" % (name, i), lo, hi)) for i in range(n)])


def hexed(name, n, st, top=70):
    """A text of n unknown hexadecimal digits (upper case), the first one (and with six digits the second) as code points have them."""
    out = []
    for i in range(n):
        v = var("%s%d" % (name, i), 48, top)
        if n == 6 and i == 0:
            v = 49
        elif n == 6 and i == 1:
            v = 48
        else:
            for bad in range(58, 65) if top > 57 else ():
                st.append((v, bad))
        out.append(("chr", v))
    return out


def facts_of(bad):
    f = Facts()
    for v, k in bad:
        f = f.assume(sub(lin(v), k), "!=")
    return f


def base(other, skip):
    """A value for every attribute but skip."""
    d = {}
    for _, _, _, t, r in ALL:
        if t == skip or t in d:
            continue
        d[t] = REQUIRED.get(t) or (other if r == F else "0061" if r in ("mapped", "decomposed", "folded", "mirror") else "<%s %s>" % (t, other))
    return d


def marked(d):
    """The attribute texts of an element that must not matter."""
    return {k: {"cp": "0042", "ccc": "9", "nv": "8", "bpb": "0043"}.get(k) or ({"Y": "N", "N": "Y"}.get(v) or ("0062" if v == "0061" else v + "!")) for k, v in d.items()}


class Records(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.spec = ctx.spec("ucd")

    def make(self, cls):
        if cls == "CharacterData":
            return self.ctx.anchor(MOD, cls)
        return self.ctx.anchor("UnicodeData." + cls, cls)

    def one(self, cls, path, tag, rule, value, bad, label, standing="char", other="N"):
        """A field against its rule with the attribute in the char element (over another value in the group), in the group, or in neither."""
        char, group = base(other, tag), {}
        if standing == "char":
            char[tag] = value
            group = marked(base(other, tag))
            group[tag] = {"char": "Z"}.get(rule, "Y" if rule == F else "0063" if rule not in (T, "spaced", "several", "name") else "group's")
        elif standing == "group":
            group[tag] = value
            group.update((k, char.pop(k)) for k in list(char)[::2])

        def args(vm, st):
            d = lambda x: st.alloc(DictO(dict(x)))
            return ((self.make(cls), d(char), d(group), tuple(path)), {})

        def ref_args(vm, st, a):
            d = lambda x: st.alloc(DictO(dict(x)))
            return (self.spec(rule), d(char), d(group), tag)
        self.ctx.equiv("%s.%s (%s, %s)" % (cls, ".".join(path), standing, label), self.spec("observe"), self.spec("expect"), args, ref_args=ref_args,
                       facts=facts_of(bad), where=W % cls)

    def second(self, cls, path, tag, rule, value):
        """A field of a record built after others of the same code point and of another."""
        char, group = base("N", tag), {}
        before = []
        for i, cp in enumerate(("0061", "0041")):
            c, g = marked(base("N", tag)), {}
            c["cp"] = cp
            d = {"number": "3/4", "code_point": cp, "integer": "5"}.get(rule, "Y" if rule == F else "0063" if rule not in (T, "spaced", "several", "name") else "another")
            (c if i == 0 else g)[tag] = d if tag != "cp" else cp
            if i:
                g.update((k, c.pop(k)) for k in list(c)[::2] if k != "cp")
            before.append((c, g))
        group[tag] = value
        group.update((k, char.pop(k)) for k in list(char)[1::2] if k != "cp")

        def pair(st):
            return tuple(tuple(st.alloc(DictO(dict(x))) for x in p) for p in before)

        def args(vm, st):
            d = lambda x: st.alloc(DictO(dict(x)))
            return ((self.make(cls), pair(st), d(char), d(group), tuple(path)), {})

        def ref_args(vm, st, a):
            d = lambda x: st.alloc(DictO(dict(x)))
            return (self.spec(rule), d(char), d(group), tag)
        self.ctx.equiv("%s.%s (after other records)" % (cls, ".".join(path)), self.spec("observe_second"), self.spec("expect"), args, ref_args=ref_args, where=W % cls)

    def values(self, rule, tag):
        """(label, text, inequalities)"""
        yield from self.shapes(rule, tag)
        for v in LONG.get(rule, ()) if tag != "cp" else ():
            yield v[:30], v, []

    def shapes(self, rule, tag):
        if rule == F:
            for n in (0, 1, 2):
                yield "any %d characters" % n, letters("a", n) if n else "", []
            return
        if rule == T:
            for n in (0, 1, 3) if tag != "cp" else ():
                yield "any %d characters" % n, letters("a", n) if n else "", []
        if rule in ("spaced", "several"):
            for n in (1, 2, 4):
                yield "any %d characters" % n, letters("a", n), []
        if rule == "name":
            for n in (0, 1, 3):
                yield "any %d characters" % n, letters("a", n) if n else "", []
        if rule == "integer":
            for n in (1, 2, 3):
                yield "any %d digits" % n, letters("a", n, 48, 57), []
        if rule == "number":
            yield "NaN", "NaN", []
            for n in (1, 2, 4):
                yield "any %d digits" % n, letters("a", n, 48, 57), []
            for d in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 32, 40, 64, 80, 160, 320):
                yield "any digit over %d" % d, B.mkstr([("chr", var("a0", 48, 57)), "/%d" % d]), []
            yield "negative", B.mkstr(["-", ("chr", var("a0", 48, 57))]), []
            yield "negative fraction", B.mkstr(["-", ("chr", var("a0", 48, 57)), "/2"]), []
            for v in ("10000", "100000", "1000000", "100000000", "10000000000", "1000000000000"):
                yield v, v, []
        if rule == "code_point" or tag == "cp":
            for n in (4, 5, 6):
                bad = []
                yield "any %d digits" % n, B.mkstr(hexed("a", n, bad)), bad
        if rule in ("mapped", "decomposed", "folded", "mirror", "bracket"):
            if rule != "mirror":
                yield "#", "#", []
            if rule != "bracket":
                yield "empty", "", []
            for n in (4, 5, 6):
                bad = []
                yield "any %d digits" % n, B.mkstr(hexed("a", n, bad)), bad
            if rule not in ("mirror", "bracket"):
                for k in (2, 3) if not self.ctx.thorough else (2, 3, 5):
                    bad, ps = [], []
                    for j in range(k):
                        ps += ([" "] if j else []) + hexed("a%d." % j, 4 + j % 2, bad, 70 if j == 1 and k < 4 else 57)
                    yield "%d code points" % k, B.mkstr(ps), bad


def run(ctx, fields):
    r = Records(ctx)
    jobs = []
    for part, cls, f, t, rule in fields:
        for where in (("CharacterData", [part, f] if part else [f]), (cls, [f])):
            if where[0] == cls and not part and where[1] == [f] and (cls, [f], t) in [j[:3] for j in jobs]:
                continue
            jobs.append((where[0], where[1], t, rule, cls))

    def go(sub, job):
        q = Records(sub)
        cls, path, t, rule, own = job
        whole = cls == own or rule == F
        for i, (label, v, bad) in enumerate(q.values(rule, t)):
            if not whole and i > 2:
                break
            for standing in ("char", "group"):
                q.one(cls, path, t, rule, v, bad, label, standing)
        q.second(cls, path, t, rule, "0041" if t == "cp" else FIRST[rule])
        if t not in REQUIRED:
            q.one(cls, path, t, rule, None, [], "absent", "neither")
            if rule == F:
                q.one(cls, path, t, rule, "N", [], "N among Y", "group", other="Y")
                q.one(cls, path, t, rule, "Y", [], "Y among N", "char", other="N")
    ctx.fan(jobs, go)
    return {"explanation": "A record is built from elements whose attribute of interest is a text of unknown characters (or digits), with every other attribute "
                           "holding something else, and the field is compared with its rule; the attribute stands in the char element over another value in the group, "
                           "in the group alone, or in neither."}


TEXT = [x for x in ALL if x[4] in (T, "spaced", "several", "name", "integer", "number", "code_point")]


@check("X01")
def x01(ctx):
    return run(ctx, TEXT)


@check("X02")
def x02(ctx):
    return run(ctx, [x for x in ALL if x[4] == F])


@check("X03")
def x03(ctx):
    return run(ctx, [x for x in ALL if x not in TEXT and x[4] != F])
