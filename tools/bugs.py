# bug(id, property, [(file, old, new)], demonstration, needs, what it breaks)
US = "UnicodeData/UnicodeSet.py"
CASE = "UnicodeData/CaseProps.py"
BIDI = "UnicodeData/BidiProps.py"
CHAR = "UnicodeData/CharProps.py"
NORM = "UnicodeData/Normalizer2.py"
TRIE = "UnicodeData/Utrie2.py"
CPT = "UnicodeData/CPTrie.py"
UTIL = "UnicodeData/Utilities.py"

bug("uset-union-top", "U01", [(US, """                else:
                    if b == UNICODE_SET_HIGH:
                        break
                    buffer.append(b)
                a = self.list[i]""", """                else:
                    buffer.append(b)
                    if b == UNICODE_SET_HIGH:
                        break
                a = self.list[i]""")], '''
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(range(0x10, 0x20)); b = UnicodeSet(range(0x15, 0x110000))
r = a | b
assert r == UnicodeSet(range(0x10, 0x110000)), str(r)
r.add(5)
assert r.size() == 0x110000 - 0x10 + 1 and r.getRangeCount() == 2
''', "the operand's last range reaches U+10FFFF and starts inside the receiver's last range, which ends earlier", "the result has a second terminator: wrong equality and ranges")

bug("uset-copy-shares", "U06", [(US, "            self.list = arg.list.copy()", "            self.list = arg.list")], '''
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(range(5, 9))
b = UnicodeSet(a)
b.add(20)
assert 20 not in a
''', "a copied set mutated in place by add afterwards", "copies share the boundary list")

bug("uset-addrange-adjacent-top", "U02", [(US, """                        self.list[-2] = limit
                        if limit == UNICODE_SET_HIGH:
                            self.list.pop()
""", """                        self.list[-2] = limit
""")], '''
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(0x40, 0x100))
s.addRange(0x100, 0x10FFFF)
assert s == UnicodeSet(range(0x40, 0x110000)), str(s)
''', "a range that reaches U+10FFFF added directly after the last range", "malformed boundary list; equality and complement break")

bug("uset-indexof-gap", "U05", [(US, """            if cp < start:
                break

            limit = self.list[i+1]

            if cp < limit:""", """            limit = self.list[i+1]

            if cp < limit:""")], '''
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(0x40, 0x50)); s.addRange(0x60, 0x70)
assert s.indexOf(0x55) is None and s.indexOf(0x3F) is None and s.indexOf(0x41) == 1 and s.indexOf(0x60) == 16
''', "a code point in a gap between ranges", "indexOf answers for non-members")

bug("trie-high-start", "T01", [(TRIE, "return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)",
    "return self.highValueIndex if c > self.highStart else self.indexFromSupp(c)")], '''
from UnicodeData.Utrie2 import UTrie2
# one supplementary index-1 entry below highStart = 0x10800; the entry for highStart itself does not exist
index = [0] * 0x880
index += [0x840]                       # index-1 entry of 0x10000..0x107FF
index += [0x900 >> 2] * 4              # what follows is not index data
index += [0] * (0x1000 - len(index))
index[0xF00] = 77                      # high value
t = UTrie2(index, 0x900, 0, 0, 0x10800, 0xF00)
assert t.get(0x10800) == 77 and t.get(0x10FFFF) == 77
''', "a trie whose high-value range starts below U+10FFFF, looked up exactly at highStart", "the first code point of the high range reads past the index")

bug("isbase-enclosing", "P01", [(CHAR, "(GC_L_MASK | GC_N_MASK | GC_MC_MASK | GC_ME_MASK)", "(GC_L_MASK | GC_N_MASK | GC_MC_MASK | GC_MN_MASK)")], '''
from UnicodeData.CharProps import isbase
assert isbase(0x20DD) and not isbase(0x0300) and isbase(0x0903) and isbase(0x41)
''', "enclosing and non-spacing marks", "isbase")

bug("numeric-base60", "P03", [(CHAR, """        elif exp == 3:
            numValue *= 60*60*60
""", """        elif exp == 3:
            numValue *= 60*60
""")], '''
from UnicodeData.CharProps import getNumericValue
assert getNumericValue(0x12432) == 216000 and getNumericValue(0x12433) == 432000
''', "the two cuneiform signs of 216000 and 432000", "base-60 numeric values")

bug("mirror-delta-minus-three", "B02", [(BIDI, "    if delta != UBIDI_ESC_MIRROR_DELTA:", "    if delta > UBIDI_MIN_MIRROR_DELTA:")], '''
from UnicodeData.BidiProps import getMirror
assert getMirror(0x220B) == 0x2208 and getMirror(0x2208) == 0x220B and getMirror(0x28) == 0x29
''', "mirrored characters whose partner is three code points below", "getMirror")

bug("full-title-keeps-upper", "C02", [(CASE, "        if (not upperNotTitle) and hasSlot(excWord, UCASE_EXC_TITLE):", "        if hasSlot(excWord, UCASE_EXC_TITLE):")], '''
from UnicodeData.CaseProps import toFullUpper, toFullTitle
assert toFullUpper(0x1C6) == "\\u01C4" and toFullTitle(0x1C6) == "\\u01C5" and toFullUpper(0x1F3) == "\\u01F1" and toFullTitle(0x1C4) == "\\u01C5"
''', "the Croatian digraphs, the only characters with both an upper and a title slot", "full upper mapping gives the title form")

bug("upper-negative-delta", "C01", [(CASE, """        if hasSlot(excWord, UCASE_EXC_DELTA) and getTypeFromProps(props) == UCASE_LOWER:
            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta if (excWord & UCASE_EXC_DELTA_IS_NEGATIVE) == 0 else c - delta

        if hasSlot(excWord, UCASE_EXC_UPPER):
            (c, _)""", """        if hasSlot(excWord, UCASE_EXC_DELTA) and getTypeFromProps(props) == UCASE_LOWER:
            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta

        if hasSlot(excWord, UCASE_EXC_UPPER):
            (c, _)""")], '''
from UnicodeData.CaseProps import toUpper
assert toUpper(0x2C65) == 0x23A and toUpper(0xAB70) == 0x13A0 and toUpper(0x69) == 0x49
''', "lower-case letters whose capital is far below them (large negative delta)", "toUpper")

bug("hangul-raw-lv", "N02", [(NORM, """            decomposition += chr(orig - c2)  # LV syllable
""", """            decomposition += chr(orig - 1)  # LV syllable
""")], '''
import sys, os, re
src = open(os.path.join("UnicodeData", "Normalizer2.py"), encoding="utf-8").read()
import types
for m in ("fontTools", "fontTools.misc", "fontTools.misc.sstruct"):
    sys.modules[m] = types.ModuleType(m)
sys.modules["fontTools.misc"].sstruct = sys.modules["fontTools.misc.sstruct"]
sys.modules["fontTools.misc.sstruct"].calcsize = lambda f: 16
fake = types.ModuleType("UnicodeData.ICUDataFile")
class Stop(Exception):
    pass
class ICUData:
    def __init__(self):
        raise Stop()
fake.ICUData = ICUData
sys.modules["UnicodeData.ICUDataFile"] = fake
ns = {"__name__": "UnicodeData.Normalizer2", "__package__": "UnicodeData"}
try:
    exec(compile(src, "Normalizer2.py", "exec"), ns)
except Stop:
    pass
nfc = ns["nfcTrie"]
import unicodedata
for c in range(0xAC00, 0xD7A4):
    t = (c - 0xAC00) % 28
    want = unicodedata.normalize("NFD", chr(c)) if t == 0 else chr(c - t) + chr(0x11A7 + t)
    assert nfc.getRawDecomposition(c) == want, hex(c)
''', "Hangul syllables whose trailing consonant is not the first one", "raw Hangul decomposition")

bug("surrogate-noncharacter", "S01", [(UTIL, "(code <= 0xfdef or (code & 0xfffe) == 0xfffe) and code <= 0x10ffff", "(code <= 0xfdef or (code & 0xfffe) == 0xfffe) and code < 0x10ffff")], '''
from UnicodeData.Utilities import isUnicodeNoncharacter as f
assert f(0x10FFFF) and f(0x10FFFE) and f(0xFDD0) and not f(0x110000)
''', "U+10FFFF", "isUnicodeNoncharacter")
