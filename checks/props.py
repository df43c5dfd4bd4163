"""P01..P04: decoding of the character property tries."""
from . import check
from .common import *

MOD = "UnicodeData.CharProps"

CATEGORY = ["isLower", "isUpper", "isTitle", "isDigit", "isHexDigit", "isalpha", "isalnum", "isalnumPOSIX", "isDefined", "isbase",
            "iscntrl", "isISOControl", "isspace", "isJavaSpaceChar", "isWhiteSpace", "isBlank", "isPrint", "isPrintPOSIX", "isgraph",
            "isGraphPOSIX", "ispunct", "isIDStart", "isIDPart", "isIDIgnorable", "isJavaIDStart", "isJavaIDPart"]
VECTOR = ["getScript", "getBlock", "getEastAsianWidth", "getLineBreak", "getSentenceBreak", "getWordBreak", "getGraphemeClusterBreak",
          "getDecompType", "getAge"]
NUMERIC = ["getNumericType", "getNumericTypeValue", "getNumericValue", "digitValue"]
BINARY = ["isAlphabetic", "isUWhiteSpace", "isExtendedPictograph", "isEmojiComponent", "isEmoji", "isEmojiPresentation",
          "isEmojiModifier", "isEmojiModifierBase"]


def spec_of(ctx):
    t = trie_spec(ctx)
    inject = module_attrs(ctx, "UnicodeData.CharPropsData")
    inject = {k: v for k, v in inject.items() if k.startswith(("props", "scriptExt"))}
    inject["lookup"] = t("lookup")
    return ctx.spec("charprops", inject)


def each(ctx, names, spec, truthy):
    c = code_point()
    for n in names:
        ctx.equiv(n, lambda n=n: ctx.anchor(MOD, n), spec(n), fixed(c), truthy=truthy, where="UnicodeData/CharProps.py:%s" % n)


@check("P01")
def p01(ctx):
    spec = spec_of(ctx)
    c = code_point()
    ctx.equiv("getGeneralCategory", lambda: ctx.anchor(MOD, "getGeneralCategory"), spec("category"), fixed(c),
              where="UnicodeData/CharProps.py:getGeneralCategory")
    each(ctx, CATEGORY, spec, True)
    return {"explanation": "Every category predicate is interpreted symbolically for one code point c in 0..10FFFF; each path's result "
                           "(as a truth value) is compared with the reference definition over the 5-bit category field of the trie word."}


@check("P02")
def p02(ctx):
    spec = spec_of(ctx)
    each(ctx, VECTOR, spec, False)
    c = var("c", 0, MAXC)
    big = var("c", MAXC + 1, 0x7FFFFFFF)
    ctx.equiv("getScript above U+10FFFF", lambda: ctx.anchor(MOD, "getScript"), spec("getScript"), fixed(big),
              where="UnicodeData/CharProps.py:getScript")
    w = var("props", 0, 0xFFFFFFFF)
    ctx.equiv("ageFromProps", lambda: ctx.anchor(MOD, "ageFromProps"), spec("ageFromProps"), fixed(w), where="UnicodeData/CharProps.py:ageFromProps")
    return {"explanation": "Each field accessor is interpreted for a symbolic code point over the real tries; the field extracted from the "
                           "property vector is compared, as a normal form, with the bit layout of ICU's uprops.h."}


@check("P03")
def p03(ctx):
    spec = spec_of(ctx)
    each(ctx, NUMERIC, spec, False)
    w = var("props", 0, 0xFFFF)
    for n, r in (("numericTypeFromProps", "type_of"), ("numericValueFromProps", "value_of")):
        ctx.equiv(n, lambda n=n: ctx.anchor(MOD, n), spec(r), fixed(w), where="UnicodeData/CharProps.py:%s" % n,
                  ref_args=lambda vm, st, a: (B.binary(vm, st, ">>", a[0], 6),))
    return {"explanation": "Numeric type, raw numeric field, numeric value and digit value are interpreted for a symbolic code point, and the two "
                           "decoders for every 16-bit property word (hence for every encoding, not only those the data uses)."}


@check("P04")
def p04(ctx):
    spec = spec_of(ctx)
    each(ctx, BINARY, spec, True)
    c = code_point()
    s = var("shift", 0, 40)
    for col in (0, 1, 2):
        ctx.equiv("getBinaryProp column %d" % col, lambda: ctx.anchor(MOD, "getBinaryProp"), spec("getBinaryProp"), fixed(c, s, col), truthy=True,
                  where="UnicodeData/CharProps.py:getBinaryProp")
    ctx.equiv("getBinaryProp default column", lambda: ctx.anchor(MOD, "getBinaryProp"), spec("getBinaryProp"), fixed(c, s), truthy=True,
              where="UnicodeData/CharProps.py:getBinaryProp")
    for col in range(0, 6):
        ctx.equiv("getUnicodeProperties column %d" % col, lambda: ctx.anchor(MOD, "getUnicodeProperties"), spec("getUnicodeProperties"),
                  fixed(c, col), where="UnicodeData/CharProps.py:getUnicodeProperties")
    return {"explanation": "Binary property accessors are interpreted for a symbolic code point and a symbolic bit number in every column; the "
                           "result must be the addressed bit, False for bit numbers that do not exist, and 0 for columns that do not exist."}
