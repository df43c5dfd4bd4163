# uchar.cpp / uprops.h: the decoding of the two property tries.
# The tables (propsTrie_*, propsVectorsTrie_*, propsVectors, scriptExtensions)
# are injected from the data module under analysis.

Cn, Lu, Ll, Lt, Lm, Lo, Mn, Me, Mc, Nd, Nl, No, Zs, Zl, Zp, Cc, Cf, Co, Cs, Pd, Ps, Pe, Pc, Po, Sm, Sc, Sk, So, Pi, Pf = range(30)


def among(c, *cats):
    m = 0
    for k in cats:
        m |= 1 << k
    return (1 << category(c)) & m != 0


def word(c):
    return lookup(propsTrie_index, propsTrie_index_length, propsTrie_high_start, propsTrie_high_value_index, c)


def vecindex(c):
    return lookup(propsVectorsTrie_index, propsVectorsTrie_index_length, propsVectorsTrie_high_start,
                  propsVectorsTrie_high_value_index, c)


def vec(c, column):
    return propsVectors[vecindex(c) + column]


def field(w, shift, bits):
    return (w >> shift) & ((1 << bits) - 1)


def category(c):
    return word(c) & 31


def is_category(k):
    return lambda c: category(c) == k


def in_categories(*cats):
    return lambda c: among(c, *cats)


isLower = is_category(Ll)
isUpper = is_category(Lu)
isTitle = is_category(Lt)
isDigit = is_category(Nd)


def isHexDigit(c):
    if 0x41 <= c <= 0x46 or 0x61 <= c <= 0x66 or 0xFF21 <= c <= 0xFF26 or 0xFF41 <= c <= 0xFF46:
        return True
    return category(c) == Nd


isalpha = in_categories(Lu, Ll, Lt, Lm, Lo)
isalnum = in_categories(Lu, Ll, Lt, Lm, Lo, Nd)


def isAlphabetic(c):
    return field(vec(c, 1), 8, 1)


def isalnumPOSIX(c):
    return isAlphabetic(c) or category(c) == Nd


def isDefined(c):
    return category(c) != Cn


isbase = in_categories(Lu, Ll, Lt, Lm, Lo, Nd, Nl, No, Mc, Me)
iscntrl = in_categories(Cc, Cf, Zl, Zp)


def isISOControl(c):
    return c <= 0x1F or 0x7F <= c <= 0x9F


def isspace(c):
    return among(c, Zs, Zl, Zp) or 9 <= c <= 0xD or 0x1C <= c <= 0x1F or c == 0x85


isJavaSpaceChar = in_categories(Zs, Zl, Zp)


def ascii_space(c):
    return 9 <= c <= 0xD or 0x1C <= c <= 0x1F


def isWhiteSpace(c):
    if c == 0xA0 or c == 0x2007 or c == 0x202F:
        return False
    return among(c, Zs, Zl, Zp) or ascii_space(c)


def isBlank(c):
    if c <= 0x9F:
        return c == 9 or c == 0x20
    return category(c) == Zs


def isUWhiteSpace(c):
    return field(vec(c, 1), 0, 1)


def isPrint(c):
    return not among(c, Cn, Cc, Cf, Co, Cs)


def isPrintPOSIX(c):
    return category(c) == Zs or isGraphPOSIX(c)


def isgraph(c):
    return not among(c, Cc, Cf, Cs, Cn, Zs, Zl, Zp)


def isGraphPOSIX(c):
    return not among(c, Cc, Cs, Cn, Zs, Zl, Zp)


ispunct = in_categories(Pd, Ps, Pe, Pc, Po, Pi, Pf)
isIDStart = in_categories(Lu, Ll, Lt, Lm, Lo, Nl)


def isIDIgnorable(c):
    if c <= 0x9F:
        return isISOControl(c) and not ascii_space(c)
    return category(c) == Cf


def isIDPart(c):
    return among(c, Nd, Nl, Lu, Ll, Lt, Lm, Lo, Pc, Mc, Mn) or isIDIgnorable(c)


isJavaIDStart = in_categories(Lu, Ll, Lt, Lm, Lo, Sc, Pc)


def isJavaIDPart(c):
    return among(c, Nd, Nl, Lu, Ll, Lt, Lm, Lo, Sc, Pc, Mc, Mn) or isIDIgnorable(c)


# ---- numeric type and value

def ntv(w):
    return w >> 6


def type_of(n):
    if n == 0:
        return 0        # None
    if n < 11:
        return 1        # Decimal
    if n < 21:
        return 2        # Digit
    return 3            # Numeric


def value_of(n):
    if n == 0:
        return None
    if n < 11:
        return n - 1
    if n < 21:
        return n - 11
    if n < 0xB0:
        return n - 21
    if n < 0x1E0:
        return ((n >> 4) - 12) / ((n & 15) + 1)
    if n < 0x300:
        if (n & 31) > 18:
            return "*any*"      # beyond what a float holds exactly; Unicode has no such number
        return ((n >> 5) - 14) * 10 ** ((n & 31) + 2)
    if n < 0x324:
        return ((n >> 2) - 0xBF) * 60 ** ((n & 3) + 1)
    if n < 0x34C:
        if n < 0x33C:
            k = n - 0x324
            return (2 * (k & 3) + 1) / (20 << (k >> 2))
        k = n - 0x33C
        return (2 * (k & 3) + 1) / (32 << (k >> 2))
    return None


def getNumericType(c):
    return type_of(ntv(word(c)))


def getNumericTypeValue(c):
    return ntv(word(c))


def getNumericValue(c):
    return value_of(ntv(word(c)))


def digitValue(c):
    n = ntv(word(c))
    if n > 10:
        return -1
    return n - 1


# ---- vectors

def getUnicodeProperties(c, column):
    if column >= propsVectorsColumns:
        return 0
    return vec(c, column)


def ageFromProps(w):
    a = w >> 24
    return [a >> 4, a & 15, 0, 0]


def getAge(c):
    return ageFromProps(vec(c, 0))


def script_of(w):
    x = w & 0x00F000FF
    code = ((x & 0x00300000) >> 12) | (x & 0xFF)
    if x < 0x400000:
        return code
    if x < 0x800000:
        return 0        # Zyyy
    if x < 0xC00000:
        return 1        # Zinh
    return scriptExtensions[code]


def getScript(c):
    if c > 0x10FFFF:
        return -1
    return script_of(vec(c, 0))


def getBlock(c):
    return field(vec(c, 0), 8, 9)


def getEastAsianWidth(c):
    return field(vec(c, 0), 17, 3)


def getLineBreak(c):
    return field(vec(c, 2), 20, 6)


def getSentenceBreak(c):
    return field(vec(c, 2), 15, 5)


def getWordBreak(c):
    return field(vec(c, 2), 10, 5)


def getGraphemeClusterBreak(c):
    return field(vec(c, 2), 5, 5)


def getDecompType(c):
    return field(vec(c, 2), 0, 5)


def getBinaryProp(c, shift, column=1):
    if shift >= 32:
        return False
    return field(vec(c, column), shift, 1)


def emoji(bit):
    return lambda c: field(vec(c, 2), bit, 1)


isExtendedPictograph = emoji(26)
isEmojiComponent = emoji(27)
isEmoji = emoji(28)
isEmojiPresentation = emoji(29)
isEmojiModifier = emoji(30)
isEmojiModifierBase = emoji(31)
