# Utilities: surrogate arithmetic, signed fields, highest bit.


def isUnicodeNoncharacter(c):
    return 0xFDD0 <= c <= 0xFDEF or c <= 0x10FFFF and c % 0x10000 >= 0xFFFE


def isSurrogate(c):
    return 0xD800 <= c <= 0xDFFF


def isLead(c):
    return 0xD800 <= c <= 0xDBFF


def isTrail(c):
    return 0xDC00 <= c <= 0xDFFF


def charFromSurrogates(lead, trail):
    return 0x10000 + (lead - 0xD800) * 1024 + (trail - 0xDC00)


def surrogatesFromChar(c):
    return (0xD800 + (c - 0x10000) // 1024, 0xDC00 + (c - 0x10000) % 1024)


def signed_top(value, word, field):
    f = (value >> (word - field)) % (1 << field)
    if f >= 1 << (field - 1):
        return f - (1 << field)
    return f


def highBit(v):
    if v == 0:
        return None
    for k in range(64):
        if v < 1 << (k + 1):
            return k


def isSurrogateLead(c):
    return c <= 0xDBFF


def isSurrogateTrail(c):
    return c >= 0xDC00


def code_list(codes):
    s = ""
    for i in range(len(codes)):
        if i > 0:
            s += ", "
        s += "%04X" % codes[i]
    return s
