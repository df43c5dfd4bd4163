# ubidi_props.h: decoding of the bidi/shaping word and of the mirror table.


def word(c):
    return lookup(ubidi_props_trieIndex, ubidi_props_trie_index_length, ubidi_props_trie_high_start,
                  ubidi_props_trie_high_value_index, c)


def field(w, shift, bits):
    return (w >> shift) & ((1 << bits) - 1)


def getCharDirection(c):
    return field(word(c), 0, 5)


def getJoiningType(c):
    return field(word(c), 5, 3)


def getPairedBracketType(c):
    return field(word(c), 8, 2)


def isJoinControl(c):
    return field(word(c), 10, 1)


def isBidiControl(c):
    return field(word(c), 11, 1)


def isMirrored(c):
    return field(word(c), 12, 1)


def delta(w):
    d = w >> 13
    if d >= 4:
        return d - 8
    return d


def mirror_for(c, w):
    d = delta(w)
    if d != -4:
        return c + d
    for m in ubidi_props_mirrors:
        if m & 0x1FFFFF == c:
            return ubidi_props_mirrors[m >> 21] & 0x1FFFFF
    return c


def getMirror(c):
    return mirror_for(c, word(c))


def getPairedBracket(c):
    w = word(c)
    if field(w, 8, 2) == 0:
        return c
    return mirror_for(c, w)


def getJoiningGroup(c):
    ix = ubidi_props_indexes
    if ix[4] <= c and c < ix[5]:
        return ubidi_props_jgArray[c - ix[4]]
    if ix[6] <= c and c < ix[7]:
        return ubidi_props_jgArray2[c - ix[6]]
    return 0
