# ulayout.icu: indexes[], then three serialized code point tries whose ends are indexes 1, 2 and 3 (ICU uprops.h).


def trie(b, at, which):
    base = at + u16(b, at)
    if which == 0:
        return base + 4 * u32(b, base)
    return base + u32(b, base + 4 * which)


def value(b, at, which, width, c):
    return from_bytes(From(b, trie(b, at, which)), width, c)


def given_0(c):
    from UnicodeData import LayoutProps as p
    return p.getInPC(c)


def given_1(c):
    from UnicodeData import LayoutProps as p
    return p.getInSC(c)


def given_2(c):
    from UnicodeData.LayoutProps import getVO
    return getVO(c)
