# ucase.h / ucase.cpp: simple and full case mappings without a locale.

NONE, LOWER, UPPER, TITLE = range(4)
S_LOWER, S_FOLD, S_UPPER, S_TITLE, S_DELTA, S_5, S_CLOSURE, S_FULL = range(8)


def word(c):
    return lookup(ucase_props_trieIndex, ucase_props_trie_index_length, ucase_props_trie_high_start,
                  ucase_props_trie_high_value_index, c)


def delta(w):
    d = w >> 7
    if d >= 256:
        return d - 512
    return d


def bit(w, n):
    return (w >> n) & 1


def slots_before(exc, n):
    k = 0
    for i in range(n):
        k += bit(exc, i)
    return k


def slot(e, n):
    """Value of slot n of the exception record at e, None when absent."""
    exc = ucase_props_exceptions[e]
    if not bit(exc, n):
        return None
    k = slots_before(exc, n)
    if bit(exc, 8):
        return ucase_props_exceptions[e + 1 + 2 * k] * 65536 + ucase_props_exceptions[e + 2 + 2 * k]
    return ucase_props_exceptions[e + 1 + k]


def signed_delta(e):
    d = slot(e, S_DELTA)
    if bit(ucase_props_exceptions[e], 10):
        return -d
    return d


def simple(c, applies, wanted):
    w = word(c)
    if not bit(w, 3):
        if applies(w & 3):
            return c + delta(w)
        return c
    e = w >> 4
    if bit(ucase_props_exceptions[e], S_DELTA) and applies(w & 3):
        return c + signed_delta(e)
    for n in wanted:
        v = slot(e, n)
        if v is not None:
            return v
    return c


def cased_upper(t):
    return t >= UPPER


def is_lower(t):
    return t == LOWER


def toLower(c):
    return simple(c, cased_upper, [S_LOWER])


def toUpper(c):
    return simple(c, is_lower, [S_UPPER])


def toTitle(c):
    return simple(c, is_lower, [S_TITLE, S_UPPER])


def full_string(e, which):
    """The full mapping string number `which` (lower, fold, upper, title), None when empty."""
    exc = ucase_props_exceptions[e]
    if not bit(exc, S_FULL):
        return None
    k = slots_before(exc, 8)            # all slots, the lengths word included
    if bit(exc, 8):
        k = 2 * k
    lengths = slot(e, S_FULL)
    start = e + 1 + k
    for i in range(which):
        start += (lengths >> (4 * i)) & 15
    n = (lengths >> (4 * which)) & 15
    if n == 0:
        return None
    s = ""
    for i in range(n):
        s += chr(ucase_props_exceptions[start + i])
    return s


def full(c, which, special, applies, wanted):
    w = word(c)
    if bit(w, 3):
        e = w >> 4
        if bit(ucase_props_exceptions[e], 14):
            if c == special[0]:
                return special[1]
        else:
            s = full_string(e, which)
            if s is not None:
                return s
    return chr(simple(c, applies, wanted))


def toFullLower(c):
    return full(c, 0, (0x130, "i\u0307"), cased_upper, [S_LOWER])


def toFullUpper(c):
    return full(c, 2, (0x587, "\u0535\u0552"), is_lower, [S_UPPER])


def toFullTitle(c):
    return full(c, 3, (0x587, "\u0535\u0582"), is_lower, [S_TITLE, S_UPPER])
