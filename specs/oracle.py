# What Unicode 13.0 assigns, as tables indexed by code point (-1: unconfirmed).


def at(table, c):
    v = table[c]
    if v < 0:
        return "*any*"
    return v


def text(counts, first, second, third, c):
    """A mapping of at most three code points."""
    n = counts[c]
    if n < 0:
        return "*any*"
    if n == 1:
        return chr(first[c])
    if n == 2:
        return chr(first[c]) + chr(second[c])
    return chr(first[c]) + chr(second[c]) + chr(third[c])


def age(table, c):
    v = table[c]
    if v < 0:
        return "*any*"
    return [v // 16, v % 16, 0, 0]


def pooled(offsets, counts, pool, c):
    n = counts[c]
    if n < 0:
        return "*any*"
    if n == 0:
        return None
    s = ""
    for i in range(n):
        s += chr(pool[offsets[c] + i])
    return s


def number(kind, num, den, c):
    k = kind[c]
    if k < 0:
        return "*any*"
    if k == 0:
        return None
    return num[c] / den[c]
