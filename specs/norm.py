# Normalizer2Impl (ICU normalizer2impl.h): decomposition mappings.
# data: an object with the attributes of the data, norm16(c) the trie value.

INERT = 1
MAYBE = 13


def value(d, c):
    if 0xD800 <= c <= 0xDBFF:
        return INERT
    return d.lookup(c)


def hangul(c):
    s = c - 0xAC00
    r = chr(0x1100 + s // 588) + chr(0x1161 + s // 28 % 21)
    if s % 28 != 0:
        r += chr(0x11A7 + s % 28)
    return r


def raw_hangul(c):
    s = c - 0xAC00
    if s % 28 != 0:
        return chr(0xAC00 + s // 28 * 28) + chr(0x11A7 + s % 28)
    return chr(0x1100 + s // 588) + chr(0x1161 + s // 28 % 21)


def is_hangul(d, n):
    return n == d.min_yes_no or n == d.min_yes_no_mappings_only | 1


def delta(d, c, n):
    return c + n // 8 - (d.min_maybe_yes // 8 - 65)


def text(d, i, n):
    """The UTF-16 text in n units at i; None when it is not well-formed (malformed data)."""
    if n < 0 or i < 0 or i + n > len(d.extra):
        return None
    s = ""
    k = 0
    while k < n:
        u = d.extra[i + k]
        k += 1
        if u // 1024 == 55:
            return None
        if u // 1024 == 54:
            if k == n:
                return None
            v = d.extra[i + k]
            if v // 1024 != 55:
                return None
            s += chr(0x10000 + (u - 0xD800) * 1024 + (v - 0xDC00))
            k += 1
        else:
            s += chr(u)
    return s


def mapping(d, i, n, before=""):
    s = text(d, i, n)
    return "*any*" if s is None else before + s


def decomposition(d, c):
    n = value(d, c)
    if c < d.min_decomp_no_cp or n >= d.min_maybe_yes:
        return None
    if n >= d.limit_no_no:
        c = delta(d, c, n)
        if c < 0 or c > 0x10FFFF:
            return "*any*"              # malformed data
        n = d.lookup(c)
        if n < d.min_yes_no:
            return chr(c)
    if n < d.min_yes_no:
        return None
    if is_hangul(d, n):
        return hangul(c)
    i = n // 2
    return mapping(d, i + 1, d.extra[i] % 32)


def raw_decomposition(d, c):
    n = value(d, c)
    if c < d.min_decomp_no_cp or n < d.min_yes_no or n >= d.min_maybe_yes:
        return None
    if is_hangul(d, n):
        return raw_hangul(c)
    if n >= d.limit_no_no:
        c = delta(d, c, n)
        if c < 0 or c > 0x10FFFF:
            return "*any*"              # malformed data
        return chr(c)
    i = n // 2
    first = d.extra[i]
    length = first % 32
    if first // 64 % 2 == 0:
        if length == 0:
            return None
        return mapping(d, i + 1, length)
    j = i - first // 128 % 2 - 1
    raw = d.extra[j]
    if raw <= 31:
        if raw == 0:
            return None
        return mapping(d, j - raw, raw)
    # the raw mapping is raw followed by the normal mapping without its first two units
    return mapping(d, i + 3, length - 2, chr(raw))


class HardCoded(object):
    def __init__(self):
        ix = norm2_nfc_data_indexes
        self.min_decomp_no_cp = ix[8]
        self.min_yes_no = ix[10]
        self.min_yes_no_mappings_only = ix[14]
        self.limit_no_no = ix[12]
        self.min_maybe_yes = ix[13]
        self.extra = norm2_nfc_data_extraData[(0xFC00 - ix[13]) // 2:]

    def lookup(self, c):
        return reference(norm2_nfc_data_trieIndex, norm2_nfc_data_trieData, len(norm2_nfc_data_trieData), norm2_nfc_data_type,
                         norm2_nfc_data_highStart, c)


hard_coded = HardCoded()


def nfc_decomposition(c):
    return decomposition(hard_coded, c)


def nfc_raw_decomposition(c):
    return raw_decomposition(hard_coded, c)


class Given(object):
    def __init__(self, trie, ix, extra):
        self.trie = trie
        self.min_decomp_no_cp = ix[8]
        self.min_yes_no = ix[10]
        self.min_yes_no_mappings_only = ix[14]
        self.limit_no_no = ix[12]
        self.min_maybe_yes = ix[13]
        self.extra = extra[(0xFC00 - ix[13]) // 2:]

    def lookup(self, c):
        return self.trie.get(c)


def given_decomposition(trie, ix, extra, c):
    return decomposition(Given(trie, ix, extra), c)


def given_raw_decomposition(trie, ix, extra, c):
    return raw_decomposition(Given(trie, ix, extra), c)


def target_decomposition(trie, ix, extra, c):
    return Normalizer2(trie, ix, extra).getDecomposition(c)


def target_raw_decomposition(trie, ix, extra, c):
    return Normalizer2(trie, ix, extra).getRawDecomposition(c)


# normalization data in a file: indexes[], the trie from indexes[0] to indexes[1], then the extra data up to indexes[2]
class FromFile(object):
    def __init__(self, b, at, width):
        base = at + u16(b, at)
        self.trie = From(b, base + u32(b, base))
        self.width = width
        self.min_decomp_no_cp = u32(b, base + 4 * 8)
        self.min_yes_no = u32(b, base + 4 * 10)
        self.min_yes_no_mappings_only = u32(b, base + 4 * 14)
        self.limit_no_no = u32(b, base + 4 * 12)
        self.min_maybe_yes = u32(b, base + 4 * 13)
        self.extra = Words(b, base + u32(b, base + 4) + 2 * ((0xFC00 - self.min_maybe_yes) // 2), 2)

    def lookup(self, c):
        return from_bytes(self.trie, self.width, c)


def file_lookup(b, at, width, c):
    return FromFile(b, at, width).lookup(c)


def file_decomposition(b, at, width, c):
    return decomposition(FromFile(b, at, width), c)


def file_raw_decomposition(b, at, width, c):
    return raw_decomposition(FromFile(b, at, width), c)


def normalizer(which):
    from UnicodeData import Normalizer2 as module
    return module.nfkcTrie if which == 0 else module.nfkc_cfTrie


def given_lookup(which, c):
    return normalizer(which).getRawNorm16(c)


def given_file_decomposition(which, c):
    return normalizer(which).getDecomposition(c)


def given_file_raw_decomposition(which, c):
    return normalizer(which).getRawDecomposition(c)
