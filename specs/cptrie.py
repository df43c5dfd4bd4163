# UCPTrie (ICU ucptrie.h / ucptrie.cpp): position of the value of a code point.
FAST, SMALL = 0, 1


def two_bits(w, i):
    # entry i (0..7) of a group keeps its two high bits in the group's first word
    for k in range(8):
        if i == k:
            return (w // (1 << (14 - 2 * k))) % 4


def small(index, trie_type, c):
    if trie_type == FAST:
        i1 = c // 16384 + 1020
    else:
        i1 = c // 16384 + 64
    i3 = index[index[i1] + c // 512 % 32]
    k = c // 16 % 32
    if i3 < 32768:
        block = index[i3 + k]
    else:
        group = i3 - 32768 + 9 * (k // 8)
        block = two_bits(index[group], k % 8) * 65536 + index[group + 1 + k % 8]
    return block + c % 16


def position(index, data_length, trie_type, high_start, c):
    if c < 128:
        return c
    if c <= (0xFFFF if trie_type == FAST else 0xFFF):
        return index[c // 64] + c % 64
    if c > 0x10FFFF:
        return data_length - 1
    if c >= high_start:
        return data_length - 2
    return small(index, trie_type, c)


def reference(index, data, data_length, trie_type, high_start, c):
    return data[position(index, data_length, trie_type, high_start, c)]


# The serialized form (struct UCPTrieHeader): signature, options, lengths, offsets, then the index and data arrays.
def u16(b, at):
    return b[at] + 256 * b[at + 1]


def u32(b, at):
    return u16(b, at) + 65536 * u16(b, at + 2)


def header(b):
    options = u16(b, 4)
    return {"type": options // 64 % 4, "width": options % 8, "index_length": u16(b, 6), "data_length": options // 4096 * 65536 + u16(b, 8),
            "null3": u16(b, 10), "null": options // 256 % 16 * 65536 + u16(b, 12), "high_start": u16(b, 14) * 512}


class Words:
    def __init__(self, b, at, size):
        self.b, self.at, self.size = b, at, size

    def __getitem__(self, i):
        p = self.at + i * self.size
        if self.size == 1:
            return self.b[p]
        if self.size == 2:
            return u16(self.b, p)
        return u32(self.b, p)


def from_bytes(b, width, c):
    h = header(b)
    index = Words(b, 16, 2)
    data = Words(b, 16 + 2 * h["index_length"], {0: 2, 1: 4, 2: 1}[width])
    return reference(index, data, h["data_length"], h["type"], h["high_start"], c)


def fields(b):
    h = header(b)
    return h["type"], h["width"], h["null3"], h["null"], h["high_start"], (h["high_start"] + 4095) // 4096, h["index_length"], h["data_length"]


class From:
    """The bytes from a given position on."""
    def __init__(self, b, at):
        self.b, self.at = b, at

    def __getitem__(self, i):
        return self.b[self.at + i]
