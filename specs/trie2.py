# UTrie2 (ICU utrie2.h): the value stored for a code point.


def position(index, index_length, high_start, high_value_index, c):
    if c < 0xD800:
        return index[c // 32] * 4 + c % 32
    if c < 0xDC00:
        # values of lead surrogate code points (not code units)
        return index[0x800 + (c - 0xD800) // 32] * 4 + c % 32
    if c < 0x10000:
        return index[c // 32] * 4 + c % 32
    if c > 0x10FFFF:
        return index_length + 0x80
    if c >= high_start:
        return high_value_index
    return index[index[0x820 + c // 2048] + c // 32 % 64] * 4 + c % 32


def lookup(index, index_length, high_start, high_value_index, c):
    return index[position(index, index_length, high_start, high_value_index, c)]
