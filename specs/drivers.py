# Call sequences on the code under analysis (its classes are injected).


def utrie2_get(index, index_length, null2, null, high_start, high_value_index, initial, c):
    return UTrie2(index, index_length, null2, null, high_start, high_value_index, initial).get(c)


def utrie2_get_default(index, index_length, null2, null, high_start, high_value_index, c):
    return UTrie2(index, index_length, null2, null, high_start, high_value_index).get(c)


def cptrie_get(index, data, trie_type, width, null3, null, high_start, shifted, c):
    return CPTrie(index, data, trie_type, width, null3, null, high_start, shifted).get(c)


def listed(it):
    return [(r.start, r.stop, r.step, v) for r, v in it]


def utrie2_ranges(start, limit, *args):
    return listed(UTrie2(*args).enumerator(start, limit))


def utrie2_ranges_default(*args):
    return listed(UTrie2(*args).enumerator())


def utrie2_ranges_bit(start, limit, bit, *args):
    return listed(UTrie2(*args).enumerator(start, limit, lambda v, shift: (v // 2 ** shift) % 2, shift=bit))


def cptrie_ranges(start, limit, *args):
    return listed(CPTrie(*args).enumerator(start, limit))


def cptrie_ranges_default(*args):
    return listed(CPTrie(*args).enumerator())


def cptrie_from_bytes(data, c):
    return CPTrie.createFromData(data).get(c)


def cptrie_fields(data):
    t = CPTrie.createFromData(data)
    return t.trieType, t.valueWidth, t.index3NullOffset, t.dataNullOffset, t.highStart, t.shifted12HighStart, t.indexLength, t.dataLength
