# The ICU common data file (.dat): a header, a table of contents whose offsets count from the end of the header, then the items,
# each with a header of its own (ICU udata.h UDataInfo, ucmndata.h MappedData).


def u16(b, at):
    return b[at] + 256 * b[at + 1]


def u32(b, at):
    return u16(b, at) + 65536 * u16(b, at + 2)


FIELDS = (("headerLength", 0, 2), ("magic1", 2, 1), ("magic2", 3, 1), ("infoSize", 4, 2), ("reservedWord", 6, 2), ("isBigEndian", 8, 1),
          ("charsetFamily", 9, 1), ("sizeofUChar", 10, 1), ("reservedByte", 11, 1), ("dataFormat", 12, 4), ("fvMajor", 16, 1), ("fvMinor", 17, 1),
          ("fvMilli", 18, 1), ("fvMicro", 19, 1), ("dvMajor", 20, 1), ("dvMinor", 21, 1), ("dvMilli", 22, 1), ("dvMicro", 23, 1))


def number(b, at, size):
    if size == 1:
        return b[at]
    return u16(b, at)


def header(b, at):
    out = []
    for name, off, size in FIELDS:
        if name == "dataFormat":
            out.append([b[at + off + k] for k in range(4)])
        else:
            out.append(number(b, at + off, size))
    return out


def entry(b, i):
    # where the data of the i-th entry of the table of contents starts
    h = u16(b, 0)
    return h + u32(b, h + 4 + 8 * i + 4)


def offsets(b, order):
    return [entry(b, i) for i in order], 0


def item_header(b, i):
    at = entry(b, i)
    return at, header(b, at), 0


def text(b, at, n):
    s = ""
    for i in range(n):
        s += chr(b[at + i])
    return s


def given_offsets(names):
    from UnicodeData.ICUDataFile import ICUData
    data = ICUData()
    return [data.getDataOffset(n) for n in names], open_files()


def given_offsets_twice(names):
    from UnicodeData.ICUDataFile import ICUData
    ICUData()
    data = ICUData()
    return [data.getDataOffset(n) for n in names], open_files()


def given_header(name):
    from UnicodeData.ICUDataFile import ICUData
    at, h = ICUData().getDataOffsetAndHeader(name)
    return at, [[c for c in h.dataFormat] if f == "dataFormat" else getattr(h, f) for f, _, _ in FIELDS], open_files()


def given_bytes(start, limit, i):
    from UnicodeData.ICUDataFile import ICUData
    d = ICUData().getData(start, limit)
    return len(d), d[i]


def given_bytes_again(start, limit, i, asked):
    from UnicodeData.ICUDataFile import ICUData
    for a, b in asked:
        ICUData().getData(a, b)
    return given_bytes(start, limit, i)


def some_bytes(b, start, limit, i):
    return limit - start, b[start + i]


def given_text(at):
    from UnicodeData.ICUDataFile import ICUData
    return ICUData().getString(at)
