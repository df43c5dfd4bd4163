# Character names (ICU unames.cpp): unames.icu holds four offsets, the tokens, the token strings, the groups of 32 names and
# the algorithmic ranges.
SEMICOLON = 59
LITERAL, LEAD = 0xFFFF, 0xFFFE


class Names:
    def __init__(self, b, at):
        self.b = b
        self.base = at + u16(b, at)
        self.strings = self.base + u32(b, self.base)
        self.groups = self.base + u32(b, self.base + 4)
        self.group_strings = self.base + u32(b, self.base + 8)
        self.algorithmic = self.base + u32(b, self.base + 12)

    def token_count(self):
        return u16(self.b, self.base + 16)

    def token(self, i):
        return u16(self.b, self.base + 18 + 2 * i)

    def text(self, at):
        s = ""
        while self.b[at] != 0:
            s += chr(self.b[at])
            at += 1
        return s

    def expand(self, at, n, extended=False):
        s, i = "", 0
        while i < n:
            c = self.b[at + i]
            i += 1
            t = LITERAL
            if c < self.token_count():
                t = self.token(c)
                if t == LEAD:
                    if i == n:
                        return "*any*"                  # malformed data
                    t = self.token(256 * c + self.b[at + i])
                    i += 1
                    if t >= LEAD:
                        return "*any*"                  # malformed data
            if t != LITERAL:
                s += self.text(self.strings + t)
            elif c != SEMICOLON:
                s += chr(c)
            elif not (extended and s == ""):
                break
        return s

    def group(self, i):
        # a group's number and the position of its lengths
        g = self.groups + 2 + 6 * i
        return u16(self.b, g), self.group_strings + 65536 * u16(self.b, g + 2) + u16(self.b, g + 4)

    def place(self, at, line):
        # where the string of a line is, and its length
        i, before, found, length = 0, 0, None, 0
        for k in range(32):
            n = self.nibble(at, i)
            i += 1
            if n >= 12:
                n = 16 * (n - 12) + self.nibble(at, i) + 12
                i += 1
            if k == line:
                found, length = before, n
            before += n
        return at + (i + 1) // 2 + found, length

    def nibble(self, at, i):
        x = self.b[at + i // 2]
        return x // 16 if i % 2 == 0 else x % 16

    def name(self, i, line, extended=False):
        at, n = self.place(self.group(i)[1], line)
        return self.expand(at, n, extended)

    def field(self, i, line, k):
        # the k-th of the parts between semicolons
        at, n = self.place(self.group(i)[1], line)
        start, end, seen = 0, n, 0
        for j in range(n):
            if self.b[at + j] == SEMICOLON:
                seen += 1
                if seen == k:
                    start = j + 1
                elif seen == k + 1:
                    end = j
        if seen < k:
            return ""
        return self.expand(at + start, end - start)


CATEGORIES = ["unassigned", "uppercase letter", "lowercase letter", "titlecase letter", "modifier letter", "other letter", "non spacing mark",
              "enclosing mark", "combining spacing mark", "decimal digit number", "letter number", "other number", "space separator",
              "line separator", "paragraph separator", "control", "format", "private use area", "surrogate", "dash punctuation",
              "start punctuation", "end punctuation", "connector punctuation", "other punctuation", "math symbol", "currency symbol",
              "modifier symbol", "other symbol", "initial punctuation", "final punctuation"]
STANDARD, UNICODE_10, EXTENDED, ALIAS, ISO_COMMENT = 0, 1, 2, 3, 4


def name(b, at, group, line):
    return Names(b, at).name(group, line)


def field(b, at, group, line, k):
    return Names(b, at).field(group, line, k)


def of_group(b, at, count, q, line):
    # the name of character 32 * q + line
    n = Names(b, at)
    for i in range(count):
        if n.group(i)[0] == q:
            return n.name(i, line)
    return ""


def algorithmic(b, at, which, c, choice):
    # which: the range's position in the list
    n = Names(b, at)
    p = n.algorithmic + 4
    for _ in range(which):
        p += u16(b, p + 10)
    start, end, kind, variant, size = u32(b, p), u32(b, p + 4), b[p + 8], b[p + 9], u16(b, p + 10)
    if choice != STANDARD and choice != EXTENDED:
        return ""
    if kind == 0:
        s = n.text(p + 12)
        if variant == 4:
            return s + f"{c:04X}"
        if variant == 5:
            return s + f"{c:05X}"
        return s + f"{c:06X}"
    factors = [u16(b, p + 12 + 2 * i) for i in range(variant)]
    q = p + 12 + 2 * variant
    s = n.text(q)
    # mixed radix: the last factor is the fastest
    k, digits = c - start, []
    for f in factors[:0:-1]:
        digits = [k % f] + digits
        k //= f
    digits = [k] + digits
    first = 0
    while b[q] != 0:
        q += 1
    q += 1
    for f, d in zip(factors, digits):
        # the d-th of the next f strings
        for i in range(f):
            t = n.text(q)
            if i == d:
                s += t
            q += len(t) + 1
    return s


def extended(c):
    from UnicodeData.CharProps import getGeneralCategory
    if 0xFDD0 <= c <= 0xFDEF or c % 0x10000 >= 0xFFFE:
        kind = "noncharacter"
    else:
        kind = CATEGORIES[getGeneralCategory(c)]
        if kind == "surrogate":
            kind = "lead surrogate" if c < 0xDC00 else "trail surrogate"
    return f"<{kind}-{c:04X}>"


def given_name(code, *choice):
    from UnicodeData.CharNames import CharNames
    return CharNames.getCharName(code, *choice)


def no_name():
    return ""


def given_names(choice):
    from UnicodeData.CharNames import CharNames
    d, n = {}, 0
    for code, name in CharNames.nameIterator(choice):
        d[code] = name
        n += 1
    return n, [(k, d[k]) for k in sorted(d)]


def all_names(b, at, groups, ranges, choice):
    # groups: the lines with names of each group; ranges: where they start and end
    n = Names(b, at)
    out = {}
    for i, lines in groups:
        q = n.group(i)[0]
        for line in lines:
            s = n.field(i, line, choice) if choice else n.name(i, line)
            if s:
                out[32 * q + line] = s
    for i, (start, end) in ranges:
        for c in range(start, end + 1):
            s = algorithmic(b, at, i, c, choice)
            if s:
                out[c] = s
    return len(out), [(k, out[k]) for k in sorted(out)]


def given_char(name):
    from UnicodeData.CharNames import CharNames
    return CharNames.charFromName(name)


def char_of(b, at, groups, ranges, name):
    for c, s in all_names(b, at, groups, ranges, 0)[1]:
        if s == name:
            return c
    return 0xFFFFFFFF


# ---- the same answers whatever was asked before

def asked(code, before, *choice):
    from UnicodeData.CharNames import CharNames
    for c, k in before:
        CharNames.getCharName(c, k)
    return CharNames.getCharName(code, *choice)


def listed(choice, before):
    from UnicodeData.CharNames import CharNames
    for k in before:
        for code, name in CharNames.nameIterator(k):
            pass
    return given_names(choice)


def looked_up(name, before):
    from UnicodeData.CharNames import CharNames
    for s, k in before:
        CharNames.charFromName(s, k)
    return CharNames.charFromName(name)
