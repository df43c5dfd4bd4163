"""M01..M04: character names read from the data file."""
import itertools
from . import check
from .common import *
from .files import File, spec

WHERE = "UnicodeData/CharNames.py:"
MODULES = ["UnicodeData.CharProps", "UnicodeData.GeneralCategories", "UnicodeData.Utilities"]
AT, BASE = 4096, 4120


class NameFile(File):
    """unames.icu with known structure; what the strings hold stays unknown."""

    def __init__(self, tokens, groups=1, ranges=0, token_strings=3000, strings=None):
        File.__init__(self, [("unames.icu", AT)])
        self.table.placed = True
        self.put(AT, 24, 2)
        self.tokens = BASE + 18
        self.count = tokens
        self.strings = self.tokens + 2 * tokens
        self.groups = self.strings + token_strings
        self.group_strings = self.groups + 2 + 6 * groups + 5
        self.ranges = self.group_strings + (1 << 17) + 64
        for i, x in enumerate((self.strings, self.groups, self.group_strings, self.ranges)):
            self.put(BASE + 4 * i, x - BASE, 4)
        self.put(BASE + 16, tokens, 2)
        self.put(self.groups, groups, 2)
        self.put(self.ranges, ranges, 4)
        self.in_file(lin(self.ranges + 4096))

    def token(self, i):
        return self.u16(add(lin(self.tokens), scale(lin(i), 2)))

    def load(self, ctx):
        w = self.project(ctx, MODULES)
        d = w.spec("icudata", {"open_files": None})
        return w, w.spec("names", {n: d(n) for n in ("u16", "u32")})

    def lengths(self, pos, ns):
        """Known lengths of the 32 strings of a group, at pos; returns where the strings start."""
        nib = []
        for n in ns:
            nib += [n] if n < 12 else [12 + (n - 12) // 16, (n - 12) % 16]
        nib += [0] * (len(nib) % 2)
        for i in range(0, len(nib), 2):
            self.known[pos + i // 2] = nib[i] * 16 + nib[i + 1]
        return pos + len(nib) // 2

    def group(self, i, msb, offset):
        g = self.groups + 2 + 6 * i
        self.put(g, msb, 2)
        self.put(g + 2, offset >> 16, 2)
        self.put(g + 4, offset & 0xFFFF, 2)
        return self.group_strings + offset


# ---- M01: tokens
def string_of(f, at, kinds):
    """Assume that the bytes at at are of the given kinds; returns how many they are."""
    n = 0
    for k in kinds:
        if k == "semicolon":
            f.put(at + n, 59, 1)
            if f.count > 59:
                f.put(f.tokens + 2 * 59, 0xFFFF, 2)
            n += 1
            continue
        b = f.byte(at + n)
        n += 1
        if k == "direct":                   # not a token number
            f.assume(sub(b, f.count), ">=")
            continue
        f.assume(sub(b, f.count), "<")
        t = f.token(b)
        if k == "literal":
            f.assume(sub(t, 0xFFFF), "==")
            continue
        if k[0] == "pair":
            f.assume(sub(t, 0xFFFE), "==")
            i = add(scale(b, 256), f.byte(at + n))
            n += 1
            f.assume(sub(i, f.count), "<")
            t = f.token(i)
        f.assume(sub(t, 0xFFFE), "<")
        for j in range(k[1] + 1):
            f.assume(f.byte(add(lin(f.strings), add(t, j))), "!=" if j < k[1] else "==")
        f.assume(sub(f.groups - f.strings - k[1] - 1, t), ">=")
    return n


def size_of(kinds):
    return sum(2 if k[0] == "pair" else 1 for k in kinds)


@check("M01")
def m01(ctx):
    kinds = {0xFFFF: ["literal", ("token", 2), ("pair", 1)], 40: ["direct", ("token", 1), "literal"], 100: ["direct", "literal", ("token", 2), "semicolon"],
             256: ["literal", "semicolon", ("token", 0), ("token", 1)], 1024: ["literal", ("token", 1), ("pair", 1), ("pair", 2)]}
    items = []
    for count, ks in kinds.items():
        for n in range(5 if ctx.thorough else 3):
            items += [(count, p) for p in itertools.product(ks, repeat=n)]
        if not ctx.thorough:
            items += [(count, p) for p in itertools.product(ks[-3:], repeat=3)]
    items += [(40, (("token", 70),)), (1024, (("token", 33), ("pair", 66))), (256, (("token", 1),) * 24), (40, ("direct",) * 60)]

    def one(ctx, item):
        count, p = item
        f = NameFile(count, token_strings=70000)
        pos = f.group(0, 0x1234, 7)
        line = 5
        ns = [0] * 32
        ns[line] = size_of(p)
        string_of(f, f.lengths(pos, ns), p)
        w, s = f.load(ctx)
        w.equiv("a name of %s (%d tokens)" % (", ".join(k if isinstance(k, str) else "%s of %d" % k for k in p) or "no bytes", count),
                s("given_name"), s("name"), fixed(0x1234 * 32 + line), ref_args=lambda vm, st, a: (f.raw(st), AT, 0, line), facts=f.facts,
                where=WHERE + "Tokens.expandString")
    ctx.fan(items, one, limit=60)
    return {"explanation": "getCharName over a data file whose token table, token strings and name bytes are unknown: for every sequence of byte kinds "
                           "(literal, token, two-byte token, separator, beyond the table) up to a bounded length the name is compared with ICU's expansion."}


# ---- M02: groups
def length_patterns(ctx):
    """Which of the 32 lengths take two nibbles."""
    import random
    yield "".join("S" * 32)
    yield "".join("L" * 32)
    yield "SL" * 16
    yield "LS" * 16
    yield "S" + "L" * 31
    yield "SLLS" * 8
    yield "SSL" * 10 + "SL"
    yield "S" * 31 + "L"
    yield "S" * 30 + "LL"
    rnd = random.Random(7)
    for i in range(40 if ctx.thorough else 3):
        p = rnd.choice((0.2, 0.5, 0.8))
        yield "".join("L" if rnd.random() < p else "S" for _ in range(32))


def unknown_lengths(f, pos, pattern, line, n):
    """Assume that the lengths at pos have the given forms and that the one of a line is n."""
    k = 0

    def nibble(k):
        b = f.byte(add(pos, k // 2))
        return div(b, 16) if k % 2 == 0 else mod(b, 16)
    for i, p in enumerate(pattern):
        if i == line:
            if p == "S":
                f.assume(sub(nibble(k), n), "==")
            else:
                f.assume(sub(nibble(k), 12 + (n - 12) // 16), "==")
                f.assume(sub(nibble(k + 1), (n - 12) % 16), "==")
        else:
            f.assume(sub(nibble(k), 12), "<" if p == "S" else ">=")
        k += 1 if p == "S" else 2


@check("M02")
def m02(ctx):
    patterns = list(length_patterns(ctx))
    items = []
    for p in patterns:
        for line in (range(32) if ctx.thorough else (0, 1, 2, 13, 30, 31)):
            ns = (0, 1, 11) if p[line] == "S" else (12, 27, 28, 75) if ctx.thorough else (12, 29)
            for n in (ns if ctx.thorough else (ns[(line + len(items)) % len(ns)], ns[-1])):
                items.append((p, line, n, "unknown" if line == 13 else "known"))
    items = list(dict.fromkeys(items))
    items += [("groups", k, i, line) for k in ((1, 2, 3, 4, 5, 8) if ctx.thorough else (1, 2, 3, 5)) for i in range(k + 1) for line in ((0, 31, 17) if ctx.thorough else (17,))]

    def one(ctx, item):
        if item[0] == "groups":
            _, k, i, line = item
            f = NameFile(0, k)
            q = var("q", 0, 0x10FFFF >> 5)
            at = []
            for j in range(k):
                g = f.groups + 2 + 6 * j
                f.put(g + 2, (k - j) % 2, 2)
                f.put(g + 4, 300 + 2000 * j, 2)
                pos = f.group_strings + ((k - j) % 2 << 16) + 300 + 2000 * j
                ns = [(7 * x + j) % 12 for x in range(32)]
                ns[line] = 2
                a = f.lengths(pos, ns) + sum(ns[:line])
                f.assume(sub(f.byte(a), 59), "!=")
                f.assume(sub(f.byte(a + 1), 59), "!=")
                if j:
                    f.assume(sub(sub(f.u16(g), f.u16(g - 6)), 1), ">=")
            if i < k:
                f.assume(sub(q, f.u16(f.groups + 2 + 6 * i)), "==")
            else:
                for j in range(k):
                    f.assume(sub(q, f.u16(f.groups + 2 + 6 * j)), "!=")
            w, s = f.load(ctx)
            w.equiv("the group of a character, %s of %d (line %d)" % ("number %d" % i if i < k else "none", k, line), s("given_name"), s("of_group"),
                    fixed(add(scale(q, 32), line)), ref_args=lambda vm, st, a: (f.raw(st), AT, k, q, line), facts=f.facts, where=WHERE + "CharNames.getGroup")
            q2 = var("q2", 0, 0x10FFFF >> 5)
            w.equiv("the group of a character, %s of %d, after another character" % ("number %d" % i if i < k else "none", k), s("asked"), s("of_group"),
                    fixed(add(scale(q, 32), line), ((add(scale(q2, 32), 2), 0),)), ref_args=lambda vm, st, a: (f.raw(st), AT, k, q, line), facts=f.facts,
                    where=WHERE + "CharNames.getGroup")
            return
        pattern, line, n, where = item
        f = NameFile(0)
        f.put(f.groups + 2, 0x234, 2)
        pos = f.group(0, 0x234, 0x10009)
        if where == "unknown":              # offsets of any value
            for x in range(2, 6):
                del f.known[f.groups + 2 + x]
            pos = add(f.group_strings, add(scale(f.u16(f.groups + 4), 65536), f.u16(f.groups + 6)))
            f.assume(sub(f.u16(f.groups + 4), 16), "<")
            f.in_file(add(pos, 4096))
        unknown_lengths(f, pos, pattern, line, n)
        nib = pattern.count("S") + 2 * pattern.count("L")
        start = add(pos, (nib + 1) // 2)
        s0 = Names_start(f, pos, pattern, line)
        for k in range(n):
            f.assume(sub(f.byte(add(add(start, s0), k)), 59), "!=")
        w, s = f.load(ctx)
        w.equiv("name %d of lengths %s (%d long, offset %s)" % (line, pattern, n, where), s("given_name"), s("name"), fixed(0x234 * 32 + line),
                ref_args=lambda vm, st, a: (f.raw(st), AT, 0, line), facts=f.facts, where=WHERE + "Group.expandGroupLengths")
    ctx.fan(items, one, limit=30)
    return {"explanation": "getCharName over groups of unknown lengths: for many sequences of one- and two-nibble lengths whose values are unknown, the bytes "
                           "of a line are compared with the definition; and over several groups of unknown numbers and an unknown character, the group "
                           "that answers."}


def Names_start(f, pos, pattern, line):
    s, k = lin(0), 0

    def nibble(k):
        b = f.byte(add(pos, k // 2))
        return div(b, 16) if k % 2 == 0 else mod(b, 16)
    for i, p in enumerate(pattern[:line]):
        if p == "S":
            s = add(s, nibble(k))
        else:
            s = add(s, add(add(scale(sub(nibble(k), 12), 16), nibble(k + 1)), 12))
        k += 1 if p == "S" else 2
    return s


# ---- M03: algorithmic ranges, fields and extended names
def text_at(f, at, n, known=False):
    """Assume a string of n characters at at; returns what follows it."""
    for k in range(n + 1):
        if known:
            f.put(at + k, 65 + (at * 7 + k) % 26 if k < n else 0, 1)
            continue
        f.assume(f.byte(at + k), "!=" if k < n else "==")
    return at + n + 1


def add_range(f, at, kind, variant, factors=(), prefix=1, elements=(), pad=0, known=False):
    f.put(at + 8, kind, 1)
    f.put(at + 9, variant, 1)
    p = at + 12
    for x in factors:
        f.put(p, x, 2)
        p += 2
    p = text_at(f, p, prefix, known)
    for n in elements:
        p = text_at(f, p, n, known)
    p += pad
    f.put(at + 10, p - at, 2)
    return p


CHOICES = ("standard", "Unicode 1.0", "extended", "alias", "ISO comment")


@check("M03")
def m03(ctx):
    c = var("c", 0, 0x10FFFF)
    ranges = [("prefix of %d and %d digits" % (n, v), 0, v, (), n, (), pad) for v in (4, 5, 6) for n, pad in ((0, 0), (3, 1), (9, 0))]
    ranges += [("factors %s" % ", ".join(map(str, fs)), 1, len(fs), fs, n, es, 0) for fs, n, es in (
        ((3,), 1, (1, 0, 2)), ((2, 3), 2, (1, 2, 1, 0, 3)), ((1, 2, 2), 0, (2, 0, 1, 1, 1)), ((3, 1, 4), 3, (1, 1, 1, 2, 0, 1, 2, 3)))]
    if ctx.thorough:
        ranges += [("factors 28", 1, 1, (28,), 4, [k % 3 for k in range(28)], 0), ("factors 6, 1, 9", 1, 3, (6, 1, 9), 4, [k % 3 for k in range(16)], 0)]
        ranges += [("factors 5, 4, 6", 1, 3, (5, 4, 6), 4, [k % 4 for k in range(15)], 0), ("factors 2, 2, 2, 2", 1, 4, (2,) * 4, 0, (1,) * 8, 0)]
    items = []
    for i, r in enumerate(ranges):
        items += [("range", r, choice, before) for choice in (0, 2) for before in ((), ranges[(i + 4) % len(ranges)][:1])]
        items.append(("range", r, (1, 3, 4)[i % 3], ()))
    items += [("syllables", (19, 21, 28), k) for k in (0, 27, 28, 587, 588, 7155, 7168, 7169, 9000, 11171)]
    items += [("syllables", (300,), k) for k in (255, 256, 299)] + [("syllables", (2, 3, 2, 5, 2), k) for k in (0, 1, 59, 60, 77, 119)]
    items += [("fields", n, choice) for n in range(7 if ctx.thorough else 5) for choice in (0, 1, 3, 4)]
    items += [("extended", g) for g in (0, 1)] + [("outside", n) for n in (1, 2, 3)]

    def one(ctx, item):
        if item[0] == "range":
            _, r, choice, before = item
            others = [x for x in ranges if x[0] in before]
            f = NameFile(0, 0, ranges=1 + len(others))
            at = f.ranges + 4
            f.in_file(lin(at + 65536))
            size = 1
            for x in others + [r]:
                nxt = add_range(f, at, *x[1:])
                start, end = f.u32(at), f.u32(at + 4)
                f.assume(sub(end, start), ">=")
                f.assume(sub(0x10FFFF, end), ">=")
                if x is r:
                    k = var("k", 0, max(0, eval_product(r[3]) - 1)) if r[3] else var("k", 0, 0x10FFFF)
                    f.assume(sub(end, add(start, k)), ">=")
                    code = add(start, k)
                else:
                    last = end
                at = nxt
            if others:
                f.assume(sub(sub(code, k), add(last, 1)), ">=")
            w, s = f.load(ctx)
            w.equiv("%s name in a range with %s%s" % (CHOICES[choice], r[0], " after another" if others else ""), s("given_name"), s("algorithmic"),
                    fixed(code, choice), ref_args=lambda vm, st, a: (f.raw(st), AT, len(others), code, choice), facts=f.facts,
                    where=WHERE + "AlgorithmicRange.getName")
            if not others:
                last = f.u32(f.ranges + 8)
                asks = ((f.u32(f.ranges + 4), 2 - choice if choice < 3 else 0), (last, choice)) if not r[3] else ((code, 2 if choice != 2 else 0),)
                w.equiv("%s name in a range with %s after others" % (CHOICES[choice], r[0]), s("asked"), s("algorithmic"), fixed(code, asks, choice),
                        ref_args=lambda vm, st, a: (f.raw(st), AT, 0, code, choice), facts=f.facts, where=WHERE + "AlgorithmicRange.getName")
        elif item[0] == "syllables":
            _, fs, k = item
            f = NameFile(0, 0, ranges=1)
            f.in_file(lin(f.ranges + 65536))
            add_range(f, f.ranges + 4, 1, len(fs), fs, 2, [(j * 7 + 1) % 3 for j in range(sum(fs))], known=True)
            start = 0xAC00 + len(fs) * 5
            f.put(f.ranges + 4, start, 4)
            f.put(f.ranges + 8, start + eval_product(fs) - 1, 4)
            code = start + k
            w, s = f.load(ctx)
            w.equiv("name %d of factors %s" % (k, ", ".join(map(str, fs))), s("given_name"), s("algorithmic"), fixed(code, 0),
                    ref_args=lambda vm, st, a: (f.raw(st), AT, 0, code, 0), facts=f.facts, where=WHERE + "AlgorithmicRange.getName")
        elif item[0] == "fields":
            _, n, choice = item
            f = NameFile(0)
            pos = f.group(0, 0x234, 9)
            ns = [3] * 32
            ns[9] = n
            f.lengths(pos, ns)
            w, s = f.load(ctx)
            before = tuple((0x234 * 32 + 9, k) for k in (0, 3, 2, 1, 4)[:4 + (choice != 4)])
            w.equiv("%s name of %d bytes after others" % (CHOICES[choice], n), s("asked"), s("field"), fixed(0x234 * 32 + 9, before, choice), facts=f.facts,
                    ref_args=lambda vm, st, a: (f.raw(st), AT, 0, 9, {0: 0, 1: 1, 3: 3, 4: 2}[choice]), where=WHERE + "Group.expandName")
            w.equiv("%s name of %d bytes" % (CHOICES[choice], n), s("given_name"), s("field"), fixed(0x234 * 32 + 9, choice), facts=f.facts,
                    ref_args=lambda vm, st, a: (f.raw(st), AT, 0, 9, {0: 0, 1: 1, 3: 3, 4: 2}[choice]), where=WHERE + "Group.expandName")
        elif item[0] == "extended":
            f = NameFile(0, 1, ranges=item[1])
            if item[1]:
                add_range(f, f.ranges + 4, 0, 4)
                f.put(f.ranges + 4, 0x110000, 4)
                f.put(f.ranges + 8, 0x110000, 4)
            f.lengths(f.group(0, 5, 0), [4] * 32)
            w, s = f.load(ctx)
            w.equiv("extended name outside the %d algorithmic ranges" % item[1], s("given_name"), s("extended"), fixed(c, 2), ref_args=lambda vm, st, a: (c,),
                    facts=f.facts, where=WHERE + "CharNames.getCharCatName")
        else:
            n = item[1]
            f = NameFile(0, 1, ranges=n)
            at = f.ranges + 4
            for i in range(n):
                nxt = add_range(f, at, 0, 5)
                f.assume(sub(f.u32(at + 4), f.u32(at)), ">=")
                f.assume(sub(0x10FFFF, f.u32(at + 4)), ">=")
                if i:
                    f.assume(sub(f.u32(at), add(prev, 1)), ">=")
                    f.assume(sub(f.u32(at), add(code, 1)), ">=")
                else:
                    code = add(f.u32(at + 4), add(var("k", 0, 31), 1))
                    f.assume(sub(0x10FFFF, code), ">=")
                prev = f.u32(at + 4)
                at = nxt
            f.put(f.groups + 2, 0, 2)
            f.lengths(f.group_strings, [0] * 32)
            f.put(f.groups + 4, 0, 4)
            w, s = f.load(ctx)
            w.equiv("standard name between %d algorithmic ranges" % n, s("given_name"), s("no_name"), fixed(code), ref_args=lambda vm, st, a: (),
                    facts=f.facts, where=WHERE + "CharNames.getCharName")
    ctx.fan(items, one, limit=40)
    return {"explanation": "getCharName over algorithmic ranges of unknown bounds, prefixes and elements for an unknown character of the range; over stored "
                           "names whose bytes, separators included, are unknown for every field; and the extended name of an unknown code point against "
                           "its general category."}


def eval_product(xs):
    n = 1
    for x in xs:
        n *= x
    return n


# ---- M04: all names
def structures(ctx):
    """(groups: {number: lines with names}, ranges: [(start, end, digits or factors)])"""
    yield {0: (1, 5)}, [(0x40, 0x43, 4)]
    yield {1: (0, 31), 3: (7,)}, [(0x70, 0x72, 5)]
    yield {0: (3,), 5: (0,)}, [(0x35, 0x3A, 4), (0x52, 0x55, 4)]
    yield {0: (3,), 2: (0, 1, 30)}, [(0x21, 0x24, (2, 2)), (0x66, 0x68, 6)]
    yield {4: (16, 30)}, [(0x20, 0x45, 4), (0x49, 0x4B, 4), (0x88, 0x8D, 5)]
    yield {0: (31,), 1: (0,), 7: (9,)}, [(0x64, 0x66, 4), (0x68, 0x6A, (1, 3)), (0xC1, 0xC4, 4)]
    yield {2: (30, 31)}, [(0x40, 0x42, 4), (0x60, 0x81, 4)]
    yield {1: (2, 9)}, [(0x50, 0x52, 4), (0x5F, 0x5F, 5)]
    yield {3: (4,), 4: (4,), 5: (4,)}, [(0x68, 0x6A, 4), (0xA8, 0xA9, 4), (0xAB, 0xAC, 4)]
    if ctx.thorough:
        import random
        rnd = random.Random(11)
        for _ in range(60):
            at, groups, ranges, gs = 0, {}, [], []
            for _ in range(rnd.randint(1, 4)):
                at += rnd.choice((1, 3, 20, 32, 33, 64, 70))
                n = rnd.choice((1, 2, 3, 31, 32, 33, 40))
                ranges.append((at, at + n - 1, rnd.choice((4, 5, 6))))
                at += n
            taken = {c for s, e, _ in ranges for c in range(s, e + 1)}
            for q in sorted(rnd.sample(range(at // 32 + 4), 3)):
                groups[q] = tuple(x for x in sorted(rnd.sample(range(32), 3)) if 32 * q + x not in taken)
            yield groups, ranges


@check("M04")
def m04(ctx):
    items = [(g, r, what) for g, r in structures(ctx) for what in ("standard", "alias", "lookup")]

    def one(ctx, item):
        groups, ranges, what = item
        f = NameFile(0, len(groups), ranges=len(ranges))
        for i, (q, lines) in enumerate(groups.items()):
            ns = [0] * 32
            for k, x in enumerate(lines):
                ns[x] = (5 if k == 0 and len(lines) > 1 else 2) if what == "lookup" else (6 if what == "alias" else 1 + k % 2)
            at = f.lengths(f.group(i, q, 4000 * i), ns)
            for x in lines:
                for k in range(ns[x]):
                    if what == "lookup" and ns[x] == 5:     # the text is an alias here
                        f.put(at + k, ord(";;;QZ"[k]), 1)
                    elif what == "alias" and k in (1, 2, 4):
                        f.put(at + k, 59, 1)
                    elif what == "lookup" and x % 2:        # one of the letters is known
                        f.put(at + k, ord("QZ"[(k + x // 2) % 2]), 1)
                    else:
                        f.assume(sub(f.byte(at + k), 59), "!=")
                at += ns[x]
        at = f.ranges + 4
        f.in_file(lin(at + 65536))
        for start, end, how in ranges:
            f.put(at, start, 4)
            f.put(at + 4, end, 4)
            if isinstance(how, tuple):
                at = add_range(f, at, 1, len(how), how, 1, [1] * sum(how))
            else:
                at = add_range(f, at, 0, how)
        w, s = f.load(ctx)
        gs = tuple((i, tuple(lines)) for i, lines in enumerate(groups.values()))
        rs = tuple((i, (r[0], r[1])) for i, r in enumerate(ranges))
        name = "groups %s, ranges %s" % (", ".join("%X%s" % (q, list(x)) for q, x in groups.items()), ", ".join("%X-%X" % r[:2] for r in ranges))
        if what == "lookup":
            w.equiv("the character of a name: " + name, s("given_char"), s("char_of"), fixed("QZ"),
                    ref_args=lambda vm, st, a: (f.raw(st), AT, gs, rs, "QZ"), facts=f.facts, where=WHERE + "CharNames.charFromName")
            w.equiv("the character of a name after other lookups: " + name, s("looked_up"), s("char_of"), fixed("QZ", (("Q", 3), ("no such name", 0), ("QZ", 3), ("QZ", 2))),
                    ref_args=lambda vm, st, a: (f.raw(st), AT, gs, rs, "QZ"), facts=f.facts, where=WHERE + "CharNames.charFromName")
        else:
            k = 3 if what == "alias" else 0
            w.equiv("all %s names: %s" % (what, name), s("given_names"), s("all_names"), fixed(k),
                    ref_args=lambda vm, st, a: (f.raw(st), AT, gs, rs, k), facts=f.facts, where=WHERE + "CharNames.nameIterator")
            w.equiv("all %s names after other lists: %s" % (what, name), s("listed"), s("all_names"), fixed(k, (3 - k, 2, k)),
                    ref_args=lambda vm, st, a: (f.raw(st), AT, gs, rs, k), facts=f.facts, where=WHERE + "CharNames.nameIterator")
    ctx.fan(items, one, limit=60)
    return {"explanation": "nameIterator and charFromName over files with groups and algorithmic ranges in many relative places (ranges shorter than a "
                           "group, inside one, across several, after unaligned ends) and unknown text: every named character exactly once with its name."}
